package card

// Written by tools/genfile.py: the elementary files of a driver card with small valid contents.

import (
	"github.com/way-platform/tachograph-go/internal/security"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// vKind is one elementary file of one application.
type vKind struct {
	name   string
	fid    uint16
	gen    int // application: 1, 2, or 0 for the common files
	signed bool
	body   func(m byte) []byte
	put    func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error
}

func vG1(f *cardv1.DriverCardFile) *cardv1.DriverCardFile_Tachograph {
	if f.GetTachograph() == nil {
		f.SetTachograph(&cardv1.DriverCardFile_Tachograph{})
	}
	return f.GetTachograph()
}

func vG2(f *cardv1.DriverCardFile) *cardv1.DriverCardFile_TachographG2 {
	if f.GetTachographG2() == nil {
		f.SetTachographG2(&cardv1.DriverCardFile_TachographG2{})
	}
	return f.GetTachographG2()
}

// vOpts are the decoding options of an application.
func vOpts(gen int) UnmarshalOptions {
	var o UnmarshalOptions
	o.Generation = ddv1.Generation_GENERATION_1
	if gen == 2 {
		o.Generation = ddv1.Generation_GENERATION_2
	}
	o.Version = ddv1.Version_VERSION_1
	return o
}

// vFill is a value of n zero bytes but for the listed ones, and one byte m at position p.
func vFill(n int, at map[int]byte, p int, m byte) []byte {
	b := make([]byte, n)
	for i, c := range at {
		b[i] = c
	}
	b[p] = m
	return b
}

// vEccBody is a second generation certificate with the reference of its holder ending in m.
func vEccBody(m byte) []byte {
	b := []byte{0x7F, 0x21, 0x81, 0xC8, 0x7F, 0x4E, 0x81, 0x81,
		0x5F, 0x29, 1, 0, 0x42, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0x5F, 0x4C, 7, 1, 2, 3, 4, 5, 6, 7,
		0x7F, 0x49, 0x4E, 6, 9, 0x2B, 0x24, 3, 3, 2, 8, 1, 1, 7, 0x86, 0x41, 4}
	for i := 0; i < 64; i++ {
		b = append(b, byte(i+1))
	}
	b = append(b, 0x5F, 0x20, 8, 1, 0, 0, 0, 0, 0, 0, m, 0x5F, 0x25, 4, 0x5E, 0, 0, 0, 0x5F, 0x24, 4, 0x6E, 0, 0, 0)
	b[7] = byte(len(b) - 8)
	b = append(b, 0x5F, 0x37, 0x40)
	for i := 0; i < 64; i++ {
		b = append(b, byte(100+i))
	}
	b[3] = byte(len(b) - 4)
	return b
}

func vRsaBody(m byte) []byte {
	b := make([]byte, 194)
	for i := range b {
		b[i] = byte(i)
	}
	b[193] = m
	return b
}

var vKinds = []vKind{
	{"Icc", 0x0002, 0, false, func(m byte) []byte { return vFill(25, map[int]byte{}, 20, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalIcc(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			f.SetIcc(x)
			return nil
		}},
	{"Ic", 0x0005, 0, false, func(m byte) []byte { return vFill(8, map[int]byte{}, 3, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalIc(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			f.SetIc(x)
			return nil
		}},
	{"AppId", 0x0501, 1, true, func(m byte) []byte { return vFill(10, map[int]byte{0: 1}, 9, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalApplicationIdentification(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetApplicationIdentification(x)
			return nil
		}},
	{"AppIdG2", 0x0501, 2, true, func(m byte) []byte { return vFill(17, map[int]byte{0: 1}, 9, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalApplicationIdentificationG2(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetApplicationIdentification(x)
			return nil
		}},
	{"Identification/G1", 0x0520, 1, true, func(m byte) []byte { return vFill(143, map[int]byte{1: 55, 2: 55, 3: 55, 4: 55, 5: 55, 6: 55, 7: 55, 8: 55, 9: 55, 10: 55, 11: 55, 12: 55, 13: 55, 14: 55, 15: 48, 16: 48, 17: 1, 18: 32, 19: 32, 20: 32, 21: 32, 22: 32, 23: 32, 24: 32, 25: 32, 26: 32, 27: 32, 28: 32, 29: 32, 30: 32, 31: 32, 32: 32, 33: 32, 34: 32, 35: 32, 36: 32, 37: 32, 38: 32, 39: 32, 40: 32, 41: 32, 42: 32, 43: 32, 44: 32, 45: 32, 46: 32, 47: 32, 48: 32, 49: 32, 50: 32, 51: 32, 52: 32, 65: 1, 66: 32, 67: 32, 68: 32, 69: 32, 70: 32, 71: 32, 72: 32, 73: 32, 74: 32, 75: 32, 76: 32, 77: 32, 78: 32, 79: 32, 80: 32, 81: 32, 82: 32, 83: 32, 84: 32, 85: 32, 86: 32, 87: 32, 88: 32, 89: 32, 90: 32, 91: 32, 92: 32, 93: 32, 94: 32, 95: 32, 96: 32, 97: 32, 98: 32, 99: 32, 100: 32, 101: 1, 102: 32, 103: 32, 104: 32, 105: 32, 106: 32, 107: 32, 108: 32, 109: 32, 110: 32, 111: 32, 112: 32, 113: 32, 114: 32, 115: 32, 116: 32, 117: 32, 118: 32, 119: 32, 120: 32, 121: 32, 122: 32, 123: 32, 124: 32, 125: 32, 126: 32, 127: 32, 128: 32, 129: 32, 130: 32, 131: 32, 132: 32, 133: 32, 134: 32, 135: 32, 136: 32, 137: 25, 138: 112, 139: 1, 140: 1, 141: 101, 142: 101}, 56, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalIdentification(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetIdentification(x)
			return nil
		}},
	{"Identification/G2", 0x0520, 2, true, func(m byte) []byte { return vFill(143, map[int]byte{1: 55, 2: 55, 3: 55, 4: 55, 5: 55, 6: 55, 7: 55, 8: 55, 9: 55, 10: 55, 11: 55, 12: 55, 13: 55, 14: 55, 15: 48, 16: 48, 17: 1, 18: 32, 19: 32, 20: 32, 21: 32, 22: 32, 23: 32, 24: 32, 25: 32, 26: 32, 27: 32, 28: 32, 29: 32, 30: 32, 31: 32, 32: 32, 33: 32, 34: 32, 35: 32, 36: 32, 37: 32, 38: 32, 39: 32, 40: 32, 41: 32, 42: 32, 43: 32, 44: 32, 45: 32, 46: 32, 47: 32, 48: 32, 49: 32, 50: 32, 51: 32, 52: 32, 65: 1, 66: 32, 67: 32, 68: 32, 69: 32, 70: 32, 71: 32, 72: 32, 73: 32, 74: 32, 75: 32, 76: 32, 77: 32, 78: 32, 79: 32, 80: 32, 81: 32, 82: 32, 83: 32, 84: 32, 85: 32, 86: 32, 87: 32, 88: 32, 89: 32, 90: 32, 91: 32, 92: 32, 93: 32, 94: 32, 95: 32, 96: 32, 97: 32, 98: 32, 99: 32, 100: 32, 101: 1, 102: 32, 103: 32, 104: 32, 105: 32, 106: 32, 107: 32, 108: 32, 109: 32, 110: 32, 111: 32, 112: 32, 113: 32, 114: 32, 115: 32, 116: 32, 117: 32, 118: 32, 119: 32, 120: 32, 121: 32, 122: 32, 123: 32, 124: 32, 125: 32, 126: 32, 127: 32, 128: 32, 129: 32, 130: 32, 131: 32, 132: 32, 133: 32, 134: 32, 135: 32, 136: 32, 137: 25, 138: 112, 139: 1, 140: 1, 141: 101, 142: 101}, 56, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalIdentification(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetIdentification(x)
			return nil
		}},
	{"Licence/G1", 0x0521, 1, true, func(m byte) []byte { return vFill(53, map[int]byte{0: 1, 1: 32, 2: 32, 3: 32, 4: 32, 5: 32, 6: 32, 7: 32, 8: 32, 9: 32, 10: 32, 11: 32, 12: 32, 13: 32, 14: 32, 15: 32, 16: 32, 17: 32, 18: 32, 19: 32, 20: 32, 21: 32, 22: 32, 23: 32, 24: 32, 25: 32, 26: 32, 27: 32, 28: 32, 29: 32, 30: 32, 31: 32, 32: 32, 33: 32, 34: 32, 35: 32, 37: 32, 38: 32, 39: 32, 40: 32, 41: 32, 42: 32, 43: 32, 44: 32, 45: 32, 46: 32, 47: 32, 48: 32, 49: 32, 50: 32, 51: 32, 52: 32}, 40, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalDrivingLicenceInfo(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetDrivingLicenceInfo(x)
			return nil
		}},
	{"Licence/G2", 0x0521, 2, true, func(m byte) []byte { return vFill(53, map[int]byte{0: 1, 1: 32, 2: 32, 3: 32, 4: 32, 5: 32, 6: 32, 7: 32, 8: 32, 9: 32, 10: 32, 11: 32, 12: 32, 13: 32, 14: 32, 15: 32, 16: 32, 17: 32, 18: 32, 19: 32, 20: 32, 21: 32, 22: 32, 23: 32, 24: 32, 25: 32, 26: 32, 27: 32, 28: 32, 29: 32, 30: 32, 31: 32, 32: 32, 33: 32, 34: 32, 35: 32, 37: 32, 38: 32, 39: 32, 40: 32, 41: 32, 42: 32, 43: 32, 44: 32, 45: 32, 46: 32, 47: 32, 48: 32, 49: 32, 50: 32, 51: 32, 52: 32}, 40, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalDrivingLicenceInfo(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetDrivingLicenceInfo(x)
			return nil
		}},
	{"Events/G1", 0x0502, 1, true, func(m byte) []byte { return vFill(24, map[int]byte{0: 1, 9: 1, 10: 1}, 5, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalEventsData(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetEventsData(x)
			return nil
		}},
	{"Events/G2", 0x0502, 2, true, func(m byte) []byte { return vFill(24, map[int]byte{0: 1, 9: 1, 10: 1}, 5, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalEventsData(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetEventsData(x)
			return nil
		}},
	{"Faults/G1", 0x0503, 1, true, func(m byte) []byte { return vFill(24, map[int]byte{0: 1, 9: 1, 10: 1}, 5, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalFaultsData(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetFaultsData(x)
			return nil
		}},
	{"Faults/G2", 0x0503, 2, true, func(m byte) []byte { return vFill(24, map[int]byte{0: 1, 9: 1, 10: 1}, 5, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalFaultsData(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetFaultsData(x)
			return nil
		}},
	{"Activity/G1", 0x0504, 1, true, func(m byte) []byte { return vFill(18, map[int]byte{3: 0, 7: 14, 8: 1}, 15, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalDriverActivityData(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetDriverActivityData(x)
			return nil
		}},
	{"Activity/G2", 0x0504, 2, true, func(m byte) []byte { return vFill(18, map[int]byte{3: 0, 7: 14, 8: 1}, 15, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalDriverActivityData(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetDriverActivityData(x)
			return nil
		}},
	{"VehiclesUsed", 0x0505, 1, true, func(m byte) []byte { return vFill(33, map[int]byte{17: 1}, 8, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalVehiclesUsed(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetVehiclesUsed(x)
			return nil
		}},
	{"VehiclesUsedG2", 0x0505, 2, true, func(m byte) []byte { return vFill(50, map[int]byte{17: 1, 18: 32, 19: 32, 20: 32, 21: 32, 22: 32, 23: 32, 24: 32, 25: 32, 26: 32, 27: 32, 28: 32, 29: 32, 30: 32, 33: 86, 34: 86, 35: 86, 36: 86, 37: 86, 38: 86, 39: 86, 40: 86, 41: 86, 42: 86, 43: 86, 44: 86, 45: 86, 46: 86, 47: 86, 48: 86, 49: 86}, 8, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalVehiclesUsedG2(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetVehiclesUsed(x)
			return nil
		}},
	{"Places", 0x0506, 1, true, func(m byte) []byte { return vFill(11, map[int]byte{}, 4, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalPlaces(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetPlaces(x)
			return nil
		}},
	{"PlacesG2", 0x0506, 2, true, func(m byte) []byte { return vFill(23, map[int]byte{}, 5, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalPlacesG2(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetPlaces(x)
			return nil
		}},
	{"CurrentUsage/G1", 0x0507, 1, true, func(m byte) []byte { return vFill(19, map[int]byte{}, 3, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalCurrentUsage(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetCurrentUsage(x)
			return nil
		}},
	{"CurrentUsage/G2", 0x0507, 2, true, func(m byte) []byte { return vFill(19, map[int]byte{}, 3, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalCurrentUsage(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetCurrentUsage(x)
			return nil
		}},
	{"ControlActivity/G1", 0x0508, 1, true, func(m byte) []byte { return vFill(46, map[int]byte{5: 1}, 4, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalControlActivityData(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetControlActivityData(x)
			return nil
		}},
	{"ControlActivity/G2", 0x0508, 2, true, func(m byte) []byte { return vFill(46, map[int]byte{5: 1}, 4, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalControlActivityData(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetControlActivityData(x)
			return nil
		}},
	{"SpecificConditions", 0x0522, 1, true, func(m byte) []byte { return vFill(5, map[int]byte{4: 1}, 3, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalSpecificConditions(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG1(f).SetSpecificConditions(x)
			return nil
		}},
	{"SpecificConditionsG2", 0x0522, 2, true, func(m byte) []byte { return vFill(7, map[int]byte{6: 1}, 5, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalSpecificConditionsG2(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetSpecificConditions(x)
			return nil
		}},
	{"CardDownload/G1", 0x050E, 1, false, func(m byte) []byte { return vFill(4, map[int]byte{}, 3, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalCardDownload(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			vG1(f).SetCardDownload(x)
			return nil
		}},
	{"CardDownload/G2", 0x050E, 2, false, func(m byte) []byte { return vFill(4, map[int]byte{}, 3, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalCardDownload(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			vG2(f).SetCardDownload(x)
			return nil
		}},
	{"VehicleUnitsUsed", 0x0523, 2, true, func(m byte) []byte { return vFill(12, map[int]byte{}, 5, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalVehicleUnitsUsed(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetVehicleUnitsUsed(x)
			return nil
		}},
	{"GnssPlaces", 0x0524, 2, true, func(m byte) []byte { return vFill(20, map[int]byte{}, 5, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalGnssPlaces(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetGnssPlaces(x)
			return nil
		}},
	{"AppIdV2", 0x0525, 2, true, func(m byte) []byte { return vFill(10, map[int]byte{}, 9, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.unmarshalApplicationIdentificationV2(b)
			if err != nil {
				return err
			}
			if sig != nil {
				x.SetSignature(sig)
			}
			vG2(f).SetApplicationIdentificationV2(x)
			return nil
		}},
	{"CardCert", 0xC100, 1, false, vRsaBody,
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := security.UnmarshalRsaCertificate(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			c := &cardv1.CardCertificate{}
			c.SetRsaCertificate(x)
			vG1(f).SetCardCertificate(c)
			return nil
		}},
	{"CaCert", 0xC108, 1, false, vRsaBody,
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := security.UnmarshalRsaCertificate(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			c := &cardv1.CaCertificate{}
			c.SetRsaCertificate(x)
			vG1(f).SetCaCertificate(c)
			return nil
		}},
	{"MaCert", 0xC100, 2, false, vEccBody,
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := security.UnmarshalEccCertificate(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			c := &cardv1.CardMaCertificate{}
			c.SetEccCertificate(x)
			vG2(f).SetCardMaCertificate(c)
			return nil
		}},
	{"SignCert", 0xC101, 2, false, vEccBody,
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := security.UnmarshalEccCertificate(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			c := &cardv1.CardSignCertificate{}
			c.SetEccCertificate(x)
			vG2(f).SetCardSignCertificate(c)
			return nil
		}},
	{"CaCertG2", 0xC108, 2, false, vEccBody,
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := security.UnmarshalEccCertificate(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			c := &cardv1.CaCertificateG2{}
			c.SetEccCertificate(x)
			vG2(f).SetCaCertificate(c)
			return nil
		}},
	{"LinkCert", 0xC109, 2, false, vEccBody,
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := security.UnmarshalEccCertificate(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			c := &cardv1.LinkCertificate{}
			c.SetEccCertificate(x)
			vG2(f).SetLinkCertificate(c)
			return nil
		}},
}
