package tachograph

import (
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/vu"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

// vOnly checks that a file carries only the kind it announces.
func vOnly(f *tachographv1.File, t tachographv1.File_Type) {
	vAssert(f.GetType() == t, "C17 announced kind")
	vAssert(f.HasDriverCard() == (t == tachographv1.File_DRIVER_CARD), "C17 driver card carried exactly when announced")
	vAssert(f.HasVehicleUnit() == (t == tachographv1.File_VEHICLE_UNIT), "C17 vehicle unit carried exactly when announced")
	vAssert(f.HasRawCard() == (t == tachographv1.File_RAW_CARD), "C17 raw card carried exactly when announced")
}

//v:bounds all byte strings of 0 to 4 bytes (the leading bytes decide), and of 12 bytes that do not start a vehicle unit file
func vh_C17_lead() {
	var b []byte
	if vPick("long", 2) == 0 {
		n := vPick("n", 5)
		b = vBytes("b", 4)[:n]
	} else {
		b = vBytes("c", 12)
		vAssume(b[0] != 0x76)
	}
	f, err := UnmarshalFile(b)
	switch {
	case len(b) < 2:
		vAssert(f == nil && err != nil, "C17 too short refused")
		vReach("short")
	case b[0] == 0x76:
		g, verr := vu.UnmarshalVehicleUnitFile(b)
		vAssert((err == nil) == (verr == nil), "C17 vehicle unit file decoded as such")
		if err == nil {
			vOnly(f, tachographv1.File_VEHICLE_UNIT)
			vAssert(vSame(f.GetVehicleUnit(), g), "C17 vehicle unit content")
		}
		vReach("vu")
	case b[0] == 0 && b[1] == 2:
		raw, rerr := card.UnmarshalRawCardFile(b)
		if rerr != nil {
			vAssert(f == nil && err != nil, "C17 image that is no card refused")
			vReach("no card")
			return
		}
		if err == nil && f.GetType() == tachographv1.File_RAW_CARD {
			vOnly(f, tachographv1.File_RAW_CARD)
			vAssert(vSame(f.GetRawCard(), raw), "C17 raw content")
			out, err := MarshalFile(f)
			vAssert(err == nil && vEq(out, b), "C17 raw card loses nothing")
			vReach("raw")
		}
		vReach("card")
	default:
		vAssert(f == nil && err != nil, "C17 unknown lead refused")
		vReach("unknown")
	}
}

// vDriverFid tells whether a driver card has an elementary file of this identifier
// (Annex 1C appendix 2, TCS_140, TCS_148, TCS_152).
func vDriverFid(fid uint16) bool {
	switch fid {
	case 0x0002, 0x0005, 0x2F00, 0x2F01, 0x0006,
		0x0501, 0x0502, 0x0503, 0x0504, 0x0505, 0x0506, 0x0507, 0x0508, 0x050E, 0x0520, 0x0521, 0x0522,
		0x0523, 0x0524, 0x0525, 0x0526, 0x0527, 0x0528, 0x0529, 0x0530, 0x0540,
		0xC100, 0xC101, 0xC108, 0xC109:
		return true
	}
	return false
}

//v:bounds a valid EF_ICC followed by none or 40 blocks a driver card has, and two blocks (thorough: three) with any file identifiers and any appendix, without content, and their order
//v:cost 20
func vh_C17_card() {
	n := 2 + vTier()
	icc := make([]byte, 25)
	b := append([]byte{0, 2, 0, 0, 25}, icc...)
	driver := true
	for i := vPick("others", 2) * 40; i > 0; i-- { // files every card has, and those of a driver card
		b = append(b, 5, []byte{4, 5, 0x20}[i%3], byte(i/3%2*2), 0, 0)
	}
	for i := 0; i < n; i++ {
		fid, app := vU16("fid"+"0123"[i:i+1]), vU8("app"+"0123"[i:i+1])
		b = append(b, byte(fid>>8), byte(fid), app, 0, 0)
		if app&1 == 0 && !vDriverFid(fid) {
			driver = false
		}
	}
	raw, err := card.UnmarshalRawCardFile(b)
	vAssert(err == nil, "C17 image decodes")
	vAssert((card.InferFileType(raw) == cardv1.CardType_DRIVER_CARD) == driver, "C17 driver card recognised by its elementary files")
	if !driver {
		f, err := UnmarshalFile(b)
		vAssert(err == nil, "C17 other card accepted")
		vOnly(f, tachographv1.File_RAW_CARD)
		vAssert(vSame(f.GetRawCard(), raw), "C17 raw content")
		out, err := MarshalFile(f)
		vAssert(err == nil && vEq(out, b), "C17 raw card loses nothing")
		vReach("raw")
		return
	}
	vReach("driver")
}

//v:bounds a valid EF_ICC of any content that decodes, alone and with an EF_IC; dispatch of the encoder for all announced kinds, carried contents present or not
func vh_C17_driver() {
	b := append([]byte{0, 2, 0, 0, 25}, vBytes("icc", 25)...)
	if vPick("has ic", 2) == 1 {
		b = append(append(b, 0, 5, 0, 0, 8), vBytes("ic", 8)...)
	}
	raw, err := card.UnmarshalRawCardFile(b)
	vAssert(err == nil, "C17 image decodes")
	c, cerr := card.UnmarshalDriverCardFile(raw)
	f, err := UnmarshalFile(b)
	vAssert((err == nil) == (cerr == nil), "C17 driver card decoded as such")
	if err != nil {
		vAssert(f == nil, "C17 no file with an error")
		vReach("refused")
		return
	}
	vOnly(f, tachographv1.File_DRIVER_CARD)
	vAssert(vSame(f.GetDriverCard(), c), "C17 driver card content")
	// the announced kind decides what is encoded
	g := &tachographv1.File{}
	t := vPick("type", 8)
	g.SetType(tachographv1.File_Type(t))
	if vPick("has raw", 2) == 1 {
		g.SetRawCard(raw)
	}
	if vPick("has card", 2) == 1 {
		g.SetDriverCard(c)
	}
	out, err := MarshalFile(g)
	switch tachographv1.File_Type(t) {
	case tachographv1.File_DRIVER_CARD:
		if !g.HasDriverCard() {
			vAssert(err != nil, "C17 missing driver card refused")
			return
		}
		want, werr := card.MarshalDriverCardFile(c)
		vAssert((err == nil) == (werr == nil) && vEq(out, want), "C17 driver card encoded as such")
		vReach("driver")
	case tachographv1.File_RAW_CARD:
		if g.HasRawCard() {
			vAssert(err == nil && vEq(out, b), "C17 raw card encoded as such")
		} else {
			vAssert(len(out) == 0, "C17 nothing encoded for a missing raw card")
		}
		vReach("raw")
	default:
		vAssert(err != nil && len(out) == 0, "C17 other kinds are not encoded")
		vReach("other")
	}
}
