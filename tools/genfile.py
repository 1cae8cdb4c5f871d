#!/usr/bin/env python3
# Writes harness/internal/card/filekinds.go: the table of elementary files used by the whole-card harnesses.
# name, fid, generations, small body (length, {pos: byte}), marker position, decode, setter, signed
def R(*rs):
    d={}
    for (lo,hi,c) in rs:
        for i in range(lo,hi): d[i]=ord(c) if isinstance(c,str) else c
    return d
K=[
("Icc",0x0002,(0,),25,{},20,"unmarshalIcc","Icc",False,"Icc"),
("Ic",0x0005,(0,),8,{},3,"unmarshalIc","Ic",False,"Ic"),
("AppId",0x0501,(1,),10,{0:1},9,"unmarshalApplicationIdentification","ApplicationIdentification",True,""),
("AppIdG2",0x0501,(2,),17,{0:1},9,"unmarshalApplicationIdentificationG2","ApplicationIdentification",True,""),
("Identification",0x0520,(1,2),143,R((1,15,"7"),(15,17,"0"),(17,18,1),(18,53," "),(65,66,1),(66,101," "),(101,102,1),(102,137," "),(137,138,0x19),(138,139,0x70),(139,141,1),(141,143,"e")),56,"unmarshalIdentification","Identification",True,""),
("Licence",0x0521,(1,2),53,R((0,1,1),(1,36," "),(37,53," ")),40,"unmarshalDrivingLicenceInfo","DrivingLicenceInfo",True,""),
("Events",0x0502,(1,2),24,{0:1,9:1,10:1},5,"unmarshalEventsData","EventsData",True,""),
("Faults",0x0503,(1,2),24,{0:1,9:1,10:1},5,"unmarshalFaultsData","FaultsData",True,""),
("Activity",0x0504,(1,2),18,{3:0,7:14,8:1},15,"unmarshalDriverActivityData","DriverActivityData",True,""),
("VehiclesUsed",0x0505,(1,),33,{17:1},8,"unmarshalVehiclesUsed","VehiclesUsed",True,""),
("VehiclesUsedG2",0x0505,(2,),50,R((17,18,1),(18,31," "),(33,50,"V")),8,"unmarshalVehiclesUsedG2","VehiclesUsed",True,""),
("Places",0x0506,(1,),11,{},4,"unmarshalPlaces","Places",True,""),
("PlacesG2",0x0506,(2,),23,{},5,"unmarshalPlacesG2","Places",True,""),
("CurrentUsage",0x0507,(1,2),19,{},3,"unmarshalCurrentUsage","CurrentUsage",True,""),
("ControlActivity",0x0508,(1,2),46,{5:1},4,"unmarshalControlActivityData","ControlActivityData",True,""),
("SpecificConditions",0x0522,(1,),5,{4:1},3,"unmarshalSpecificConditions","SpecificConditions",True,""),
("SpecificConditionsG2",0x0522,(2,),7,{6:1},5,"unmarshalSpecificConditionsG2","SpecificConditions",True,""),
("CardDownload",0x050E,(1,2),4,{},3,"unmarshalCardDownload","CardDownload",False,""),
("VehicleUnitsUsed",0x0523,(2,),12,{},5,"unmarshalVehicleUnitsUsed","VehicleUnitsUsed",True,""),
("GnssPlaces",0x0524,(2,),20,{},5,"unmarshalGnssPlaces","GnssPlaces",True,""),
("AppIdV2",0x0525,(2,),10,{},9,"unmarshalApplicationIdentificationV2","ApplicationIdentificationV2",True,""),
]
CERT=[ # name fid gen message field
("CardCert",0xC100,1,"CardCertificate","Rsa"),
("CaCert",0xC108,1,"CaCertificate","Rsa"),
("MaCert",0xC100,2,"CardMaCertificate","Ecc"),
("SignCert",0xC101,2,"CardSignCertificate","Ecc"),
("CaCertG2",0xC108,2,"CaCertificateG2","Ecc"),
("LinkCert",0xC109,2,"LinkCertificate","Ecc"),
]
out=["""package card

// Written by tools/genfile.py: the elementary files of a driver card with small valid contents.

import (
	"github.com/way-platform/tachograph-go/internal/security"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// vKind is one elementary file of one application.
type vKind struct {
	name   string
	fid    uint16
	gen    int // application: 1, 2, or 0 for the common files
	signed bool
	body   func(m byte) []byte
	put    func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error
}

func vG1(f *cardv1.DriverCardFile) *cardv1.DriverCardFile_Tachograph {
	if f.GetTachograph() == nil {
		f.SetTachograph(&cardv1.DriverCardFile_Tachograph{})
	}
	return f.GetTachograph()
}

func vG2(f *cardv1.DriverCardFile) *cardv1.DriverCardFile_TachographG2 {
	if f.GetTachographG2() == nil {
		f.SetTachographG2(&cardv1.DriverCardFile_TachographG2{})
	}
	return f.GetTachographG2()
}

// vOpts are the decoding options of an application.
func vOpts(gen int) UnmarshalOptions {
	var o UnmarshalOptions
	o.Generation = ddv1.Generation_GENERATION_1
	if gen == 2 {
		o.Generation = ddv1.Generation_GENERATION_2
	}
	o.Version = ddv1.Version_VERSION_1
	return o
}

// vFill is a value of n zero bytes but for the listed ones, and one byte m at position p.
func vFill(n int, at map[int]byte, p int, m byte) []byte {
	b := make([]byte, n)
	for i, c := range at {
		b[i] = c
	}
	b[p] = m
	return b
}

// vEccBody is a second generation certificate with the reference of its holder ending in m.
func vEccBody(m byte) []byte {
	b := []byte{0x7F, 0x21, 0x81, 0xC8, 0x7F, 0x4E, 0x81, 0x81,
		0x5F, 0x29, 1, 0, 0x42, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0x5F, 0x4C, 7, 1, 2, 3, 4, 5, 6, 7,
		0x7F, 0x49, 0x4E, 6, 9, 0x2B, 0x24, 3, 3, 2, 8, 1, 1, 7, 0x86, 0x41, 4}
	for i := 0; i < 64; i++ {
		b = append(b, byte(i+1))
	}
	b = append(b, 0x5F, 0x20, 8, 1, 0, 0, 0, 0, 0, 0, m, 0x5F, 0x25, 4, 0x5E, 0, 0, 0, 0x5F, 0x24, 4, 0x6E, 0, 0, 0)
	b[7] = byte(len(b) - 8)
	b = append(b, 0x5F, 0x37, 0x40)
	for i := 0; i < 64; i++ {
		b = append(b, byte(100+i))
	}
	b[3] = byte(len(b) - 4)
	return b
}

func vRsaBody(m byte) []byte {
	b := make([]byte, 194)
	for i := range b {
		b[i] = byte(i)
	}
	b[193] = m
	return b
}

var vKinds = []vKind{
"""]
for (n,fid,gens,ln,at,mark,dec,fld,signed,_) in K:
  for g in gens:
    suffix={0:"",1:"",2:""}[g]
    nm=n if len(gens)==1 else n+"/G%d"%g
    tgt={0:"f",1:"vG1(f)",2:"vG2(f)"}[g]
    atl="map[int]byte{"+", ".join("%d: %d"%kv for kv in at.items())+"}"
    s="x.SetSignature(sig)" if signed else "return vErrASN1"
    out.append("""	{"%s", 0x%04X, %d, %s, func(m byte) []byte { return vFill(%d, %s, %d, m) },
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := o.%s(b)
			if err != nil {
				return err
			}
			if sig != nil {
				%s
			}
			%s.Set%s(x)
			return nil
		}},
"""%(nm,fid,g,str(signed).lower(),ln,atl,mark,dec,s,tgt,fld))
for (n,fid,g,msg,alg) in CERT:
    setter="CaCertificate" if msg=="CaCertificateG2" else msg
    out.append("""	{"%s", 0x%04X, %d, false, v%sBody,
		func(f *cardv1.DriverCardFile, o UnmarshalOptions, b, sig []byte) error {
			x, err := security.Unmarshal%sCertificate(b)
			if err != nil {
				return err
			}
			if sig != nil {
				return vErrASN1
			}
			c := &cardv1.%s{}
			c.Set%sCertificate(x)
			vG%d(f).Set%s(c)
			return nil
		}},
"""%(n,fid,g,alg,alg,msg,alg,g,setter))
out.append("}\n")
open('/verif/harness/internal/card/filekinds.go','w').write("".join(out))
