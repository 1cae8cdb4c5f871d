#!/usr/bin/env python3
"""Authoring aid: writes harness/internal/dd/items.go from the table of data dictionary items."""
D="ddv1."
# name, size, type suffix, def, ref, edits[(label, code copying the field from y to x, lo, hi, extra guard)]
S=lambda f:"x.Set%s(y.Get%s())"%(f,f)
def fields(*fs):
    return [(f,S(f) if not isinstance(code,str) else code,lo,hi) for f,lo,hi,code in fs]
def F(f,lo,hi,code=None): return (f,code or S(f),lo,hi)
def U(f,lo,hi): # enum with kept unrecognised code
    return (f,"x.Set%s(y.Get%s()); x.SetUnrecognized%s(y.GetUnrecognized%s())"%(f,f,f,f),lo,hi)
items=[
 ("ActivityChangeInfo",2,"ActivityChangeInfo",None,"refActivity",[]),
 ("CardStructureVersion",2,"CardStructureVersion","dBCD(b)","refCSV",[F("Major",0,1),F("Minor",1,2)]),
 ("CardVehicleRecord",31,"CardVehicleRecord","dCardVehicle(b)","refCardVehicle",[F("VehicleOdometerBeginKm",0,3),F("VehicleOdometerEndKm",3,6),F("VehicleFirstUse",6,10),F("VehicleLastUse",10,14),F("VehicleRegistration",14,29),F("VuDataBlockCounter",29,31),("Nation","x.GetVehicleRegistration().SetNation(y.GetVehicleRegistration().GetNation())",14,15),("Number","x.GetVehicleRegistration().SetNumber(y.GetVehicleRegistration().GetNumber())",15,29)]),
 ("CardVehicleRecordG2",48,"CardVehicleRecordG2","dCardVehicle(b) && dVIN(b[31:48])","refCardVehicleG2",[F("VehicleOdometerBeginKm",0,3),F("VehicleOdometerEndKm",3,6),F("VehicleFirstUse",6,10),F("VehicleLastUse",10,14),F("VehicleRegistration",14,29),F("VuDataBlockCounter",29,31)]),
 ("Date",4,"Date","dBCD(b)","refDate",[F("Year",0,2),F("Month",2,3),F("Day",3,4)]),
 ("MonthYear",2,"MonthYear","dBCD(b)","refMonthYear",[]),
 ("ControlType",1,"ControlType",None,"refControlType",[]),
 ("DriverIdentification",14,"DriverIdentification",None,None,[F("DriverIdentificationNumber",0,14)]),
 ("ExtendedSerialNumber",8,"ExtendedSerialNumber","dESN(b)","refESN",[F("SerialNumber",0,4),F("MonthYear",4,6),F("Type",6,7),F("ManufacturerCode",7,8)]),
 ("FullCardNumber",18,"FullCardNumber","dFCN(b)","refFCN",[F("CardIssuingMemberState",1,2),("number","vAssume(b[0] == c[0]); x.SetDriverIdentification(y.GetDriverIdentification()); x.SetOwnerIdentification(y.GetOwnerIdentification())",2,18)]),
 ("FullCardNumberAndGeneration",19,"FullCardNumberAndGeneration","dFCNG(b)","refFCNG",[F("FullCardNumber",0,18),F("Generation",18,19)]),
 ("GeoCoordinates",6,"GeoCoordinates",None,"refGeo",[F("Latitude",0,3),F("Longitude",3,6)]),
 ("GNSSPlaceRecord",11,"GNSSPlaceRecord",None,"refGNSS",[F("Timestamp",0,4),F("GnssAccuracy",4,5),F("GeoCoordinates",5,11)]),
 ("GNSSPlaceAuthRecord",12,"GNSSPlaceAuthRecord",None,"refGNSSAuth",[F("Timestamp",0,4),F("GnssAccuracy",4,5),F("GeoCoordinates",5,11),U("AuthenticationStatus",11,12)]),
 ("HolderName",72,"HolderName","dStr(b[0:36]) && dStr(b[36:72])","refHolder",[F("HolderSurname",0,36),F("HolderFirstNames",36,72)]),
 ("OwnerIdentification",16,"OwnerIdentification",None,"refOwner",[F("OwnerIdentification",0,13),F("ConsecutiveIndex",13,14),F("ReplacementIndex",14,15),F("RenewalIndex",15,16)]),
 ("PlaceRecord",10,"PlaceRecord",None,"refPlace",[F("EntryTime",0,4),U("EntryTypeDailyWorkPeriod",4,5),U("DailyWorkPeriodCountry",5,6),F("DailyWorkPeriodRegion",6,7),F("VehicleOdometerKm",7,10)]),
 ("PlaceRecordG2",21,"PlaceRecordG2",None,"refPlaceG2",[F("EntryTime",0,4),U("EntryTypeDailyWorkPeriod",4,5),U("DailyWorkPeriodCountry",5,6),F("DailyWorkPeriodRegion",6,7),F("VehicleOdometerKm",7,10),F("EntryGnssPlaceRecord",10,21)]),
 ("PreviousVehicleInfo",19,"PreviousVehicleInfo","dPrevious(b)","refPrevious",[F("VehicleRegistration",0,15),F("CardWithdrawalTime",15,19)]),
 ("PreviousVehicleInfoG2",20,"PreviousVehicleInfoG2","dVRN(b) && (b[19] == 1 || b[19] == 2)","refPreviousG2",[F("VehicleRegistration",0,15),F("CardWithdrawalTime",15,19),F("VuGeneration",19,20)]),
 ("SpecificConditionRecord",5,"SpecificConditionRecord",None,"refSpecific",[F("EntryTime",0,4),U("SpecificConditionType",4,5)]),
 ("VehicleRegistration",15,"VehicleRegistrationIdentification","dVRN(b)","refVRN",[F("Nation",0,1),F("Number",1,15)]),
 ("VuCardIWRecord",129,"VuCardIWRecord","dIW(b)","refIW",[F("CardHolderName",0,72),F("FullCardNumber",72,90),F("CardExpiryDate",90,94),F("CardInsertionTime",94,98),F("OdometerAtInsertionKm",98,101),F("CardSlotNumber",101,102),F("CardWithdrawalTime",102,106),F("OdometerAtWithdrawalKm",106,109),F("PreviousVehicleInfo",109,128),F("ManualInputFlag",128,129)]),
]
texts={"CardVehicleRecord":[(15,29)],"CardVehicleRecordG2":[(15,29),(31,48,1)],"DriverIdentification":[(0,14,1)],"FullCardNumber":[(2,18,1)],"FullCardNumberAndGeneration":[(2,18,1)],
 "HolderName":[(0,36),(36,72)],"OwnerIdentification":[(0,13,1),(13,14,1),(14,15,1),(15,16,1)],"PreviousVehicleInfo":[(1,15)],"PreviousVehicleInfoG2":[(1,15)],"VehicleRegistration":[(1,15)],
 "VuCardIWRecord":[(0,36),(36,72),(74,90,1),(110,124)]}
def put(n,off="",b="b"):
    return "".join('\tv%sIn(%s[%s%d:%s%d], %s)\n'%("Ia5" if len(t)>2 else "Text",b,off,t[0],off,t[1],"v" if i%2==0 else "(v+1)%4") for i,t in enumerate(texts.get(n,[])))
out=['''package dd

// Written by tools/gendd.py: one harness per data dictionary item and property.

import (
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
)

var _ ddv1.Generation
''']
for n,size,t,d,ref,ed in items:
    dd=d or "true"
    lens="all %d bytes symbolic"%size
    out.append(f'''
//v:bounds {lens}; values the data dictionary defines
func vh_C04_{n}() {{
	b := vBytes("b", {size})
	vAssume({dd})
	var o UnmarshalOptions
	x, err := o.Unmarshal{n}(b)
	vAssert(err == nil, "{n} accepted")
	out, err := Append{n}(nil, x)
	vAssert(err == nil, "{n} encodes")
	vAssert(len(out) == {size}, "{n} encodes to its size")
	vAssert(vEq(out, b), "{n} round trip")
	vReach("end", uint64(out[0]), uint64(out[{size-1}]))
}}

//v:bounds every length up to {size*2+8} bytes except {size}
func vh_C04_{n}_size() {{
	b := vSym("b", {size*2+8})
	vAssume(len(b) != {size})
	var o UnmarshalOptions
	_, err := o.Unmarshal{n}(b)
	vAssert(err != nil, "{n} refuses other sizes")
	vReach("end", uint64(len(b)))
}}
''')
    if True:
        out.append(f'''
//v:bounds {lens}{', texts one of four each' if n in texts else ''}; values the data dictionary defines
func vh_C22_{n}() {{
	b := vBytes("b", {size})
{('	v := vPick("text", 4)'+chr(10)+put(n)) if n in texts else ''}	vAssume({dd})
	var o UnmarshalOptions
	x, err := o.Unmarshal{n}(b)
	vAssert(err == nil, "{n} accepted")
	x = vStrip(x).(*ddv1.{t})
	out, err := Append{n}(nil, x)
	vAssert(err == nil, "{n} without stored bytes encodes")
	vAssert(len(out) == {size}, "{n} without stored bytes encodes to its size")
	y, err := o.Unmarshal{n}(out)
	vAssert(err == nil, "{n} without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "{n} without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[{size-1}]))
}}
''')
    if ref:
        out.append(f'''
//v:bounds {lens}
func vh_C05_{n}() {{
	b := vBytes("b", {size})
	var o UnmarshalOptions
	x, err := o.Unmarshal{n}(b)
	if {dd} {{
		vAssert(err == nil, "{n} accepted")
	}}
	if err != nil {{
		vReach("refused")
		return
	}}
	{ref}(x, b)
	vReach("end")
}}
''')
    out.append(f'''
//v:bounds {lens}; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_{n}() {{
	b := vBytes("b", {size})
	vAssume({dd})
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.Unmarshal{n}(b)
	vAssert(vEq(b, keep), "{n} decoding leaves the input alone")
	if err != nil {{
		return
	}}
	before := proto.Clone(x)
	out, err := Append{n}(nil, x)
	if err != nil {{
		return
	}}
	vAssert(vSame(x, before), "{n} encoding leaves the message alone")
	vAssert(vEq(b, keep), "{n} encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+{size+7})
	buf = append(buf, p[:n]...)
	res, err := Append{n}(buf, x)
	vAssert(err == nil, "{n} encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "{n} appends its encoding to the buffer")
	out2, err := Append{n}(nil, x)
	vAssert(err == nil && vEq(out2, out), "{n} encodes the same twice")
	vReach("end", uint64(len(res)))
}}
''')
    if ed:
        cases="\n".join(f'''	case {i}:
		{code}
		lo, hi = {lo}, {hi}''' for i,(f,code,lo,hi) in enumerate(ed))
        extra=""
        if n.startswith("FullCard") or n=="VuCardIWRecord":
            pass
        out.append(f'''
//v:bounds {lens}, in both the original and the new value; one field changed at a time ({len(ed)} fields)
func vh_C06_{n}() {{
	b := vBytes("b", {size})
	vAssume({dd})
	a := b
	b = vBytes("new", {size})
	vAssume({dd})
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.Unmarshal{n}(b)
	if err != nil {{
		return
	}}
	y, err := o.Unmarshal{n}(c)
	if err != nil {{
		return
	}}
	lo, hi := 0, 0
	f := vPick("field", {len(ed)})
	switch f {{
{cases}
	}}
	out, err := Append{n}(nil, x)
	vAssert(err == nil, "{n} encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == {size} && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "{n} field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "{n} field change is written at the field's position")
	vReach("end", uint64(f))
}}
''')
        cases19="\n".join(f"\tcase {i}:\n\t\t{code}" for i,(f,code,lo,hi) in enumerate(ed))
        out.append(f'''
//v:bounds {lens}, in both the original and the new value; encoding after one field is changed ({len(ed)} fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_{n}_edited() {{
	b := vBytes("b", {size})
	vAssume({dd})
	a := b
	b = vBytes("new", {size})
	vAssume({dd})
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.Unmarshal{n}(b)
	if err != nil {{
		return
	}}
	y, err := o.Unmarshal{n}(c)
	if err != nil {{
		return
	}}
	f := vPick("field", {len(ed)})
	switch f {{
{cases19}
	}}
	before := proto.Clone(x)
	out, err := Append{n}(nil, x)
	vAssert(err == nil, "{n} encodes after a field change")
	vAssert(vSame(x, before), "{n} encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "{n} encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+{size+7}), p...)
	res, err := Append{n}(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "{n} appends its encoding after a field change to the buffer")
	out, err = Append{n}(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "{n} encodes the same twice after a field change")
	vReach("end", uint64(f))
}}
''')
open('/verif/harness/internal/dd/items.go','w').write("".join(out))
