#!/usr/bin/env python3
# Generates harness/internal/{dd,card,vu}/any.go: every decoder on any byte string of every length up to a bound.
H='package %s\n\n// Generated by tools/genc01.py.\n\n'
CELLS={"dd_Ia5StringValue","dd_BcdString"}
def gen(pkg,table):
    s=H%pkg
    if pkg=='card':
        s+='import "errors"\n\nvar vErrNil = errors.New("x")\n\n' if False else ''
    for row in table:
        name,call,q,t=row[:4]
        extra=row[4] if len(row)>4 else ''
        s+='''//v:bounds every byte string of 0 to %d bytes
//v:thorough:bounds every byte string of 0 to %d bytes
%sfunc vh_C01_%s() {
	b := %s
	x, err := %s(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

'''%(q,t,extra,name,('vBytes("b", %d+%d*vTier())[:vRange("n", 0, %d+%d*vTier())]' if name in CELLS else 'vSym("b", %d+%d*vTier())%.0s%.0s')%(q,t-q,q,t-q),call)
    open('/verif/harness/internal/%s/any.go'%pkg,'w').write(s)
dd=[("ActivityChangeInfo",4),("BcdString",5),("CardStructureVersion",4),("CardVehicleRecord",35),("CardVehicleRecordG2",52),("ControlType",3),("Date",6),("DriverIdentification",18),("ExtendedSerialNumber",10),("FullCardNumber",20),("FullCardNumberAndGeneration",21),("GNSSPlaceAuthRecord",14),("GNSSPlaceRecord",14),("GeoCoordinates",8),("HolderName",74),("Ia5StringValue",20),("MonthYear",4),("OwnerIdentification",18),("PlaceRecord",12),("PlaceRecordG2",24),("PreviousVehicleInfo",22),("PreviousVehicleInfoG2",24),("SpecificConditionRecord",7),("StringValue",38),("VehicleRegistration",17),("VuCardIWRecord",132)]
gen('dd',[("dd_"+n,"UnmarshalOptions{}.Unmarshal"+n,s,2*s) for n,s in dd])
card=[("ApplicationIdentification",12,40),("ApplicationIdentificationG2",18,40),("ApplicationIdentificationV2",8,40),("CardDownload",6,20),("ControlActivityData",48,100),("CurrentUsage",21,60),("DrivingLicenceInfo",55,120),("EventRecord",26,60),("EventsData",54,110),("FaultsData",54,110),("GnssPlaces",40,80),("Ic",10,40),("Icc",27,60),("Identification",146,300),("Places",33,65),("PlacesG2",50,90),("SpecificConditions",18,40),("SpecificConditionsG2",18,40),("VehicleUnitsUsed",34,70),("VehiclesUsed",68,130),("VehiclesUsedG2",102,200)]
gen('card',[("card_"+n,"UnmarshalOptions{}.unmarshal"+n,q,t) for n,q,t in card])
vu=[("OverviewGen2V1",400,2000),("OverviewGen2V2",400,2000),("ActivitiesGen2V1",300,2000),("ActivitiesGen2V2",300,2000),("EventsAndFaultsGen1",400,900),("EventsAndFaultsGen2V1",300,2000),("EventsAndFaultsGen2V2",300,2000),("DetailedSpeedGen1",260,600),("DetailedSpeedGen2",100,300),("TechnicalDataGen1",440,900),("TechnicalDataGen2V1",300,2000),("TechnicalDataGen2V2",300,2000)]
gen('vu',[("vu_"+n,"unmarshal"+n,q,t,*x) for n,q,t,*x in vu])

s=open('/verif/harness/internal/vu/any.go').read()
for n in ["OverviewGen1","OverviewGen2V1","OverviewGen2V2","ActivitiesGen1","ActivitiesGen2V1","ActivitiesGen2V2","EventsAndFaultsGen1","EventsAndFaultsGen2V1","EventsAndFaultsGen2V2","DetailedSpeedGen1","DetailedSpeedGen2","TechnicalDataGen1","TechnicalDataGen2V1","TechnicalDataGen2V2"]:
    s+="""//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_%s() {
	n, err := sizeOf%s(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

"""%(n,n)
open('/verif/harness/internal/vu/any.go','w').write(s)
