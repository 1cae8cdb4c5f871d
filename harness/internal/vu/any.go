package vu

// Generated by tools/genc01.py.

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 2000 bytes
func vh_C01_vu_OverviewGen2V1() {
	b := vSym("b", 400+1600*vTier())
	x, err := unmarshalOverviewGen2V1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 2000 bytes
func vh_C01_vu_OverviewGen2V2() {
	b := vSym("b", 400+1600*vTier())
	x, err := unmarshalOverviewGen2V2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 300 bytes
//v:thorough:bounds every byte string of 0 to 2000 bytes
func vh_C01_vu_ActivitiesGen2V1() {
	b := vSym("b", 300+1700*vTier())
	x, err := unmarshalActivitiesGen2V1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 300 bytes
//v:thorough:bounds every byte string of 0 to 2000 bytes
func vh_C01_vu_ActivitiesGen2V2() {
	b := vSym("b", 300+1700*vTier())
	x, err := unmarshalActivitiesGen2V2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 900 bytes
func vh_C01_vu_EventsAndFaultsGen1() {
	b := vSym("b", 400+500*vTier())
	x, err := unmarshalEventsAndFaultsGen1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 300 bytes
//v:thorough:bounds every byte string of 0 to 2000 bytes
func vh_C01_vu_EventsAndFaultsGen2V1() {
	b := vSym("b", 300+1700*vTier())
	x, err := unmarshalEventsAndFaultsGen2V1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 300 bytes
//v:thorough:bounds every byte string of 0 to 2000 bytes
func vh_C01_vu_EventsAndFaultsGen2V2() {
	b := vSym("b", 300+1700*vTier())
	x, err := unmarshalEventsAndFaultsGen2V2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 260 bytes
//v:thorough:bounds every byte string of 0 to 600 bytes
func vh_C01_vu_DetailedSpeedGen1() {
	b := vSym("b", 260+340*vTier())
	x, err := unmarshalDetailedSpeedGen1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 100 bytes
//v:thorough:bounds every byte string of 0 to 300 bytes
func vh_C01_vu_DetailedSpeedGen2() {
	b := vSym("b", 100+200*vTier())
	x, err := unmarshalDetailedSpeedGen2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 440 bytes
//v:thorough:bounds every byte string of 0 to 900 bytes
func vh_C01_vu_TechnicalDataGen1() {
	b := vSym("b", 440+460*vTier())
	x, err := unmarshalTechnicalDataGen1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 300 bytes
//v:thorough:bounds every byte string of 0 to 2000 bytes
func vh_C01_vu_TechnicalDataGen2V1() {
	b := vSym("b", 300+1700*vTier())
	x, err := unmarshalTechnicalDataGen2V1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 300 bytes
//v:thorough:bounds every byte string of 0 to 2000 bytes
func vh_C01_vu_TechnicalDataGen2V2() {
	b := vSym("b", 300+1700*vTier())
	x, err := unmarshalTechnicalDataGen2V2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_OverviewGen1() {
	n, err := sizeOfOverviewGen1(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_OverviewGen2V1() {
	n, err := sizeOfOverviewGen2V1(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_OverviewGen2V2() {
	n, err := sizeOfOverviewGen2V2(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_ActivitiesGen1() {
	n, err := sizeOfActivitiesGen1(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_ActivitiesGen2V1() {
	n, err := sizeOfActivitiesGen2V1(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_ActivitiesGen2V2() {
	n, err := sizeOfActivitiesGen2V2(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_EventsAndFaultsGen1() {
	n, err := sizeOfEventsAndFaultsGen1(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_EventsAndFaultsGen2V1() {
	n, err := sizeOfEventsAndFaultsGen2V1(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_EventsAndFaultsGen2V2() {
	n, err := sizeOfEventsAndFaultsGen2V2(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_DetailedSpeedGen1() {
	n, err := sizeOfDetailedSpeedGen1(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_DetailedSpeedGen2() {
	n, err := sizeOfDetailedSpeedGen2(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_TechnicalDataGen1() {
	n, err := sizeOfTechnicalDataGen1(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_TechnicalDataGen2V1() {
	n, err := sizeOfTechnicalDataGen2V1(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

//v:bounds every byte string of 0 to 400 bytes
//v:thorough:bounds every byte string of 0 to 4000 bytes
//v:budget 100
func vh_C01_vu_extent_TechnicalDataGen2V2() {
	n, err := sizeOfTechnicalDataGen2V2(vSym("b", 400+3600*vTier()))
	vAssert(err != nil || n >= 0, "C01 extent not negative")
	vReach("end")
}

