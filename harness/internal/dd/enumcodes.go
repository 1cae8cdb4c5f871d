package dd

// Written by tools/genenumh.py.

import (
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

//v:bounds all 256 codes of CalibrationPurpose and all 32 bit enum numbers
func vh_C07_CalibrationPurpose() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.CalibrationPurpose](c)
	want := eCalibrationPurpose[c]
	vAssert((err == nil) == (want >= 0), "CalibrationPurpose: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "CalibrationPurpose: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "CalibrationPurpose: decoded value encodes")
		vAssert(back == c, "CalibrationPurpose: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.CalibrationPurpose(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eCalibrationPurpose[b]) == int32(num), "CalibrationPurpose: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.CalibrationPurpose](b)
		vAssert(err == nil && w == num, "CalibrationPurpose: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eCalibrationPurpose[c]) != int32(num) || int32(num) < 0, "CalibrationPurpose: every annotated value encodes")
	}
}

//v:bounds all 256 codes of CardSlotNumber and all 32 bit enum numbers
func vh_C07_CardSlotNumber() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.CardSlotNumber](c)
	want := eCardSlotNumber[c]
	vAssert((err == nil) == (want >= 0), "CardSlotNumber: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "CardSlotNumber: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "CardSlotNumber: decoded value encodes")
		vAssert(back == c, "CardSlotNumber: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.CardSlotNumber(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eCardSlotNumber[b]) == int32(num), "CardSlotNumber: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.CardSlotNumber](b)
		vAssert(err == nil && w == num, "CardSlotNumber: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eCardSlotNumber[c]) != int32(num) || int32(num) < 0, "CardSlotNumber: every annotated value encodes")
	}
}

//v:bounds all 256 codes of ClockStopMode and all 32 bit enum numbers
func vh_C07_ClockStopMode() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.ClockStopMode](c)
	want := eClockStopMode[c]
	vAssert((err == nil) == (want >= 0), "ClockStopMode: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "ClockStopMode: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "ClockStopMode: decoded value encodes")
		vAssert(back == c, "ClockStopMode: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.ClockStopMode(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eClockStopMode[b]) == int32(num), "ClockStopMode: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.ClockStopMode](b)
		vAssert(err == nil && w == num, "ClockStopMode: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eClockStopMode[c]) != int32(num) || int32(num) < 0, "ClockStopMode: every annotated value encodes")
	}
}

//v:bounds all 256 codes of CompanyActivityType and all 32 bit enum numbers
func vh_C07_CompanyActivityType() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.CompanyActivityType](c)
	want := eCompanyActivityType[c]
	vAssert((err == nil) == (want >= 0), "CompanyActivityType: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "CompanyActivityType: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "CompanyActivityType: decoded value encodes")
		vAssert(back == c, "CompanyActivityType: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.CompanyActivityType(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eCompanyActivityType[b]) == int32(num), "CompanyActivityType: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.CompanyActivityType](b)
		vAssert(err == nil && w == num, "CompanyActivityType: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eCompanyActivityType[c]) != int32(num) || int32(num) < 0, "CompanyActivityType: every annotated value encodes")
	}
}

//v:bounds all 256 codes of DriverActivityValue and all 32 bit enum numbers
func vh_C07_DriverActivityValue() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.DriverActivityValue](c)
	want := eDriverActivityValue[c]
	vAssert((err == nil) == (want >= 0), "DriverActivityValue: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "DriverActivityValue: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "DriverActivityValue: decoded value encodes")
		vAssert(back == c, "DriverActivityValue: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.DriverActivityValue(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eDriverActivityValue[b]) == int32(num), "DriverActivityValue: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.DriverActivityValue](b)
		vAssert(err == nil && w == num, "DriverActivityValue: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eDriverActivityValue[c]) != int32(num) || int32(num) < 0, "DriverActivityValue: every annotated value encodes")
	}
}

//v:bounds all 256 codes of DrivingStatus and all 32 bit enum numbers
func vh_C07_DrivingStatus() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.DrivingStatus](c)
	want := eDrivingStatus[c]
	vAssert((err == nil) == (want >= 0), "DrivingStatus: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "DrivingStatus: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "DrivingStatus: decoded value encodes")
		vAssert(back == c, "DrivingStatus: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.DrivingStatus(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eDrivingStatus[b]) == int32(num), "DrivingStatus: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.DrivingStatus](b)
		vAssert(err == nil && w == num, "DrivingStatus: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eDrivingStatus[c]) != int32(num) || int32(num) < 0, "DrivingStatus: every annotated value encodes")
	}
}

//v:bounds all 256 codes of EntryTypeDailyWorkPeriod and all 32 bit enum numbers
func vh_C07_EntryTypeDailyWorkPeriod() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.EntryTypeDailyWorkPeriod](c)
	want := eEntryTypeDailyWorkPeriod[c]
	vAssert((err == nil) == (want >= 0), "EntryTypeDailyWorkPeriod: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "EntryTypeDailyWorkPeriod: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "EntryTypeDailyWorkPeriod: decoded value encodes")
		vAssert(back == c, "EntryTypeDailyWorkPeriod: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.EntryTypeDailyWorkPeriod(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eEntryTypeDailyWorkPeriod[b]) == int32(num), "EntryTypeDailyWorkPeriod: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.EntryTypeDailyWorkPeriod](b)
		vAssert(err == nil && w == num, "EntryTypeDailyWorkPeriod: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eEntryTypeDailyWorkPeriod[c]) != int32(num) || int32(num) < 0, "EntryTypeDailyWorkPeriod: every annotated value encodes")
	}
}

//v:bounds all 256 codes of EquipmentType and all 32 bit enum numbers
func vh_C07_EquipmentType() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.EquipmentType](c)
	want := eEquipmentType[c]
	vAssert((err == nil) == (want >= 0), "EquipmentType: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "EquipmentType: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "EquipmentType: decoded value encodes")
		vAssert(back == c, "EquipmentType: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.EquipmentType(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eEquipmentType[b]) == int32(num), "EquipmentType: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.EquipmentType](b)
		vAssert(err == nil && w == num, "EquipmentType: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eEquipmentType[c]) != int32(num) || int32(num) < 0, "EquipmentType: every annotated value encodes")
	}
}

//v:bounds all 256 codes of EventFaultRecordPurpose and all 32 bit enum numbers
func vh_C07_EventFaultRecordPurpose() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.EventFaultRecordPurpose](c)
	want := eEventFaultRecordPurpose[c]
	vAssert((err == nil) == (want >= 0), "EventFaultRecordPurpose: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "EventFaultRecordPurpose: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "EventFaultRecordPurpose: decoded value encodes")
		vAssert(back == c, "EventFaultRecordPurpose: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.EventFaultRecordPurpose(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eEventFaultRecordPurpose[b]) == int32(num), "EventFaultRecordPurpose: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.EventFaultRecordPurpose](b)
		vAssert(err == nil && w == num, "EventFaultRecordPurpose: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eEventFaultRecordPurpose[c]) != int32(num) || int32(num) < 0, "EventFaultRecordPurpose: every annotated value encodes")
	}
}

//v:bounds all 256 codes of EventFaultType and all 32 bit enum numbers
func vh_C07_EventFaultType() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.EventFaultType](c)
	want := eEventFaultType[c]
	vAssert((err == nil) == (want >= 0), "EventFaultType: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "EventFaultType: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "EventFaultType: decoded value encodes")
		vAssert(back == c, "EventFaultType: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.EventFaultType(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eEventFaultType[b]) == int32(num), "EventFaultType: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.EventFaultType](b)
		vAssert(err == nil && w == num, "EventFaultType: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eEventFaultType[c]) != int32(num) || int32(num) < 0, "EventFaultType: every annotated value encodes")
	}
}

//v:bounds all 256 codes of Generation and all 32 bit enum numbers
func vh_C07_Generation() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.Generation](c)
	want := eGeneration[c]
	vAssert((err == nil) == (want >= 0), "Generation: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "Generation: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "Generation: decoded value encodes")
		vAssert(back == c, "Generation: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.Generation(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eGeneration[b]) == int32(num), "Generation: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.Generation](b)
		vAssert(err == nil && w == num, "Generation: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eGeneration[c]) != int32(num) || int32(num) < 0, "Generation: every annotated value encodes")
	}
}

//v:bounds all 256 codes of LoadType and all 32 bit enum numbers
func vh_C07_LoadType() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.LoadType](c)
	want := eLoadType[c]
	vAssert((err == nil) == (want >= 0), "LoadType: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "LoadType: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "LoadType: decoded value encodes")
		vAssert(back == c, "LoadType: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.LoadType(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eLoadType[b]) == int32(num), "LoadType: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.LoadType](b)
		vAssert(err == nil && w == num, "LoadType: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eLoadType[c]) != int32(num) || int32(num) < 0, "LoadType: every annotated value encodes")
	}
}

//v:bounds all 256 codes of NationNumeric and all 32 bit enum numbers
func vh_C07_NationNumeric() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.NationNumeric](c)
	want := eNationNumeric[c]
	vAssert((err == nil) == (want >= 0), "NationNumeric: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "NationNumeric: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "NationNumeric: decoded value encodes")
		vAssert(back == c, "NationNumeric: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.NationNumeric(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eNationNumeric[b]) == int32(num), "NationNumeric: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.NationNumeric](b)
		vAssert(err == nil && w == num, "NationNumeric: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eNationNumeric[c]) != int32(num) || int32(num) < 0, "NationNumeric: every annotated value encodes")
	}
}

//v:bounds all 256 codes of OperationType and all 32 bit enum numbers
func vh_C07_OperationType() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.OperationType](c)
	want := eOperationType[c]
	vAssert((err == nil) == (want >= 0), "OperationType: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "OperationType: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "OperationType: decoded value encodes")
		vAssert(back == c, "OperationType: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.OperationType(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eOperationType[b]) == int32(num), "OperationType: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.OperationType](b)
		vAssert(err == nil && w == num, "OperationType: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eOperationType[c]) != int32(num) || int32(num) < 0, "OperationType: every annotated value encodes")
	}
}

//v:bounds all 256 codes of PositionAuthenticationStatus and all 32 bit enum numbers
func vh_C07_PositionAuthenticationStatus() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.PositionAuthenticationStatus](c)
	want := ePositionAuthenticationStatus[c]
	vAssert((err == nil) == (want >= 0), "PositionAuthenticationStatus: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "PositionAuthenticationStatus: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "PositionAuthenticationStatus: decoded value encodes")
		vAssert(back == c, "PositionAuthenticationStatus: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.PositionAuthenticationStatus(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(ePositionAuthenticationStatus[b]) == int32(num), "PositionAuthenticationStatus: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.PositionAuthenticationStatus](b)
		vAssert(err == nil && w == num, "PositionAuthenticationStatus: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(ePositionAuthenticationStatus[c]) != int32(num) || int32(num) < 0, "PositionAuthenticationStatus: every annotated value encodes")
	}
}

//v:bounds all 256 codes of SlotCardType and all 32 bit enum numbers
func vh_C07_SlotCardType() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.SlotCardType](c)
	want := eSlotCardType[c]
	vAssert((err == nil) == (want >= 0), "SlotCardType: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "SlotCardType: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "SlotCardType: decoded value encodes")
		vAssert(back == c, "SlotCardType: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.SlotCardType(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eSlotCardType[b]) == int32(num), "SlotCardType: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.SlotCardType](b)
		vAssert(err == nil && w == num, "SlotCardType: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eSlotCardType[c]) != int32(num) || int32(num) < 0, "SlotCardType: every annotated value encodes")
	}
}

//v:bounds all 256 codes of SpecificConditionType and all 32 bit enum numbers
func vh_C07_SpecificConditionType() {
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.SpecificConditionType](c)
	want := eSpecificConditionType[c]
	vAssert((err == nil) == (want >= 0), "SpecificConditionType: decoding accepts exactly the annotated codes")
	if err == nil {
		vAssert(int32(v) == int32(want), "SpecificConditionType: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "SpecificConditionType: decoded value encodes")
		vAssert(back == c, "SpecificConditionType: decoded value encodes to its code")
		vReach("code", uint64(back))
	}
	num := ddv1.SpecificConditionType(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {
		vAssert(int32(eSpecificConditionType[b]) == int32(num), "SpecificConditionType: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.SpecificConditionType](b)
		vAssert(err == nil && w == num, "SpecificConditionType: encoded value decodes to itself")
		vReach("value", uint64(b))
	} else {
		vAssert(int32(eSpecificConditionType[c]) != int32(num) || int32(num) < 0, "SpecificConditionType: every annotated value encodes")
	}
}
