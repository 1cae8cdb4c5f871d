package dd

import (
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// dVIN: a vehicle identification number as the dictionary defines it, IA5
// printable characters padded with spaces at the end.
func dVIN(b []byte) bool {
	ok := true
	pad := false
	for i := range b {
		pr := b[i] > 0x20 && b[i] < 0x7f
		ok = ok && (pr && !pad || b[i] == 0x20)
		pad = pad || b[i] == 0x20
	}
	return ok
}

//v:bounds all 4 byte values
func vh_C04_TimeReal() {
	b := vBytes("b", 4)
	var o UnmarshalOptions
	t, err := o.UnmarshalTimeReal(b)
	vAssert(err == nil, "TimeReal accepted")
	out, err := AppendTimeReal(nil, t)
	vAssert(err == nil, "TimeReal encodes")
	vAssert(vEq(out, b), "TimeReal round trip")
	vReach("end", uint64(len(out)), uint64(out[0]))
}

//v:bounds every length up to 12 except 4
func vh_C04_TimeReal_size() {
	b := vSym("b", 12)
	vAssume(len(b) != 4)
	var o UnmarshalOptions
	_, err := o.UnmarshalTimeReal(b)
	vAssert(err != nil, "TimeReal refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 4 byte values
func vh_C05_TimeReal() {
	b := vBytes("b", 4)
	var o UnmarshalOptions
	t, err := o.UnmarshalTimeReal(b)
	vAssert(err == nil, "TimeReal accepted")
	vAssert(rTime(t, b), "TimeReal is seconds since 1970")
	vAssert((t == nil) == (rU32(b) == 0), "TimeReal absent exactly for zero")
	vReach("end", uint64(t.GetSeconds()))
}

//v:bounds all seconds values of 32 bits, nanoseconds 0 to 999999999
func vh_C06_TimeReal() {
	s := vU32("s")
	n := vU32("n")
	vAssume(n < 1000000000)
	out, err := AppendTimeReal([]byte{1}, &timestamppb.Timestamp{Seconds: int64(s), Nanos: int32(n)})
	if n != 0 {
		vAssert(err != nil, "TimeReal refuses fractions of a second")
		return
	}
	vAssert(err == nil && len(out) == 5 && out[0] == 1 && rU32(out[1:]) == s, "TimeReal written as seconds")
	vReach("end", uint64(out[1]))
}

//v:bounds all 3 byte values
func vh_C04_Odometer() {
	b := vBytes("b", 3)
	var o UnmarshalOptions
	v, err := o.UnmarshalOdometer(b)
	vAssert(err == nil, "Odometer accepted")
	vAssert(v == rU24(b), "Odometer value")
	vAssert(vEq(AppendOdometer(nil, v), b), "Odometer round trip")
	p := vBytes("p", 2)
	out := AppendOdometer(vCopy(p), v)
	vAssert(vEq(out, append(vCopy(p), b...)), "Odometer appends")
	vReach("end", uint64(v))
}

//v:bounds all 3 byte values
func vh_C05_Odometer() {
	b := vBytes("b", 3)
	var o UnmarshalOptions
	v, err := o.UnmarshalOdometer(b)
	vAssert(err == nil, "Odometer accepted")
	vAssert(v == rU24(b), "Odometer value")
	vReach("end", uint64(v))
}

//v:bounds every length up to 9 except 3
func vh_C04_Odometer_size() {
	b := vSym("b", 9)
	vAssume(len(b) != 3)
	var o UnmarshalOptions
	_, err := o.UnmarshalOdometer(b)
	vAssert(err != nil, "Odometer refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds BCD strings of 1 and 2 bytes (thorough: 3), all digits
func vh_C04_BcdString() {
	n := vPick("n", 2+vTier()) + 1
	b := vBytes("b", 4)[:n]
	vAssume(dBCD(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalBcdString(b)
	vAssert(err == nil, "BcdString accepted")
	out, err := AppendBcdString(nil, x)
	vAssert(err == nil, "BcdString encodes")
	vAssert(vEq(out, b), "BcdString round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds BCD strings of 1 to 3 bytes (thorough: 4), all byte values
func vh_C05_BcdString() {
	n := vPick("n", 3+vTier()) + 1
	b := vBytes("b", 4)[:n]
	var o UnmarshalOptions
	x, err := o.UnmarshalBcdString(b)
	vAssert((err == nil) == dBCD(b), "BcdString accepts exactly decimal digits")
	if err != nil {
		return
	}
	refBcd(x, b)
	vReach("end", uint64(x.GetValue()))
}

//v:bounds every 32 bit value, lengths from -1 to 2 (thorough: 3)
func vh_C06_BcdString() {
	v := int32(vU32("v"))
	n := vPick("n", 4+vTier()) - 1
	var x ddv1.BcdString
	x.SetValue(v)
	x.SetLength(int32(n))
	p := vBytes("p", 2)
	out, err := AppendBcdString(vCopy(p), &x)
	max := int64(1)
	for i := 0; i < n; i++ {
		max *= 100
	}
	fits := n > 0 && v >= 0 && int64(v) < max
	vAssert((err == nil) == fits, "BcdString encodes exactly the values that fit")
	if err == nil {
		vAssert(len(out) == 2+n, "BcdString has its length")
		vAssert(vEq(out[:2], p), "BcdString appends")
		vAssert(dBCD(out[2:]) && rBCD(out[2:]) == int64(v), "BcdString digits")
		vReach("end", uint64(out[2]))
	}
}

//v:bounds BCD strings of 5 to 8 bytes, all digits in the first two bytes, the rest zero
func vh_C05_BcdString_long() {
	n := vPick("n", 4) + 5
	b := append(vBytes("b", 2), make([]byte, n-2)...)
	vAssume(dBCD(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalBcdString(b)
	if err == nil {
		vAssert(int64(x.GetValue()) == rBCD(b), "BcdString value of more than four bytes")
		vReach("end", uint64(x.GetValue()))
	}
	vReach("any")
}

//v:bounds StringValue of 2, 3, 9, 14, 36 and 40 bytes, all byte values with a defined code page
func vh_C04_StringValue() {
	b := vBytes("b", 40)[:strLens[vPick("n", 6)]]
	vAssume(dCodePage(b[0]))
	var o UnmarshalOptions
	x, err := o.UnmarshalStringValue(b)
	vAssert(err == nil, "StringValue accepted")
	out, err := AppendStringValue(nil, x)
	vAssert(err == nil, "StringValue encodes")
	vAssert(vEq(out, b), "StringValue round trip")
	vReach("end", uint64(len(out)))
}

var strLens = []int{2, 3, 9, 14, 36, 40, 1, 0}

//v:bounds StringValue of 0, 1, 2, 3, 9, 14, 36 and 40 bytes, all byte values
func vh_C05_StringValue() {
	b := vBytes("b", 40)[:strLens[vPick("n", 8)]]
	var o UnmarshalOptions
	x, err := o.UnmarshalStringValue(b)
	vAssert((err == nil) == (len(b) >= 2), "StringValue accepted from two bytes on")
	if err != nil {
		return
	}
	refStr(x, b)
	vReach("end", uint64(len(b)))
}

//v:bounds Ia5StringValue of 1, 2, 3, 9, 14, 36 and 40 bytes, all byte values
func vh_C04_Ia5StringValue() {
	b := vBytes("b", 40)[:strLens[vPick("n", 7)]]
	var o UnmarshalOptions
	x, err := o.UnmarshalIa5StringValue(b)
	vAssert(err == nil, "Ia5StringValue accepted")
	refIa5(x, b)
	out, err := AppendIa5StringValue(nil, x)
	vAssert(err == nil, "Ia5StringValue encodes")
	vAssert(vEq(out, b), "Ia5StringValue round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds Ia5StringValue and StringValue of 2, 3, 9, 14, 36 and 40 bytes, buffers of 2 bytes
func vh_C19_Strings() {
	b := vBytes("b", 40)[:strLens[vPick("n", 6)]]
	keep := vCopy(b)
	p := vBytes("p", 2)
	var o UnmarshalOptions
	x, err := o.UnmarshalIa5StringValue(b)
	vAssert(err == nil, "Ia5StringValue accepted")
	cx := proto.Clone(x)
	out, err := AppendIa5StringValue(vCopy(p), x)
	vAssert(err == nil && vEq(out, append(vCopy(p), b...)), "Ia5StringValue appends")
	vAssert(vSame(x, cx), "Ia5StringValue message untouched")
	y, err := o.UnmarshalStringValue(b)
	vAssert(err == nil, "StringValue accepted")
	cy := proto.Clone(y)
	out1, err := AppendStringValue(nil, y)
	vAssert(err == nil, "StringValue encodes")
	out, err = AppendStringValue(vCopy(p), y)
	vAssert(err == nil && vEq(out, append(vCopy(p), out1...)), "StringValue appends")
	vAssert(vSame(y, cy), "StringValue message untouched")
	vAssert(vEq(b, keep), "string decoding and encoding leave the input alone")
	vReach("end", uint64(len(b)))
}

//v:bounds StringValue of 2, 3, 9, 14, 36 and 40 bytes whose encoding is changed to any other; Ia5StringValue of such sizes whose text is changed to one of 1 byte
func vh_C19_Strings_edited() {
	b := vBytes("b", 40)[:strLens[vPick("n", 6)]]
	keep := vCopy(b)
	p := vBytes("p", 2)
	var o UnmarshalOptions
	if vPick("kind", 2) == 0 {
		x, err := o.UnmarshalIa5StringValue(b)
		vAssert(err == nil, "Ia5StringValue accepted")
		x.SetValue("A")
		cx := proto.Clone(x)
		out, err := AppendIa5StringValue(append(make([]byte, 0, 60), p...), x)
		vAssert(err == nil && len(out) >= 2 && vEq(out[:2], p), "Ia5StringValue appends after a change")
		vAssert(vSame(x, cx), "Ia5StringValue message untouched by encoding after a change")
		out1, err := AppendIa5StringValue(nil, x)
		vAssert(err == nil && vEq(out1, out[2:]), "Ia5StringValue encodes the same twice after a change")
	} else {
		y, err := o.UnmarshalStringValue(b)
		vAssert(err == nil, "StringValue accepted")
		y.SetEncoding(ddv1.Encoding(vRange("encoding", 1, 18)))
		cy := proto.Clone(y)
		out1, err1 := AppendStringValue(nil, y)
		vAssert(vSame(y, cy), "StringValue message untouched by encoding after a change")
		out, err := AppendStringValue(append(make([]byte, 0, 60), p...), y)
		vAssert((err == nil) == (err1 == nil), "StringValue encodes into any buffer after a change")
		vAssert(vSame(y, cy), "StringValue message untouched by encoding after a change")
		if err == nil {
			vAssert(vEq(out, append(vCopy(p), out1...)), "StringValue appends after a change")
		}
	}
	vAssert(vEq(b, keep), "encoding a changed string leaves the input alone")
	vReach("end", uint64(len(b)))
}

//v:bounds all bytes of activity changes, control types and month/years with every field changed to any value
func vh_C19_small_edited() {
	b, c, p := vBytes("b", 2), vBytes("new", 2), vBytes("p", 2)
	keep := vCopy(b)
	buf := append(make([]byte, 0, 20), p...)
	var o UnmarshalOptions
	switch vPick("kind", 3) {
	case 0:
		x, err := o.UnmarshalActivityChangeInfo(b)
		vAssert(err == nil, "ActivityChangeInfo accepted")
		x.SetCrew(vBool("flag"))
		x.SetInserted(vBool("flag2"))
		x.SetTimeOfChangeMinutes(int32(rU16(c)) & 0x7ff)
		cx := proto.Clone(x)
		out, err := AppendActivityChangeInfo(buf, x)
		vAssert(err == nil && len(out) == 4 && vEq(out[:2], p), "ActivityChangeInfo appends after a change")
		vAssert(vSame(x, cx), "ActivityChangeInfo encoding after a change leaves the message alone")
		out1, err := AppendActivityChangeInfo(nil, x)
		vAssert(err == nil && vEq(out1, out[2:]), "ActivityChangeInfo encodes the same twice after a change")
	case 1:
		x, err := o.UnmarshalControlType(b[:1])
		vAssert(err == nil, "ControlType accepted")
		x.SetPrinting(vBool("flag"))
		x.SetDisplay(vBool("flag2"))
		cx := proto.Clone(x)
		out, err := AppendControlType(buf, x)
		vAssert(err == nil && len(out) == 3 && vEq(out[:2], p), "ControlType appends after a change")
		vAssert(vSame(x, cx), "ControlType encoding after a change leaves the message alone")
		out1, err := AppendControlType(nil, x)
		vAssert(err == nil && vEq(out1, out[2:]), "ControlType encodes the same twice after a change")
	case 2:
		x, err := o.UnmarshalMonthYear(b)
		vAssert(err == nil, "MonthYear accepted")
		x.SetMonth(int32(c[0]) % 12)
		x.SetYear(2000 + int32(c[1])%100)
		cx := proto.Clone(x)
		out, err := AppendMonthYear(buf, x)
		vAssert(err == nil && len(out) == 4 && vEq(out[:2], p), "MonthYear appends after a change")
		vAssert(vSame(x, cx), "MonthYear encoding after a change leaves the message alone")
		out1, err := AppendMonthYear(nil, x)
		vAssert(err == nil && vEq(out1, out[2:]), "MonthYear encodes the same twice after a change")
	}
	vAssert(vEq(b, keep), "encoding a changed item leaves the input alone")
	vReach("end")
}

//v:bounds all 2 byte values and all values of the changed field
func vh_C06_ActivityChangeInfo() {
	a := vBytes("b", 2)
	c := vBytes("new", 2)
	var o UnmarshalOptions
	x, err := o.UnmarshalActivityChangeInfo(a)
	vAssert(err == nil, "ActivityChangeInfo accepted")
	y, err := o.UnmarshalActivityChangeInfo(c)
	vAssert(err == nil, "ActivityChangeInfo accepted")
	mask := uint32(0)
	switch vPick("field", 5) {
	case 0:
		x.SetSlot(y.GetSlot())
		mask = 0x8000
	case 1:
		x.SetCrew(y.GetCrew())
		mask = 0x4000
	case 2:
		x.SetInserted(y.GetInserted())
		mask = 0x2000
	case 3:
		x.SetActivity(y.GetActivity())
		mask = 0x1800
	case 4:
		x.SetTimeOfChangeMinutes(y.GetTimeOfChangeMinutes())
		mask = 0x7ff
	}
	out, err := AppendActivityChangeInfo(nil, x)
	vAssert(err == nil && len(out) == 2, "ActivityChangeInfo encodes after a field change")
	vAssert(rU16(out) == rU16(a)&^mask|rU16(c)&mask, "ActivityChangeInfo field change writes exactly its bits")
	vReach("end", uint64(out[0]), uint64(out[1]))
}

//v:bounds all byte values and all values of the changed flag
func vh_C06_ControlType() {
	a := vBytes("b", 1)
	v := vBool("new")
	var o UnmarshalOptions
	x, err := o.UnmarshalControlType(a)
	vAssert(err == nil, "ControlType accepted")
	mask := byte(0)
	switch vPick("field", 5) {
	case 0:
		x.SetCardDownloading(v)
		mask = 0x80
	case 1:
		x.SetVuDownloading(v)
		mask = 0x40
	case 2:
		x.SetPrinting(v)
		mask = 0x20
	case 3:
		x.SetDisplay(v)
		mask = 0x10
	case 4:
		x.SetCalibrationChecking(v)
		mask = 0x08
	}
	out, err := AppendControlType(nil, x)
	vAssert(err == nil && len(out) == 1, "ControlType encodes after a flag change")
	want := a[0] &^ mask
	if v {
		want |= mask
	}
	vAssert(out[0] == want, "ControlType flag change writes exactly its bit")
	vReach("end", uint64(out[0]))
}

//v:bounds all BCD byte values; month 1 to 12 and year 2000 to 2099 as new values
func vh_C06_MonthYear() {
	a := vBytes("b", 2)
	vAssume(dBCD(a))
	m := vRange("month", 1, 12)
	yr := vRange("year", 2000, 2099)
	var o UnmarshalOptions
	x, err := o.UnmarshalMonthYear(a)
	vAssert(err == nil, "MonthYear accepted")
	f := vPick("field", 2)
	if f == 0 {
		x.SetMonth(int32(m))
	} else {
		x.SetYear(int32(yr))
	}
	out, err := AppendMonthYear(nil, x)
	vAssert(err == nil && len(out) == 2, "MonthYear encodes after a field change")
	if f == 0 {
		vAssert(dBCD(out) && rBCD(out[:1]) == int64(m) && out[1] == a[1], "MonthYear month change")
	} else {
		vAssert(dBCD(out) && rBCD(out[1:]) == int64(yr-2000) && out[0] == a[0], "MonthYear year change")
	}
	vReach("end", uint64(out[0]))
}

//v:bounds all bytes of two G2 vehicle records; the new VIN is printable, space padded
func vh_C06_CardVehicleRecordG2_vin() {
	b := vBytes("b", 48)
	vAssume(dCardVehicle(b))
	v := vBytes("vin", 17)
	for i := range v {
		vAssume(v[i] > 0x20 && v[i] < 0x7f)
	}
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	vAssert(err == nil, "CardVehicleRecordG2 accepted")
	x.SetVehicleIdentificationNumber(string(v))
	out, err := AppendCardVehicleRecordG2(nil, x)
	vAssert(err == nil && len(out) == 48, "CardVehicleRecordG2 encodes after a VIN change")
	vAssert(vEq(out[:31], b[:31]) && vEq(out[31:], v), "CardVehicleRecordG2 VIN change writes exactly the VIN")
	vReach("end", uint64(out[31]))
}

//v:bounds all bytes; VIN printable and full
func vh_C05_CardVehicleRecordG2_vin() {
	b := vBytes("b", 48)
	vAssume(dCardVehicle(b))
	v := b[31:48]
	for i := range v {
		vAssume(v[i] > 0x20 && v[i] < 0x7f)
	}
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	vAssert(err == nil, "CardVehicleRecordG2 accepted")
	vAssert(x.GetVehicleIdentificationNumber() == string(v), "CardVehicleRecordG2.vin")
	vReach("end")
}
