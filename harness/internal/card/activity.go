package card

import (
	"github.com/way-platform/tachograph-go/internal/dd"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	"google.golang.org/protobuf/proto"
)

// Driver activity data: four bytes of pointers, then the cyclic buffer.

// cyc returns n bytes of the buffer starting at position p, wrapping around its end.
func cyc(buf []byte, p, n int) []byte {
	out := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, buf[(p+i)%len(buf)])
	}
	return out
}

// refDaily checks one decoded daily record against its bytes.
func refDaily(r *cardv1.DriverActivityData_DailyRecord, b []byte) {
	if !r.GetValid() {
		vAssert(len(b) < 12 || !dBCD(b[8:10]), "DriverActivityData.daily_records refused only with undefined contents")
		vAssert(vEq(r.GetRawData(), b), "DriverActivityData.daily_records raw bytes")
		return
	}
	vAssert(len(b) >= 12, "DriverActivityData.daily_records long enough")
	vAssert(uint32(r.GetActivityPreviousRecordLength()) == rU16(b[0:2]), "DriverActivityData.previous_record_length")
	vAssert(uint32(r.GetActivityRecordLength()) == rU16(b[2:4]), "DriverActivityData.record_length")
	vAssert(rTime(r.GetActivityRecordDate(), b[4:8]), "DriverActivityData.record_date")
	refBcd(r.GetActivityDailyPresenceCounter(), b[8:10])
	vAssert(uint32(r.GetActivityDayDistance()) == rU16(b[10:12]), "DriverActivityData.day_distance")
	n := 0
	for i := 12; i+2 <= len(b); i += 2 {
		if rU16(b[i:i+2]) == 0xffff {
			continue
		}
		vAssert(n < len(r.GetActivityChangeInfo()), "DriverActivityData.activity_change_info complete")
		refActivity(r.GetActivityChangeInfo()[n], b[i:i+2])
		n++
	}
	vAssert(n == len(r.GetActivityChangeInfo()), "DriverActivityData.activity_change_info count")
}

// vActivity decodes, compares the records with the chain walked by the
// reference, and encodes back.
func vActivity(b []byte) {
	buf := b[4:]
	keep := vCopy(b)
	// the reference walks the chain from the newest record backwards
	var at, ln []int
	pos, total := int(rU16(b[2:4])), 0
	consistent := true
	for pos >= 0 && pos < len(buf) {
		h := cyc(buf, pos, 4)
		n, prev := int(rU16(h[2:4])), int(rU16(h[0:2]))
		if n == 0 {
			break
		}
		if n < 4 || total+n > len(buf) {
			consistent = false
			break
		}
		total += n
		at = append(at, pos)
		ln = append(ln, n)
		if prev == 0 {
			break
		}
		pos -= prev
		if pos < 0 {
			pos += len(buf)
		}
	}
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	if !consistent {
		// a chain that does not fit its buffer is refused, or cut to records that do
		if err == nil {
			rs := x.GetDailyRecords()
			vAssert(len(rs) <= len(at), "DriverActivityData inconsistent chain is cut to the records that fit")
			for i := range rs {
				k := len(rs) - 1 - i
				refDaily(rs[i], cyc(buf, at[k], ln[k]))
			}
		}
		vReach("inconsistent")
		return
	}
	vAssert(err == nil, "DriverActivityData accepted")
	vAssert(uint32(x.GetOldestDayRecordIndex()) == rU16(b[0:2]), "DriverActivityData.oldest_day_record_index")
	vAssert(uint32(x.GetNewestDayRecordIndex()) == rU16(b[2:4]), "DriverActivityData.newest_day_record_index")
	rs := x.GetDailyRecords()
	vAssert(len(rs) == len(at), "DriverActivityData.daily_records count")
	for i := range rs {
		k := len(at) - 1 - i
		refDaily(rs[i], cyc(buf, at[k], ln[k]))
	}
	out, err := appendDriverActivity(nil, x)
	vAssert(err == nil, "DriverActivityData encodes")
	vAssert(vEq(out, b), "DriverActivityData round trip")
	vAssert(vEq(b, keep), "DriverActivityData decoding leaves the input alone")
	vReach("end", uint64(len(rs)))
}

//v:bounds buffers of 0 to 9 bytes, all bytes and both pointers symbolic
//v:thorough:bounds buffers of 0 to 12 bytes, all bytes and both pointers symbolic
func vh_C10_any() {
	n := vPick("size", 10+3*vTier())
	vActivity(vBytes("b", 16)[:4+n])
}

// Small buffers whose newest header is one of a few, everything else symbolic.
//
//v:bounds buffers of 4 to 8 bytes; lengths of the newest record from 0 to 9, previous lengths 0, 1, 4, 8 and 9, newest record at every position; all other bytes symbolic
//v:unwind 300
func vh_C10_small() { vActivity(vSmallActivity()) }

//v:bounds activity buffers of 4 to 8 bytes; lengths of the newest record from 0 to 9, previous lengths 0, 1, 4, 8 and 9, newest record at every position; all other bytes symbolic
//v:unwind 300
func vh_C01_card_activity_small() {
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(vSmallActivity())
	vAssert((x == nil) != (err == nil), "DriverActivityData either decoded or refused")
	vReach("end")
}

func vSmallActivity() []byte {
	n := 4 + vPick("size", 5)
	b := vBytes("b", 12)[:4+n]
	p, prev, ln := vPick("newest", n), []int{0, 1, 4, 8, 9}[vPick("previous", 5)], vPick("length", 10)
	b[2], b[3] = 0, byte(p)
	buf := b[4:]
	buf[p], buf[(p+1)%n] = 0, byte(prev)
	buf[(p+2)%n], buf[(p+3)%n] = 0, byte(ln)
	return b
}

// A chain of daily records of given sizes placed from any position of the
// buffer (so that every record and every header wraps in some case).
//
//v:bounds 1 or 2 records of 12 or 14 bytes at every starting position of buffers with 0 to 5 spare bytes, all contents symbolic
//v:thorough:bounds 1 to 3 records of 12 to 16 bytes at every starting position of buffers with 0 to 5 spare bytes, all contents symbolic
//v:budget 300
func vh_C10_chain() {
	k := 1 + vPick("records", 2+vTier())
	var size [3]int
	total := 0
	for i := 0; i < k; i++ {
		size[i] = 12 + 2*vPick("size", 2+vTier())
		total += size[i]
	}
	n := total + 5*vPick("spare", 2)
	start := vPick("start", n)
	b := vBytes("b", 57)[:4+n]
	buf := b[4:]
	put := func(p int, v int) { buf[p%n], buf[(p+1)%n] = byte(v>>8), byte(v) }
	p := start
	for i := 0; i < k; i++ {
		prev := 0
		if i > 0 {
			prev = size[i-1]
		}
		put(p, prev)
		put(p+2, size[i])
		if i == k-1 {
			q := p % n
			b[2], b[3] = byte(q>>8), byte(q)
		}
		p += size[i]
	}
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	vAssert(err == nil, "DriverActivityData chain accepted")
	rs := x.GetDailyRecords()
	vAssert(len(rs) == k, "DriverActivityData chain record count")
	p = start
	for i := 0; i < k; i++ {
		refDaily(rs[i], cyc(buf, p%n, size[i]))
		p += size[i]
	}
	out, err := appendDriverActivity(nil, x)
	vAssert(err == nil && vEq(out, b), "DriverActivityData chain round trip")
	vReach("end", uint64(k))
}

// Encoding without the stored buffer lays the records out one after the other.
//
//v:bounds 1 or 2 valid records of 12 or 14 bytes, all
//v:thorough:bounds 1 to 3 valid records of 12 to 16 bytes, all contents symbolic (defined values)
func vh_C10_rebuild() {
	k := 1 + vPick("records", 2+vTier())
	var size [3]int
	total := 0
	for i := 0; i < k; i++ {
		size[i] = 12 + 2*vPick("size", 2+vTier())
		total += size[i]
	}
	b := vBytes("b", 52)[:4+total]
	p := 4
	for i := 0; i < k; i++ {
		prev := 0
		if i > 0 {
			prev = size[i-1]
		}
		b[p], b[p+1], b[p+2], b[p+3] = byte(prev>>8), byte(prev), byte(size[i]>>8), byte(size[i])
		vAssume(dBCD(b[p+8 : p+10]))
		for j := p + 12; j < p+size[i]; j += 2 {
			vAssume(rU16(b[j:j+2]) != 0xffff)
		}
		if i == k-1 {
			b[2], b[3] = byte((p-4)>>8), byte(p-4)
		}
		p += size[i]
	}
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	vAssert(err == nil, "DriverActivityData accepted")
	x.ClearRawData()
	before := proto.Clone(x)
	out, err := appendDriverActivity(nil, x)
	vAssert(err == nil, "DriverActivityData rebuild encodes")
	vAssert(vEq(out, b), "DriverActivityData rebuild")
	vAssert(vSame(x, before), "DriverActivityData rebuild leaves the message alone")
	vReach("end", uint64(k))
}

// The largest buffer a card announces (CardActivityLengthRange 13776 bytes)
// holds more than a year of short records.
//
//v:bounds chains of 366 to 1148 records of 12 bytes (the most a buffer of 13776 bytes holds), fixed lengths, contents zero
//v:budget 120
func vh_C10_many() {
	k := []int{366, 367, 1148}[vPick("records", 3)]
	b := make([]byte, 4, 4+12*k)
	for i := 0; i < k; i++ {
		r := []byte{0, 12, 0, 12, 0, 0, 0, 0, 0, 0, byte(i >> 8), byte(i)}
		if i == 0 {
			r[1] = 0
		}
		b = append(b, r...)
	}
	p := 12 * (k - 1)
	b[2], b[3] = byte(p>>8), byte(p)
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	vAssert(err == nil, "DriverActivityData long chain accepted")
	rs := x.GetDailyRecords()
	vAssert(len(rs) == k, "DriverActivityData long chain record count")
	for i := 0; i < k; i++ {
		vAssert(int(rs[i].GetActivityDayDistance()) == i, "DriverActivityData long chain order")
	}
	vReach("end", uint64(k))
}

//v:bounds 1 to 3 valid records of 12 or 14 bytes, all contents symbolic (defined values, with unused entries if the lengths are kept); record lengths kept or dropped
//v:thorough:bounds 1 to 3 valid records of 12 to 16 bytes, all contents symbolic (defined values, with unused entries if the lengths are kept); record lengths kept or dropped
func vh_C22_DriverActivity() {
	k := 1 + vPick("records", 3)
	drop := vPick("drop", 2) == 1
	var size [3]int
	total := 0
	for i := 0; i < k; i++ {
		size[i] = 12 + 2*vPick("size", 2+vTier())
		total += size[i]
	}
	b := vBytes("b", 52)[:4+total]
	p := 4
	for i := 0; i < k; i++ {
		prev := 0
		if i > 0 {
			prev = size[i-1]
		}
		b[p], b[p+1], b[p+2], b[p+3] = byte(prev>>8), byte(prev), byte(size[i]>>8), byte(size[i])
		vAssume(dBCD(b[p+8 : p+10]))
		for j := p + 12; j < p+size[i]; j += 2 {
		}
		for j := p + 12; drop && j < p+size[i]; j += 2 {
			vAssume(rU16(b[j:j+2]) != 0xffff)
		}
		if i == k-1 {
			b[2], b[3] = byte((p-4)>>8), byte(p-4)
		}
		p += size[i]
	}
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	vAssert(err == nil, "DriverActivityData accepted")
	x = vStrip(x).(*cardv1.DriverActivityData)
	z := x
	if drop {
		z = proto.Clone(x).(*cardv1.DriverActivityData)
		for _, r := range z.GetDailyRecords() {
			r.ClearActivityPreviousRecordLength()
			r.ClearActivityRecordLength()
		}
	}
	out, err := appendDriverActivity(nil, z)
	vAssert(err == nil, "DriverActivityData without stored bytes encodes")
	vAssert(len(out) == len(b), "DriverActivityData without stored bytes encodes to its size")
	y, err := o.unmarshalDriverActivityData(out)
	vAssert(err == nil, "DriverActivityData without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "DriverActivityData without stored bytes decodes to the same fields")
	vReach("end", uint64(k))
}

//v:bounds 1 or 2 valid records of 12 to 16 bytes, all contents symbolic (defined values); an activity change of the newest record removed or one of any contents added, record lengths kept or dropped
func vh_C22_DriverActivity_changes() {
	k := 1 + vPick("records", 2)
	drop := vPick("drop", 2) == 1
	var size [2]int
	total := 0
	for i := 0; i < k; i++ {
		size[i] = 12 + 2*vPick("size", 3)
		total += size[i]
	}
	b := vBytes("b", 36)[:4+total]
	p := 4
	for i := 0; i < k; i++ {
		prev := 0
		if i > 0 {
			prev = size[i-1]
		}
		b[p], b[p+1], b[p+2], b[p+3] = byte(prev>>8), byte(prev), byte(size[i]>>8), byte(size[i])
		vAssume(dBCD(b[p+8 : p+10]))
		if i == k-1 {
			b[2], b[3] = byte((p-4)>>8), byte(p-4)
		} else {
			for j := p + 12; j < p+size[i]; j += 2 {
				vAssume(rU16(b[j:j+2]) != 0xffff)
			}
		}
		p += size[i]
	}
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	vAssert(err == nil, "DriverActivityData accepted")
	vAssert(len(x.GetDailyRecords()) == k, "DriverActivityData record count")
	x = vStrip(x).(*cardv1.DriverActivityData)
	r := x.GetDailyRecords()[k-1]
	cs := r.GetActivityChangeInfo()
	if vPick("change", 2) == 0 {
		vAssume(len(cs) > 0)
		r.SetActivityChangeInfo(cs[1:])
	} else {
		a := vBytes("a", 2)
		vAssume(rU16(a) != 0xffff)
		var d dd.UnmarshalOptions
		c, err := d.UnmarshalActivityChangeInfo(a)
		vAssert(err == nil, "ActivityChangeInfo accepted")
		r.SetActivityChangeInfo(append(cs, vStrip(c).(*ddv1.ActivityChangeInfo)))
	}
	if drop {
		for _, r := range x.GetDailyRecords() {
			r.ClearActivityPreviousRecordLength()
			r.ClearActivityRecordLength()
		}
	}
	out, err := appendDriverActivity(nil, x)
	vAssert(err == nil, "DriverActivityData with other changes encodes")
	y, err := o.unmarshalDriverActivityData(out)
	vAssert(err == nil, "DriverActivityData with other changes decodes")
	vAssert(len(y.GetDailyRecords()) == k, "DriverActivityData with other changes decodes to as many records")
	for _, m := range [2]*cardv1.DriverActivityData{x, y} {
		for _, r := range m.GetDailyRecords() {
			r.ClearActivityPreviousRecordLength()
			r.ClearActivityRecordLength()
		}
	}
	vAssert(vSame(vStrip(y), x), "DriverActivityData decodes to the changes it was given")
	vReach("end", uint64(k))
}
