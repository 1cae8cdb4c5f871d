package vu

import (
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

// vTag is one transfer type of a vehicle unit file with the layout of its
// value as Appendix 7 describes it.
type vTag struct {
	code   byte
	typ    vuv1.TransferType
	gen    ddv1.Generation
	secs   []vSec // first generation: sections in order
	arrays int    // second generation: number of record arrays
}

// vSec is a run of fixed bytes, or a count of cnt bytes followed by records of rec bytes.
type vSec struct{ fixed, cnt, rec int }

var vTags = []vTag{
	{0x01, vuv1.TransferType_OVERVIEW_GEN1, ddv1.Generation_GENERATION_1, []vSec{{fixed: 491}, {cnt: 1, rec: 98}, {cnt: 1, rec: 31}, {fixed: 128}}, 0},
	{0x02, vuv1.TransferType_ACTIVITIES_GEN1, ddv1.Generation_GENERATION_1, []vSec{{fixed: 7}, {cnt: 2, rec: 129}, {cnt: 2, rec: 2}, {cnt: 1, rec: 28}, {cnt: 2, rec: 5}, {fixed: 128}}, 0},
	{0x03, vuv1.TransferType_EVENTS_AND_FAULTS_GEN1, ddv1.Generation_GENERATION_1, []vSec{{cnt: 1, rec: 82}, {cnt: 1, rec: 83}, {fixed: 9}, {cnt: 1, rec: 31}, {cnt: 1, rec: 98}, {fixed: 128}}, 0},
	{0x04, vuv1.TransferType_DETAILED_SPEED_GEN1, ddv1.Generation_GENERATION_1, []vSec{{cnt: 2, rec: 64}, {fixed: 128}}, 0},
	{0x05, vuv1.TransferType_TECHNICAL_DATA_GEN1, ddv1.Generation_GENERATION_1, []vSec{{fixed: 136}, {cnt: 1, rec: 167}, {fixed: 128}}, 0},
	{0x21, vuv1.TransferType_OVERVIEW_GEN2_V1, ddv1.Generation_GENERATION_2, nil, 11},
	{0x22, vuv1.TransferType_ACTIVITIES_GEN2_V1, ddv1.Generation_GENERATION_2, nil, 8},
	{0x23, vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V1, ddv1.Generation_GENERATION_2, nil, 6},
	{0x24, vuv1.TransferType_DETAILED_SPEED_GEN2, ddv1.Generation_GENERATION_2, nil, 2},
	{0x25, vuv1.TransferType_TECHNICAL_DATA_GEN2_V1, ddv1.Generation_GENERATION_2, nil, 8},
	{0x31, vuv1.TransferType_OVERVIEW_GEN2_V2, ddv1.Generation_GENERATION_2, nil, 11},
	{0x32, vuv1.TransferType_ACTIVITIES_GEN2_V2, ddv1.Generation_GENERATION_2, nil, 10},
	{0x33, vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V2, ddv1.Generation_GENERATION_2, nil, 6},
	{0x35, vuv1.TransferType_TECHNICAL_DATA_GEN2_V2, ddv1.Generation_GENERATION_2, nil, 8},
	{0x00, vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION, ddv1.Generation_GENERATION_2, []vSec{{fixed: 2}}, 0},
}

// rExtent is the number of bytes the value at the start of d announces, or
// -1 when d ends before all counts and headers are there.
func (t vTag) rExtent(d []byte) int {
	o := 0
	for _, s := range t.secs {
		if s.cnt == 0 {
			o += s.fixed
			continue
		}
		if o+s.cnt > len(d) {
			return -1
		}
		n := int(d[o])
		if s.cnt == 2 {
			n = n<<8 | int(d[o+1])
		}
		o += s.cnt + n*s.rec
	}
	for i := 0; i < t.arrays; i++ {
		if o+5 > len(d) {
			return -1
		}
		size := int(d[o+1])<<8 | int(d[o+2])
		n := int(d[o+3])<<8 | int(d[o+4])
		o += 5 + size*n
	}
	return o
}

func vRecord(r *vuv1.RawVehicleUnitFile_Record, t vTag, value []byte) {
	vAssert(r.GetTag() == 0x7600|uint32(t.code), "C08 tag")
	vAssert(r.GetType() == t.typ, "C08 transfer type of the tag")
	vAssert(r.GetGeneration() == t.gen, "C08 generation of the tag")
	vAssert(vEq(r.GetValue(), value), "C08 value")
}

// vOneTransfer checks a file that is one transfer of arbitrary content.
func vOneTransfer(t vTag, d []byte) {
	n := t.rExtent(d)
	vAssume(n < 0 || n >= len(d))
	b := append([]byte{0x76, t.code}, d...)
	raw, err := unmarshalRawVehicleUnitFile(b)
	if n != len(d) {
		vAssert(raw == nil && err != nil, "C08 transfer that announces more bytes than there are is refused")
		vReach("short")
		return
	}
	vAssert(err == nil && len(raw.GetRecords()) == 1, "C08 one transfer that fills the file is accepted")
	vRecord(raw.GetRecords()[0], t, d)
	vReach("exact")
}

// vArrays is n well-formed record arrays with fixed record sizes and
// arbitrary counts and contents.
func vArrays(name string, n int) []byte {
	var d []byte
	for i := 0; i < n; i++ {
		id := name + string(rune('a'+i))
		size := 1 + (i+1)%3*4
		h := vBytes("h"+id, 2)
		body := vBytes("x"+id, size*255)[:int(h[1])*size]
		d = append(append(d, h[0], 0, byte(size), 0, h[1]), body...)
	}
	return d
}

//v:bounds one well-formed transfer of any second-generation type: 0 to 255 records of one small size in every array, all contents
//v:ropes 1
func vh_C08_gen2_full() {
	t := vTags[5+vPick("t", 9)]
	vOneTransfer(t, vArrays("", t.arrays))
}

//v:bounds one transfer of any second-generation type: one header (the first, the fourth or the last) announces 129 to 4294836225 bytes by any 16-bit record size and count, followed by 0 or 3 bytes; the other arrays empty or of one small record
//v:ropes 1
func vh_C08_gen2_wide() {
	t := vTags[5+vPick("t", 9)]
	k := []int{0, min(3, t.arrays-2), t.arrays - 1}[vPick("k", 3)]
	var d []byte
	for i := 0; i < t.arrays; i++ {
		if i == k {
			h := vBytes("h", 5)
			size := int(h[1])<<8 | int(h[2])
			n := int(h[3])<<8 | int(h[4])
			vAssume(size*n > 128)
			d = append(append(d, h...), vBytes("x", 3)[:3*vPick("l", 2)]...)
		} else if i%3 == 2 {
			d = append(d, byte(i), 0, 1, 0, 0)
		} else {
			d = append(d, byte(i), 0, 2, 0, 1, 0xAA, byte(i))
		}
	}
	b := append([]byte{0x76, t.code}, d...)
	raw, err := unmarshalRawVehicleUnitFile(b)
	vAssert(raw == nil && err != nil, "C08 transfer that announces more bytes than there are is refused")
	vReach("short")
}

//v:bounds one transfer of any first-generation type: all values of 0 to 300 bytes, all counts
//v:ropes 1
//v:nomerge 1
func vh_C08_gen1_any() {
	t := vTags[vPick("t", 5)]
	vOneTransfer(t, vSym("d", 300))
}

// vSections is a well-formed first-generation value with arbitrary counts
// (up to max) and contents.
func (t vTag) vSections(name string, max int) []byte {
	var d []byte
	for i, s := range t.secs {
		id := name + "0123456789abcdef"[t.code:t.code+1] + string(rune('a'+i))
		if s.cnt == 0 {
			d = append(d, vBytes("f"+id, s.fixed)...)
			continue
		}
		n := vU8("n" + id)
		vAssume(int(n) <= max)
		if s.cnt == 2 {
			d = append(d, 0)
		}
		d = append(append(d, n), vBytes("x"+id, s.rec*max)[:int(n)*s.rec]...)
	}
	return d
}

//v:bounds one well-formed transfer of any first-generation type and the interface version: 0 to 255 records in every counted section, all contents; and the same value with its last byte missing
//v:ropes 1
func vh_C08_gen1_full() {
	t := vTags[[]int{0, 1, 2, 3, 4, 14}[vPick("t", 6)]]
	d := t.vSections("", 255)
	if vPick("cut", 2) == 1 {
		raw, err := unmarshalRawVehicleUnitFile(append([]byte{0x76, t.code}, d[:len(d)-1]...))
		vAssert(raw == nil && err != nil, "C08 cut transfer is refused")
		vReach("cut")
		return
	}
	vOneTransfer(t, d)
}

//v:bounds one transfer of a first-generation type: any 16-bit or 8-bit count in one of the counted sections (the others zero), followed by 40 arbitrary bytes or by as many as the other sections and the signature take
//v:ropes 1
func vh_C08_gen1_wide() {
	t := vTags[vPick("t", 5)]
	id := "0123456789abcdef"[t.code : t.code+1]
	at := vPick("section", 5)
	vAssume(at < len(t.secs) && t.secs[at].cnt > 0)
	s := t.secs[at]
	var d []byte
	for i := 0; i < at; i++ {
		d = append(d, vBytes("f"+id+string(rune('0'+i)), t.secs[i].fixed)...)
		d = append(d, make([]byte, t.secs[i].cnt)...)
	}
	h := vBytes("h"+id+string(rune('0'+at)), s.cnt)
	n := int(h[0])
	if s.cnt == 2 {
		n = n<<8 | int(h[1])
	}
	d = append(d, h...)
	rest := 40
	if vPick("tail", 2) == 1 {
		rest = 0
		for _, s := range t.secs[at+1:] {
			rest += s.fixed + s.cnt
		}
	}
	d = append(d, vBytes("x", 300)[:rest]...)
	vAssume(n*s.rec > rest)
	raw, err := unmarshalRawVehicleUnitFile(append([]byte{0x76, t.code}, d...))
	vAssert(raw == nil && err != nil, "C08 transfer that announces more bytes than there are is refused")
	vReach("short")
}

//v:bounds all 16-bit tags in front of 0 to 3 arbitrary bytes, alone and after an interface version; files of one byte
func vh_C08_tag() {
	tag := vU16("tag")
	lead := vPick("lead", 2) == 1
	known := tag == 0x7606
	for _, t := range vTags {
		known = bOr(known, tag == 0x7600|uint16(t.code))
	}
	n := vPick("n", 5)
	var b []byte
	if lead {
		b = []byte{0x76, 0, 2, 2}
	}
	b = append(b, byte(tag>>8), byte(tag))
	b = append(b, vBytes("x", 3)[:max(n-1, 0)]...)
	if n == 0 {
		b = b[:len(b)-1]
	}
	raw, err := unmarshalRawVehicleUnitFile(b)
	if n == 0 {
		vAssert(raw == nil && err != nil, "C08 half a tag is refused")
		vReach("half")
	} else if !known {
		vAssert(raw == nil && err != nil, "C08 unknown tag is refused")
		vReach("unknown")
	} else if tag == 0x7600 && n-1 == 2 {
		vAssert(err == nil, "C08 interface version accepted")
		vRecord(raw.GetRecords()[len(raw.GetRecords())-1], vTags[14], b[len(b)-2:])
		vReach("version")
	}
}

// vSmall is a small well-formed value of type t with one arbitrary byte.
func (t vTag) vSmall(name string) []byte { return t.vSmallOf(vU8(name)) }

func (t vTag) vSmallOf(m byte) []byte {
	var d []byte
	for _, s := range t.secs {
		if s.cnt == 0 {
			d = append(d, make([]byte, s.fixed)...)
		} else {
			d = append(append(d, 0, 0)[:len(d)+s.cnt-1], 1)
			d = append(d, make([]byte, s.rec)...)
		}
	}
	for i := 0; i < t.arrays; i++ {
		d = append(d, byte(i+1), 0, 3, 0, byte(i%3))
		d = append(d, make([]byte, i%3*3)...)
	}
	if t.arrays > 0 {
		d[0] = m
	} else {
		d[len(d)-1] = m
	}
	return d
}

//v:bounds all ordered pairs of the fifteen transfer types, followed by a third whole or cut transfer of each generation; small contents with one symbolic byte each
//v:exactcm 1
func vh_C08_sequence() {
	i, j := vPick("i", len(vTags)), vPick("j", len(vTags))
	var b []byte
	var want []vTag
	var values [][]byte
	add := func(t vTag, name string) {
		d := t.vSmall(name)
		b = append(append(b, 0x76, t.code), d...)
		want = append(want, t)
		values = append(values, d)
	}
	add(vTags[i], "mi")
	add(vTags[j], "mj")
	switch vPick("tail", 5) {
	case 1:
		add(vTags[3], "mk")
	case 2:
		add(vTags[8], "mk")
	case 3:
		add(vTags[3], "mk")
		b = b[:len(b)-1]
		want = nil
	case 4:
		add(vTags[8], "mk")
		b = b[:len(b)-2]
		want = nil
	}
	raw, err := unmarshalRawVehicleUnitFile(b)
	if want == nil {
		vAssert(raw == nil && err != nil, "C08 cut transfer is refused")
		vReach("cut")
		return
	}
	vAssert(err == nil && len(raw.GetRecords()) == len(want), "C08 as many transfers as the file has")
	for k, r := range raw.GetRecords() {
		vRecord(r, want[k], values[k])
	}
	vReach("whole")
}

//v:bounds a card download transfer of one or two TLV records with 16-bit lengths and up to 12 bytes
func vh_C08_card_download() {
	d := vBytes("d", 12)[:vPick("n", 13)]
	o := 0
	for o+5 <= len(d) {
		o += 5 + int(d[o+3])<<8 + int(d[o+4])
	}
	vAssume(o >= len(d))
	raw, err := unmarshalRawVehicleUnitFile(append([]byte{0x76, 6}, d...))
	if o > len(d) {
		vAssert(raw == nil && err != nil, "C08 card download that announces more bytes than there are is refused")
		vReach("short")
		return
	}
	vAssert(err == nil && len(raw.GetRecords()) == 1, "C08 card download accepted")
	r := raw.GetRecords()[0]
	vAssert(r.GetTag() == 0x7606 && r.GetType() == vuv1.TransferType_CARD_DOWNLOAD && vEq(r.GetValue(), d), "C08 card download record")
	vReach("exact")
}

//v:bounds one transfer of any second-generation type whose first, fourth or last array holds 65535x1, 1x65535, 256x256, 300x301, 129x1016 or 33x1986 zero bytes under any record type, whole or cut by one byte
//v:ropes 1
func vh_C08_gen2_long() {
	t := vTags[5+vPick("t", 9)]
	k := []int{0, min(3, t.arrays-2), t.arrays - 1}[vPick("k", 3)]
	p := [][2]int{{65535, 1}, {1, 65535}, {256, 256}, {300, 301}, {129, 1016}, {33, 1986}}[vPick("p", 6)]
	var d []byte
	for i := 0; i < t.arrays; i++ {
		if i == k {
			d = append(d, vU8("h"), byte(p[0]>>8), byte(p[0]), byte(p[1]>>8), byte(p[1]))
			d = append(d, make([]byte, p[0]*p[1])...)
		} else {
			d = append(d, byte(i), 0, 2, 0, 1, 0xAA, byte(i))
		}
	}
	if vPick("cut", 2) == 1 {
		raw, err := unmarshalRawVehicleUnitFile(append([]byte{0x76, t.code}, d[:len(d)-1]...))
		vAssert(raw == nil && err != nil, "C08 cut transfer is refused")
		vReach("cut")
		return
	}
	vOneTransfer(t, d)
}

//v:bounds files of 40, 130, 257 or 400 transfers whose types go round through all fifteen, every value of another fixed content and the last one with a symbolic byte; whole or cut by one byte
//v:cost 5
func vh_C08_many() {
	N := []int{40, 130, 257, 400}[vPick("n", 4)]
	var b []byte
	var values [][]byte
	for i := 0; i < N; i++ {
		t := vTags[i%len(vTags)]
		d := t.vMany(i)
		if i == N-1 {
			d = t.vSmall("m")
		}
		b = append(append(b, 0x76, t.code), d...)
		values = append(values, d)
	}
	if vPick("cut", 2) == 1 {
		raw, err := unmarshalRawVehicleUnitFile(b[:len(b)-1])
		vAssert(raw == nil && err != nil, "C08 cut transfer at the end of many is refused")
		vReach("cut")
		return
	}
	raw, err := unmarshalRawVehicleUnitFile(b)
	vAssert(err == nil && len(raw.GetRecords()) == N, "C08 as many transfers as the file has")
	for k, r := range raw.GetRecords() {
		vRecord(r, vTags[k%len(vTags)], values[k])
	}
	vReach("whole", uint64(N))
}

// vMany is the i-th small value of type t: fixed contents, another one for every i.
func (t vTag) vMany(i int) []byte {
	d := t.vSmallOf(byte(i))
	if t.arrays == 0 {
		d[len(d)-2] = byte(i >> 8)
	} else {
		d[5+int(d[2])*int(d[4])] = byte(i>>8) + 1
	}
	return d
}
