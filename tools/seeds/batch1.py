C="internal/card/"; D="internal/dd/"; V="internal/vu/"
seeds=[
dict(id="C20-raw-alias",property="C20",pkg="internal/card",
 needs="a card file larger than the scanner's initial buffer (several kilobytes), so that the buffer is reused while earlier records still point into it",
 breaks="raw record values alias the scanner's buffer instead of being copied; earlier records are overwritten while later ones are read",
 edits=[(C+"rawcardfile.go","""	value := make([]byte, length)
	copy(value, input[5:5+int(length)])
""","""	value := input[5 : 5+int(length)]
""")],
 demo='''package card

import "testing"

func TestSeededDemo(t *testing.T) {
	var data []byte
	for i := 0; i < 12; i++ {
		data = append(data, 0x05, byte(0x20+i%8), 0x00, 0x03, 0xE8)
		for j := 0; j < 1000; j++ {
			data = append(data, byte(i*7+j))
		}
	}
	f, err := UnmarshalRawCardFile(data)
	if err != nil {
		t.Fatal(err)
	}
	for i, r := range f.GetRecords() {
		for j, b := range r.GetValue() {
			if b != byte(i*7+j) {
				t.Fatalf("record %d byte %d: got %d", i, j, b)
			}
		}
	}
}
'''),
dict(id="C10-wrap-zero",property="C10",pkg="internal/card",
 needs="a chain of daily records in which an older record lies exactly at position 0 of the activity buffer",
 breaks="stepping back to position 0 is treated as wrapping around, so the record at position 0 and everything older is lost",
 edits=[(C+"activity.go","""		if it.currentPos < 0 {
			it.currentPos += len(it.buffer)
		}
	}
	return true""","""		if it.currentPos <= 0 {
			it.currentPos += len(it.buffer)
		}
	}
	return true""")],
 demo='''package card

import "testing"

func TestSeededDemo(t *testing.T) {
	buf := make([]byte, 4+64)
	d := buf[4:]
	put := func(pos, prev, n int, date byte) {
		d[pos], d[pos+1] = byte(prev>>8), byte(prev)
		d[pos+2], d[pos+3] = byte(n>>8), byte(n)
		d[pos+4], d[pos+7] = 0x5E, date
	}
	put(0, 0, 14, 1)
	put(14, 14, 16, 2)
	buf[3] = 14
	var opts UnmarshalOptions
	a, err := opts.unmarshalDriverActivityData(buf)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(a.GetDailyRecords()); n != 2 {
		t.Fatalf("got %d records", n)
	}
}
'''),
dict(id="C08-array-overflow",property="C08",pkg="internal/vu",
 needs="a record array whose records together take more than 65535 bytes",
 breaks="the size of a record array is computed in 16 bits, so a large array's extent is taken modulo 65536 and the following bytes are read as the next array",
 edits=[(V+"raw_vehicle_unit_file.go","totalSize := headerSize + int(recordSize)*int(noOfRecords)","totalSize := headerSize + int(recordSize*noOfRecords)")],
 demo='''package vu

import "testing"

func TestSeededDemo(t *testing.T) {
	data := make([]byte, 5+700*100+64)
	data[1], data[2] = 700>>8, 700&0xFF
	data[4] = 100
	n, err := sizeOfRecordArray(data, 0)
	if err != nil || n != 5+700*100 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="C06-index-low-byte",property="C06",pkg="internal/card",
 needs="a decoded vehicles-used file whose newest record index is changed to one with a different high byte",
 breaks="only the low byte of the newest record index is painted over the stored bytes, so a new index of 256 or more is written with the old high byte",
 edits=[(C+"vehicles_used.go","		binary.BigEndian.PutUint16(canvas[0:2], uint16(vehiclesUsed.GetNewestRecordIndex()))","		canvas[1] = byte(vehiclesUsed.GetNewestRecordIndex())")],
 demo='''package card

import "testing"

func TestSeededDemo(t *testing.T) {
	data := make([]byte, 2+31*3)
	data[1] = 2
	for i := 0; i < 3; i++ {
		r := data[2+31*i:]
		for j := range r[:31] {
			r[j] = 0x20
		}
		r[14], r[15] = 0x01, 0x00
		r[29], r[30] = 0x01, 0x23
		r[6], r[10] = 0x5E, 0x5E
	}
	var opts UnmarshalOptions
	v, err := opts.unmarshalVehiclesUsed(data)
	if err != nil {
		t.Fatal(err)
	}
	v.SetNewestRecordIndex(0x0103)
	out, err := appendVehiclesUsed(nil, v)
	if err != nil || out[0] != 1 || out[1] != 3 {
		t.Fatal(out, err)
	}
}
'''),
dict(id="C19-string-canvas",property="C19",pkg="internal/dd",
 needs="a text value whose code page is changed after decoding, encoded from its stored bytes",
 breaks="the code page is painted into the message's own stored bytes instead of a copy, so encoding modifies the message it encodes",
 edits=[(D+"string_value.go","""		canvas := make([]byte, len(raw))
		copy(canvas, raw)
""","""		canvas := raw
""")],
 demo='''package dd

import (
	"testing"

	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

func TestSeededDemo(t *testing.T) {
	var opts UnmarshalOptions
	sv, err := opts.UnmarshalStringValue([]byte{1, 'A', 'B', ' '})
	if err != nil {
		t.Fatal(err)
	}
	sv.SetEncoding(ddv1.Encoding_ISO_8859_5)
	if _, err := AppendStringValue(nil, sv); err != nil {
		t.Fatal(err)
	}
	if sv.GetRawData()[0] != 1 {
		t.Fatal("encoding changed the message", sv.GetRawData())
	}
}
'''),
dict(id="C02-length-signed",property="C02",pkg="internal/card",
 needs="a record of 32768 bytes or more",
 breaks="record lengths of 32768 and more are recorded as negative numbers",
 edits=[(C+"rawcardfile.go","output.SetLength(int32(length))","output.SetLength(int32(int16(length)))")],
 demo='''package card

import "testing"

func TestSeededDemo(t *testing.T) {
	data := make([]byte, 5+40000)
	data[0], data[1], data[3], data[4] = 0x05, 0x04, 40000>>8, 40000&0xFF
	f, err := UnmarshalRawCardFile(data)
	if err != nil || f.GetRecords()[0].GetLength() != 40000 {
		t.Fatal(err, f.GetRecords()[0].GetLength())
	}
}
'''),
]
