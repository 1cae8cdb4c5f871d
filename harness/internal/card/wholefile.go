package card

import (
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
)

// vTLV appends one block.
func vTLV(dst []byte, fid uint16, appendix byte, v []byte) []byte {
	return append(append(dst, byte(fid>>8), byte(fid), appendix, byte(len(v)>>8), byte(len(v))), v...)
}

// vApp is the appendix of a kind's data block (its signature has the next one).
func (k *vKind) app() byte {
	if k.gen == 2 {
		return 2
	}
	return 0
}

// vSig is an arbitrary signature of up to 3 bytes.
func vSigBytes(name string, n int) []byte {
	s := vBytes(name, 3)
	return s[:n]
}

//v:bounds each of the 35 elementary files of a driver card alone, with a small valid content of which one byte is symbolic; without signature, with a signature of 0 to 3 symbolic bytes, with a signature block of the other generation, of the file following it in the table, or preceded by one
//v:cost 8
func vh_C16_one() {
	k := &vKinds[vPick("k", len(vKinds))]
	b := k.body(vU8("m"))
	want := &cardv1.DriverCardFile{}
	img := vTLV(nil, k.fid, k.app(), b)
	s := vPick("sig", 7)
	switch {
	case s < 4: // own signature of s bytes
		sig := vSigBytes("s", s)
		img = vTLV(img, k.fid, k.app()+1, sig)
		raw, err := UnmarshalRawCardFile(img)
		vAssert(err == nil, "C16 raw records")
		got, err := UnmarshalDriverCardFile(raw)
		if !k.signed {
			vAssert(err != nil, "C16 signature of a file without signature refused")
			vReach("unsigned")
			return
		}
		vAssert(err == nil, "C16 signed file accepted")
		vAssert(k.put(want, vOpts(k.gen), b, sig) == nil, "C16 content valid")
		vAssert(vSame(got, want), "C16 file, application and signature")
		vReach("signed")
	case s == 4:
		raw, err := UnmarshalRawCardFile(img)
		vAssert(err == nil, "C16 raw records")
		got, err := UnmarshalDriverCardFile(raw)
		vAssert(err == nil, "C16 unsigned file accepted")
		vAssert(k.put(want, vOpts(k.gen), b, nil) == nil, "C16 content valid")
		vAssert(vSame(got, want), "C16 file and application")
		vReach("alone")
	case s == 5: // signature block of any other file or generation
		fid, app := vU16("fid"), vU8("app")
		vAssume(app&1 == 1)
		vAssume(fid != k.fid || app&2 != k.app())
		img = vTLV(img, fid, app, vSigBytes("s", 3))
		raw, err := UnmarshalRawCardFile(img)
		vAssert(err == nil, "C16 raw records")
		_, err = UnmarshalDriverCardFile(raw)
		vAssert(err != nil, "C16 signature of another file or generation is not attached")
		vReach("stray")
	case s == 6: // a signature in front
		img = vTLV(vTLV(nil, k.fid, k.app()+1, vSigBytes("s", 3)), k.fid, k.app(), b)
		raw, err := UnmarshalRawCardFile(img)
		vAssert(err == nil, "C16 raw records")
		_, err = UnmarshalDriverCardFile(raw)
		vAssert(err != nil, "C16 signature without preceding file refused")
		vReach("front")
	}
}

// vSequence builds an image of n blocks of different kinds and the card expected from it.
func vSequence(n int) (img []byte, want *cardv1.DriverCardFile) {
	want = &cardv1.DriverCardFile{}
	used := make([]bool, len(vKinds))
	for i := 0; i < n; i++ {
		j := vPick("k"+"0123"[i:i+1], len(vKinds))
		vAssume(!used[j])
		used[j] = true
		k := &vKinds[j]
		b := k.body(vU8("m" + "0123"[i:i+1]))
		img = vTLV(img, k.fid, k.app(), b)
		var sig []byte
		if k.signed && vPick("signed"+"0123"[i:i+1], 2) == 1 {
			sig = vBytes("s"+"0123"[i:i+1], 2)
			img = vTLV(img, k.fid, k.app()+1, sig)
		}
		vAssert(k.put(want, vOpts(k.gen), b, sig) == nil, "C16 content valid")
	}
	return img, want
}

//v:bounds all ordered pairs of different elementary files of a driver card (35 files), each with a small valid content of which one byte is symbolic and with or without a signature of 2 symbolic bytes
//v:cost 60
func vh_C16_pairs() {
	img, want := vSequence(2)
	raw, err := UnmarshalRawCardFile(img)
	vAssert(err == nil, "C16 raw records")
	got, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "C16 pair accepted")
	vAssert(vSame(got, want), "C16 pair: files, applications and signatures")
	vReach("end")
}

//v:bounds each of the 35 elementary files of a driver card alone, one byte of its content symbolic, without signature or with a signature of 0 to 3 symbolic bytes; then a signature of 65535 and of 65536 bytes
//v:cost 8
func vh_C18_one() {
	k := &vKinds[vPick("k", len(vKinds))]
	b := k.body(vU8("m"))
	card := &cardv1.DriverCardFile{}
	img := vTLV(nil, k.fid, k.app(), b)
	var sig []byte
	if s := vPick("sig", 7); s > 0 && k.signed {
		n := s - 1
		sig = vSigBytes("s", 3)[:min(n, 3)]
		if s > 4 {
			sig = append(make([]byte, 0xFFFC+s-5), sig...)
		}
		if s == 6 {
			vAssert(k.put(card, vOpts(k.gen), b, sig) == nil, "C18 content valid")
			_, err := MarshalDriverCardFile(card)
			vAssert(err != nil, "C18 signature too long for its length field refused")
			vReach("too long")
			return
		}
		img = vTLV(img, k.fid, k.app()+1, sig)
	}
	vAssert(k.put(card, vOpts(k.gen), b, sig) == nil, "C18 content valid")
	out, err := MarshalDriverCardFile(card)
	vAssert(err == nil, "C18 file encodes")
	vAssert(vEq(out, img), "C18 tag, length, content and signature")
	raw, err := UnmarshalRawCardFile(out)
	vAssert(err == nil, "C18 encoding is a card image")
	got, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "C18 encoding decodes")
	vAssert(vSame(got, card), "C18 same card decoded")
	vReach("end")
}

//v:bounds all ordered pairs of different elementary files of a driver card (35 files), each with a small valid content of which one byte is symbolic and with or without a signature of 2 symbolic bytes
//v:cost 60
func vh_C18_pairs() {
	img, want := vSequence(2)
	raw, err := UnmarshalRawCardFile(img)
	vAssert(err == nil, "C18 raw records")
	card, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "C18 pair accepted")
	out, err := MarshalDriverCardFile(card)
	vAssert(err == nil, "C18 pair encodes")
	vAssert(len(out) == len(img), "C18 pair encodes to its size")
	raw, err = UnmarshalRawCardFile(out)
	vAssert(err == nil, "C18 encoding is a card image")
	got, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "C18 encoding decodes")
	vAssert(vSame(got, card), "C18 same card decoded")
	vAssert(vSame(got, want), "C18 card of the original blocks")
	vReach("end")
}

// vWhole is a card of all 35 elementary files in an order that depends on o.
func vWhole(o, signed int) (img []byte, want *cardv1.DriverCardFile) {
	want = &cardv1.DriverCardFile{}
	n := len(vKinds)
	for i := 0; i < n; i++ {
		j := i
		switch o {
		case 1:
			j = n - 1 - i
		case 2:
			j = (i*12 + 5) % n
		case 3:
			j = (i*23 + 17) % n
		}
		k := &vKinds[j]
		b := k.body(vU8("m" + k.name))
		img = vTLV(img, k.fid, k.app(), b)
		var sig []byte
		if k.signed && (signed == 2 || signed == 3 && i%2 == 0) {
			sig = vBytes("s"+k.name, 2)
			img = vTLV(img, k.fid, k.app()+1, sig)
		}
		vAssert(k.put(want, vOpts(k.gen), b, sig) == nil, "C16 content valid")
	}
	return img, want
}

//v:bounds a card of all 35 elementary files in four orders, one byte of each content symbolic, with no, all or every other signature (2 symbolic bytes)
//v:cost 30
func vh_C16_whole() {
	img, want := vWhole(vPick("order", 4), 1+vPick("signed", 3))
	raw, err := UnmarshalRawCardFile(img)
	vAssert(err == nil, "C16 raw records")
	got, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "C16 card accepted")
	vAssert(vSame(got, want), "C16 card: files, applications and signatures")
	vReach("end")
}

//v:bounds a card of all 35 elementary files in two orders, one byte of each content symbolic, with no, all or every other signature (2 symbolic bytes)
//v:cost 30
func vh_C18_whole() {
	img, want := vWhole(3*vPick("order", 2), 1+vPick("signed", 3))
	out, err := MarshalDriverCardFile(want)
	vAssert(err == nil, "C18 card encodes")
	vAssert(len(out) == len(img), "C18 card encodes to its size")
	raw, err := UnmarshalRawCardFile(out)
	vAssert(err == nil, "C18 encoding is a card image")
	got, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "C18 encoding decodes")
	vAssert(vSame(got, want), "C18 same card decoded")
	vReach("end")
}

//v:bounds all ordered triples of different elementary files of a driver card (35 files), each with a small valid content of which one byte is symbolic; with or without signatures of 2 symbolic bytes
//v:cost 900
//v:thoroughonly
func vh_C16_triples() {
	img, want := vSequence(3)
	raw, err := UnmarshalRawCardFile(img)
	vAssert(err == nil, "C16 raw records")
	got, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "C16 triple accepted")
	vAssert(vSame(got, want), "C16 triple: files, applications and signatures")
	vReach("end")
}

// vRecs is how many bytes come before the records of a kind and the size of a record.
var vRecs = map[string][2]int{
	"Events/G1": {0, 24}, "Events/G2": {0, 24}, "Faults/G1": {0, 24}, "Faults/G2": {0, 24},
	"Activity/G1": {18, 1}, "Activity/G2": {18, 1}, "VehiclesUsed": {2, 31}, "VehiclesUsedG2": {2, 48},
	"Places": {1, 10}, "PlacesG2": {2, 21}, "SpecificConditions": {0, 5}, "SpecificConditionsG2": {2, 5},
	"VehicleUnitsUsed": {2, 10}, "GnssPlaces": {2, 18},
}

//v:bounds each elementary file that can be longer than 255 bytes (records repeated, a 512-bit certificate) with one byte of its content symbolic, with 255 to 320 bytes of content and with the most that fits into 6000 bytes, without signature or with one of 128 or 300 bytes
//v:unwind 20000
func vh_C18_long() {
	k := &vKinds[vPick("k", len(vKinds))]
	m := vU8("m")
	b := k.body(m)
	if r, ok := vRecs[k.name]; ok {
		size := []int{320, 6000}[vPick("size", 2)]
		rec := k.body(0)[r[0]:]
		if r[1] == 1 {
			rec = []byte{0}
		}
		for len(b)+len(rec) <= size {
			b = append(b, rec...)
		}
	} else if !k.signed && k.gen == 2 && k.fid >= 0xC100 {
		b = vEccLong(m)
	} else {
		return
	}
	card := &cardv1.DriverCardFile{}
	img := vTLV(nil, k.fid, k.app(), b)
	var sig []byte
	if s := vPick("sig", 3); s > 0 && k.signed {
		sig = append(make([]byte, []int{125, 297}[s-1]), vSigBytes("s", 3)...)
		img = vTLV(img, k.fid, k.app()+1, sig)
	}
	vAssert(k.put(card, vOpts(k.gen), b, sig) == nil, "C18 content valid")
	out, err := MarshalDriverCardFile(card)
	vAssert(err == nil, "C18 long file encodes")
	vAssert(vEq(out, img), "C18 long file: tag, length, content and signature")
	raw, err := UnmarshalRawCardFile(out)
	vAssert(err == nil, "C18 encoding is a card image")
	got, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "C18 encoding decodes")
	vAssert(vSame(got, card), "C18 same card decoded")
	vReach("end")
}

//v:bounds each of the 35 elementary files of a driver card alone, with no content, one or two symbolic bytes, or its small valid content with its last byte missing or a symbolic one added; without signature or with one of 0 or 2 symbolic bytes
//v:cost 8
func vh_C16_odd() {
	k := &vKinds[vPick("k", len(vKinds))]
	b := k.body(1)
	switch n := vPick("length", 5); n {
	case 3:
		b = b[:len(b)-1]
	case 4:
		b = append(b, vU8("more"))
	default:
		b = vBytes("b", 2)[:n]
	}
	want := &cardv1.DriverCardFile{}
	img := vTLV(nil, k.fid, k.app(), b)
	var sig []byte
	if s := vPick("sig", 3); s > 0 && k.signed {
		sig = vSigBytes("s", 2*s-2)
		img = vTLV(img, k.fid, k.app()+1, sig)
	}
	refused := k.put(want, vOpts(k.gen), b, sig) != nil
	raw, err := UnmarshalRawCardFile(img)
	vAssert(err == nil, "C16 raw records")
	got, err := UnmarshalDriverCardFile(raw)
	vAssert((err != nil) == refused, "C16 refused exactly if the content is")
	if refused {
		vReach("refused")
		return
	}
	vAssert(vSame(got, want), "C16 file, application and signature")
	vReach("end")
}

//v:bounds each of the 35 elementary files of a driver card alone without content, if it can be, without signature or with one of 0, 1 or 2 symbolic bytes
//v:cost 8
func vh_C18_empty() {
	k := &vKinds[vPick("k", len(vKinds))]
	card := &cardv1.DriverCardFile{}
	img := vTLV(nil, k.fid, k.app(), nil)
	var sig []byte
	if s := vPick("sig", 4); s > 0 && k.signed {
		sig = vSigBytes("s", s-1)
		img = vTLV(img, k.fid, k.app()+1, sig)
	}
	if k.put(card, vOpts(k.gen), []byte{}, sig) != nil {
		vReach("refused")
		return
	}
	out, err := MarshalDriverCardFile(card)
	vAssert(err == nil, "C18 empty file encodes")
	vAssert(vEq(out, img), "C18 tag, length, content and signature")
	vReach("end")
}

//v:bounds a card of all 35 elementary files with all signatures of one generation of 65535 bytes (three of them symbolic)
//v:cost 30
//v:unwind 20000
func vh_C18_large() {
	card := &cardv1.DriverCardFile{}
	var signed int
	half := vPick("half", 2)
	for i := range vKinds {
		k := &vKinds[i]
		var sig []byte
		if k.signed {
			sig = vBytes("s"+k.name, 3)
			if (k.gen == 2) == (half == 1) {
				sig = append(make([]byte, 65532), sig...)
			}
			signed++
		}
		vAssert(k.put(card, vOpts(k.gen), k.body(vU8("m"+k.name)), sig) == nil, "C18 content valid")
	}
	out, err := MarshalDriverCardFile(card)
	vAssert(err == nil, "C18 large card encodes")
	raw, err := UnmarshalRawCardFile(out)
	vAssert(err == nil, "C18 encoding is a card image")
	vAssert(len(raw.GetRecords()) == len(vKinds)+signed, "C18 all files of a large card encoded")
	got, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "C18 encoding decodes")
	vAssert(vSame(got, card), "C18 same card decoded")
	vReach("end")
}
