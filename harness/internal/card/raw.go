package card

import (
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
)

// Raw card image: TLV blocks of 2 bytes FID, 1 byte appendix, 2 bytes length, value.

// vFid is the elementary file of each file identifier (Annex 1C appendix 2).
func vFid(fid uint32) cardv1.ElementaryFileType {
	switch fid {
	case 0x0002:
		return cardv1.ElementaryFileType_EF_ICC
	case 0x0005:
		return cardv1.ElementaryFileType_EF_IC
	case 0x2F00:
		return cardv1.ElementaryFileType_EF_DIR
	case 0x2F01:
		return cardv1.ElementaryFileType_EF_ATR_INFO
	case 0x0006:
		return cardv1.ElementaryFileType_EF_EXTENDED_LENGTH
	case 0x0501:
		return cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION
	case 0x0502:
		return cardv1.ElementaryFileType_EF_EVENTS_DATA
	case 0x0503:
		return cardv1.ElementaryFileType_EF_FAULTS_DATA
	case 0x0504:
		return cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA
	case 0x0505:
		return cardv1.ElementaryFileType_EF_VEHICLES_USED
	case 0x0506:
		return cardv1.ElementaryFileType_EF_PLACES
	case 0x0507:
		return cardv1.ElementaryFileType_EF_CURRENT_USAGE
	case 0x0508:
		return cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA
	case 0x0509:
		return cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_WORKSHOP
	case 0x050A:
		return cardv1.ElementaryFileType_EF_CALIBRATION
	case 0x050B:
		return cardv1.ElementaryFileType_EF_SENSOR_INSTALLATION_DATA
	case 0x050C:
		return cardv1.ElementaryFileType_EF_CONTROLLER_ACTIVITY_DATA
	case 0x050D:
		return cardv1.ElementaryFileType_EF_COMPANY_ACTIVITY_DATA
	case 0x050E:
		return cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER
	case 0x0520:
		return cardv1.ElementaryFileType_EF_IDENTIFICATION
	case 0x0521:
		return cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO
	case 0x0522:
		return cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS
	case 0x0523:
		return cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED
	case 0x0524:
		return cardv1.ElementaryFileType_EF_GNSS_PLACES
	case 0x0525:
		return cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION_V2
	case 0x0526:
		return cardv1.ElementaryFileType_EF_PLACES_AUTHENTICATION
	case 0x0527:
		return cardv1.ElementaryFileType_EF_GNSS_PLACES_AUTHENTICATION
	case 0x0528:
		return cardv1.ElementaryFileType_EF_BORDER_CROSSINGS
	case 0x0529:
		return cardv1.ElementaryFileType_EF_LOAD_UNLOAD_OPERATIONS
	case 0x0530:
		return cardv1.ElementaryFileType_EF_LOAD_TYPE_ENTRIES
	case 0x0531:
		return cardv1.ElementaryFileType_EF_CALIBRATION_ADD_DATA
	case 0x0540:
		return cardv1.ElementaryFileType_EF_VU_CONFIGURATION
	case 0xC100:
		return cardv1.ElementaryFileType_EF_CARD_CERTIFICATE
	case 0xC101:
		return cardv1.ElementaryFileType_EF_CARD_SIGN_CERTIFICATE
	case 0xC108:
		return cardv1.ElementaryFileType_EF_CA_CERTIFICATE
	case 0xC109:
		return cardv1.ElementaryFileType_EF_LINK_CERTIFICATE
	}
	return cardv1.ElementaryFileType_ELEMENTARY_FILE_UNSPECIFIED
}

// refRaw checks one decoded record against the bytes of its block.
func refRaw(r *cardv1.RawCardFile_Record, b []byte) {
	vAssert(uint32(r.GetTag()) == rU24(b[0:3]), "RawCardFile.tag")
	vAssert(uint32(r.GetLength()) == rU16(b[3:5]), "RawCardFile.length")
	vAssert(vEq(r.GetValue(), b[5:]), "RawCardFile.value")
	ct := cardv1.ContentType_DATA
	if b[2]&1 == 1 {
		ct = cardv1.ContentType_SIGNATURE
	}
	vAssert(r.GetContentType() == ct, "RawCardFile.content_type")
	gen := ddv1.Generation_GENERATION_1
	if b[2]&2 == 2 {
		gen = ddv1.Generation_GENERATION_2
	}
	vAssert(r.GetGeneration() == gen, "RawCardFile.generation")
}

// The elementary file of every tag.
//
//v:bounds one empty block, all 2^24 tags
func vh_C02_tag() {
	b := vBytes("b", 5)
	b[3], b[4] = 0, 0
	x, err := UnmarshalRawCardFile(b)
	vAssert(err == nil, "RawCardFile block accepted")
	vAssert(len(x.GetRecords()) == 1, "RawCardFile one record")
	r := x.GetRecords()[0]
	refRaw(r, b)
	fid := rU16(b[0:2])
	want := vFid(fid)
	if fid == 0xC100 && b[2]&2 == 2 {
		vAssert(r.GetFile() == want || r.GetFile() == cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE, "RawCardFile.file of a certificate")
	} else if want != cardv1.ElementaryFileType_ELEMENTARY_FILE_UNSPECIFIED {
		vAssert(r.GetFile() == want, "RawCardFile.file")
	} else {
		vAssert(r.GetFile() == want || r.GetFile() == cardv1.ElementaryFileType_EF_EGF || r.GetFile() == cardv1.ElementaryFileType_EF_VU, "RawCardFile.file of another tag")
	}
	vReach("end", uint64(r.GetFile()))
}

//v:bounds every image of 0 to 17 bytes, all bytes symbolic (the file identifiers are those of unknown files, which are the cheapest to tell)
//v:thorough:bounds every image of 0 to 26 bytes, all bytes symbolic (the file identifiers are those of unknown files)
func vh_C02_image() {
	n := vPick("size", 18+9*vTier())
	b := vBytes("b", 26)[:n]
	keep := vCopy(b)
	// the reference splits the image
	whole := true
	var at []int
	p := 0
	for p < n {
		if n-p < 5 || n-p-5 < int(rU16(b[p+3:p+5])) {
			whole = false
			break
		}
		b[p], keep[p] = 0x77, 0x77
		at = append(at, p)
		p += 5 + int(rU16(b[p+3:p+5]))
	}
	at = append(at, p)
	x, err := UnmarshalRawCardFile(b)
	vAssert((err == nil) == whole, "RawCardFile accepted exactly if whole")
	vAssert(vEq(b, keep), "RawCardFile decoding leaves the input alone")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(x.GetRecords()) == len(at)-1, "RawCardFile record count")
	for i, r := range x.GetRecords() {
		refRaw(r, b[at[i]:at[i+1]])
	}
	before := proto.Clone(x)
	out, err := MarshalRawCardFile(x)
	vAssert(err == nil, "RawCardFile encodes")
	vAssert(vEq(out, b), "RawCardFile round trip")
	vAssert(vSame(x, before), "RawCardFile encoding leaves the message alone")
	vReach("end", uint64(len(at)-1))
}

// Long blocks: the read buffer, its growth and the largest 16-bit lengths.
//
//v:bounds two blocks, the first of length 4085 to 4100 (around the first read buffer), 32763, 65530, 65531, 65534 or 65535, the second of 3 bytes and whole or cut by 1 byte; tags and contents symbolic
func vh_C02_long() {
	l := []int{4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4096, 4100, 32763, 65530, 65531, 65534, 65535}[vPick("length", 16)]
	cut := vPick("cut", 2)
	s := vBytes("b", 15)
	b := make([]byte, 0, l+13)
	b = append(b, 0x77, s[0], s[1], byte(l>>8), byte(l))
	b = append(b, s[2:7]...)
	b = append(b, vBytes("m", 65535)[:l-10]...)
	b = append(b, s[5:10]...)
	b = append(b, 0x78, s[10], s[11], 0, 3, s[12], s[13], s[14])
	b = b[:len(b)-cut]
	x, err := UnmarshalRawCardFile(b)
	if cut == 1 {
		vAssert(err != nil, "RawCardFile cut block refused")
		vReach("refused")
		return
	}
	vAssert(err == nil, "RawCardFile long block accepted")
	rs := x.GetRecords()
	vAssert(len(rs) == 2, "RawCardFile long block record count")
	refRaw(rs[0], b[:5+l])
	refRaw(rs[1], b[5+l:])
	out, err := MarshalRawCardFile(x)
	vAssert(err == nil && vEq(out, b), "RawCardFile long block round trip")
	vReach("end", uint64(l))
}

// Files of many blocks: every record keeps its own bytes after the whole file was read.
//
//v:bounds card images of 2 to 9 blocks whose lengths are one of 0, 7, 1000, 2043, 4091, 4096, 9000, 65535 in increasing, decreasing or alternating order (up to 86000 bytes); all tags and contents symbolic
//v:ropes 1
func vh_C20_raw() {
	ls := []int{7, 1000, 0, 2043, 4091, 65535, 4096, 9000, 1000}
	n := 2 + vPick("n", 8)
	order := vPick("order", 3)
	var b []byte
	var at []int
	for i := 0; i < n; i++ {
		l := ls[i]
		if order == 1 {
			l = ls[n-1-i]
		} else if order == 2 && i%2 == 1 {
			l = 5 + i
		}
		id := string(rune('a' + i))
		h := vBytes("h"+id, 2)
		b = append(b, 0x77, h[0], h[1], byte(l>>8), byte(l))
		b = append(b, vBytes("x"+id, 65535)[:l]...)
		at = append(at, len(b))
	}
	x, err := UnmarshalRawCardFile(b)
	vAssert(err == nil && len(x.GetRecords()) == n, "RawCardFile with many blocks accepted")
	o := 0
	for i, r := range x.GetRecords() {
		refRaw(r, b[o:at[i]])
		o = at[i]
	}
	vReach("end", uint64(n))
}

//v:bounds card images of 40, 130, 257 or 600 blocks of lengths 0 to 700 (up to 210000 bytes), fixed tags and contents of another kind each, the first, the last and one in the middle of symbolic tag and contents; whole or cut by one byte
//v:ropes 1
func vh_C02_many() {
	N := []int{40, 130, 257, 600}[vPick("n", 4)]
	var b []byte
	var at []int
	for i := 0; i < N; i++ {
		at = append(at, len(b))
		l := i * 37 % 701
		if i == 0 || i == N/2 || i == N-1 {
			x := vBytes("x"+string(rune('0'+i%10))+string(rune('0'+i/10%10))+string(rune('0'+i/100)), 42)
			b = append(b, 0x77, x[0], x[1], 0, 40)
			b = append(b, x[2:]...)
			continue
		}
		b = append(b, byte(i%6), byte(i), byte(i%4), byte(l>>8), byte(l))
		for k := 0; k < l; k++ {
			b = append(b, byte(i+k))
		}
	}
	at = append(at, len(b))
	keep := vCopy(b)
	if vPick("cut", 2) == 1 {
		x, err := UnmarshalRawCardFile(b[:len(b)-1])
		vAssert(x == nil && err != nil, "RawCardFile of many blocks with a cut one refused")
		vReach("cut")
		return
	}
	x, err := UnmarshalRawCardFile(b)
	vAssert(err == nil, "RawCardFile of many blocks accepted")
	vAssert(len(x.GetRecords()) == N, "RawCardFile of many blocks record count")
	for i, r := range x.GetRecords() {
		refRaw(r, keep[at[i]:at[i+1]])
	}
	out, err := MarshalRawCardFile(x)
	vAssert(err == nil && vEq(out, keep), "RawCardFile of many blocks round trip")
	vReach("end", uint64(N))
}
