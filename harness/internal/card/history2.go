package card

import (
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	"google.golang.org/protobuf/proto"
)

//v:bounds two files of 143 bytes, all symbolic; values the data dictionary defines; decoded, encoded and anonymised one after the other and the first again
//v:cost 10
//v:exacttext 16
func vh_C24_EF_Identification() {
	b, c := vBytes("b", 143), vBytes("c", 143)
	vAssume(dIdentification(b))
	vAssume(dIdentification(c))
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	vAssert(err == nil, "Identification accepted")
	first := proto.Clone(x)
	out, err := vIdentification(nil, x)
	vAssert(err == nil, "Identification encodes")
	keep := vCopy(out)
	p := AnonymizeIdentification(x)
	firstAnon := proto.Clone(p)
	y, err := o.unmarshalIdentification(c)
	vAssert(err == nil, "Identification accepted")
	out2, err := vIdentification(nil, y)
	vAssert(err == nil && vEq(out2, c), "Identification round trip after another one")
	AnonymizeIdentification(y)
	vAssert(vSame(p, firstAnon), "Identification anonymised earlier stays as it was")
	vAssert(vSame(x, first), "Identification decoded earlier stays as it was")
	vAssert(vEq(out, keep), "Identification encoded earlier stays as it was")
	z, err := o.unmarshalIdentification(b)
	vAssert(err == nil && vSame(z, first), "Identification decodes the same again")
	out3, err := vIdentification(nil, z)
	vAssert(err == nil && vEq(out3, keep), "Identification encodes the same again")
	vAssert(vSame(AnonymizeIdentification(z), firstAnon), "Identification anonymises the same again")
	vReach("end")
}

// vDay is an activity buffer of one daily record, at position p.
func vDay(name string, size, spare, p int) []byte {
	n := size + spare
	b := vBytes(name, 24)[:4+n]
	buf := b[4:]
	b[2], b[3] = 0, byte(p)
	buf[p], buf[(p+1)%n], buf[(p+2)%n], buf[(p+3)%n] = 0, 0, 0, byte(size)
	return b
}

//v:bounds two activity files of one daily record of 12 or 14 bytes, with 0 or 3 spare bytes, at the start or wrapped; all other bytes symbolic
//v:cost 10
func vh_C24_EF_DriverActivity() {
	k := vPick("shape", 4)
	b := vDay("b", 12+2*(k&1), 3*(k>>1), 5*(k&1))
	k = vPick("other shape", 4)
	c := vDay("c", 12+2*(k&1), 3*(k>>1), 5*(k&1))
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	vAssert(err == nil, "DriverActivityData accepted")
	first := proto.Clone(x)
	out, err := appendDriverActivity(nil, x)
	vAssert(err == nil, "DriverActivityData encodes")
	keep := vCopy(out)
	y, err := o.unmarshalDriverActivityData(c)
	vAssert(err == nil, "DriverActivityData accepted")
	out2, err := appendDriverActivity(nil, y)
	vAssert(err == nil && vEq(out2, c), "DriverActivityData round trip after another one")
	vAssert(vSame(x, first), "DriverActivityData decoded earlier stays as it was")
	vAssert(vEq(out, keep), "DriverActivityData encoded earlier stays as it was")
	z, err := o.unmarshalDriverActivityData(b)
	vAssert(err == nil && vSame(z, first), "DriverActivityData decodes the same again")
	out3, err := appendDriverActivity(nil, z)
	vAssert(err == nil && vEq(out3, keep), "DriverActivityData encodes the same again")
	vReach("end")
}

//v:bounds two driver cards of any one elementary file each (all pairs of the 35), one byte of each content symbolic, with or without a signature of 2 symbolic bytes; optionally a card that is refused in between; decoded, encoded and anonymised one after the other and the first again
//v:cost 60
func vh_C24_card() {
	one := func(id string) ([]byte, *cardv1.DriverCardFile) {
		k := &vKinds[vPick("k"+id, len(vKinds))]
		d := k.body(vU8("m" + id))
		img := vTLV(nil, k.fid, k.app(), d)
		var sig []byte
		if k.signed {
			sig = vBytes("s"+id, 2)
			img = vTLV(img, k.fid, k.app()+1, sig)
		}
		w := &cardv1.DriverCardFile{}
		vAssert(k.put(w, vOpts(k.gen), d, sig) == nil, "C24 content valid")
		return img, w
	}
	b, wb := one("0")
	c, wc := one("1")
	decode := func(img []byte) *cardv1.DriverCardFile {
		raw, err := UnmarshalRawCardFile(img)
		vAssert(err == nil, "C24 raw records")
		x, err := UnmarshalDriverCardFile(raw)
		vAssert(err == nil, "C24 card accepted")
		return x
	}
	x := decode(b)
	vAssert(vSame(x, wb), "C24 card of its own file")
	out, err := MarshalDriverCardFile(x)
	vAssert(err == nil, "C24 card encodes")
	keep := vCopy(out)
	if vPick("refused", 2) == 1 {
		raw, err := UnmarshalRawCardFile(append(vCopy(c), 5, 4, 1, 0, 0))
		vAssert(err == nil, "C24 raw records")
		UnmarshalDriverCardFile(raw)
		UnmarshalRawCardFile(c[:len(c)-1])
	}
	y := decode(c)
	vAssert(vSame(y, wc), "C24 card after another one of its own file")
	out2, err := MarshalDriverCardFile(y)
	vAssert(err == nil, "C24 card encodes")
	vAssert(vSame(decode(out2), wc), "C24 card after another one round trip")
	vAssert(vSame(x, wb), "C24 card decoded earlier stays as it was")
	vAssert(vEq(out, keep), "C24 card encoded earlier stays as it was")
	z := decode(b)
	vAssert(vSame(z, wb), "C24 card decodes the same again")
	out3, err := MarshalDriverCardFile(z)
	vAssert(err == nil && vEq(out3, keep), "C24 card encodes the same again")
	vReach("end")
}
