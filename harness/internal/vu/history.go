package vu

import "google.golang.org/protobuf/proto"

//v:bounds two overviews with one lock and one control, every byte symbolic (defined codes); decoded and encoded one after the other and the first again
//v:cost 20
func vh_C24_overview() {
	b := vOverview(1, 1)
	f := vBytes("other", 491)
	vAssume(bAnd(bAnd(dVRN(f[405:420]), dFCN(f[437:455])), dStr(f[455:491])))
	c := append(append(vCopy(f), 0, 0), vBytes("other sig", 128)...)
	x, err := unmarshalOverviewGen1(b)
	vAssert(err == nil, "OverviewGen1 accepted")
	first := proto.Clone(x)
	out, err := appendOverviewGen1(nil, x)
	vAssert(err == nil, "OverviewGen1 encodes")
	keep := vCopy(out)
	y, err := unmarshalOverviewGen1(c)
	vAssert(err == nil, "OverviewGen1 accepted")
	out2, err := appendOverviewGen1(nil, y)
	vAssert(err == nil && vEq(out2, c), "OverviewGen1 round trip after another one")
	vAssert(vSame(x, first), "OverviewGen1 decoded earlier stays as it was")
	vAssert(vEq(out, keep), "OverviewGen1 encoded earlier stays as it was")
	z, err := unmarshalOverviewGen1(b)
	vAssert(err == nil && vSame(z, first), "OverviewGen1 decodes the same again")
	out3, err := appendOverviewGen1(nil, z)
	vAssert(err == nil && vEq(out3, keep), "OverviewGen1 encodes the same again")
	vReach("end")
}

//v:bounds two first generation activity transfers, of one record of every kind and of none, every byte symbolic (defined codes)
//v:cost 20
func vh_C24_activities() {
	b := vActivities([4]int{1, 1, 1, 1})
	c := append(append(vCopy(vBytes("other", 7)), 0, 0, 0, 0, 0, 0, 0), vBytes("other sig", 128)...)
	x, err := unmarshalActivitiesGen1(b)
	vAssert(err == nil, "ActivitiesGen1 accepted")
	first := proto.Clone(x)
	y, err := unmarshalActivitiesGen1(c)
	vAssert(err == nil, "ActivitiesGen1 accepted")
	refActivities(y, c, [4]int{})
	out2, err := appendActivitiesGen1(nil, y)
	vAssert(err == nil && vEq(out2, c), "ActivitiesGen1 round trip after another one")
	vAssert(vSame(x, first), "ActivitiesGen1 decoded earlier stays as it was")
	z, err := unmarshalActivitiesGen1(b)
	vAssert(err == nil && vSame(z, first), "ActivitiesGen1 decodes the same again")
	out3, err := appendActivitiesGen1(nil, z)
	vAssert(err == nil && vEq(out3, b), "ActivitiesGen1 encodes to its bytes after another one")
	vReach("end")
}

//v:bounds two vehicle unit files of any one transfer each (all pairs of the fifteen), one byte of each content symbolic; optionally a refused file in between
//v:cost 20
//v:exactcm 1
func vh_C24_file() {
	one := func(id string) (vTag, []byte, []byte) {
		t := vTags[vPick("k"+id, len(vTags))]
		d := t.vSmallDefined("m" + id)
		return t, d, append([]byte{0x76, t.code}, d...)
	}
	t, d, b := one("0")
	u, e, c := one("1")
	x, err := UnmarshalVehicleUnitFile(b)
	vAssert(err == nil, "C24 file accepted")
	first := proto.Clone(x)
	if vPick("refused", 2) == 1 {
		UnmarshalVehicleUnitFile(c[:len(c)-1])
		UnmarshalVehicleUnitFile(append(vCopy(c), 0x76, 0x7E))
	}
	y, err := UnmarshalVehicleUnitFile(c)
	vAssert(err == nil, "C24 file accepted after another one")
	u.vKind(y, u.code>>4 == 3 || u.code == 0)
	if u.code != 0 {
		_, raw, _, out, err := u.vDecoded(y)
		vAssert(vEq(raw, e) && err == nil && vEq(out, e), "C24 transfer after another one keeps its bytes")
	}
	vAssert(vSame(x, first), "C24 file decoded earlier stays as it was")
	if t.code != 0 {
		_, raw, _, out, err := t.vDecoded(x)
		vAssert(vEq(raw, d) && err == nil && vEq(out, d), "C24 file decoded earlier still encodes to its bytes")
	}
	z, err := UnmarshalVehicleUnitFile(b)
	vAssert(err == nil && vSame(z, first), "C24 file decodes the same again")
	vReach("end")
}
