package vu


// Lengths and counts of a first-generation overview.
//
//v:bounds every length from 0 to 760 bytes with both record counts arbitrary, all other bytes zero
//v:budget 120
func vh_C01_vu_OverviewGen1_size() {
	b := make([]byte, 760)
	b[491], b[492], b[590] = vU8("locks"), vU8("controls"), vU8("controls2")
	b = b[:vPick("n", 761)]
	x, err := unmarshalOverviewGen1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds 0 or 1 lock and 0 or 1 control, all bytes symbolic except the text of the company names and addresses (whose decoder is decided separately)
//v:budget 150
//v:cost 30
func vh_C01_vu_OverviewGen1() {
	b := make([]byte, 0, 800)
	b = append(b, make([]byte, 194*2)...)
	b = append(b, vBytes("head", 67)...)    // vin to card number
	b = append(b, vU8("page"))              // company name
	b = append(b, make([]byte, 35)...)
	nl := vPick("locks", 2)
	b = append(b, byte(nl))
	for i := 0; i < nl; i++ {
		b = append(b, vBytes("times", 8)...)
		b = append(b, make([]byte, 72)...)
		b = append(b, vBytes("card", 18)...)
	}
	nc := vPick("controls", 2)
	b = append(b, byte(nc))
	for i := 0; i < nc; i++ {
		b = append(b, vBytes("control", 31)...)
	}
	b = append(b, make([]byte, 128)...)
	x, err := unmarshalOverviewGen1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

// Lengths and counts of first-generation activities.
//
//v:bounds 20 lengths from 0 to 300 bytes around every section's end, one of the four counts arbitrary, all other bytes zero
//v:budget 150
//v:lazymake 65536
//v:cost 50
func vh_C01_vu_ActivitiesGen1_size() {
	b := make([]byte, 330)
	p := []int{7, 9, 11, 12}[vPick("section", 4)]
	b[p] = vU8("count1")
	if p != 11 {
		b[p+1] = vU8("count2")
	}
	b = b[:[]int{0, 3, 6, 8, 9, 10, 11, 12, 13, 14, 138, 139, 141, 142, 143, 144, 145, 272, 273, 300}[vPick("n", 20)]]
	x, err := unmarshalActivitiesGen1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds 0 or 1 card records, 0 to 2 changes, 0 or 1 places, 0 to 2 conditions, all bytes symbolic except holder names
//v:budget 150
//v:cost 30
func vh_C01_vu_ActivitiesGen1() {
	b := append([]byte{}, vBytes("head", 7)...)
	n := vPick("cards", 2)
	b = append(b, 0, byte(n))
	if n > 0 {
		b = append(b, make([]byte, 72)...)
		b = append(b, vBytes("iw", 57)...)
	}
	n = vPick("changes", 3)
	b = append(b, 0, byte(n))
	b = append(b, vBytes("change", 4)[:2*n]...)
	n = vPick("places", 2)
	b = append(b, byte(n))
	b = append(b, vBytes("place", 28)[:28*n]...)
	n = vPick("conditions", 3)
	b = append(b, 0, byte(n))
	b = append(b, vBytes("condition", 10)[:5*n]...)
	b = append(b, make([]byte, 128)...)
	x, err := unmarshalActivitiesGen1(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 9 bytes
//v:thorough:bounds every byte string of 0 to 16 bytes
//v:budget 120
func vh_C01_vu_RawVehicleUnitFile() {
	b := vBytes("b", 16)[:vPick("n", 10+7*vTier())]
	x, err := unmarshalRawVehicleUnitFile(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	f, err := UnmarshalVehicleUnitFile(b)
	vAssert((f == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

// Every transfer type cut at and around the end of each of its sections.
//
//v:bounds each first-generation transfer type with every count zero, or one of one section, and each second-generation one with arrays of one record of one byte, cut at and one byte beside the end of every section, at every byte of the headers; all bytes but the counts symbolic
func vh_C01_vu_cut() {
	t := vTags[vPick("t", 14)]
	var d []byte
	var ends []int
	one := vPick("one", 5)
	x := vBytes("x", 1200)
	put := func(n int) {
		d = append(d, x[len(d):len(d)+n]...)
		ends = append(ends, len(d))
	}
	for i, s := range t.secs {
		if s.cnt == 0 {
			put(s.fixed)
			continue
		}
		c := make([]byte, s.cnt)
		if i == one {
			c[s.cnt-1] = 1
		}
		d = append(d, c...)
		ends = append(ends, len(d))
		if i == one {
			put(s.rec)
		}
	}
	for i := 0; i < t.arrays; i++ {
		d = append(d, x[i], 0, 1, 0, 1)
		ends = append(ends, len(d), len(d)-2)
		put(1)
	}
	e := vPick("end", 22)
	vAssume(e < len(ends))
	n := ends[e] + vPick("beside", 3) - 1
	vAssume(n <= len(d))
	raw, err := unmarshalRawVehicleUnitFile(append([]byte{0x76, t.code}, d[:n]...))
	vAssert((err == nil) == (raw != nil), "C01 value or error")
	vAssert(err != nil || n == len(d), "C01 cut transfer refused")
	vReach("end")
}
