package card

// vOtherKm is another odometer value in the same unit of kilometres.
func vOtherKm(b []byte, unit uint32, i int) {
	v := uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
	v = v/unit*unit + (v%unit+uint32(i)+1)%unit
	b[0], b[1], b[2] = byte(v>>16), byte(v>>8), byte(v)
}

// Files of many records: the last record is symbolic in both files, the others are fixed and differ in everything that identifies.
//
//v:bounds 40, 130, 201 or 257 records; the last one (in both files) and the header with every byte symbolic, the others of distinct fixed contents that differ between the two files in times, registration numbers and odometers (within the same thousand)
//v:cost 5
func vh_C11_VehiclesUsed_many() {
	N := []int{40, 130, 201, 257}[vPick("n", 4)]
	b := vManyVehiclesUsed(N, N-1)
	c := vCopy(b)
	for i := 0; i < N-1; i++ {
		r := c[2+31*i : 2+31*i+31]
		vOtherKm(r[0:3], 1000, i)
		vOtherKm(r[3:6], 1000, 2*i)
		for k := 6; k < 29; k++ {
			if k != 14 && k != 15 {
				r[k] = "ABCDEFGHIJ"[i/[3]int{1, 10, 100}[k%3]%10]
			}
		}
	}
	l := c[2+31*(N-1):]
	x := vBytes("c", 28)
	copy(l[0:14], x[0:14])
	copy(l[15:29], x[14:28])
	vAssume(dCardVehicle(l))
	vAssume(rU24(b[2+31*(N-1):][0:3])/1000 == rU24(l[0:3])/1000)
	vAssume(rU24(b[2+31*(N-1):][3:6])/1000 == rU24(l[3:6])/1000)
	var o UnmarshalOptions
	m, err := o.unmarshalVehiclesUsed(b)
	m2, err2 := o.unmarshalVehiclesUsed(c)
	vAssert(err == nil && err2 == nil, "VehiclesUsed with many records accepted")
	p, q := AnonymizeVehiclesUsed(m), AnonymizeVehiclesUsed(m2)
	vAssert(vSame(p, q), "C11 VehiclesUsed with many records depends on identifying data")
	out, err := appendVehiclesUsed(nil, p)
	vAssert(err == nil && len(out) == len(b), "C11 VehiclesUsed with many records encodes")
	vAssert(vEq(out[0:2], b[0:2]), "C11 VehiclesUsed with many records: pointer kept")
	for i := 0; i < N; i++ {
		k := 2 + 31*i
		vAssert(out[k+14] == b[k+14] && vEq(out[k+29:k+31], b[k+29:k+31]), "C11 VehiclesUsed with many records: nation and counter kept")
		vAssert(rU24(out[k:k+3]) == rU24(b[k:k+3])/1000*1000, "C11 VehiclesUsed with many records: odometer rounded")
		vAssert(rU24(out[k+3:k+6]) == rU24(b[k+3:k+6])/1000*1000, "C11 VehiclesUsed with many records: odometer rounded")
	}
	vReach("end", uint64(N))
}

//v:bounds 40, 112, 130 or 257 records; the last one (in both files) and the header with every byte symbolic, the others of distinct fixed contents that differ between the two files in times, countries, regions and odometers (within the same hundred)
//v:cost 5
func vh_C11_Places_many() {
	N := []int{40, 112, 130, 257}[vPick("n", 4)]
	b := vManyPlaces(N, N-1)
	c := vCopy(b)
	for i := 0; i < N-1; i++ {
		r := c[1+10*i : 1+10*i+10]
		for k := 0; k < 7; k++ {
			if k != 4 {
				r[k] = "ABCDEFGHIJ"[i/[3]int{1, 10, 100}[k%3]%10]
			}
		}
		vOtherKm(r[7:10], 100, i)
	}
	old, l := b[1+10*(N-1):], c[1+10*(N-1):]
	x := vBytes("c", 9)
	copy(l[0:4], x[0:4])
	copy(l[5:10], x[4:9])
	vAssume((rU32(old[0:4]) == 0) == (rU32(l[0:4]) == 0))
	vAssume(rU24(old[7:10])/100 == rU24(l[7:10])/100)
	var o UnmarshalOptions
	m, err := o.unmarshalPlaces(b)
	m2, err2 := o.unmarshalPlaces(c)
	vAssert(err == nil && err2 == nil, "Places with many records accepted")
	p, q := AnonymizePlaces(m), AnonymizePlaces(m2)
	vAssert(vSame(p, q), "C11 Places with many records depends on identifying data")
	out, err := appendPlaces(nil, p)
	vAssert(err == nil && len(out) == len(b), "C11 Places with many records encodes")
	vAssert(out[0] == b[0], "C11 Places with many records: pointer kept")
	for i := 0; i < N; i++ {
		k := 1 + 10*i
		vAssert(out[k+4] == b[k+4], "C11 Places with many records: entry type kept")
		vAssert(rU24(out[k+7:k+10]) == rU24(b[k+7:k+10])/100*100, "C11 Places with many records: odometer rounded")
	}
	vReach("end", uint64(N))
}

//v:bounds 40, 112, 130 or 257 records; the last one (in both files) and the header with every byte symbolic, the others of distinct fixed contents that differ between the two files in times, countries, regions, positions and odometers (within the same hundred)
//v:cost 5
func vh_C11_PlacesG2_many() {
	N := []int{40, 112, 130, 257}[vPick("n", 4)]
	b := vManyPlacesG2(N, N-1)
	c := vCopy(b)
	for i := 0; i < N-1; i++ {
		r := c[2+21*i : 2+21*i+21]
		for k := 0; k < 21; k++ {
			if k != 4 && k != 14 && (k < 7 || k > 9) {
				r[k] = "ABCDEFGHIJ"[i/[3]int{1, 10, 100}[k%3]%10]
			}
		}
		vOtherKm(r[7:10], 100, i)
	}
	old, l := b[2+21*(N-1):], c[2+21*(N-1):]
	x := vBytes("c", 19)
	copy(l[0:4], x[0:4])
	copy(l[5:14], x[4:13])
	copy(l[15:21], x[13:19])
	vAssume((rU32(old[0:4]) == 0) == (rU32(l[0:4]) == 0))
	vAssume((rU32(old[10:14]) == 0) == (rU32(l[10:14]) == 0))
	vAssume(rU24(old[7:10])/100 == rU24(l[7:10])/100)
	var o UnmarshalOptions
	m, err := o.unmarshalPlacesG2(b)
	m2, err2 := o.unmarshalPlacesG2(c)
	vAssert(err == nil && err2 == nil, "PlacesG2 with many records accepted")
	p, q := AnonymizePlacesG2(m), AnonymizePlacesG2(m2)
	vAssert(vSame(p, q), "C11 PlacesG2 with many records depends on identifying data")
	out, err := appendPlacesG2(nil, p)
	vAssert(err == nil && len(out) == len(b), "C11 PlacesG2 with many records encodes")
	vAssert(vEq(out[0:2], b[0:2]), "C11 PlacesG2 with many records: pointer kept")
	for i := 0; i < N; i++ {
		k := 2 + 21*i
		vAssert(out[k+4] == b[k+4] && out[k+14] == b[k+14], "C11 PlacesG2 with many records: entry type and accuracy kept")
		vAssert(rU24(out[k+7:k+10]) == rU24(b[k+7:k+10])/100*100, "C11 PlacesG2 with many records: odometer rounded")
	}
	vReach("end", uint64(N))
}
