package card

import cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"

// Written by tools/genc20.py: large files of many records.

// vRaw checks stored original bytes where a record has them.
func vRaw(raw, b []byte) {
	if len(raw) > 0 {
		vAssert(vEq(raw, b), "stored original bytes")
	}
}

// vManyEvents is a file of N records with the contents s for its header and record k.
func vManyEvents(N, k int) []byte {
	s := vBytes("b", 24)
	vAssume(dEvent(s[0:]))
	b := make([]byte, 0, 0+N*24)
	b = append(b, s[:0]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[0:]...)
			continue
		}
		var r [24]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		r[0] = 1
		r[9] = 1+byte(i%40)
		r[10] = 1
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 347 records of 24 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_Events() {
	const N = 347
	k := []int{0, 170, 171, 346}[vPick("k", 4)]
	b := vManyEvents(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(err == nil, "Events with many records accepted")
	vAssert(len(x.GetEvents()) == N, "Events record count")
	for i, r := range x.GetEvents() {
		c := keep[0+24*i : 0+24*i+24]
		refEvent(r, c)
	}
	vAssert(vEq(b, keep), "Events decoding leaves the input alone")
	vReach("end", uint64(len(x.GetEvents())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_Events_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyEvents(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(err == nil, "Events with many records accepted")
	out, err := appendEventsData(nil, x)
	vAssert(err == nil, "Events with many records encodes")
	vAssert(vEq(out, b), "Events with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_Events_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyEvents(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(err == nil, "Events with many records accepted")
	rs := x.GetEvents()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendEventsData(nil, x)
	vAssert(err == nil, "Events with exchanged records encodes")
	want := vCopy(b)
	copy(want[0:24], b[0+24*(N-1):])
	copy(want[0+24*(N-1):], b[0:24])
	vAssert(vEq(out, want), "Events writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_Events_many() {
	const N = 130
	b := vManyEvents(N, N-1)
	vTextIn(b[24*(N-1)+10:24*(N-1)+24], 0)
	vAssume(rU32(b[24*(N-1)+1:24*(N-1)+5]) != 0)
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(err == nil, "Events with many records accepted")
	x = vStrip(x).(*cardv1.EventsData)
	out, err := appendEventsData(nil, x)
	vAssert(err == nil, "Events with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "Events with many records without stored bytes encodes to its size")
	y, err := o.unmarshalEventsData(out)
	vAssert(err == nil, "Events with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Events with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}

// vManyFaults is a file of N records with the contents s for its header and record k.
func vManyFaults(N, k int) []byte {
	s := vBytes("b", 24)
	vAssume(dEvent(s[0:]))
	b := make([]byte, 0, 0+N*24)
	b = append(b, s[:0]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[0:]...)
			continue
		}
		var r [24]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		r[0] = 1
		r[9] = 1+byte(i%40)
		r[10] = 1
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 347 records of 24 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_Faults() {
	const N = 347
	k := []int{0, 170, 171, 346}[vPick("k", 4)]
	b := vManyFaults(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(err == nil, "Faults with many records accepted")
	vAssert(len(x.GetFaults()) == N, "Faults record count")
	for i, r := range x.GetFaults() {
		c := keep[0+24*i : 0+24*i+24]
		refFault(r, c)
	}
	vAssert(vEq(b, keep), "Faults decoding leaves the input alone")
	vReach("end", uint64(len(x.GetFaults())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_Faults_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyFaults(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(err == nil, "Faults with many records accepted")
	out, err := appendFaultsData(nil, x)
	vAssert(err == nil, "Faults with many records encodes")
	vAssert(vEq(out, b), "Faults with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_Faults_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyFaults(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(err == nil, "Faults with many records accepted")
	rs := x.GetFaults()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendFaultsData(nil, x)
	vAssert(err == nil, "Faults with exchanged records encodes")
	want := vCopy(b)
	copy(want[0:24], b[0+24*(N-1):])
	copy(want[0+24*(N-1):], b[0:24])
	vAssert(vEq(out, want), "Faults writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_Faults_many() {
	const N = 130
	b := vManyFaults(N, N-1)
	vTextIn(b[24*(N-1)+10:24*(N-1)+24], 0)
	vAssume(rU32(b[24*(N-1)+1:24*(N-1)+5]) != 0)
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(err == nil, "Faults with many records accepted")
	x = vStrip(x).(*cardv1.FaultsData)
	out, err := appendFaultsData(nil, x)
	vAssert(err == nil, "Faults with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "Faults with many records without stored bytes encodes to its size")
	y, err := o.unmarshalFaultsData(out)
	vAssert(err == nil, "Faults with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Faults with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}

// vManyVehiclesUsed is a file of N records with the contents s for its header and record k.
func vManyVehiclesUsed(N, k int) []byte {
	s := vBytes("b", 33)
	vAssume(dCardVehicle(s[2:]))
	b := make([]byte, 0, 2+N*31)
	b = append(b, s[:2]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[2:]...)
			continue
		}
		var r [31]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		r[14] = 1+byte(i%40)
		r[15] = 1
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 269 records of 31 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_VehiclesUsed() {
	const N = 269
	k := []int{0, 132, 133, 268}[vPick("k", 4)]
	b := vManyVehiclesUsed(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil, "VehiclesUsed with many records accepted")
	vAssert(len(x.GetRecords()) == N, "VehiclesUsed record count")
	for i, r := range x.GetRecords() {
		c := keep[2+31*i : 2+31*i+31]
		refCardVehicle(r, c)
		vRaw(r.GetRawData(), c)
	}
	vAssert(vEq(b, keep), "VehiclesUsed decoding leaves the input alone")
	vReach("end", uint64(len(x.GetRecords())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_VehiclesUsed_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyVehiclesUsed(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil, "VehiclesUsed with many records accepted")
	out, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil, "VehiclesUsed with many records encodes")
	vAssert(vEq(out, b), "VehiclesUsed with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_VehiclesUsed_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyVehiclesUsed(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil, "VehiclesUsed with many records accepted")
	rs := x.GetRecords()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil, "VehiclesUsed with exchanged records encodes")
	want := vCopy(b)
	copy(want[2:33], b[2+31*(N-1):])
	copy(want[2+31*(N-1):], b[2:33])
	vAssert(vEq(out, want), "VehiclesUsed writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_VehiclesUsed_many() {
	const N = 130
	b := vManyVehiclesUsed(N, N-1)
	vTextIn(b[31*(N-1)+17:31*(N-1)+31], 0)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil, "VehiclesUsed with many records accepted")
	x = vStrip(x).(*cardv1.VehiclesUsed)
	out, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil, "VehiclesUsed with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "VehiclesUsed with many records without stored bytes encodes to its size")
	y, err := o.unmarshalVehiclesUsed(out)
	vAssert(err == nil, "VehiclesUsed with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "VehiclesUsed with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}

// vManyVehiclesUsedG2 is a file of N records with the contents s for its header and record k.
func vManyVehiclesUsedG2(N, k int) []byte {
	s := vBytes("b", 50)
	vAssume(dCardVehicleG2(s[2:]))
	b := make([]byte, 0, 2+N*48)
	b = append(b, s[:2]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[2:]...)
			continue
		}
		var r [48]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		r[14] = 1+byte(i%40)
		r[15] = 1
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 174 records of 48 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_VehiclesUsedG2() {
	const N = 174
	k := []int{0, 85, 86, 173}[vPick("k", 4)]
	b := vManyVehiclesUsedG2(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil, "VehiclesUsedG2 with many records accepted")
	vAssert(len(x.GetRecords()) == N, "VehiclesUsedG2 record count")
	for i, r := range x.GetRecords() {
		c := keep[2+48*i : 2+48*i+48]
		refCardVehicleG2(r, c)
		vRaw(r.GetRawData(), c)
	}
	vAssert(vEq(b, keep), "VehiclesUsedG2 decoding leaves the input alone")
	vReach("end", uint64(len(x.GetRecords())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_VehiclesUsedG2_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyVehiclesUsedG2(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil, "VehiclesUsedG2 with many records accepted")
	out, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil, "VehiclesUsedG2 with many records encodes")
	vAssert(vEq(out, b), "VehiclesUsedG2 with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_VehiclesUsedG2_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyVehiclesUsedG2(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil, "VehiclesUsedG2 with many records accepted")
	rs := x.GetRecords()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil, "VehiclesUsedG2 with exchanged records encodes")
	want := vCopy(b)
	copy(want[2:50], b[2+48*(N-1):])
	copy(want[2+48*(N-1):], b[2:50])
	vAssert(vEq(out, want), "VehiclesUsedG2 writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_VehiclesUsedG2_many() {
	const N = 130
	b := vManyVehiclesUsedG2(N, N-1)
	vTextIn(b[48*(N-1)+17:48*(N-1)+31], 0)
	vIa5In(b[48*(N-1)+33:48*(N-1)+50], 1)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil, "VehiclesUsedG2 with many records accepted")
	x = vStrip(x).(*cardv1.VehiclesUsedG2)
	out, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil, "VehiclesUsedG2 with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "VehiclesUsedG2 with many records without stored bytes encodes to its size")
	y, err := o.unmarshalVehiclesUsedG2(out)
	vAssert(err == nil, "VehiclesUsedG2 with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "VehiclesUsedG2 with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}

// vManyPlaces is a file of N records with the contents s for its header and record k.
func vManyPlaces(N, k int) []byte {
	s := vBytes("b", 11)
	vAssume(dNone(s[1:]))
	b := make([]byte, 0, 1+N*10)
	b = append(b, s[:1]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[1:]...)
			continue
		}
		var r [10]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 832 records of 10 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_Places() {
	const N = 832
	k := []int{0, 409, 410, 831}[vPick("k", 4)]
	b := vManyPlaces(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(err == nil, "Places with many records accepted")
	vAssert(len(x.GetRecords()) == N, "Places record count")
	for i, r := range x.GetRecords() {
		c := keep[1+10*i : 1+10*i+10]
		refPlace(r, c)
		vRaw(r.GetRawData(), c)
	}
	vAssert(vEq(b, keep), "Places decoding leaves the input alone")
	vReach("end", uint64(len(x.GetRecords())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_Places_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyPlaces(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(err == nil, "Places with many records accepted")
	out, err := appendPlaces(nil, x)
	vAssert(err == nil, "Places with many records encodes")
	vAssert(vEq(out, b), "Places with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_Places_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyPlaces(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(err == nil, "Places with many records accepted")
	rs := x.GetRecords()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendPlaces(nil, x)
	vAssert(err == nil, "Places with exchanged records encodes")
	want := vCopy(b)
	copy(want[1:11], b[1+10*(N-1):])
	copy(want[1+10*(N-1):], b[1:11])
	vAssert(vEq(out, want), "Places writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_Places_many() {
	const N = 130
	b := vManyPlaces(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(err == nil, "Places with many records accepted")
	x = vStrip(x).(*cardv1.Places)
	out, err := appendPlaces(nil, x)
	vAssert(err == nil, "Places with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "Places with many records without stored bytes encodes to its size")
	y, err := o.unmarshalPlaces(out)
	vAssert(err == nil, "Places with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Places with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}

// vManyPlacesG2 is a file of N records with the contents s for its header and record k.
func vManyPlacesG2(N, k int) []byte {
	s := vBytes("b", 23)
	vAssume(dNone(s[2:]))
	b := make([]byte, 0, 2+N*21)
	b = append(b, s[:2]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[2:]...)
			continue
		}
		var r [21]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 397 records of 21 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_PlacesG2() {
	const N = 397
	k := []int{0, 195, 196, 396}[vPick("k", 4)]
	b := vManyPlacesG2(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil, "PlacesG2 with many records accepted")
	vAssert(len(x.GetRecords()) == N, "PlacesG2 record count")
	for i, r := range x.GetRecords() {
		c := keep[2+21*i : 2+21*i+21]
		refPlaceG2(r, c)
		vRaw(r.GetRawData(), c)
	}
	vAssert(vEq(b, keep), "PlacesG2 decoding leaves the input alone")
	vReach("end", uint64(len(x.GetRecords())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_PlacesG2_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyPlacesG2(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil, "PlacesG2 with many records accepted")
	out, err := appendPlacesG2(nil, x)
	vAssert(err == nil, "PlacesG2 with many records encodes")
	vAssert(vEq(out, b), "PlacesG2 with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_PlacesG2_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyPlacesG2(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil, "PlacesG2 with many records accepted")
	rs := x.GetRecords()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendPlacesG2(nil, x)
	vAssert(err == nil, "PlacesG2 with exchanged records encodes")
	want := vCopy(b)
	copy(want[2:23], b[2+21*(N-1):])
	copy(want[2+21*(N-1):], b[2:23])
	vAssert(vEq(out, want), "PlacesG2 writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_PlacesG2_many() {
	const N = 130
	b := vManyPlacesG2(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil, "PlacesG2 with many records accepted")
	x = vStrip(x).(*cardv1.PlacesG2)
	out, err := appendPlacesG2(nil, x)
	vAssert(err == nil, "PlacesG2 with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "PlacesG2 with many records without stored bytes encodes to its size")
	y, err := o.unmarshalPlacesG2(out)
	vAssert(err == nil, "PlacesG2 with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "PlacesG2 with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}

// vManySpecificConditions is a file of N records with the contents s for its header and record k.
func vManySpecificConditions(N, k int) []byte {
	s := vBytes("b", 5)
	vAssume(dNone(s[0:]))
	b := make([]byte, 0, 0+N*5)
	b = append(b, s[:0]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[0:]...)
			continue
		}
		var r [5]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 1662 records of 5 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_SpecificConditions() {
	const N = 1662
	k := []int{0, 819, 820, 1661}[vPick("k", 4)]
	b := vManySpecificConditions(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil, "SpecificConditions with many records accepted")
	vAssert(len(x.GetRecords()) == N, "SpecificConditions record count")
	for i, r := range x.GetRecords() {
		c := keep[0+5*i : 0+5*i+5]
		refSpecific(r, c)
	}
	vAssert(vEq(b, keep), "SpecificConditions decoding leaves the input alone")
	vReach("end", uint64(len(x.GetRecords())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_SpecificConditions_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManySpecificConditions(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil, "SpecificConditions with many records accepted")
	out, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil, "SpecificConditions with many records encodes")
	vAssert(vEq(out, b), "SpecificConditions with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_SpecificConditions_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManySpecificConditions(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil, "SpecificConditions with many records accepted")
	rs := x.GetRecords()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil, "SpecificConditions with exchanged records encodes")
	want := vCopy(b)
	copy(want[0:5], b[0+5*(N-1):])
	copy(want[0+5*(N-1):], b[0:5])
	vAssert(vEq(out, want), "SpecificConditions writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_SpecificConditions_many() {
	const N = 130
	b := vManySpecificConditions(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil, "SpecificConditions with many records accepted")
	x = vStrip(x).(*cardv1.SpecificConditions)
	out, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil, "SpecificConditions with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "SpecificConditions with many records without stored bytes encodes to its size")
	y, err := o.unmarshalSpecificConditions(out)
	vAssert(err == nil, "SpecificConditions with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "SpecificConditions with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}

// vManySpecificConditionsG2 is a file of N records with the contents s for its header and record k.
func vManySpecificConditionsG2(N, k int) []byte {
	s := vBytes("b", 7)
	vAssume(dNone(s[2:]))
	b := make([]byte, 0, 2+N*5)
	b = append(b, s[:2]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[2:]...)
			continue
		}
		var r [5]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 1662 records of 5 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_SpecificConditionsG2() {
	const N = 1662
	k := []int{0, 819, 820, 1661}[vPick("k", 4)]
	b := vManySpecificConditionsG2(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil, "SpecificConditionsG2 with many records accepted")
	vAssert(len(x.GetRecords()) == N, "SpecificConditionsG2 record count")
	for i, r := range x.GetRecords() {
		c := keep[2+5*i : 2+5*i+5]
		refSpecific(r, c)
	}
	vAssert(vEq(b, keep), "SpecificConditionsG2 decoding leaves the input alone")
	vReach("end", uint64(len(x.GetRecords())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_SpecificConditionsG2_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManySpecificConditionsG2(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil, "SpecificConditionsG2 with many records accepted")
	out, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil, "SpecificConditionsG2 with many records encodes")
	vAssert(vEq(out, b), "SpecificConditionsG2 with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_SpecificConditionsG2_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManySpecificConditionsG2(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil, "SpecificConditionsG2 with many records accepted")
	rs := x.GetRecords()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil, "SpecificConditionsG2 with exchanged records encodes")
	want := vCopy(b)
	copy(want[2:7], b[2+5*(N-1):])
	copy(want[2+5*(N-1):], b[2:7])
	vAssert(vEq(out, want), "SpecificConditionsG2 writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_SpecificConditionsG2_many() {
	const N = 130
	b := vManySpecificConditionsG2(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil, "SpecificConditionsG2 with many records accepted")
	x = vStrip(x).(*cardv1.SpecificConditionsG2)
	out, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil, "SpecificConditionsG2 with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "SpecificConditionsG2 with many records without stored bytes encodes to its size")
	y, err := o.unmarshalSpecificConditionsG2(out)
	vAssert(err == nil, "SpecificConditionsG2 with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "SpecificConditionsG2 with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}

// vManyVehicleUnitsUsed is a file of N records with the contents s for its header and record k.
func vManyVehicleUnitsUsed(N, k int) []byte {
	s := vBytes("b", 12)
	vAssume(dNone(s[2:]))
	b := make([]byte, 0, 2+N*10)
	b = append(b, s[:2]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[2:]...)
			continue
		}
		var r [10]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 832 records of 10 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_VehicleUnitsUsed() {
	const N = 832
	k := []int{0, 409, 410, 831}[vPick("k", 4)]
	b := vManyVehicleUnitsUsed(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil, "VehicleUnitsUsed with many records accepted")
	vAssert(len(x.GetRecords()) == N, "VehicleUnitsUsed record count")
	for i, r := range x.GetRecords() {
		c := keep[2+10*i : 2+10*i+10]
		refVehicleUnit(r, c)
	}
	vAssert(vEq(b, keep), "VehicleUnitsUsed decoding leaves the input alone")
	vReach("end", uint64(len(x.GetRecords())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_VehicleUnitsUsed_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyVehicleUnitsUsed(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil, "VehicleUnitsUsed with many records accepted")
	out, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil, "VehicleUnitsUsed with many records encodes")
	vAssert(vEq(out, b), "VehicleUnitsUsed with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_VehicleUnitsUsed_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyVehicleUnitsUsed(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil, "VehicleUnitsUsed with many records accepted")
	rs := x.GetRecords()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil, "VehicleUnitsUsed with exchanged records encodes")
	want := vCopy(b)
	copy(want[2:12], b[2+10*(N-1):])
	copy(want[2+10*(N-1):], b[2:12])
	vAssert(vEq(out, want), "VehicleUnitsUsed writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_VehicleUnitsUsed_many() {
	const N = 130
	b := vManyVehicleUnitsUsed(N, N-1)
	vIa5In(b[10*(N-1)+8:10*(N-1)+12], 0)
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil, "VehicleUnitsUsed with many records accepted")
	x = vStrip(x).(*cardv1.VehicleUnitsUsed)
	out, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil, "VehicleUnitsUsed with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "VehicleUnitsUsed with many records without stored bytes encodes to its size")
	y, err := o.unmarshalVehicleUnitsUsed(out)
	vAssert(err == nil, "VehicleUnitsUsed with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "VehicleUnitsUsed with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}

// vManyGnssPlaces is a file of N records with the contents s for its header and record k.
func vManyGnssPlaces(N, k int) []byte {
	s := vBytes("b", 20)
	vAssume(dNone(s[2:]))
	b := make([]byte, 0, 2+N*18)
	b = append(b, s[:2]...)
	for i := 0; i < N; i++ {
		if i == k {
			b = append(b, s[2:]...)
			continue
		}
		var r [18]byte
		for j := range r {
			r[j] = "0123456789"[i/[3]int{1, 10, 100}[j%3]%10]
		}
		b = append(b, r[:]...)
	}
	return b
}

//v:bounds 463 records of 18 bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_GnssPlaces() {
	const N = 463
	k := []int{0, 227, 228, 462}[vPick("k", 4)]
	b := vManyGnssPlaces(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil, "GnssPlaces with many records accepted")
	vAssert(len(x.GetRecords()) == N, "GnssPlaces record count")
	for i, r := range x.GetRecords() {
		c := keep[2+18*i : 2+18*i+18]
		refGnssPlace(r, c)
	}
	vAssert(vEq(b, keep), "GnssPlaces decoding leaves the input alone")
	vReach("end", uint64(len(x.GetRecords())))
}

//v:bounds 50, 130 or 257 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_GnssPlaces_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyGnssPlaces(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil, "GnssPlaces with many records accepted")
	out, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil, "GnssPlaces with many records encodes")
	vAssert(vEq(out, b), "GnssPlaces with many records round trip")
	vReach("end", uint64(N))
}

//v:bounds 50, 130 or 257 records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_GnssPlaces_many() {
	N := []int{50, 130, 257}[vPick("n", 3)]
	b := vManyGnssPlaces(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil, "GnssPlaces with many records accepted")
	rs := x.GetRecords()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil, "GnssPlaces with exchanged records encodes")
	want := vCopy(b)
	copy(want[2:20], b[2+18*(N-1):])
	copy(want[2+18*(N-1):], b[2:20])
	vAssert(vEq(out, want), "GnssPlaces writes exchanged records at their positions")
	vReach("end", uint64(N))
}

//v:bounds 130 records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_GnssPlaces_many() {
	const N = 130
	b := vManyGnssPlaces(N, N-1)
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil, "GnssPlaces with many records accepted")
	x = vStrip(x).(*cardv1.GnssPlaces)
	out, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil, "GnssPlaces with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "GnssPlaces with many records without stored bytes encodes to its size")
	y, err := o.unmarshalGnssPlaces(out)
	vAssert(err == nil, "GnssPlaces with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "GnssPlaces with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}
