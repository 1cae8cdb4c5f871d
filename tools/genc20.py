#!/usr/bin/env python3
"""Authoring aid: writes harness/internal/card/many.go (C20), large files of many records."""
# name, un, header, size, list getter, ref, defined, patches {position: expression in i}, raw checks
gencard_texts={"Events":[(10,24)],"Faults":[(10,24)],"VehiclesUsed":[(15+2,29+2)],"VehiclesUsedG2":[(17,31),(33,50,1)],"VehicleUnitsUsed":[(8,12,1)]}
E=[
 ("Events","unmarshalEventsData",0,24,"Events","refEvent","dEvent",{0:"1",9:"1+byte(i%40)",10:"1"},""),
 ("Faults","unmarshalFaultsData",0,24,"Faults","refFault","dEvent",{0:"1",9:"1+byte(i%40)",10:"1"},""),
 ("VehiclesUsed","unmarshalVehiclesUsed",2,31,"Records","refCardVehicle","dCardVehicle",{14:"1+byte(i%40)",15:"1"},"vRaw(r.GetRawData(), c)"),
 ("VehiclesUsedG2","unmarshalVehiclesUsedG2",2,48,"Records","refCardVehicleG2","dCardVehicleG2",{14:"1+byte(i%40)",15:"1"},"vRaw(r.GetRawData(), c)"),
 ("Places","unmarshalPlaces",1,10,"Records","refPlace","dNone",{},"vRaw(r.GetRawData(), c)"),
 ("PlacesG2","unmarshalPlacesG2",2,21,"Records","refPlaceG2","dNone",{},"vRaw(r.GetRawData(), c)"),
 ("SpecificConditions","unmarshalSpecificConditions",0,5,"Records","refSpecific","dNone",{},""),
 ("SpecificConditionsG2","unmarshalSpecificConditionsG2",2,5,"Records","refSpecific","dNone",{},""),
 ("VehicleUnitsUsed","unmarshalVehicleUnitsUsed",2,10,"Records","refVehicleUnit","dNone",{},""),
 ("GnssPlaces","unmarshalGnssPlaces",2,18,"Records","refGnssPlace","dNone",{},""),
]
o=['''package card

import cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"

// Written by tools/genc20.py: large files of many records.

// vRaw checks stored original bytes where a record has them.
func vRaw(raw, b []byte) {
	if len(raw) > 0 {
		vAssert(vEq(raw, b), "stored original bytes")
	}
}
''']
for n,un,h,sz,lst,ref,d,pt,raw in E:
    N=8300//sz+2
    M=[50,130,257]
    ty=un[9:] if not n in('Events','Faults') else n+'Data'
    t=gencard_texts.get(n,[])
    t22=''.join(chr(10)+chr(9)+'v%sIn(b[%d*(N-1)+%d:%d*(N-1)+%d], %d)'%('Ia5' if len(q)>2 else 'Text',sz,q[0],sz,q[1],i) for i,q in enumerate(t))
    if n in('Events','Faults'): t22+=chr(10)+chr(9)+'vAssume(rU32(b[%d*(N-1)+1:%d*(N-1)+5]) != 0)'%(sz,sz)
    K=[0,4096//sz,4096//sz+1,N-1]
    patches="".join(f"\n\t\tr[{p}] = {e}" for p,e in pt.items())
    ap={'Events':'appendEventsData','Faults':'appendFaultsData','VehiclesUsed':'appendVehiclesUsed','VehiclesUsedG2':'appendVehiclesUsedG2','Places':'appendPlaces','PlacesG2':'appendPlacesG2','SpecificConditions':'appendCardSpecificConditions','SpecificConditionsG2':'appendCardSpecificConditionsG2','VehicleUnitsUsed':'appendCardVehicleUnitsUsed','GnssPlaces':'appendCardGnssPlaces'}[n]
    o.append(f'''
// vMany{n} is a file of N records with the contents s for its header and record k.
func vMany{n}(N, k int) []byte {{
	s := vBytes("b", {h+sz})
	vAssume({d}(s[{h}:]))
	b := make([]byte, 0, {h}+N*{sz})
	b = append(b, s[:{h}]...)
	for i := 0; i < N; i++ {{
		if i == k {{
			b = append(b, s[{h}:]...)
			continue
		}}
		var r [{sz}]byte
		for j := range r {{
			r[j] = "0123456789"[i/[3]int{{1, 10, 100}}[j%3]%10]
		}}{patches}
		b = append(b, r[:]...)
	}}
	return b
}}

//v:bounds {N} records of {sz} bytes (more than two read buffers); one record (first, last, around the end of the first read buffer) and the header with every byte symbolic, all other records of distinct fixed contents; every record checked
//v:cost 5
func vh_C20_{n}() {{
	const N = {N}
	k := []int{{{K[0]}, {K[1]}, {K[2]}, {K[3]}}}[vPick("k", 4)]
	b := vMany{n}(N, k)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.{un}(b)
	vAssert(err == nil, "{n} with many records accepted")
	vAssert(len(x.Get{lst}()) == N, "{n} record count")
	for i, r := range x.Get{lst}() {{
		c := keep[{h}+{sz}*i : {h}+{sz}*i+{sz}]
		{ref}(r, c){"" if not raw else chr(10)+chr(9)*2+raw.replace(chr(9)*3,chr(9)*2)}
	}}
	vAssert(vEq(b, keep), "{n} decoding leaves the input alone")
	vReach("end", uint64(len(x.Get{lst}())))
}}

//v:bounds {M[0]}, {M[1]} or {M[2]} records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C03_{n}_many() {{
	N := []int{{{M[0]}, {M[1]}, {M[2]}}}[vPick("n", 3)]
	b := vMany{n}(N, N-1)
	var o UnmarshalOptions
	x, err := o.{un}(b)
	vAssert(err == nil, "{n} with many records accepted")
	out, err := {ap}(nil, x)
	vAssert(err == nil, "{n} with many records encodes")
	vAssert(vEq(out, b), "{n} with many records round trip")
	vReach("end", uint64(N))
}}

//v:bounds {M[0]}, {M[1]} or {M[2]} records; the last one, which is exchanged with the first, and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C06_{n}_many() {{
	N := []int{{{M[0]}, {M[1]}, {M[2]}}}[vPick("n", 3)]
	b := vMany{n}(N, N-1)
	var o UnmarshalOptions
	x, err := o.{un}(b)
	vAssert(err == nil, "{n} with many records accepted")
	rs := x.Get{lst}()
	rs[0], rs[N-1] = rs[N-1], rs[0]
	out, err := {ap}(nil, x)
	vAssert(err == nil, "{n} with exchanged records encodes")
	want := vCopy(b)
	copy(want[{h}:{h+sz}], b[{h}+{sz}*(N-1):])
	copy(want[{h}+{sz}*(N-1):], b[{h}:{h+sz}])
	vAssert(vEq(out, want), "{n} writes exchanged records at their positions")
	vReach("end", uint64(N))
}}

//v:bounds {M[1]} records; the last one and the header with every byte symbolic, all other records of distinct fixed contents
//v:cost 5
func vh_C22_{n}_many() {{
	const N = {M[1]}
	b := vMany{n}(N, N-1){t22}
	var o UnmarshalOptions
	x, err := o.{un}(b)
	vAssert(err == nil, "{n} with many records accepted")
	x = vStrip(x).(*cardv1.{ty})
	out, err := {ap}(nil, x)
	vAssert(err == nil, "{n} with many records without stored bytes encodes")
	vAssert(len(out) == len(b), "{n} with many records without stored bytes encodes to its size")
	y, err := o.{un}(out)
	vAssert(err == nil, "{n} with many records without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "{n} with many records without stored bytes decodes to the same fields")
	vReach("end", uint64(N))
}}
''')
open('/verif/harness/internal/card/many.go','w').write("".join(o))
