#!/usr/bin/env python3
"""Authoring aid: writes harness/internal/{dd,card}/history.go, harnesses that use an operation on other data in between."""
import runpy
dd=runpy.run_path("/verif/tools/gendd.py"); card=runpy.run_path("/verif/tools/gencard.py")
# anonymisers of dd items: name -> call
DA={"CardVehicleRecord":"AnonymizeCardVehicleRecord(%s)","CardVehicleRecordG2":"AnonymizeCardVehicleRecordG2(%s)","PlaceRecord":"AnonymizePlaceRecord(%s)","PlaceRecordG2":"AnonymizePlaceRecordG2(%s)",
 "DriverIdentification":"AnonymizeDriverIdentification(%s)","VehicleRegistration":"AnonymizeVehicleRegistration(%s)","GeoCoordinates":None}
import re,glob
have=set()
for f in glob.glob("/repo/internal/*/*.go"):
    if f.endswith("_test.go"): continue
    have|=set(re.findall(r"^func (Anonymize\w+)\((\w+) \*[\w.]+\) \*",open(f).read(),re.M))
have={a for a,_ in have}
print(sorted(have))
def body(n,un,ap,d,size,anon,N):
    s=f'''	b := {size("b")}
	c := {size("c")}
	vAssume({d("b")})
	vAssume({d("c")})
	var o UnmarshalOptions
	x, err := o.{un}(b)
	vAssert(err == nil, "{n} accepted")
	firstMsg := proto.Clone(x)
	out, err := {ap}(nil, x)
	vAssert(err == nil, "{n} encodes")
	keep := vCopy(out)
'''
    if anon: s+=f"\tp := {anon % 'x'}\n\tfirstAnon := proto.Clone(p)\n"
    s+=f'''	y, err := o.{un}(c)
	vAssert(err == nil, "{n} accepted")
	out2, err := {ap}(nil, y)
	vAssert(err == nil && vEq(out2, c), "{n} round trip after another one")
'''
    if anon: s+=f"\tq := {anon % 'y'}\n\tvAssert(vSame(p, firstAnon), \"{n} anonymised earlier stays as it was\")\n\tvAssert(q != nil, \"{n} anonymised\")\n"
    s+=f'''	vAssert(vSame(x, firstMsg), "{n} decoded earlier stays as it was")
	vAssert(vEq(out, keep), "{n} encoded earlier stays as it was")
	z, err := o.{un}(b)
	vAssert(err == nil && vSame(z, firstMsg), "{n} decodes the same again")
	out3, err := {ap}(nil, z)
	vAssert(err == nil && vEq(out3, keep), "{n} encodes the same again")
'''
    if anon: s+=f"\tvAssert(vSame({anon % 'z'}, firstAnon), \"{n} anonymises the same again\")\n"
    return s+f'\tvReach("end", uint64(len(out)))\n}}\n'
out=['''package dd

// Written by tools/genhist.py: the same operation on other data in between.

import "google.golang.org/protobuf/proto"
''']
for n,size,t,d,ref,ed in dd["items"]:
    a="Anonymize"+n if "Anonymize"+n in have else ("Anonymize"+t if "Anonymize"+t in have else None)
    def dx(v,d=d):
        return re.sub(r"\bb\b",v,d) if d else "true"
    out.append(f"\n//v:bounds two items of {size} bytes, all symbolic; values the data dictionary defines; decoded, encoded{', anonymised' if a else ''} one after the other and the first again\nfunc vh_C24_{n}() {{\n"+body(n,"Unmarshal"+n,"Append"+n,dx,lambda v:f'vBytes("{v}", {size})',a and a+"(%s)",0))
open('/verif/harness/internal/dd/history.go','w').write("".join(out))
out=['''package card

// Written by tools/genhist.py: the same operation on other data in between.

import "google.golang.org/protobuf/proto"
''']
for n,un,ap,h,rec,d,ref,ed in card["items"]:
    if n=="CurrentUsage": dx=lambda v:"dVRN(%s[4:19])"%v
    elif rec: dx=lambda v:"dEach(%s, %d, %d, %s)"%(v,h,rec,d)
    else: dx=lambda v:"%s(%s)"%(d,v)
    a="Anonymize"+card["types"][n]; a=a+"(%s)" if a in have else None
    if rec: sz=lambda v:f'vBytes("{v}", {h+2*rec})[:{h}+{rec}*(1+vPick("{v}n", 1+vTier()))]'
    else: sz=lambda v:f'vBytes("{v}", {h})'
    out.append(f"\n//v:bounds two files of {'1 record (thorough: 1 or 2)' if rec else str(h)+' bytes'}, all symbolic; values the data dictionary defines; decoded, encoded{', anonymised' if a else ''} one after the other and the first again\nfunc vh_C24_EF_{n}() {{\n"+body(n,un,ap,dx,sz,a,0))
open('/verif/harness/internal/card/history.go','w').write("".join(out))
