#!/usr/bin/env python3
"""Authoring aid: writes harness/internal/{dd,card}/clear.go, harnesses that encode messages with one field missing."""
import re, glob, runpy
ROOT="/repo/proto/gen/go/wayplatform/connect/tachograph/"
msgs={}
for p in ("dd","card","vu"):
    for f in glob.glob(ROOT+p+"/v1/*.pb.go"):
        s=open(f).read()
        for m in re.finditer(r'^type (\w+) struct \{\n(.*?)^\}',s,re.S|re.M):
            fs=[]
            for l in m.group(2).splitlines():
                k=re.match(r'\s+xxx_hidden_(\w+)\s+(\S+)\s+`',l)
                if k and k.group(1)!="RawData": fs.append((k.group(1),k.group(2)))
            msgs[(p,m.group(1))]=fs
UNREC=set()
ATOM=("StringValue","Ia5StringValue","BcdString","MonthYear","Date","Timestamp")
def paths(p,t,pre,depth,first):
    out=[]
    for n,ty in msgs[(p,t)]:
        if n in ("Valid","Signature","Authentication") or n.startswith("Unrecognized"): continue
        if "Unrecognized"+n in [k for k,_ in msgs[(p,t)]]: UNREC.add((tuple(pre),n))
        out.append((pre,n))
        lst=ty.startswith("*[]*")
        ty2=ty.replace("*[]","").lstrip("*")
        q,tt=(ty2.split(".")+[None])[:2] if "." in ty2 else (None,None)
        if q is None: q,tt=p,ty2
        else: q={"v1":"dd","v11":"dd"}.get(q,q)
        if tt in ATOM: continue
        if (q,tt) in msgs and depth>0 and msgs[(q,tt)]:
            if lst: out+=paths(q,tt,pre+[(n,True)],depth-1,first)
            else: out+=paths(q,tt,pre+[(n,False)],depth-1,first)
    return out
def clear(fn,typ,ps):
    global UNREC
    s=f"func {fn}(x *{typ}, f int) {{\n\tswitch f {{\n"
    for i,(pre,n) in enumerate(ps):
        e="x"+"".join(f".Get{a}()"+("[0]" if l else "") for a,l in pre)
        guard=[]
        g="x"
        for a,l in pre:
            g+=f".Get{a}()"
            guard.append(f"len({g}) > 0" if l else f"{g} != nil")
            if l: g+="[0]"
        body=f"{e}.Clear{n}()" if not any(n==fl and ty.startswith("*[]*") for fl,ty in []) else ""
        # repeated fields have no Clear method
        body=CL(e,pre,n,typ)
        s+=f"\tcase {i}:\n\t\t"+(f"if {' && '.join(guard)} {{\n\t\t\t{body}\n\t\t}}" if guard else body)+"\n"
    UNREC=set()
    return s+"\t}\n}\n"
REP=set()
def CL(e,pre,n,typ): return f"{e}.Set{n}(nil)" if n in REP else f"{e}.Clear{n}()"+(f"; {e}.ClearUnrecognized{n}()" if (tuple(pre),n) in UNREC else "")
for fs in msgs.values():
    for n,ty in fs:
        if ty.startswith("*[]*") or ty.startswith("[]") and ty!="[]byte": REP.add(n)
dd=runpy.run_path("/verif/tools/gendd.py"); card=runpy.run_path("/verif/tools/gencard.py")
out=['''package dd

// Written by tools/genclear.py: dictionary items with one field missing.

import ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
''']
EXC={"Events":["EventBeginTime"],"Faults":["FaultBeginTime"],"ControlActivity":["ControlTime"],"ApplicationIdentification":["CardType"],"ApplicationIdentificationG2":["CardType"]}
for n,size,t,d,ref,ed in dd["items"]:
    if n in ATOM: continue
    ps=[p for p in paths("dd",t,[],2,True) if p[1] not in EXC.get(n,())]
    out.append(f'''
//v:bounds all {size} bytes symbolic{', texts one of four each' if n in dd["texts"] else ''}; values the data dictionary defines; any one of {len(ps)} fields missing, stored bytes kept or dropped{chr(10)+'//v:exacttext 16' if n=='VuCardIWRecord' else ''}
func vh_C23_{n}() {{
	b := vBytes("b", {size})
{('	v := vPick("text", 4)'+chr(10)+dd["put"](n)) if n in dd["texts"] else ''}	vAssume({d or "true"})
	var o UnmarshalOptions
	x, err := o.Unmarshal{n}(b)
	vAssert(err == nil, "{n} accepted")
	if vPick("strip", 2) == 1 {{
		x = vStrip(x).(*ddv1.{t})
	}}
	f := vPick("field", {len(ps)})
	clear{n}(x, f)
	out, err := Append{n}(nil, x)
	if err != nil {{
		vReach("refused")
		return
	}}
	vAssert(len(out) == {size}, "{n} with a missing field encodes to its size")
	y, err := o.Unmarshal{n}(out)
	vAssert(err == nil, "{n} with a missing field decodes")
	clear{n}(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "{n} with a missing field keeps the others")
	vReach("end", uint64(f))
}}

''')
    out.append(clear("clear"+n,"ddv1."+t,ps))
items=[(n,size,t) for n,size,t,*_ in dd["items"]]
out.append("""
// No item at all.
//
//v:bounds every item; buffers of any 3 bytes
func vh_C23_missing() {
	var o UnmarshalOptions
	dst := vBytes("dst", 3)
	n, m, size, back := "", dst, 0, func(b []byte) error { return nil }
	var err error
	switch vPick("item", %d) {
"""%len(items))
for i,(n,size,t) in enumerate(items):
    out.append(f"""	case {i}:
		n, size, back = "{n}", {size}, func(b []byte) error {{ _, err := o.Unmarshal{n}(b); return err }}
		m, err = Append{n}(dst, nil)
""")
out.append("""	}
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(m) == 3+size, "missing item is refused or given its full size: "+n)
	vAssert(vEq(m[:3], dst), "missing item leaves the buffer in front alone: "+n)
	vAssert(back(m[3:]) == nil, "missing item decodes: "+n)
	vReach("end")
}
""")
open('/verif/harness/internal/dd/clear.go','w').write("".join(out))
out=['''package card

// Written by tools/genclear.py: elementary files with one field missing.

import (
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
)
''']
for n,un,ap,h,rec,d,ref,ed in card["items"]:
    t=card["types"][n]
    ps=[p for p in paths("card",t,[],3,True) if not (p[0]==[] and p[1] in ("Records","Events","Faults"))]
    ps=[p for p in ps if p[1] not in EXC.get(n,())]
    x22=""
    if n in ("Events","Faults"): x22="\n\tvAssume(rU32(b[1:5]) != 0 && rU32(b[25:29]) != 0)"
    if n=="ControlActivity": x22="\n\tvAssume(rU32(b[1:5]) != 0)"
    if n=="CurrentUsage": dexpr="dVRN(b[4:19])"
    elif rec: dexpr="dEach(b, %d, %d, %s)"%(h,rec,d)
    else: dexpr="%s(b)"%d
    N=2 if rec else 0
    p22=""
    if n in card["texts"]:
        p22='\tv := vPick("text", 4)\n'
        p22+=("\tfor i := 0; i < 2; i++ {\n"+card["put"](n,f"{h}+i*{rec}+").replace("\tv","\t\tv").replace(", v)",", (v+i)%4)")+"\t}\n") if rec else card["put"](n,"")
    out.append(f'''
//v:bounds {f"2 records of {rec} bytes" if rec else f"all {h} bytes"} symbolic{' except texts, one of four each' if n in card["texts"] else ''}; values the data dictionary defines; any one of {len(ps)} fields {"(of the file or its first record) " if rec else ""}missing, stored bytes kept or dropped
func vh_C23_EF_{n}() {{
	b := vBytes("b", {h+rec*N})
{p22}	vAssume({dexpr}){x22}
	var o UnmarshalOptions
	x, err := o.{un}(b)
	vAssert(err == nil, "{n} accepted")
	if vPick("strip", 2) == 1 {{
		x = vStrip(x).(*cardv1.{t})
	}}
	f := vPick("field", {len(ps)})
	clearEF{n}(x, f)
	out, err := {ap}(nil, x)
	if err != nil {{
		vReach("refused")
		return
	}}
	vAssert(len(out) == len(b), "{n} with a missing field encodes to its size")
	y, err := o.{un}(out)
	vAssert(err == nil, "{n} with a missing field decodes")
	clearEF{n}(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "{n} with a missing field keeps the others")
	vReach("end", uint64(f))
}}

''')
    out.append(clear("clearEF"+n,"cardv1."+t,ps))
ps=[p for p in paths("card","Identification",[],3,True) if p[1]!="CardType" and not (p[0]==[("Card",False)] and p[1] in ("DriverIdentification","OwnerIdentification"))]
out.append(f'''
//v:bounds every byte symbolic except texts, one of four each; values the data dictionary defines; any one of {len(ps)} fields missing
func vh_C23_Identification() {{
	b := vBytes("b", 143)
	v := vPick("text", 4)
	vIa5In(b[1:15], v)
	b[15], b[16] = byte("0Z19"[v]), byte("A0 2"[v])
	vTextIn(b[17:53], v)
	vTextIn(b[65:101], (v+1)%4)
	vTextIn(b[101:137], (v+2)%4)
	vIa5In(b[141:143], (v+3)%4)
	vAssume(dIdentification(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	vAssert(err == nil, "Identification accepted")
	if vPick("strip", 2) == 1 {{
		x = vStrip(x).(*cardv1.Identification)
	}}
	f := vPick("field", {len(ps)})
	clearIdentification(x, f)
	out, err := vIdentification(nil, x)
	if err != nil {{
		vReach("refused")
		return
	}}
	vAssert(len(out) == len(b), "Identification with a missing field encodes to its size")
	y, err := o.unmarshalIdentification(out)
	vAssert(err == nil, "Identification with a missing field decodes")
	clearIdentification(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "Identification with a missing field keeps the others")
	vReach("end", uint64(f))
}}

''')
out.append(clear("clearIdentification","cardv1.Identification",ps))
ps=[p for p in paths("card","DriverActivityData",[],2,True) if p[0] and p[1]!="ActivityChangeInfo"]
out.append(f'''
//v:bounds 2 valid records of 12 to 16 bytes, all contents symbolic (defined values), without their stored buffer; any one of {len(ps)} fields of the first record missing
func vh_C23_DriverActivity() {{
	var size [2]int
	total := 0
	for i := range size {{
		size[i] = 12 + 2*vPick("size", 3)
		total += size[i]
	}}
	b := vBytes("b", 36)[:4+total]
	p := 4
	for i := range size {{
		prev := 0
		if i > 0 {{
			prev = size[i-1]
		}}
		b[p], b[p+1], b[p+2], b[p+3] = byte(prev>>8), byte(prev), byte(size[i]>>8), byte(size[i])
		vAssume(dBCD(b[p+8 : p+10]))
		for j := p + 12; j < p+size[i]; j += 2 {{
			vAssume(rU16(b[j:j+2])|0x2000 != 0xffff)
		}}
		if i == 1 {{
			b[2], b[3] = byte((p-4)>>8), byte(p-4)
		}}
		p += size[i]
	}}
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	vAssert(err == nil, "DriverActivityData accepted")
	x = vStrip(x).(*cardv1.DriverActivityData)
	f := vPick("field", {len(ps)})
	clearDriverActivity(x, f)
	out, err := appendDriverActivity(nil, x)
	if err != nil {{
		vReach("refused")
		return
	}}
	vAssert(len(out) == len(b), "DriverActivityData with a missing field encodes to its size")
	y, err := o.unmarshalDriverActivityData(out)
	vAssert(err == nil, "DriverActivityData with a missing field decodes")
	clearDriverActivity(y, f)
	vAssert(vSame(vStrip(y), x), "DriverActivityData with a missing field keeps the others")
	vReach("end", uint64(f))
}}

''')
out.append(clear("clearDriverActivity","cardv1.DriverActivityData",ps))
ps=[p for p in paths("card","DriverCardFile",[],1,True) if p[0]==[] or p[0][0][0].startswith("Tachograph")]
out.append(f'''
//v:bounds a card of all 35 elementary files, one byte of each content symbolic, with or without signatures (2 symbolic bytes); any one of {len(ps)} files or applications missing
//v:cost 30
func vh_C23_card() {{
	_, x := vWhole(0, 1+vPick("signed", 2))
	f := vPick("field", {len(ps)})
	clearCard(x, f)
	out, err := MarshalDriverCardFile(x)
	vAssert(err == nil, "a card without one of its files encodes")
	raw, err := UnmarshalRawCardFile(out)
	vAssert(err == nil, "the encoding of a card without one of its files is a card image")
	y, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "the encoding of a card without one of its files decodes")
	vAssert(vSame(y, x), "a card without one of its files keeps the others")
	vReach("end", uint64(f))
}}

''')
out.append(clear("clearCard","cardv1.DriverCardFile",ps))
open('/verif/harness/internal/card/clear.go','w').write("".join(out))

ps=paths("vu","OverviewGen1",[],3,True)
L=("CompanyLocks","ControlActivities","DownloadActivities")
ps=[p for p in ps if not (p[0]==[] and p[1] in L+("SignatureValid",))]
out=[f'''package vu

// Written by tools/genclear.py: first-generation overviews with one field missing.

import vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"

//v:bounds overviews with no or 3 locks and controls, every byte symbolic (defined codes) except texts, one of four each; any one of {len(ps)} fields (of the overview or its first records) missing, stored bytes kept or dropped
//v:cost 40
//v:exacttext 17
func vh_C23_overview() {{
	nl, nc := vOverviewCounts()
	vAssume(nl == nc)
	v := vPick("text", 1+3*vTier())
	b := vOverview(nl, nc)
	vAssume(bAnd(eSlotCardType[b[432]&15] >= 0, eSlotCardType[b[432]>>4] >= 0))
	vIa5In(b[388:405], v)
	vTextIn(b[406:420], v)
	vIa5In(b[439:455], v)
	vTextIn(b[455:491], (v+1)%4)
	for i := 0; i < nl; i++ {{
		l := b[492+98*i : 492+98*i+98]
		vTextIn(l[8:44], (v+i)%4)
		vTextIn(l[44:80], (v+i+1)%4)
		vIa5In(l[82:98], (v+i+2)%4)
	}}
	for i := 0; i < nc; i++ {{
		c := 493 + 98*nl + 31*i
		vIa5In(b[c+7:c+23], (v+i)%4)
	}}
	x, err := unmarshalOverviewGen1(b)
	vAssert(err == nil, "OverviewGen1 accepted")
	if vPick("strip", 2) == 1 {{
		x = vStrip(x).(*vuv1.OverviewGen1)
	}}
	f := vPick("field", {len(ps)})
	clearOverview(x, f)
	out, err := appendOverviewGen1(nil, x)
	if err != nil {{
		vReach("refused")
		return
	}}
	vAssert(len(out) == len(b), "OverviewGen1 with a missing field encodes to its size")
	y, err := unmarshalOverviewGen1(out)
	vAssert(err == nil, "OverviewGen1 with a missing field decodes")
	clearOverview(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "OverviewGen1 with a missing field keeps the others")
	vReach("end", uint64(f))
}}

''']
out.append(clear("clearOverview","vuv1.OverviewGen1",ps))
open('/verif/harness/internal/vu/clear.go','w').write("".join(out))
