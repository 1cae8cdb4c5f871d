#!/usr/bin/env python3
"""Authoring aid: writes harness/enums.go.txt, the reference table of protocol codes
(code -> enum number), from the .proto annotations. Run once by hand; the table is
committed and independent of what the code decodes."""
import re,glob,os
out=["package PKG","","// Reference tables of the protocol codes (data dictionary), written by tools/genenums.py.",""]
for f in sorted(glob.glob('/repo/proto/wayplatform/connect/tachograph/dd/v1/*.proto')):
    s=open(f).read()
    m=re.search(r'enum (\w+) \{',s)
    if not m or 'protocol_enum_value) =' not in s: continue
    name=m.group(1)
    tab=[-1]*256
    for n,num,code in re.findall(r'(\w+) = (\d+) \[\(protocol_enum_value\) = (0x[0-9A-Fa-f]+|\d+)\]',s):
        c=int(code,0)
        assert tab[c]==-1,(name,c)
        tab[c]=int(num)
    out.append("var e%s = [256]int16{"%name)
    for i in range(0,256,32):
        out.append("\t"+", ".join(str(x) for x in tab[i:i+32])+",")
    out.append("}\n")
open('/verif/harness/enums.go.txt','w').write("\n".join(out))
