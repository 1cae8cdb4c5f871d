#!/usr/bin/env python3
"""Reference tables of the code pages, from Python's codecs (not from the library under test)."""
pages=[(1,"iso8859_1"),(2,"iso8859_2"),(3,"iso8859_3"),(5,"iso8859_5"),(7,"iso8859_7"),(9,"iso8859_9"),(13,"iso8859_13"),(15,"iso8859_15"),(16,"iso8859_16"),(80,"koi8_r"),(85,"koi8_u")]
o=["package dd","","// Code generated by tools/gentext.py from Python's codecs. DO NOT EDIT.","",
"// refPages are the code pages with assigned characters, in the order of refText.",
"var refPages = [...]byte{0, "+", ".join(str(p) for p,_ in pages)+"}","",
"// refText gives, for code page i and byte b, the UTF-8 form of its character and its length",
"// (length 0: the byte has no assigned character, or is a control character of no use).",
"var refText = [...][256][4]byte{"]
for p,n in [(0,"iso8859_1")]+pages:
    row=[]
    for b in range(256):
        s=bytes([b]).decode(n,"replace")
        u=s.encode()
        if s=="\ufffd" or 0x80<=ord(s)<=0x9f or (n=="koi8_u" and b in (0xae,0xbe)):
            row.append("{}")
        else:
            row.append("{"+", ".join(str(x) for x in [len(u)]+list(u))+"}")
    o.append("\t{ // "+str(p))
    for i in range(0,256,16): o.append("\t\t"+", ".join(row[i:i+16])+",")
    o.append("\t},")
o.append("}")
open("harness/internal/dd/texttab.go","w").write("\n".join(o)+"\n")
