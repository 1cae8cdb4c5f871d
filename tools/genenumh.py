#!/usr/bin/env python3
"""Authoring aid: writes harness/internal/dd/enumcodes.go."""
import re
names=re.findall(r'^var e(\w+) =',open('/verif/harness/enums.go.txt').read(),re.M)
out=['''package dd

// Written by tools/genenumh.py.

import (
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)
''']
for n in names:
    out.append(f'''
//v:bounds all 256 codes of {n} and all 32 bit enum numbers
func vh_C07_{n}() {{
	c := vU8("code")
	v, err := UnmarshalEnum[ddv1.{n}](c)
	want := e{n}[c]
	vAssert((err == nil) == (want >= 0), "{n}: decoding accepts exactly the annotated codes")
	if err == nil {{
		vAssert(int32(v) == int32(want), "{n}: code decodes to the value annotated with it")
		back, err := MarshalEnum(v)
		vAssert(err == nil, "{n}: decoded value encodes")
		vAssert(back == c, "{n}: decoded value encodes to its code")
		vReach("code", uint64(back))
	}}
	num := ddv1.{n}(int32(vU32("number")))
	b, err := MarshalEnum(num)
	if err == nil {{
		vAssert(int32(e{n}[b]) == int32(num), "{n}: only annotated values encode, to their own code")
		w, err := UnmarshalEnum[ddv1.{n}](b)
		vAssert(err == nil && w == num, "{n}: encoded value decodes to itself")
		vReach("value", uint64(b))
	}} else {{
		vAssert(int32(e{n}[c]) != int32(num) || int32(num) < 0, "{n}: every annotated value encodes")
	}}
}}
''')
open('/verif/harness/internal/dd/enumcodes.go','w').write("".join(out))
