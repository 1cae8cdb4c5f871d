package tachograph

// Any short file, and any block of a driver card image.

//v:bounds every byte string of 0 to 9 bytes
//v:thorough:bounds every byte string of 0 to 16 bytes
//v:budget 120
func vh_C01_file() {
	b := vBytes("b", 16)[:vPick("n", 10+7*vTier())]
	f, err := UnmarshalFile(b)
	vAssert((f == nil) == (err != nil), "C01 file or error")
	if f != nil {
		_, _ = MarshalFile(f)
		vReach("file")
	}
	vReach("end")
}

//v:bounds an EF_ICC of 25 bytes followed by a block of any identifier and appendix announcing 0 to 255 bytes and 0 to 4 (thorough: 8) symbolic bytes of content
//v:budget 150
//v:cost 20
func vh_C01_file_block() {
	b := append([]byte{0, 2, 0, 0, 25}, make([]byte, 25)...)
	b = append(b, vU8("fid1"), vU8("fid2"), vU8("app"), 0, vU8("len"))
	b = append(b, vBytes("b", 4+4*vTier())[:vPick("n", 5+4*vTier())]...)
	f, err := UnmarshalFile(b)
	vAssert((f == nil) == (err != nil), "C01 file or error")
	if f != nil {
		_, _ = MarshalFile(f)
		vReach("file")
	}
	vReach("end")
}
