package card

//v:bounds every byte string of 0 to 13 bytes
//v:thorough:bounds every byte string of 0 to 16 bytes
//v:cost 8
func vh_C01_card_DriverActivityData() {
	b := vBytes("b", 16)[:vPick("n", 14+3*vTier())]
	x, err := UnmarshalOptions{}.unmarshalDriverActivityData(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	if x != nil {
		_, _ = appendDriverActivity(nil, x)
	}
	vReach("end")
}

//v:bounds every byte string of 0 to 11 bytes
//v:thorough:bounds every byte string of 0 to 16 bytes
func vh_C01_card_RawCardFile() {
	b := vBytes("b", 16)[:vPick("n", 12+5*vTier())]
	x, err := UnmarshalRawCardFile(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	if x != nil {
		c, err := UnmarshalDriverCardFile(x)
		vAssert((c == nil) == (err != nil), "C01 value or error")
		_, _ = MarshalRawCardFile(x)
	}
	vReach("end")
}

// Every elementary file inside an image, at any length near its own.
//
//v:bounds each of the 35 elementary files of a driver card, valid small content with one symbolic byte, empty, cut to 1 byte, to half, by one byte, whole, or extended by 1 or 3 bytes, the announced length right, one too small or one too large
//v:cost 10
func vh_C01_card_image() {
	k := &vKinds[vPick("k", len(vKinds))]
	b := append(append([]byte{}, k.body(vU8("m"))...), vBytes("x", 3)...)
	n := []int{0, 1, len(b) / 2, len(b) - 4, len(b) - 3, len(b) - 2, len(b)}[vPick("cut", 7)]
	img := vTLV(nil, k.fid, k.app(), b[:n])
	if lie := vPick("lie", 3); lie > 0 && n > 0 {
		img[3], img[4] = byte((n+2*lie-3)>>8), byte(n+2*lie-3)
	}
	raw, err := UnmarshalRawCardFile(img)
	vAssert((raw == nil) == (err != nil), "C01 value or error")
	if err != nil {
		vReach("refused")
		return
	}
	c, err := UnmarshalDriverCardFile(raw)
	vAssert((c == nil) == (err != nil), "C01 value or error")
	vReach("end")
}
