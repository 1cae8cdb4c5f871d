package dd

import (
	"unicode/utf8"

	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// refBlank tells whether a character is removed at the ends of a text.
func refBlank(c byte) bool {
	return bOr(bOr(c == 0, c == ' '), bAnd(c >= 9, c <= 13))
}

// refPage picks a code page: row is its row of refText. The last pick stands for every
// code page that has no name, whose text is read as ISO 8859-1.
func refPage() (cp byte, row int) {
	k := vPick("page", len(refPages)+1)
	if k == len(refPages) {
		cp = vU8("cp")
		vAssume(!dCodePage(cp))
		return cp, 1
	}
	return refPages[k], k
}

// refDecode gives the text of bytes that all have an assigned character, with the
// blanks at both ends removed. Every shape (what is blank, how long each character is
// in UTF-8) is explored on its own path.
func refDecode(row int, b []byte) []byte {
	lo := vPick("lo", len(b)+1)
	hi := lo
	if lo < len(b) {
		hi = lo + 1 + vPick("hi", len(b)-lo)
	}
	var out []byte
	for i := range b {
		u := refText[row][b[i]]
		vAssume(u[0] != 0)
		if i < lo || i >= hi {
			vAssume(refBlank(b[i]))
			continue
		}
		if i == lo || i == hi-1 {
			vAssume(!refBlank(b[i]))
		}
		switch 1 + vPick("w"+string(rune('0'+i)), 3) {
		case 1:
			vAssume(u[0] == 1)
			out = append(out, u[1])
		case 2:
			vAssume(u[0] == 2)
			out = append(out, u[1], u[2])
		case 3:
			vAssume(u[0] == 3)
			out = append(out, u[1], u[2], u[3])
		}
	}
	return out
}

//v:bounds texts of 1 or 2 bytes (thorough: 3) in each of the twelve code pages and in every code page without a name; every assigned character
//v:exactcm 8
//v:exacttext 24
func vh_C21_decode() {
	cp, row := refPage()
	n := 1 + vPick("n", 2+vTier())
	b := vBytes("b", 3)[:n]
	want := refDecode(row, b)
	some := false
	for i := range b {
		some = bOr(some, bAnd(b[i] != 0, b[i] != 255))
	}
	var o UnmarshalOptions
	x, err := o.UnmarshalStringValue(append([]byte{cp}, b...))
	vAssert(err == nil, "text accepted")
	if !some {
		vAssert(x.GetValue() == "", "unused text is empty")
		vReach("unused")
		return
	}
	vAssert(vEq([]byte(x.GetValue()), want), "text is the mapping of its bytes under the code page")
	vReach("end", uint64(len(want)))
}

//v:bounds texts of 1 byte in every code page (named, without a name, empty), of 2 bytes in ISO 8859-2 and those without a name (thorough: in every one), of any content
//v:exactcm 8
//v:exacttext 24
func vh_C21_valid() {
	k := vPick("page", len(refPages)+2)
	var cp byte
	switch {
	case k < len(refPages):
		cp = refPages[k]
	case k == len(refPages):
		cp = 255
	default:
		cp = vU8("cp")
		vAssume(!dCodePage(cp))
	}
	n := 1
	if vTier() > 0 || k == 2 || k > len(refPages) {
		n += vPick("n", 2)
	}
	b := vBytes("b", 4)[:n]
	var o UnmarshalOptions
	x, err := o.UnmarshalStringValue(append([]byte{cp}, b...))
	vAssert(err == nil, "text accepted")
	vAssert(utf8.ValidString(x.GetValue()), "text is valid UTF-8")
	if cp == 255 {
		vAssert(x.GetValue() == "", "text of the empty code page is empty")
	}
	vReach("end", uint64(n))
}

func refEncoding(cp byte) ddv1.Encoding { return rEncoding(cp) }

//v:bounds texts of 0 to 2 characters (thorough: 3) that are assigned in the code page, in each of the twelve code pages, for fields with 0 to 2 bytes to spare and without a size
//v:exactcm 16
//v:exacttext 24
func vh_C21_encode() {
	k := vPick("page", len(refPages))
	cp := refPages[k]
	n := vPick("n", 3+vTier())
	b := vBytes("b", 3)[:n]
	var text []byte
	for i := range b {
		u := refText[k][b[i]]
		switch 1 + vPick("w"+string(rune('0'+i)), 3) {
		case 1:
			vAssume(u[0] == 1)
			text = append(text, u[1])
		case 2:
			vAssume(u[0] == 2)
			text = append(text, u[1], u[2])
		case 3:
			vAssume(u[0] == 3)
			text = append(text, u[1], u[2], u[3])
		}
	}
	x := &ddv1.StringValue{}
	x.SetValue(string(text))
	x.SetEncoding(refEncoding(cp))
	spare := vPick("spare", 4)
	if spare < 3 {
		x.SetLength(int32(n + spare))
	} else {
		spare = 0
	}
	want := append([]byte{cp}, b...)
	for i := 0; i < spare; i++ {
		want = append(want, ' ')
	}
	out, err := AppendStringValue(nil, x)
	vAssert(err == nil, "representable text that fits is encoded")
	vAssert(vEq(out, want), "text is encoded in its code page and padded with spaces")
	if n > 0 {
		x.SetLength(int32(n - 1))
		_, err = AppendStringValue(nil, x)
		vAssert(err != nil, "text that is too long is refused")
	}
	vReach("end", uint64(len(out)))
}

//v:bounds texts of up to 3 bytes (thorough: 4) of any content (valid UTF-8 or not), in each of the twelve code pages and the empty, unspecified and unrecognised ones, for fields of 3 bytes and without a size
//v:exactcm 16
//v:exacttext 24
func vh_C21_lossless() {
	k := vPick("page", len(refPages)+3)
	x := &ddv1.StringValue{}
	switch {
	case k < len(refPages):
		x.SetEncoding(refEncoding(refPages[k]))
	case k == len(refPages):
		x.SetEncoding(ddv1.Encoding_ENCODING_EMPTY)
	case k == len(refPages)+1:
		x.SetEncoding(ddv1.Encoding_ENCODING_UNSPECIFIED)
	default:
		x.SetEncoding(ddv1.Encoding_ENCODING_UNRECOGNIZED)
	}
	n := 1 + vPick("n", 3+vTier())
	b := vBytes("b", 4)[:n]
	x.SetValue(string(b))
	m := vPick("m", 2) * 3
	if m > 0 {
		x.SetLength(int32(m))
	}
	out, err := AppendStringValue(nil, x)
	if err != nil {
		vReach("refused", uint64(n))
		return
	}
	vAssert(k < len(refPages), "text without a code page is refused")
	vAssert(m == 0 || len(out) == 1+m, "text has the size of the field")
	vAssert(out[0] == refPages[k], "text has its code page")
	// every byte stands for the next character of the text, up to the padding
	p := 0
	for i := 1; i < len(out); i++ {
		if p == n {
			vAssert(bAnd(m > 0, out[i] == ' '), "text is padded with spaces")
			continue
		}
		u := refText[k][out[i]]
		if u[0] == 0 { // a byte without an assigned character
			vReach("control")
			return
		}
		w := int(u[0])
		vAssert(p+w <= n, "text is encoded in whole characters")
		vAssert(b[p] == u[1], "text is encoded without loss")
		if w > 1 {
			vAssert(b[p+1] == u[2], "text is encoded without loss")
		}
		if w > 2 {
			vAssert(b[p+2] == u[3], "text is encoded without loss")
		}
		p += w
	}
	vAssert(p == n, "text is encoded to its end")
	vReach("end", uint64(n))
}

//v:bounds HolderName: surname and first names of 0, 1, 18, 34 or 35 (thorough: 0 to 35) printable ASCII characters, one of them of 7, in three code pages (thorough: all twelve), padded with spaces or zero bytes
//v:exactcm 40
//v:exacttext 40
func vh_C21_HolderName() {
	cp, k := byte(0), 0
	if vTier() == 0 {
		cp, k = refPages[vPick("page", 3)*5], textLens[vPick("k", 5)]
	} else {
		cp, k = refPages[vPick("page", len(refPages))], vPick("k", 36)
	}
	j := 7
	pad := byte(' ')
	if vPick("pad", 2) == 1 {
		pad = 0
	}
	if vPick("which", 2) == 1 {
		k, j = j, k
	}
	text := vBytes("text", 70)
	in := make([]byte, 72)
	for i := range in {
		in[i] = pad
	}
	in[0], in[36] = cp, cp
	for i := range text {
		vAssume(bAnd(text[i] > ' ', text[i] < 0x7f))
	}
	copy(in[1:], text[:k])
	copy(in[37:], text[35:35+j])
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(in)
	vAssert(err == nil, "name accepted")
	vAssert(vEq([]byte(x.GetHolderSurname().GetValue()), text[:k]), "surname is the text of its field")
	vAssert(vEq([]byte(x.GetHolderFirstNames().GetValue()), text[35:35+j]), "first names are the text of their field")
	x.GetHolderSurname().ClearRawData()
	x.GetHolderFirstNames().ClearRawData()
	out, err := AppendHolderName(nil, x)
	vAssert(err == nil, "name encodes from its text")
	for i := range in {
		if in[i] == 0 && i != 0 && i != 36 {
			in[i] = ' '
		}
	}
	vAssert(vEq(out, in), "name is encoded from its text with space padding")
	vReach("end", uint64(k))
}

//v:bounds IA5 texts of 1 to 3 bytes (thorough: 4) of any content, and texts of up to 3 bytes of any content for fields of 0 to 4 bytes
//v:exacttext 24
func vh_C21_Ia5() {
	n := 1 + vPick("n", 3+vTier())
	b := vBytes("b", 4)[:n]
	var o UnmarshalOptions
	x, err := o.UnmarshalIa5StringValue(b)
	vAssert(err == nil, "IA5 text accepted")
	vAssert(utf8.ValidString(x.GetValue()), "IA5 text is valid UTF-8")
	ascii := true
	for i := range b {
		ascii = bAnd(ascii, b[i] < 0x80)
	}
	if !ascii {
		vReach("other")
		return
	}
	lo := vPick("lo", n+1)
	hi := lo
	if lo < n {
		hi = lo + 1 + vPick("hi", n-lo)
	}
	for i := range b {
		if i < lo || i >= hi {
			vAssume(refBlank(b[i]))
		} else if i == lo || i == hi-1 {
			vAssume(!refBlank(b[i]))
		}
	}
	vAssert(vEq([]byte(x.GetValue()), b[lo:hi]), "IA5 text is its bytes without the padding")
	vReach("end", uint64(hi-lo))
}

//v:bounds IA5 texts of 1 to 3 bytes of any content for fields of 0 to 4 bytes
//v:exacttext 24
func vh_C21_Ia5encode() {
	n := 1 + vPick("n", 3)
	b := vBytes("b", 3)[:n]
	m := vPick("m", 5)
	x := &ddv1.Ia5StringValue{}
	x.SetValue(string(b))
	x.SetLength(int32(m))
	ascii := true
	for i := range b {
		ascii = bAnd(ascii, b[i] < 0x80)
	}
	out, err := AppendIa5StringValue(nil, x)
	vAssert((err == nil) == bAnd(ascii, n <= m), "IA5 text is encoded when it fits and refused otherwise")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == m, "IA5 text has the size of the field")
	vAssert(vEq(out[:n], b), "IA5 text is its characters")
	for i := n; i < m; i++ {
		vAssert(out[i] == ' ', "IA5 text is padded with spaces")
	}
	vReach("end", uint64(m))
}

var textLens = []int{0, 1, 18, 34, 35}

// vLongText is n bytes that go round through all characters of code page row, none at the ends blank, and its text.
// The byte at position at is symbolic (any assigned character that is not blank).
func vLongText(row, n, at, from int) (b, text []byte) {
	m := vU8("m")
	um := refText[row][m]
	vAssume(bAnd(um[0] != 0, !refBlank(m)))
	c := from
	for i := 0; i < n; i++ {
		if i == at {
			b = append(b, m)
			switch w := vPick("w", 3); w {
			case 0:
				vAssume(um[0] == 1)
				text = append(text, um[1])
			case 1:
				vAssume(um[0] == 2)
				text = append(text, um[1], um[2])
			case 2:
				vAssume(um[0] == 3)
				text = append(text, um[1], um[2], um[3])
			}
			continue
		}
		for {
			c = (c + 1) & 255
			u := refText[row][byte(c)]
			if u[0] == 0 || refBlank(byte(c)) && (i == 0 || i == n-1) {
				continue
			}
			b = append(b, byte(c))
			text = append(text, u[1:1+u[0]]...)
			break
		}
	}
	return b, text
}

//v:bounds texts of 13, 35, 36, 65, 128, 199 or 255 bytes in each of the twelve code pages that go through all its assigned characters, the first, middle or last one symbolic; decoded, and encoded for fields of their size, of 1 and 30 bytes more and of 1 byte less
//v:exactcm 800
//v:exacttext 800
func vh_C21_long() {
	row := vPick("page", len(refPages))
	cp := refPages[row]
	n := []int{13, 35, 36, 65, 128, 199, 255}[vPick("n", 7)]
	at := []int{0, n / 2, n - 1}[vPick("at", 3)]
	b, text := vLongText(row, n, at, 0x60+n)
	var o UnmarshalOptions
	x, err := o.UnmarshalStringValue(append([]byte{cp}, b...))
	vAssert(err == nil, "long text accepted")
	vAssert(vEq([]byte(x.GetValue()), text), "long text is the mapping of its bytes under the code page")
	y := &ddv1.StringValue{}
	y.SetValue(string(text))
	y.SetEncoding(refEncoding(cp))
	spare := []int{0, 1, 30}[vPick("spare", 3)]
	y.SetLength(int32(n + spare))
	out, err := AppendStringValue(nil, y)
	vAssert(err == nil && len(out) == 1+n+spare, "long text that fits is encoded")
	vAssert(bAnd(out[0] == cp, vEq(out[1:1+n], b)), "long text is encoded in its code page")
	for _, c := range out[1+n:] {
		vAssert(c == ' ', "long text is padded with spaces")
	}
	y.SetLength(int32(n - 1))
	_, err = AppendStringValue(nil, y)
	vAssert(err != nil, "long text that is too long is refused")
	vReach("end", uint64(n))
}

//v:bounds HolderName: surname or first names of 18, 34 or 35 bytes in each of the twelve code pages that go through all its assigned characters, the middle one symbolic; the other name of 9 characters in the same or another code page
//v:exactcm 800
//v:exacttext 800
func vh_C21_HolderName_pages() {
	row := vPick("page", len(refPages))
	other := (row + 5*vPick("other", 2)) % len(refPages)
	n := []int{18, 34, 35}[vPick("n", 3)]
	b, text := vLongText(row, n, n/2, 0x20+5*n)
	in := make([]byte, 72)
	for i := range in {
		in[i] = ' '
	}
	p, q := 0, 36
	if vPick("which", 2) == 1 {
		p, q = q, p
	}
	in[p], in[q] = refPages[row], refPages[other]
	copy(in[p+1:], b)
	copy(in[q+1:], "Ann Marie")
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(in)
	vAssert(err == nil, "long name accepted")
	l, s := x.GetHolderSurname(), x.GetHolderFirstNames()
	if p > 0 {
		l, s = s, l
	}
	vAssert(vEq([]byte(l.GetValue()), text), "long name is the text of its field")
	vAssert(s.GetValue() == "Ann Marie", "the other name is the text of its field")
	l.ClearRawData()
	s.ClearRawData()
	out, err := AppendHolderName(nil, x)
	vAssert(err == nil, "long name encodes from its text")
	vAssert(vEq(out, in), "long name is encoded from its text with space padding")
	vReach("end", uint64(n))
}

//v:bounds IA5 texts of 8, 17, 40 or 200 bytes that go round through all characters, one of them symbolic and not blank, followed by none, 1 or 20 bytes of padding; encoded for fields of their size, of 3 bytes more and of one less
//v:exacttext 800
func vh_C21_Ia5_long() {
	n := []int{8, 17, 40, 200}[vPick("n", 4)]
	at := []int{0, n / 2, n - 1}[vPick("at", 3)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x21 + (i+n)%94)
	}
	m := vU8("m")
	vAssume(bAnd(m < 0x80, !refBlank(m)))
	b[at] = m
	k := []int{0, 1, 20}[vPick("pad", 3)]
	c := []byte{' ', 0}[vPick("blank", 2)]
	in := vCopy(b)
	for i := 0; i < k; i++ {
		in = append(in, c)
	}
	var o UnmarshalOptions
	x, err := o.UnmarshalIa5StringValue(in)
	vAssert(err == nil, "long IA5 text accepted")
	vAssert(vEq([]byte(x.GetValue()), b), "long IA5 text is its bytes without the padding")
	y := &ddv1.Ia5StringValue{}
	y.SetValue(string(b))
	for _, l := range []int{n, n + 3} {
		y.SetLength(int32(l))
		out, err := AppendIa5StringValue(nil, y)
		vAssert(err == nil && len(out) == l, "long IA5 text is encoded when it fits")
		vAssert(vEq(out[:n], b), "long IA5 text is its characters")
		for _, c := range out[n:] {
			vAssert(c == ' ', "long IA5 text is padded with spaces")
		}
	}
	y.SetLength(int32(n - 1))
	_, err = AppendIa5StringValue(nil, y)
	vAssert(err != nil, "long IA5 text that does not fit is refused")
	vReach("end", uint64(n))
}
