package props

import (
	"terorie.dev/nimiq/address"
	"verif/harness/sym"
)

const alphabet = "0123456789ABCDEFGHJKLMNPQRSTUVXY"

func fromAlphabet(c byte) bool {
	return sym.Or(sym.And(c >= '0', c <= '9'),
		sym.And(c >= 'A', c <= 'Y', c != 'I', c != 'O', c != 'W'))
}

// charOf is the character for a base-32 digit.
func charOf(d byte) byte {
	c := sym.Ite(d >= 10, uint64(d)+'A'-10, uint64(d)+'0')
	c += sym.Ite(d >= 18, 1, 0) + sym.Ite(d >= 23, 1, 0) + sym.Ite(d >= 30, 1, 0)
	return byte(c)
}

// pack joins 32 base-32 digits into an address.
func pack(ds []byte) (a [20]byte) {
	for i := 0; i < 4; i++ {
		var v uint64
		for _, d := range ds[8*i : 8*i+8] {
			v = v<<5 | uint64(d&31)
		}
		for j := 0; j < 5; j++ {
			a[5*i+j] = byte(v >> uint(32-8*j))
		}
	}
	return
}

// refMod is the check sum of characters: the number they spell, modulo 97. Letters count as 10 to 35.
func refMod(chars []byte) uint64 {
	r := uint64(0)
	for _, c := range chars {
		if c >= 'A' {
			r = (100*r + uint64(c&0xdf-55)) % 97
		} else {
			r = (10*r + uint64(c-'0')) % 97
		}
	}
	return r
}

// rotated puts the country code and check digits last.
func rotated(compact []byte) []byte { return append(dup(compact[4:]), compact[:4]...) }

// refText is the text of an address with the base-32 characters given.
func refText(cs []byte) []byte {
	r := 98 - refMod(rotated(append([]byte("NQ00"), cs...)))
	out := []byte{'N', 'Q', '0' + byte(r/10), '0' + byte(r%10)}
	for i, c := range cs {
		if i%4 == 0 {
			out = append(out, ' ')
		}
		out = append(out, c)
	}
	return out
}

func compact(text []byte) (out []byte) {
	for i, c := range text {
		if i%5 != 4 {
			out = append(out, c)
		}
	}
	return
}

// someDigits are 32 base-32 digits.
func someDigits(seed int) []byte {
	ds := make([]byte, 32)
	x := uint32(seed)*2654435761 + 12345
	for i := range ds {
		x = x*1664525 + 1013904223
		ds[i] = byte(x >> 27)
	}
	return ds
}

func charsOf(ds []byte) []byte {
	cs := make([]byte, len(ds))
	for i, d := range ds {
		cs[i] = charOf(d)
	}
	return cs
}

// arbDigit is an arbitrary base-32 digit: one that is written as a letter, or not.
func arbDigit(letter bool) byte {
	if letter {
		return 10 + sym.Below("letter", 22)
	}
	return sym.Below("digit", 10)
}

// pattern makes 32 arbitrary digits with letters where the pattern has ones.
func pattern(bits uint32) []byte {
	ds := make([]byte, 32)
	for i := range ds {
		ds[i] = arbDigit(bits>>uint(i)&1 == 1)
	}
	return ds
}

// somePattern chooses which digits are letters.
func somePattern(n int) uint32 {
	i := sym.Choose("pattern", n)
	fixed := []uint32{0x7e3c18a5, 0, 0xffffffff, 0x55555555, 0xaaaaaaaa, 0x1, 0x80000000, 0xfffffffe, 0x0ff0f00f}
	if i < len(fixed) {
		return fixed[i]
	}
	return uint32(i) * 2654435761
}

// window makes k arbitrary digits among concrete ones.
func window(k, step int) []byte {
	ds := someDigits(sym.Choose("rest", deep(2, 6)))
	at := step * sym.Choose("at", (32-k)/step+1)
	for i := at; i < at+k; i++ {
		ds[i] = arbDigit(sym.Choose("letter", 2) == 1)
	}
	return ds
}

// addressText checks the text of an address, and that it decodes again.
func addressText(ds []byte) {
	a := pack(ds)
	b := a
	var text string
	otherAddresses()
	sym.NoPanic("no panic", func() { text = address.Encode(&b) })
	otherAddresses()
	sym.Assert(a == b, "the address is left alone")
	want := refText(charsOf(ds))
	sym.Assert(len(text) == 44, "44 characters")
	sym.Assert(sym.EqBytes([]byte(text), want), "country code, check digits, and eight groups of four")
	got, err := address.Decode(text)
	sym.Assert(err == nil && got == a, "the text decodes to the address")
	got, err = address.Decode(string(compact(want)))
	sym.Assert(err == nil && got == a, "also without its spaces")
}

func C28_Pattern() { addressText(pattern(somePattern(deep(12, 200)))) }
func C28_Window()  { addressText(window(deep(1, 2), deep(3, 1))) }

// C28_Spaces inserts spaces anywhere.
func C28_Spaces() {
	ds := someDigits(3)
	for i := 28; i < 32; i++ {
		ds[i] = arbDigit(i%2 == 0)
	}
	a := pack(ds)
	text := []byte(address.Encode(&a))
	for n := sym.Choose("spaces", deep(2, 3)) + 1; n > 0; n-- {
		at := sym.Choose("at", len(text)+1)
		text = append(text[:at:at], append([]byte{' '}, text[at:]...)...)
	}
	got, err := address.Decode(string(text))
	sym.Assert(err == nil && got == a, "spaces do not matter")
}

// C28_Injective: different addresses have different texts.
func C28_Injective() {
	at := 29
	kinds := sym.Choose("letters", 8)
	ds, es := someDigits(5), someDigits(5)
	for i := 0; i < 3; i++ {
		ds[at+i], es[at+i] = arbDigit(kinds>>uint(i)&1 == 1), arbDigit(kinds>>uint(i)&1 == 1)
	}
	a, b := pack(ds), pack(es)
	x, y := address.Encode(&a), address.Encode(&b)
	sym.Assert(sym.Or(!sym.EqBytes([]byte(x), []byte(y)), sym.EqBytes(a[:], b[:])), "no two addresses share a text")
}

// ---- C29 ----

// digitOf is the base-32 digit of a character of the alphabet.
func digitOf(c byte) byte {
	d := uint64(c) - '0'
	d = sym.Ite(c >= 'A', uint64(c)-'A'+10, d)
	d = sym.Ite(c > 'I', uint64(c)-'A'+9, d)
	d = sym.Ite(c > 'O', uint64(c)-'A'+8, d)
	return byte(sym.Ite(c > 'W', uint64(c)-'A'+7, d))
}

func alphanumeric(c byte) bool {
	return sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'A', c <= 'Z'), sym.And(c >= 'a', c <= 'z'))
}

// refDecode says what a text means, if anything.
func refDecode(text []byte) (a [20]byte, ok bool) {
	var cs []byte
	for _, c := range text {
		if c != ' ' {
			cs = append(cs, c)
		}
	}
	if len(cs) != 36 || cs[0] != 'N' || cs[1] != 'Q' {
		return a, false
	}
	for i, c := range cs {
		if i < 4 && !alphanumeric(c) || i >= 4 && !fromAlphabet(c) {
			return a, false
		}
	}
	if refMod(rotated(cs)) != 1 {
		return a, false
	}
	var ds []byte
	for _, c := range cs[4:] {
		ds = append(ds, digitOf(c))
	}
	return pack(ds), true
}

// decodes checks the decoding of any text.
func decodes(text []byte) {
	var got [20]byte
	var err error
	otherAddresses()
	sym.NoPanic("no panic", func() { got, err = address.Decode(string(text)) })
	want, ok := refDecode(text)
	sym.Assert((err == nil) == ok, "accepted exactly when well-formed with the right check sum")
	if ok {
		sym.Reach("accepted")
		sym.Assert(got == want, "decoded to the address it spells")
	} else {
		sym.Reach("rejected")
	}
}

// C29_Bytes replaces a few characters of a valid text by arbitrary bytes.
func C29_Bytes() {
	text := refText(charsOf(someDigits(sym.Choose("rest", deep(1, 3)))))
	if sym.Choose("spaces", 2) == 1 {
		text = compact(text)
	}
	k := sym.Choose("n", deep(2, 3)) + 1
	step := 1
	if k > 1 {
		step = deep(8, 1)
	}
	at := step * sym.Choose("at", (len(text)-k)/step+1)
	for i := at; i < at+k; i++ {
		text[i] = sym.Below("byte", 256)
	}
	decodes(text)
}

// C29_Length: texts of all lengths, with arbitrary last and first bytes.
func C29_Length() {
	text := refText(charsOf(someDigits(9)))
	text = append(text, text...)
	n := sym.Choose("n", 60)
	from := []int{0, 5}[sym.Choose("from", 2)]
	text = text[from : from+n]
	for _, i := range []int{0, n - 1} {
		if i >= 0 && i < n {
			text[i] = sym.Below("byte", 256)
		}
	}
	decodes(text)
}

// C29_Check: any two check characters, any country code.
func C29_Check() {
	ds := someDigits(sym.Choose("rest", 3))
	ds[31] = arbDigit(false)
	text := refText(charsOf(ds))
	if sym.Choose("country", 2) == 1 {
		text[0], text[1] = sym.Below("byte", 256), sym.U8("byte")
	} else {
		text[2], text[3] = sym.Below("byte", 256), sym.U8("byte")
	}
	decodes(text)
}

// C29_Pattern: all characters arbitrary, letters and digits as the pattern says.
func C29_Pattern() {
	ds := pattern(somePattern(deep(1, 40)))
	text := refText(charsOf(ds))
	text[2], text[3] = '0'+sym.Below("check", 10), '0'+sym.Below("check", 10)
	decodes(text)
}

// C29_Alphabet: characters beyond the alphabet.
func C29_Alphabet() {
	ds := someDigits(11)
	cs := charsOf(ds)
	at := sym.Choose("at", 32)
	text := refText(cs)
	p := 5 + at + at/4
	text[p] = "IOWZabcdefghijklmnopqrstuvwxyz-_\x00\n\t"[sym.Choose("char", 35)]
	text[2], text[3] = '0'+sym.Below("check", 10), '0'+sym.Below("check", 10)
	decodes(text)
}

// C29_Replace: one letter or digit replaced by another never goes unnoticed.
func C29_Replace() {
	ds := someDigits(sym.Choose("rest", deep(1, 6)))
	at := sym.Choose("at", 36)
	letter := sym.Choose("letter", 2) == 1
	if at >= 4 {
		ds[at-4] = arbDigit(letter)
	}
	cs := compact(refText(charsOf(ds)))
	_, err := address.Decode(string(cs))
	sym.Assert(err == nil, "the original is valid")
	old := cs[at]
	if letter {
		cs[at] = 'A' + sym.Below("other", 26)
		sym.Assume(old >= 'A')
	} else {
		cs[at] = '0' + sym.Below("other", 10)
		sym.Assume(old <= '9')
	}
	sym.Assume(cs[at] != old)
	_, err = address.Decode(string(cs))
	sym.Assert(err != nil, "the replacement is noticed")
}
