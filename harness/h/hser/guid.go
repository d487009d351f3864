package hser

import (
	"crypto/rand"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/zzverif/sym"
)

func anyGuid(name string) serialization.GUID {
	var g serialization.GUID
	g.Data1, g.Data2, g.Data3 = sym.U32(name+".1"), sym.U16(name+".2"), sym.U16(name+".3")
	copy(g.Data4[:], sym.Bytes(name+".4", 8))
	return g
}

func digit(v byte) byte { return sym.IteU8(v < 10, '0'+v, 'a'+v-10) }

// guidBytes are the GUID's bytes in the order of its text.
func guidBytes(g serialization.GUID) []byte {
	b := []byte{byte(g.Data1 >> 24), byte(g.Data1 >> 16), byte(g.Data1 >> 8), byte(g.Data1),
		byte(g.Data2 >> 8), byte(g.Data2), byte(g.Data3 >> 8), byte(g.Data3)}
	return append(b, g.Data4[:]...)
}

//verif:harness prop=C06 budget=60 bound="every GUID (128 bits): text equals the canonical form and parses back"
func GuidText() {
	g := anyGuid("g")
	s := g.String()
	sym.Assert(len(s) == 36, "GUID text is not 36 characters long")
	var want []byte
	for i, b := range guidBytes(g) {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			want = append(want, '-')
		}
		want = append(want, digit(b>>4), digit(b&15))
	}
	sym.Assert(sym.BytesEq([]byte(s), want), "GUID text is not the canonical form")
	p, err := serialization.GUIDFromString(s)
	sym.Assert(err == nil, "the GUID's own text was rejected")
	sym.Assert(p == g, "the text of a GUID parses to another one")
}

func isHex(c byte) bool {
	return sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F'))
}

func hexVal(c byte) byte {
	return sym.IteU8(c <= '9', c-'0', sym.IteU8(c >= 'a', c-'a'+10, c-'A'+10))
}

//verif:harness prop=C06 budget=60 tbudget=200 reach=accepted,rejected bound="every string of 36 bytes: accepted exactly when of the form 8-4-4-4-12 hex digits of either case, and then the right value"
func GuidParse() {
	b := sym.Bytes("text", 36)
	ok := true
	var ds []byte
	for i, c := range b {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			ok = sym.And(ok, c == '-')
		} else {
			ok = sym.And(ok, isHex(c))
			ds = append(ds, hexVal(c))
		}
	}
	g, err := serialization.GUIDFromString(string(b))
	sym.Assert((err == nil) == ok, "a GUID text was accepted although malformed, or rejected although well-formed")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	for i, x := range guidBytes(g) {
		sym.Assert(x == ds[2*i]<<4|ds[2*i+1], "a GUID text parses to the wrong value")
	}
}

//verif:harness prop=C06 budget=60 bound="texts of every other length 0..40: 36 arbitrary bytes cut or extended by arbitrary ones, and a well-formed text with a prefix, suffix, braces or a missing character"
func GuidLength() {
	g := anyGuid("g")
	s := g.String()
	switch sym.Choose("how", 5) {
	case 0:
		n := sym.Choose("n", 41)
		if n == 36 {
			return
		}
		_, err := serialization.GUIDFromString(string(sym.Bytes("text", n)))
		sym.Assert(err != nil, "text of a wrong length was accepted")
		return
	case 1:
		s = s + string(sym.Bytes("suffix", 1+sym.Choose("k", 3)))
	case 2:
		s = string(sym.Bytes("prefix", 1+sym.Choose("k", 3))) + s
	case 3:
		s = "{" + s + "}"
	case 4:
		k := sym.Choose("k", 36)
		s = s[:k] + s[k+1:]
	}
	_, err := serialization.GUIDFromString(s)
	sym.Assert(err != nil, "text of a wrong length was accepted")
}

type fakeRand struct {
	data []byte
	one  bool // hand out one byte per call
}

func (r *fakeRand) Read(p []byte) (int, error) {
	n := len(p)
	if r.one && n > 1 {
		n = 1
	}
	for i := range p[:n] {
		p[i] = 0
		if len(r.data) > 0 {
			p[i] = r.data[0]
			r.data = r.data[1:]
		}
	}
	return n, nil
}

//verif:harness prop=C06 budget=30 bound="every 16 bytes the random source yields, in one read or byte by byte"
func GuidV4() {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	b := sym.Bytes("random", 16)
	rand.Reader = &fakeRand{append([]byte(nil), b...), sym.Choose("short", 2) == 1}
	var g serialization.GUID
	if sym.Choose("must", 2) == 0 {
		var err error
		g, err = serialization.NewGuidV4()
		sym.Assert(err == nil, "no GUID although the random source works")
	} else {
		g = serialization.MustNewGuidV4()
	}
	t := g.String()
	sym.Assert(t[14] == '4', "the version is not 4")
	sym.Assert(sym.Or(t[19] == '8', t[19] == '9', t[19] == 'a', t[19] == 'b'), "the variant is not RFC 4122")
	// all other bits come from the random source: no two of its 122-bit
	// selections may give the same GUID
	c := sym.Bytes("random2", 16)
	rand.Reader = &fakeRand{append([]byte(nil), c...), false}
	h, err := serialization.NewGuidV4()
	sym.Assert(err == nil, "no GUID although the random source works")
	if g == h {
		diff := 0
		for i := range b {
			x := b[i] ^ c[i]
			for k := uint(0); k < 8; k++ {
				diff += int(x >> k & 1)
			}
		}
		sym.Assert(diff <= 6, "generated GUIDs do not carry 122 random bits")
	}
}

//verif:harness prop=C06 budget=60 bound="every GUID with each of its letters in either case"
func GuidLetterCase() {
	g := anyGuid("g")
	var text []byte
	for i, b := range guidBytes(g) {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			text = append(text, '-')
		}
		for _, v := range []byte{b >> 4, b & 15} {
			up := sym.Bool("upper")
			text = append(text, sym.IteU8(v < 10, '0'+v, sym.IteU8(up, 'A'+v-10, 'a'+v-10)))
		}
	}
	p, err := serialization.GUIDFromString(string(text))
	sym.Assert(err == nil, "the GUID's own text was rejected")
	sym.Assert(p == g, "the text of a GUID parses to another one")
}
