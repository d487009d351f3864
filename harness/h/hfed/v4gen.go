package hfed

import (
	"crypto/md5"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

// The permutation of the runtime's node ID generator.
var pearson = [256]uint8{
	0x01, 0x57, 0x31, 0x0C, 0xB0, 0xB2, 0x66, 0xA6, 0x79, 0xC1, 0x06, 0x54, 0xF9, 0xE6, 0x2C, 0xA3,
	0x0E, 0xC5, 0xD5, 0xB5, 0xA1, 0x55, 0xDA, 0x50, 0x40, 0xEF, 0x18, 0xE2, 0xEC, 0x8E, 0x26, 0xC8,
	0x6E, 0xB1, 0x68, 0x67, 0x8D, 0xFD, 0xFF, 0x32, 0x4D, 0x65, 0x51, 0x12, 0x2D, 0x60, 0x1F, 0xDE,
	0x19, 0x6B, 0xBE, 0x46, 0x56, 0xED, 0xF0, 0x22, 0x48, 0xF2, 0x14, 0xD6, 0xF4, 0xE3, 0x95, 0xEB,
	0x61, 0xEA, 0x39, 0x16, 0x3C, 0xFA, 0x52, 0xAF, 0xD0, 0x05, 0x7F, 0xC7, 0x6F, 0x3E, 0x87, 0xF8,
	0xAE, 0xA9, 0xD3, 0x3A, 0x42, 0x9A, 0x6A, 0xC3, 0xF5, 0xAB, 0x11, 0xBB, 0xB6, 0xB3, 0x00, 0xF3,
	0x84, 0x38, 0x94, 0x4B, 0x80, 0x85, 0x9E, 0x64, 0x82, 0x7E, 0x5B, 0x0D, 0x99, 0xF6, 0xD8, 0xDB,
	0x77, 0x44, 0xDF, 0x4E, 0x53, 0x58, 0xC9, 0x63, 0x7A, 0x0B, 0x5C, 0x20, 0x88, 0x72, 0x34, 0x0A,
	0x8A, 0x1E, 0x30, 0xB7, 0x9C, 0x23, 0x3D, 0x1A, 0x8F, 0x4A, 0xFB, 0x5E, 0x81, 0xA2, 0x3F, 0x98,
	0xAA, 0x07, 0x73, 0xA7, 0xF1, 0xCE, 0x03, 0x96, 0x37, 0x3B, 0x97, 0xDC, 0x5A, 0x35, 0x17, 0x83,
	0x7D, 0xAD, 0x0F, 0xEE, 0x4F, 0x5F, 0x59, 0x10, 0x69, 0x89, 0xE1, 0xE0, 0xD9, 0xA0, 0x25, 0x7B,
	0x76, 0x49, 0x02, 0x9D, 0x2E, 0x74, 0x09, 0x91, 0x86, 0xE4, 0xCF, 0xD4, 0xCA, 0xD7, 0x45, 0xE5,
	0x1B, 0xBC, 0x43, 0x7C, 0xA8, 0xFC, 0x2A, 0x04, 0x1D, 0x6C, 0x15, 0xF7, 0x13, 0xCD, 0x27, 0xCB,
	0xE9, 0x28, 0xBA, 0x93, 0xC6, 0xC0, 0x9B, 0x21, 0xA4, 0xBF, 0x62, 0xCC, 0xA5, 0xB4, 0x75, 0x4C,
	0x8C, 0x24, 0xD2, 0xAC, 0x29, 0x36, 0x9F, 0x08, 0xB9, 0xE8, 0x71, 0xC4, 0xE7, 0x2F, 0x92, 0x78,
	0x33, 0x41, 0x1C, 0x90, 0xFE, 0xDD, 0x5D, 0xBD, 0xC2, 0x8B, 0x70, 0x2B, 0x47, 0x6D, 0xB8, 0xD1,
}

// refHash is the hash of a name given by its UTF-16 units.
func refHash(units []uint16) federation.NodeID {
	var in []byte
	for _, c := range "UTzJ" {
		in = append(in, byte(c), 0)
	}
	for _, u := range units {
		in = append(in, byte(u), byte(u>>8))
	}
	for _, c := range "X3if" {
		in = append(in, byte(c), 0)
	}
	var id federation.NodeID
	for j := 0; j < 16; j++ {
		h := pearson[in[0]+byte(j)]
		for _, b := range in[1:] {
			h = pearson[h^b]
		}
		if j < 8 {
			id.Hi |= uint64(h) << uint(8*j)
		} else {
			id.Lo |= uint64(h) << uint(8*(j-8))
		}
	}
	return id
}

func spread(whole, role federation.NodeID, n uint64) federation.NodeID {
	x := (role.Lo&0xffffff + n) & 0xffffff
	y := x * 14938617 & 0xffffff
	return federation.NodeID{Hi: whole.Hi&0xffffffffff | y<<40, Lo: whole.Lo}
}

func ascii(b []byte) []uint16 {
	u := make([]uint16, len(b))
	for i := range u {
		u[i] = uint16(b[i])
	}
	return u
}

//verif:harness prop=C24 budget=90 tbudget=400 bound="every name of 0..3 (thorough 4) ASCII characters"
func V4Any() {
	b := sym.Bytes("name", sym.Choose("n", sym.Tier(4, 5)))
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	got := federation.NodeIDFromV4Generator(string(b))
	sep := -1
	for i, c := range b {
		if c == '.' || c == '_' {
			sep = i
		}
	}
	num := sep >= 0 && sep < len(b)-1
	n := uint64(0)
	for i := sep + 1; i < len(b); i++ {
		if num && (b[i] < '0' || b[i] > '9') {
			num = false
		}
		n = n*10 + uint64(b[i]-'0')
	}
	want := refHash(ascii(b))
	if num {
		sym.Reach("spread")
		want = spread(want, refHash(ascii(b[:sep])), n)
	}
	sym.Assert(got == want, "the generated node ID differs from the definition")
	sym.Assert(federation.NodeIDFromV4Generator(string(b)) == got, "the same name gave two IDs")
}

//verif:harness prop=C24 budget=60 tbudget=200 bound="names of up to 2 (thorough 3) arbitrary Unicode characters without a number: hash of the whole name"
func V4Unicode() {
	var units []uint16
	var u8 []byte
	for i := sym.Choose("n", sym.Tier(3, 4)); i > 0; i-- {
		w := 1 + sym.Choose("width", 4)
		u, b := href.RuneOf("r", w)
		units = append(units, u...)
		u8 = append(u8, b...)
		if i == 1 && w == 1 {
			// no number at the end
			sym.Assume(sym.Or(b[0] < '0', b[0] > '9'))
		}
	}
	sym.Assert(federation.NodeIDFromV4Generator(string(u8)) == refHash(units), "the generated node ID is not the hash of the name")
}

//verif:harness prop=C24 budget=60 tbudget=200 bound="a role with one arbitrary Unicode character, either separator, every number of 1..19 digits"
func V4Number() {
	ru, r8 := href.RuneOf("r", 1+sym.Choose("width", 4))
	sepc := []byte("._")[sym.Choose("sep", 2)]
	d := sym.Bytes("digits", 1+sym.Choose("n", 19))
	n := uint64(0)
	for _, c := range d {
		sym.Assume(sym.And(c >= '0', c <= '9'))
		n = n*10 + uint64(c-'0')
	}
	role := append(ru, 'x')
	name := string(r8) + "x" + string([]byte{sepc}) + string(d)
	whole := append(append(append([]uint16(nil), role...), uint16(sepc)), ascii(d)...)
	sym.Assert(federation.NodeIDFromV4Generator(name) == spread(refHash(whole), refHash(role), n), "the generated node ID differs from the definition")
}

//verif:harness prop=C24 budget=60 bound="numbers of 20..24 digits, arbitrary bytes (also invalid UTF-8) up to 3, long names: an ID without failing, the same each time"
func V4Total() {
	var name string
	switch sym.Choose("kind", 3) {
	case 0:
		d := sym.Bytes("digits", 20+sym.Choose("n", 5))
		for _, c := range d {
			sym.Assume(sym.And(c >= '0', c <= '9'))
		}
		name = "role." + string(d)
	case 1:
		name = string(sym.Bytes("name", sym.Choose("n", sym.Tier(3, 4))))
	case 2:
		b := make([]byte, 300)
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		k := sym.Choose("k", 4) * 99
		b[k] = sym.U8("c")
		name = string(b)
	}
	a := federation.NodeIDFromV4Generator(name)
	b := federation.NodeIDFromV4Generator(name)
	sym.Assert(a == b, "the same name gave two IDs")
}

//verif:harness prop=C24 budget=60 tbudget=300 bound="three roles, every pair of numbers of up to 8 (thorough 12) digits each: equal IDs only if the numbers agree modulo 2^24, and then equal spread bits"
func V4Distinct() {
	role := []string{"nodetype", "Web_Front", ""}[sym.Choose("role", 3)]
	sep := []string{".", "_"}[sym.Choose("sep", 2)]
	num := func(name string) (string, uint64) {
		d := sym.Bytes(name, []int{1, 2, 7, 8, 10, 12}[sym.Choose(name+"n", sym.Tier(4, 6))])
		n := uint64(0)
		for _, c := range d {
			sym.Assume(sym.And(c >= '0', c <= '9'))
			n = n*10 + uint64(c-'0')
		}
		return string(d), n
	}
	s1, n1 := num("first")
	s2, n2 := num("second")
	a := federation.NodeIDFromV4Generator(role + sep + s1)
	b := federation.NodeIDFromV4Generator(role + sep + s2)
	sym.Assert((a.Hi>>40 == b.Hi>>40) == (n1&0xffffff == n2&0xffffff), "two instances of a role whose numbers differ modulo 2^24 are not told apart by the spread bits")
}

//verif:harness prop=C24 budget=60 bound="names of 0, 1, 3, 55, 56, 64 and 130 bytes, three of them arbitrary: the MD5 generator's ID against the published algorithm's digest"
func Md5Id() {
	n := []int{0, 1, 3, 55, 56, 64, 130}[sym.Choose("n", 7)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	for i := 0; i < 3 && i < n; i++ {
		b[i*n/3] = sym.U8("c")
	}
	h := md5.Sum(b)
	id := federation.NodeIDFromMD5(string(b))
	var lo, hi uint64 // of the digest
	for i := 7; i >= 0; i-- {
		lo, hi = lo<<8|uint64(h[i]), hi<<8|uint64(h[8+i])
	}
	sym.Assert(sym.And(id.Hi == lo, id.Lo == hi), "the ID is not the name's digest")
	sym.Assert(federation.NodeIDFromMD5(string(b)) == id, "a name has two IDs")
}
