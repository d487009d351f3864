package htrans

import (
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// oneHeader is a message header block that parses.
func oneHeader() []byte {
	return hnet.Hdrs(hnet.Hdr{Id: hnet.HActor, Data: hnet.ActorV(11)})
}

// anyHead is an arbitrary frame header with a right checksum.
func anyHead() []byte {
	total, mask, hlen, bcrc := sym.U32("total"), sym.U8("mask"), sym.U16("hlen"), sym.U32("bcrc")
	crc := hnet.Crc8(hnet.Head(total, mask, hlen, 0, 0))
	return hnet.Head(total, mask, hlen, crc, bcrc)
}

func rejected(cfg transport.Config, what string, stream ...[]byte) {
	msgs, err := receive(cfg, stream...)
	sym.Assert(len(msgs) == 0, what+" was delivered")
	sym.Assert(err != nil, what+" raised no error")
}

// corrupt adds an error to the first 8 bytes and feeds the frame.
func corrupt(head []byte, e [8]byte) {
	for i := range e {
		head[i] ^= e[i]
	}
	rejected(transport.Config{CheckFrameBodyCRC: false}, "a frame with a corrupted header", head, oneHeader(), make([]byte, 40))
}

//verif:harness prop=C08 budget=60 bound="every frame header (length, mask, header length, body checksum arbitrary), every nonzero error of 8 consecutive bits (most significant first) before, in or after the checksum byte"
func HeaderBurst() {
	hnet.Rand()
	s := sym.Choose("shift", 57) // bits left of the window
	if s+8 > 40 && s != 40 && s < 48 {
		// it would cross the checksum byte's edges
		return
	}
	p := sym.U8("pattern")
	sym.Assume(p != 0)
	w := uint64(p) << uint(56-s)
	var e [8]byte
	for i := range e {
		e[i] = byte(w >> uint(56-8*i))
	}
	corrupt(anyHead(), e)
}

//verif:harness prop=C08 budget=90 bound="every frame header, every one to three flipped bits in its first 8 bytes"
func HeaderFlips() {
	hnet.Rand()
	i := sym.Choose("first", 64)
	var e [8]byte
	e[i/8] ^= 1 << uint(i%8)
	// up to two more, anywhere after the first
	w := sym.U64("others")
	r := w & (w - 1)
	sym.Assume(r&(r-1) == 0)
	sym.Assume(w&(2<<uint(i)-1) == 0)
	for k := range e {
		e[k] ^= byte(w >> uint(8*k))
	}
	corrupt(anyHead(), e)
}

//verif:harness prop=C08 budget=90 tbudget=300 bound="messages of a header block of 22 bytes and 10 (thorough 100) arbitrary bytes, every nonzero error confined to 4 consecutive bytes of them, or any error in the body checksum"
func BodyBurst() {
	hnet.Rand()
	body := sym.Bytes("body", sym.Tier(10, 100))
	f := hnet.Frame(oneHeader(), body, true)
	var e [4]byte
	copy(e[:], sym.Bytes("error", 4))
	sym.Assume(sym.Or(e[0] != 0, e[1] != 0, e[2] != 0, e[3] != 0))
	at := 8
	if k := sym.Choose("at", len(f)-15); k > 0 {
		at = 11 + k
	}
	for i := range e {
		f[at+i] ^= e[i]
	}
	rejected(transport.Config{CheckFrameBodyCRC: true}, "a frame with a corrupted body", f)
}

//verif:harness prop=C08 budget=60 bound="a message with an action of 1 ASCII character and a body of 0, 1 or 9 arbitrary bytes under each of the 4 writer and 4 reader settings"
func WriterReader() {
	hnet.Rand()
	w := transport.Config{DisableGenerateFrameHeaderCRC: sym.Choose("noheadcrc", 2) == 1, GenerateFrameBodyCRC: sym.Choose("bodycrc", 2) == 1}
	m := &transport.Message{}
	m.Headers.Id = mid(1)
	m.Headers.Actor = transport.MessageActorTypeFM
	a := sym.Str("action", 1)
	sym.Assume(a[0] < 0x80)
	m.Headers.Action = a
	body := sym.Bytes("body", []int{0, 1, 9}[sym.Choose("bodylen", 3)])
	m.Body = append([]byte(nil), body...)
	want := m.Headers
	s := sent(w, m)
	fs, ok := hnet.Parse(s)
	sym.Assert(ok && len(fs) == 1, "what was written is not one frame")
	f := fs[0]
	var hc byte
	var bc uint32
	if !w.DisableGenerateFrameHeaderCRC {
		h := append([]byte(nil), f.Raw[:12]...)
		h[5] = 0
		copy(h[8:], []byte{0, 0, 0, 0})
		hc = hnet.Crc8(h)
	}
	if w.GenerateFrameBodyCRC {
		bc = hnet.Crc32(f.All)
	}
	sym.Assert(f.HCrc == hc, "the header checksum written is wrong")
	sym.Assert(f.BCrc == bc, "the body checksum written is wrong")
	sym.Assert(f.Mask == 0, "the security mask of a plain connection is not 0")

	r := transport.Config{DisableCheckFrameHeaderCRC: sym.Choose("nocheckhead", 2) == 1, CheckFrameBodyCRC: sym.Choose("checkbody", 2) == 1}
	msgs, _ := receive(r, s)
	if (r.DisableCheckFrameHeaderCRC || !w.DisableGenerateFrameHeaderCRC) && (!r.CheckFrameBodyCRC || w.GenerateFrameBodyCRC) {
		checkOne(msgs, &want, body)
	}
}

//verif:harness prop=C08 budget=60 bound="frames with arbitrary header and body checksums and a body of 6 arbitrary bytes, under each of the 4 reader settings"
func Settings() {
	hnet.Rand()
	r := transport.Config{DisableCheckFrameHeaderCRC: sym.Choose("nocheckhead", 2) == 1, CheckFrameBodyCRC: sym.Choose("checkbody", 2) == 1,
		// the writer's settings do not matter to the reader
		DisableGenerateFrameHeaderCRC: sym.Choose("noheadcrc", 2) == 1, GenerateFrameBodyCRC: sym.Choose("bodycrc", 2) == 1}
	h, body := oneHeader(), sym.Bytes("body", 6)
	msg := append(append([]byte(nil), h...), body...)
	hc, bc := sym.U8("headcrc"), sym.U32("bodycrc")
	good := hnet.Crc8(hnet.Head(uint32(12+len(msg)), 0, uint16(len(h)), 0, 0))
	msgs, _ := receive(r, hnet.Head(uint32(12+len(msg)), 0, uint16(len(h)), hc, bc), msg)
	want := sym.And(sym.Or(r.DisableCheckFrameHeaderCRC, hc == good), sym.Or(!r.CheckFrameBodyCRC, bc == hnet.Crc32(msg)))
	if len(msgs) > 0 {
		sym.Reach("delivered")
		sym.Assert(want, "a frame with a wrong checksum was delivered")
		sym.Assert(sym.BytesEq(msgs[0].Body, body), "the body changed on the way")
	} else {
		sym.Assert(!want, "a frame without a wrong checksum among those checked was rejected")
	}
}
