package htrans

import (
	"context"
	"strings"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

const custom = transport.MessageHeaderIdType(0x1234)
const custom2 = transport.MessageHeaderIdType(0x1235)

// block returns the header block size of a message, as it is written.
func block(m *transport.Message) int {
	c := hnet.New("measure")
	cl := connect(c, transport.Config{}, nil)
	n := len(c.Out())
	if cl.SendOneWay(m) != nil {
		return -1
	}
	o := c.Out()[n:]
	return int(o[6]) | int(o[7])<<8
}

func raw(n int) []byte {
	b := make([]byte, n)
	if n > 0 {
		b[0], b[n-1] = sym.U8("first"), sym.U8("last")
	}
	return b
}

type longHeader struct{ S string }

//verif:harness prop=C10 budget=120 reach=sent,refused bound="header blocks of any size from 65533 to 65550 (thorough 65640), 65731 to 65741 and 131071 to 131076, made of one raw header, two raw headers, the action, or a struct header; sizes of one header of 65533 to 65539; as a one-way send or a request; first and last byte of a raw header arbitrary"
func HeaderLimits() {
	hnet.Rand()
	kind, request := sym.Choose("kind", 5), sym.Choose("request", 2) == 1
	mk := func(n int) (*transport.Message, []byte) {
		m := &transport.Message{Body: []byte{1, 2}}
		m.Headers.Id = mid(1)
		m.Headers.Actor = transport.MessageActorTypeFM
		m.Headers.ExpectsReply = request
		var r []byte
		switch kind {
		case 0:
			r = raw(n)
			m.Headers.SetCustomHeader(custom, r)
		case 1:
			r = raw(n / 2)
			m.Headers.SetCustomHeader(custom, r)
			m.Headers.SetCustomHeader(custom2, make([]byte, n-n/2))
		case 2:
			m.Headers.Action = strings.Repeat("x", n/2)
		case 3:
			m.Headers.SetCustomHeader(custom, &longHeader{strings.Repeat("y", n/2)})
		case 4: // many small ones
			r = raw(n - n/2)
			m.Headers.AppendCustomHeader(custom, r, make([]byte, n/8), make([]byte, n/8), make([]byte, n/8), make([]byte, n/2-3*(n/8)))
		}
		return m, r
	}
	m0, _ := mk(0x8000)
	over := block(m0) - 0x8000
	sym.Assert(over > 0, "a header block of 32 kB is refused")
	// the size of the header block, or of the header itself
	n := 0
	switch sym.Choose("size", 5) {
	case 0:
		n = sym.Concrete(sym.Int("block", 65533, 65539)) - over
	case 1:
		n = sym.Concrete(sym.Int("block", 65540, 65540+sym.Tier(10, 100))) - over
	case 2:
		n = sym.Concrete(sym.Int("block", 65536+195, 65536+205)) - over
	case 3:
		n = sym.Concrete(sym.Int("block", 131071, 131076)) - over
	case 4:
		n = sym.Concrete(sym.Int("header", 65533, 65539))
	}
	m, r := mk(n)
	c := hnet.New("tx")
	cl := connect(c, transport.Config{}, nil)
	before := len(c.Out())
	var err error
	if request {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		_, err = cl.RequestReply(ctx, m)
		if len(c.Out()) > before {
			err = nil
		}
	} else {
		err = cl.SendOneWay(m)
	}
	out := c.Out()[before:]
	if err != nil {
		sym.Reach("refused")
		sym.Assert(len(out) == 0, "bytes of a refused message are on the wire")
		if kind < 2 || kind == 4 {
			sym.Assert(n+over > 65535, "a message whose headers fit is refused")
		}
		return
	}
	sym.Reach("sent")
	sym.Assert(n+over <= 65536+1, "a message whose headers are too long was sent")
	fs, ok := hnet.Parse(out)
	sym.Assert(ok && len(fs) == 1 && len(fs[0].Body) == 2, "the lengths written are not the true ones")
	sym.Assert(fs[0].Is(hnet.HId, refId(mid(1))), "the lengths written are not the true ones")
	if r != nil {
		g := fs[0].Get(uint16(custom))
		sym.Assert(len(g) >= 1 && sym.BytesEq(g[0], r), "a header was truncated")
	}
	if kind == 2 {
		sym.Assert(fs[0].Is(hnet.HAction, hnet.ActionV(m.Headers.Action)), "a header was truncated")
	}
}

//verif:harness prop=C10,C07 budget=60 bound="bodies of 65520 to 65540 bytes and 200000 bytes, first and last byte arbitrary, in one piece or in segments of 65536 bytes"
func LongBody() {
	hnet.Rand()
	n := 200000
	if k := sym.Choose("n", 22); k < 21 {
		n = 65520 + k
	}
	body := raw(n)
	m := &transport.Message{Body: body}
	m.Headers.Id = mid(1)
	m.Headers.Actor = transport.MessageActorTypeFM
	want := m.Headers
	s := sent(transport.Config{}, m)
	fs, ok := hnet.Parse(s)
	sym.Assert(ok && len(fs) == 1 && len(fs[0].Body) == n, "the lengths written are not the true ones")
	segs := [][]byte{s}
	if sym.Choose("cut", 2) == 1 {
		segs = [][]byte{s[:65536], s[65536:]}
	}
	msgs, _ := receive(transport.Config{}, segs...)
	checkOne(msgs, &want, body)
}
