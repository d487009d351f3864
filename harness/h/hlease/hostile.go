package hlease

import (
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

// afterwards checks that the agent lives and ends the connection.
func (a *agent) afterwards(c *hnet.Conn, mustClose bool) {
	sym.Quiesce()
	sym.Assert(!a.ended(), "hostile bytes end the accept loop")
	if mustClose {
		sym.Assert(c.Closed(), "a connection with unusable bytes is kept")
	}
	// another peer is served
	s := a.establish("other:7")
	sym.Assert(s.LastPongTime().IsZero(), "a message makes up a pong")
	a.incoming(connectFrame(), frame(message(pingResponse, "other", 7)))
	sym.Quiesce()
	sym.Assert(!s.LastPongTime().IsZero(), "another peer's message is lost")
}

//verif:harness prop=C28,C30 budget=60 bound="a frame header with arbitrary type and size (up to 250, thorough 1024), followed by 0 to 20 bytes (a further frame's size up to 1024) or by a whole message; the stream ends after it, or the peer stays"
func HostileFrame() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	typ := sym.U8("type")
	size := sym.U32("size")
	sym.Assume(size <= uint32(sym.Tier(250, 1024)))
	var tail []byte
	n := 10 * sym.Choose("tail", 4)
	if n == 30 {
		tail = message(pingResponse, "peer", 9)
		n = len(tail)
	} else {
		tail = sym.Bytes("data", n)
		if n > 12 {
			// after a connect frame this is a frame header
			sym.Assume(sym.And(tail[6] == 0, tail[7] == 0, tail[5] <= 4))
		}
	}
	sym.AllocLimit(1 << 16)
	s := a.establish("peer:9")
	c := a.incoming(frameHead(typ, size), tail)
	ends := sym.Choose("ends", 2) == 1
	if ends {
		c.End(nil)
	}
	sym.Quiesce()
	bad := typ != 1 && typ != 2 || typ == 1 && size < 12
	whole := typ == 1 && size == uint32(12+n) && n > 30
	sym.Assert(!whole || !s.LastPongTime().IsZero(), "a good message is lost")
	a.afterwards(c, ends || bad)
}

//verif:harness prop=C28 budget=60 reach=decoded,refused bound="one message: any start (quick: not 4 to 197) and size (2 x 32 bits) of the listen endpoint in a message of 216 bytes, any type of 8 bits, the high bytes of two characters arbitrary"
func HostileEndpoint() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	start, size := sym.U32("start"), sym.U32("size")
	if sym.Tier(0, 1) == 0 {
		sym.Assume(sym.Or(start < 4, start >= 198))
	}
	data := href.Cat(utf16("peer"), []byte{0, 0, 2, 0}, href.LE16(9), make([]byte, 2))
	data[7], data[9] = sym.U8("data"), sym.U8("data")
	total := uint32(200 + len(data))
	h := header(int32(sym.I8("type")), total, start, size)
	s := a.establish("peer:9")
	sym.AllocLimit(1 << 16)
	c := a.incoming(frame(href.Cat(h, data)))
	sym.Quiesce()
	inside := sym.And(start <= total, size <= total, start+size <= total)
	sym.Assert(!inside || size < 4 || !c.Closed(), "a message with an endpoint inside it is refused")
	if c.Closed() {
		sym.Reach("refused")
	} else {
		sym.Reach("decoded")
		sym.Assert(inside, "a message whose endpoint leaves it is decoded")
		sym.Assert(size >= 4, "a message whose endpoint has no room for its family and port is decoded")
	}
	_ = s
	sym.Quiesce()
	sym.Assert(!a.ended(), "hostile bytes end the accept loop")
}

//verif:harness prop=C28 budget=60 bound="a message cut off at any byte, the frame saying so or the stream ending there"
func HostileCut() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	m := message(pingResponse, "peer", 9)
	s := a.establish("peer:9")
	n := sym.Choose("cut", len(m))
	sym.AllocLimit(1 << 16)
	var c *hnet.Conn
	if sym.Choose("how", 2) == 0 {
		c = a.incoming(frame(m[:n]), connectFrame())
	} else {
		c = a.incoming(frame(m)[:n])
		c.End(nil)
	}
	sym.Quiesce()
	sym.Assert(s.LastPongTime().IsZero(), "a cut-off message is taken for a pong")
	a.afterwards(c, true)
}

//verif:harness prop=C28 budget=60 bound="6000 connect frames with arbitrary reserved bytes in the first, then a message"
func ConnectFrames() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	f := connectFrame()
	var in []byte
	for i := 0; i < 6000; i++ {
		in = append(in, f...)
	}
	copy(in[1:4], sym.Bytes("reserved", 3))
	copy(in[8:12], sym.Bytes("reserved", 4))
	sym.StepLimit(30000000)
	a.incoming(in, frame(message(pingResponse, "peer", 9)))
	sym.Quiesce()
	sym.Assert(!s.LastPongTime().IsZero(), "a message after connect frames is lost")
}

//verif:harness prop=C28 budget=60 bound="a sequence of up to 3 connect frames, messages and segment cuts of 1, 3 or all bytes"
func Framing() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	var in []byte
	for i := sym.Choose("connects", 4); i > 0; i-- {
		in = append(in, connectFrame()...)
	}
	in = append(in, frame(message(pingRequest, "peer", 9))...)
	for i := sym.Choose("connects", 4); i > 0; i-- {
		in = append(in, connectFrame()...)
	}
	in = append(in, frame(message(pingResponse, "peer", 9))...)
	c := hnet.New("in")
	c.Feed(in)
	step := []int{1, 3, 1 << 20}[sym.Choose("step", 3)]
	c.OnRead = func(n int) int {
		if n > step {
			return step
		}
		return n
	}
	a.l.Put(c)
	sym.Quiesce()
	sym.Assert(!s.LastPongTime().IsZero(), "a message is lost")
	sym.Assert(!c.Closed(), "a good connection is closed")
	bodies, connects, ok := frames(c.Out())
	sym.Assert(ok && len(bodies) == 0 && connects == 1, "an accepted connection is not greeted with one connect frame")
}
