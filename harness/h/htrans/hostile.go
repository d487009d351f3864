package htrans

import (
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

func good(n byte, body []byte) []byte {
	return hnet.Frame(hnet.Hdrs(
		hnet.Hdr{Id: hnet.HId, Data: refId(mid(n))},
		hnet.Hdr{Id: hnet.HActor, Data: hnet.ActorV(11)}), body, false)
}

// wellFormed tells whether a header block is a sequence of whole headers.
func wellFormed(b []byte) bool {
	for len(b) > 0 {
		if len(b) < 4 {
			return false
		}
		n := sym.Concrete(int(b[2]) | int(b[3])<<8)
		if n > len(b)-4 {
			return false
		}
		b = b[4+n:]
	}
	return true
}

// smallSizes bounds the sizes of the headers in b: at most 2 beyond the data,
// or the largest there is.
func smallSizes(b []byte) {
	for len(b) >= 4 {
		sym.Assume(sym.Or(sym.And(b[3] == 0, int(b[2]) <= len(b)-4+2), sym.And(b[2] == 255, b[3] == 255)))
		n := sym.Concrete(int(b[2]) | int(b[3])<<8)
		if n > len(b)-4 {
			return
		}
		b = b[4+n:]
	}
}

var lax = transport.Config{DisableCheckFrameHeaderCRC: true}

//verif:harness prop=C09 budget=90 tbudget=300 reach=delivered,refused bound="one frame: arbitrary header of length up to 16 beyond the data present, up to 9 (thorough 12) arbitrary bytes after it; sizes of message headers at most 2 beyond the data or 65535"
func HostileFrame() {
	hnet.Rand()
	n := sym.Choose("n", sym.Tier(10, 13))
	total := sym.U32("total")
	sym.Assume(total <= uint32(12+n+16))
	head := hnet.Head(total, sym.U8("mask"), sym.U16("hlen"), sym.U8("crc"), sym.U32("bcrc"))
	data := sym.Bytes("data", n)
	t, h := sym.Concrete(int(total)), 0
	whole := t >= 12 && t <= 12+n
	if whole {
		whole = int(head[6])|int(head[7])<<8 <= t-12
		if whole {
			h = sym.Concrete(int(head[6]) | int(head[7])<<8)
			smallSizes(data[:h])
		}
	}
	sym.AllocLimit(1 << 20)
	msgs, err := receive(lax, head, data)
	sym.Assert(err != nil, "the receive loop ended without an error")
	if len(msgs) == 0 {
		sym.Reach("refused")
		return
	}
	sym.Reach("delivered")
	sym.Assert(len(msgs) == 1 && whole, "an inconsistent or cut-off frame was delivered")
	sym.Assert(sym.BytesEq(msgs[0].Body, data[h:t-12]), "the body delivered is not the frame's")
	sym.Assert(wellFormed(data[:h]), "a message with cut-off headers was delivered")
}

//verif:harness prop=C09 budget=60 bound="a frame whose headers have ids the transport does not know, followed by another frame: consistent lengths deliver both; 0 to 9 bytes of arbitrary headers, sizes at most 2 beyond the data or 65535"
func UnknownHeaders() {
	hnet.Rand()
	n := sym.Choose("n", 10)
	h := sym.Bytes("headers", n)
	body := sym.Bytes("body", 2)
	// only ids outside the transport's range
	smallSizes(h)
	for p := 0; n-p >= 2; {
		id := uint16(h[p]) | uint16(h[p+1])<<8
		sym.Assume(id < 0x8000)
		if n-p < 4 {
			break
		}
		p += 4 + sym.Concrete(int(h[p+2])|int(h[p+3])<<8)
	}
	msgs, _ := receive(transport.Config{}, hnet.Frame(h, body, false), good(7, nil))
	if wellFormed(h) {
		sym.Assert(len(msgs) == 2, "well-formed frames were not delivered")
		sym.Assert(sym.BytesEq(msgs[0].Body, body), "the body delivered is not the frame's")
		sym.Assert(eqId(msgs[1].Headers.Id, mid(7)), "the frame after it changed")
	} else {
		sym.Assert(len(msgs) == 0, "a message with cut-off headers was delivered")
	}
}

var builtins = []uint16{hnet.HActor, hnet.HAction, hnet.HId, hnet.HRelates, hnet.HExpects, hnet.HRetry, hnet.HFault, hnet.HIdem, hnet.HPrio, hnet.HSecNego, hnet.HInvalid, 0x1234}

//verif:harness prop=C09 budget=90 tbudget=300 bound="every built-in header, its data cut short at any place or replaced: 0 to 4 arbitrary bytes, or an object with 0 to 4 arbitrary bytes of fields and any declared size; then a well-formed frame"
func HostileHeader() {
	hnet.Rand()
	id := builtins[sym.Choose("id", len(builtins))]
	var d []byte
	switch sym.Choose("shape", 2) {
	case 0:
		d = sym.Bytes("data", sym.Choose("n", 5))
	case 1:
		d = append([]byte{0}, href.LE32(sym.U32("size"))...)
		d = append(d, 0, 0, 0, 0, href.ScopeBegin)
		d = append(d, sym.Bytes("fields", sym.Choose("n", 5))...)
	}
	body := sym.Bytes("body", 2)
	sym.AllocLimit(1 << 20)
	msgs, err := receive(transport.Config{}, hnet.Frame(hnet.Hdrs(hnet.Hdr{Id: id, Data: d}), body, false), good(7, nil))
	sym.Assert(err != nil, "the receive loop ended without an error")
	if len(msgs) == 0 {
		return
	}
	last := msgs[len(msgs)-1]
	if len(msgs) == 2 {
		sym.Assert(sym.BytesEq(msgs[0].Body, body), "the body delivered is not the frame's")
	} else {
		// a transport message is not delivered
		sym.Assert(len(msgs) == 1 && id == hnet.HActor, "not every frame arrived")
	}
	sym.Assert(eqId(last.Headers.Id, mid(7)), "the frame after it changed")
}

//verif:harness prop=C09 budget=60 bound="frame lengths below 12 (all) and header lengths beyond the frame (all), with a right header checksum"
func IllegalLengths() {
	hnet.Rand()
	total, hlen := sym.U32("total"), sym.U16("hlen")
	if sym.Choose("which", 2) == 0 {
		sym.Assume(total < 12)
	} else {
		sym.Assume(sym.And(total >= 12, total < 60, uint32(hlen) > total-12))
	}
	sym.AllocLimit(1 << 20)
	head := hnet.Head(total, 0, hlen, hnet.Crc8(hnet.Head(total, 0, hlen, 0, 0)), 0)
	rejected(transport.Config{}, "a frame with illegal lengths", head, make([]byte, 100))
}

//verif:harness prop=C09,C30 budget=60 bound="a server with 2 connections, one of which sends one of 10 malformed streams; every order of callbacks and receive loops at blocking operations"
func HostileNeighbour() {
	hnet.Rand()
	sym.AllOrders(true)
	var in inbox
	l := hnet.NewListener()
	srv, err := transport.Listen(l, transport.ServerConfig{MessageCallback: in.cb})
	sym.Assert(err == nil, "Listen fails")
	go srv.Serve()
	bad, ok := hnet.New("bad"), hnet.New("ok")
	body := sym.Bytes("body", 2)
	h := hnet.Hdrs(hnet.Hdr{Id: hnet.HActor, Data: hnet.ActorV(1)})
	evil := [][]byte{
		{1},
		hnet.Head(0, 0, 0, hnet.Crc8(hnet.Head(0, 0, 0, 0, 0)), 0),
		hnet.Head(12, 0, 9, hnet.Crc8(hnet.Head(12, 0, 9, 0, 0)), 0),
		hnet.Head(12, 0, 0, 1, 0),
		hnet.Frame(h, []byte{1, 2, 3}, false),
		hnet.Frame(h[:5], nil, false),
		hnet.Frame(append(hnet.Hdrs(hnet.Hdr{Id: hnet.HAction, Data: hnet.ActionV("HeartbeatResponse")}), h...), []byte{9}, false),
		hnet.Frame(append(hnet.Hdrs(hnet.Hdr{Id: hnet.HAction, Data: hnet.ActionV("HeartbeatResponse")}), h...), hnet.TickV(5), false),
		hnet.Frame(append(hnet.Hdrs(hnet.Hdr{Id: hnet.HAction, Data: hnet.ActionV("HeartbeatRequest")}), h...), nil, false),
		hnet.Frame(hnet.Hdrs(hnet.Hdr{Id: hnet.HActor, Data: []byte{1}}), nil, false),
	}
	bad.Feed(evil[sym.Choose("evil", len(evil))])
	bad.End(nil)
	l.Put(bad)
	l.Put(ok)
	ok.Feed(good(1, body))
	sym.Quiesce()
	sym.Assert(bad.Closed(), "a connection that failed is not closed")
	sym.Assert(!ok.Closed(), "a connection was closed by another one's failure")
	m := in.all()
	sym.Assert(len(m) == 1 && sym.BytesEq(m[0].Body, body), "a connection suffers from another one's failure")
	third := hnet.New("third")
	third.Feed(good(2, nil))
	l.Put(third)
	sym.Quiesce()
	sym.Assert(len(in.all()) == 2, "the server accepts no more connections")
}
