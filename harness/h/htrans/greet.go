package htrans

import (
	"context"
	"crypto/rand"
	"crypto/tls"
	"net"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

const hInstance = 0

// named is a connection with an address of its own.
type named struct {
	net.Conn
	addr string
}

func (n *named) LocalAddr() net.Addr { return hnet.Addr(n.addr) }

// greeting checks the first message one end of a connection sends and
// returns its nonce.
func greeting(m *hnet.Msg, addr string) []byte {
	sym.Assert(m.Is(hnet.HActor, hnet.ActorV(1)), "the first message of a connection is no transport message")
	sym.Assert(m.Is(hnet.HPrio, hnet.BoolV(true)), "a greeting is not of high priority")
	sym.Assert(len(m.Get(hnet.HAction)) == 0 && len(m.Get(hnet.HExpects)) == 0 && len(m.Get(hnet.HRelates)) == 0 && len(m.Get(hnet.HFault)) == 0, "a greeting looks like another message")
	sym.Assert(len(m.Get(hnet.HId)) == 1, "a greeting has no identifier")
	at := 10 + len(href.Ascii(addr)) + 1 + 1
	b := m.Body
	sym.Assert(len(b) > at+16, "a greeting is malformed")
	g := b[at : at+16]
	var d4 [8]byte
	copy(d4[:], g[8:])
	sym.Assert(sym.BytesEq(b, href.Obj(href.Ascii(addr), href.U(href.UInt64, hInstance),
		href.GuidV(uint32(g[0])|uint32(g[1])<<8|uint32(g[2])<<16|uint32(g[3])<<24, uint16(g[4])|uint16(g[5])<<8, uint16(g[6])|uint16(g[7])<<8, d4),
		href.BoolV(true), href.U(href.UInt32, 1))), "a greeting does not announce the address, a nonce and heartbeats")
	sym.Assert(g[7]>>4 == 4 && g[8]>>6 == 2, "a nonce is not a version 4 GUID")
	return g
}

// spoken parses what one end wrote, past the handshake if there was one.
func spoken(c *hnet.Conn, h *hand, client bool) []*hnet.Msg {
	out := c.Out()
	if h != nil {
		rest, _ := handshakeOut(out, join(h.of(client)))
		p, ok := unseal(rest)
		sym.Assert(ok, "bytes after the handshake are framed")
		out = p
	}
	ms, ok := hnet.Parse(out)
	sym.Assert(ok && len(ms) > 0, "the byte stream is not a sequence of whole frames")
	return ms
}

//verif:harness prop=C46 budget=60 bound="a client and a server of this library, plain or with TLS, with or without checksums; a server address of 0 to 3 ASCII characters; every random source, or one that never repeats; a ping and a message each way afterwards"
func Greeting() {
	hnet.Rand()
	var h *hand
	var cfg, scfg transport.Config
	if sym.Choose("tls", 2) == 1 {
		h = newHand(sym.Choose("kind", 2))
		cfg.TLS, scfg.TLS = &tls.Config{}, &tls.Config{}
	} else {
		cfg.GenerateFrameBodyCRC = sym.Choose("crc", 2) == 1
		scfg.CheckFrameBodyCRC = cfg.GenerateFrameBodyCRC
	}
	repeat := sym.Choose("random", 2) == 1
	if repeat {
		rand.Reader = &symRand{}
	}
	addr := sym.Bytes("addr", sym.Choose("n", 4))
	for i := range addr {
		addr[i] = addr[i] & 0x7f
	}
	a, b := hnet.Pair()
	l := hnet.NewListener()
	var box, back inbox
	s, err := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		box.cb(c, m)
		m2 := &transport.Message{Body: []byte{2}}
		m2.Headers.Actor = transport.MessageActorTypeFM
		c.SendOneWay(m2)
	}})
	sym.Assert(err == nil, "Listen fails")
	l.Put(&named{b, string(addr)})
	go s.Serve()
	cl, err := transport.Connect(a, transport.ClientConfig{Config: cfg, MessageCallback: back.cb})
	sym.Assert(err == nil, "connecting to a server fails")
	m := &transport.Message{Body: []byte{1}}
	m.Headers.Actor = transport.MessageActorTypeFM
	sym.Assert(cl.SendOneWay(m) == nil, "a send over a working connection fails")
	go cl.Wait()
	_, err = cl.Ping(context.Background())
	sym.Assert(err == nil, "a ping over a working connection fails")
	sym.Quiesce()
	sym.Assert(len(box.all()) == 1 && len(back.all()) == 1, "the callbacks see other than the messages sent")
	x := spoken(a, h, true)
	y := spoken(b, h, false)
	sym.Assert(len(x) == 3 && len(y) == 3, "an end sends other than its greeting, a message and a heartbeat")
	nx, ny := greeting(x[0], ""), greeting(y[0], string(addr))
	for i := 1; i < 3; i++ {
		sym.Assert(len(x[i].Get(hnet.HAction)) == 1 || x[i].Is(hnet.HActor, hnet.ActorV(int64(transport.MessageActorTypeFM))), "a connection greets again")
		sym.Assert(len(y[i].Get(hnet.HAction)) == 1 || y[i].Is(hnet.HActor, hnet.ActorV(int64(transport.MessageActorTypeFM))), "a connection greets again")
	}
	if !repeat {
		sym.Assert(!sym.BytesEq(nx, ny), "two greetings share a nonce")
	}
}

//verif:harness prop=C46 budget=60 sched=1 tbudget=240 bound="3 connections accepted by one server at the same time, each with something to answer already there (heartbeat requests and a message answered from the callback), 1 preemption (thorough 2) anywhere"
func GreetFirst() {
	hnet.Rand()
	l := hnet.NewListener()
	s, err := transport.Listen(l, transport.ServerConfig{MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		m2 := &transport.Message{Body: []byte{2}}
		m2.Headers.Actor = transport.MessageActorTypeFM
		c.SendOneWay(m2)
	}})
	sym.Assert(err == nil, "Listen fails")
	var cs []*hnet.Conn
	peer := sent(transport.Config{}, appMessage([]byte{1}))
	for i := 0; i < sym.Tier(2, 3); i++ {
		c := hnet.New("peer" + string(rune('a'+i)))
		c.Feed(control("HeartbeatRequest", hnet.TickV(5)), peer)
		cs = append(cs, c)
	}
	sym.Preempt(sym.Tier(1, 2))
	for _, c := range cs {
		l.Put(c)
	}
	go s.Serve()
	sym.Quiesce()
	sym.Preempt(0)
	nonces := map[string]bool{}
	ids := map[string]bool{}
	for _, c := range cs {
		ms := spoken(c, nil, false)
		sym.Assert(len(ms) == 3, "an end sends other than its greeting and the two answers")
		g := greeting(ms[0], c.LocalAddr().String())
		sym.Assert(!nonces[string(g)], "two greetings share a nonce")
		nonces[string(g)] = true
		id := string(ms[0].Get(hnet.HId)[0])
		sym.Assert(!ids[id], "the greetings of two connections share an identifier")
		ids[id] = true
		for _, m := range ms[1:] {
			sym.Assert(m.Is(hnet.HActor, hnet.ActorV(int64(transport.MessageActorTypeFM))) || m.Is(hnet.HAction, hnet.ActionV("HeartbeatResponse")), "a connection greets again")
		}
	}
}

//verif:harness prop=C46 budget=60 bound="a piper between a client and an upstream, plain; with body checksums or without on either side: the greeting it sends each way"
func GreetPiped() {
	hnet.Rand()
	var d, u transport.Config
	d.GenerateFrameBodyCRC = sym.Choose("down", 2) == 1
	u.GenerateFrameBodyCRC = sym.Choose("up", 2) == 1
	p := newPipe(transport.PiperConfig{Config: d}, u, nil)
	p.client.Write(sent(transport.Config{GenerateFrameBodyCRC: true}, appMessage([]byte{1}), appMessage([]byte{2})))
	sym.Quiesce()
	x := spoken(p.down, nil, false)
	sym.Assert(len(x) == 1, "the piper sends the client other than its greeting")
	y := spoken(p.up, nil, false)
	sym.Assert(len(y) == 3, "the piper sends the upstream other than its greeting and what the client sent")
	sym.Assert(!sym.BytesEq(greeting(x[0], p.down.LocalAddr().String()), greeting(y[0], "")), "two greetings share a nonce")
	for _, m := range y[1:] {
		sym.Assert(m.Is(hnet.HAction, hnet.ActionV("act")), "the piper greets again")
	}
}
