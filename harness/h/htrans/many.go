package htrans

import (
	"context"
	"errors"
	"io"
	"net"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// nth spreads 0..n-1 forwards, backwards or in strides.
func nth(order, i, n int) int {
	switch order {
	case 0:
		return i
	case 1:
		return n - 1 - i
	}
	return i * 7 % n
}

func many(i int) transport.MessageId {
	m := mid(byte(i % 5))
	m.Index = uint32(1000 + i)
	return m
}

//verif:harness prop=C12,C13 budget=90 reach=ended bound="60 requests in flight at once (some of them cancelled first), answered forwards, backwards or in strides, a further message relating to any of them (any index), or the connection closed or ended instead of the last 20 answers"
func ManyReplies() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	loop := make(chan error, 1)
	go func() { loop <- cl.Wait() }()
	const n = 60
	end := sym.Choose("end", 3)
	order := sym.Choose("order", 3)
	dropped := sym.Choose("cancelled", 2) == 1
	ctx, cancel := context.WithCancel(context.Background())
	var calls []*call
	for i := 0; i < n; i++ {
		cx := context.Background()
		if dropped && i%4 == 1 {
			cx = ctx
		}
		calls = append(calls, start(cl, cx, request(many(i))))
		sym.Quiesce()
	}
	gone := func(i int) bool { return dropped && i%4 == 1 }
	cancel()
	sym.Quiesce()
	for i, cc := range calls {
		sym.Assert(cc.returned() == gone(i), "a request without a reply returns, or a cancelled one does not")
		sym.Assert(!gone(i) || errors.Is(cc.err, context.Canceled), "a cancelled request does not return its context's error")
	}
	body := sym.Bytes("body", 2)
	answered := n
	if end > 0 {
		answered = n - 20
	}
	late := 0
	for k := 0; k < answered; k++ {
		i := nth(order, k, n)
		c.Feed(reply(byte(k), many(i), append([]byte{byte(i)}, body...)))
		sym.Quiesce()
		if gone(i) {
			late++
			continue
		}
		cc := calls[i]
		sym.Assert(cc.returned() && cc.err == nil && cc.reply != nil, "a request with a reply has not returned")
		sym.Assert(sym.BytesEq(cc.reply.Body, append([]byte{byte(i)}, body...)), "a request received a reply other than its own")
		sym.Assert(eqId(cc.reply.Headers.RelatesTo, many(i)), "a request received a reply other than its own")
	}
	sym.Assert(len(in.all()) == late, "a late reply was not delivered once, or a reply was delivered as a message")
	switch end {
	case 0:
		// nothing is left in the table
		o := mid(1)
		o.Index = sym.U32("index")
		c.Feed(reply(200, o, body))
		sym.Quiesce()
		sym.Assert(len(in.all()) == late+1, "a message without a request was not delivered")
		again := start(cl, context.Background(), request(many(5)))
		sym.Quiesce()
		sym.Assert(!again.returned(), "a request without a reply returned")
		c.Feed(reply(201, many(5), body))
		sym.Quiesce()
		sym.Assert(again.returned() && again.err == nil && sym.BytesEq(again.reply.Body, body), "a request after many others misses its reply")
		cl.Close()
	case 1:
		cl.Close()
	case 2:
		c.End(nil)
	}
	sym.Quiesce()
	for k := answered; k < n; k++ {
		sym.Reach("ended")
		cc := calls[nth(order, k, n)]
		sym.Assert(cc.returned() && cc.err != nil && cc.reply == nil, "a request outlives its connection")
	}
	sym.Assert(len(loop) == 1, "the receive loop outlives its connection")
}

//verif:harness prop=C14,C13 budget=90 bound="40 pings at once, answered forwards, backwards or in strides, possibly each twice; or the connection closed or ended after half of the answers"
func ManyPings() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	loop := make(chan error, 1)
	go func() { loop <- cl.Wait() }()
	const n = 40
	var ps []*ping
	for i := 0; i < n; i++ {
		ps = append(ps, startPing(cl, context.Background()))
		sym.Quiesce()
	}
	qs := asked(c)
	sym.Assert(len(qs) == n, "not every ping sends one heartbeat request")
	order, end := sym.Choose("order", 3), sym.Choose("end", 3)
	twice := sym.Choose("twice", 2) == 1
	answered := n
	if end > 0 {
		answered = n / 2
	}
	for k := 0; k < answered; k++ {
		i := nth(order, k, n)
		sym.Assert(!ps[i].returned(), "a ping returns without its answer")
		c.Feed(control("HeartbeatResponse", qs[i]))
		if twice {
			c.Feed(control("HeartbeatResponse", qs[i]))
		}
		sym.Quiesce()
		sym.Assert(ps[i].returned() && ps[i].err == nil && ps[i].d >= 0, "a ping misses its answer")
	}
	switch end {
	case 0:
		p := startPing(cl, context.Background())
		sym.Quiesce()
		q := asked(c)
		sym.Assert(len(q) == n+1 && !p.returned(), "a ping after many others sends nothing, or returns without an answer")
		c.Feed(control("HeartbeatResponse", q[n]))
		sym.Quiesce()
		sym.Assert(p.returned() && p.err == nil, "a ping after many others misses its answer")
		cl.Close()
	case 1:
		cl.Close()
	case 2:
		c.End(nil)
	}
	sym.Quiesce()
	for k := answered; k < n; k++ {
		p := ps[nth(order, k, n)]
		sym.Assert(p.returned() && p.err != nil, "a ping outlives its connection")
	}
	sym.Assert(len(loop) == 1, "the receive loop outlives its connection")
	sym.Assert(len(in.all()) == 0, "a heartbeat was delivered to the application")
}

//verif:harness prop=C07,C11 budget=90 bound="150 messages with bodies of 0 to 12 bytes (2 of them arbitrary) and a custom header in every third, sent one after the other (checksums of bodies on or off), read in one piece, in pieces of 1000 bytes, or of 7 bytes"
func ManyMessages() {
	hnet.Rand()
	cfg := transport.Config{}
	if sym.Choose("crc", 2) == 1 {
		cfg.CheckFrameBodyCRC, cfg.GenerateFrameBodyCRC = true, true
	}
	const n = 150
	any := sym.Bytes("any", 2)
	var ms []*transport.Message
	var bodies [][]byte
	for i := 0; i < n; i++ {
		m := &transport.Message{}
		m.Headers.Id = many(i)
		m.Headers.Actor = transport.MessageActorType(20 + i%3)
		b := make([]byte, i%13)
		for k := range b {
			b[k] = byte(i + k)
		}
		if i%37 == 5 {
			copy(b, any)
		}
		if i%3 == 0 {
			m.Headers.AppendCustomHeader(custom, []byte{byte(i)}, any)
		}
		m.Body = append([]byte(nil), b...)
		bodies = append(bodies, b)
		ms = append(ms, m)
	}
	s := sent(cfg, ms...)
	size := []int{len(s), 1000, 7}[sym.Choose("pieces", 3)]
	var segs [][]byte
	for len(s) > 0 {
		k := size
		if k > len(s) {
			k = len(s)
		}
		segs = append(segs, s[:k])
		s = s[k:]
	}
	c := hnet.New("rx")
	var in inbox
	cl := connect(c, cfg, in.cb)
	go func() {
		c.Feed(segs...)
		c.End(nil)
	}()
	sym.Assert(cl.Wait() != nil, "the receive loop ended without an error at the end of the stream")
	got := in.all()
	sym.Assert(len(got) == n, "not every message arrived exactly once")
	for i, m := range got {
		sym.Assert(eqId(m.Headers.Id, many(i)), "messages changed their order")
		sym.Assert(int(m.Headers.Actor) == 20+i%3 && sym.BytesEq(m.Body, bodies[i]), "a message changed on the way")
		cs := m.Headers.GetCustomHeaders(custom)
		if i%3 == 0 {
			sym.Assert(len(cs) == 2 && eqVal(cs[0], []byte{byte(i)}) && eqVal(cs[1], any), "a message changed on the way")
		} else {
			sym.Assert(len(cs) == 0, "a message changed on the way")
		}
	}
}

//verif:harness prop=C11 budget=90 bound="30 senders at once (every fifth a request, another fifth pings) and 10 heartbeat requests to answer, over a connection that takes each write at once; bodies of 300 bytes, 2 of them arbitrary"
func ManySenders() {
	hnet.Rand()
	c := hnet.New("tx")
	cl := connect(c, transport.Config{GenerateFrameBodyCRC: sym.Choose("crc", 2) == 1}, nil)
	before := len(c.Out())
	any := sym.Bytes("any", 2)
	const n = 30
	ctx, cancel := context.WithCancel(context.Background())
	oks := make([]bool, n)
	bodies := make([][]byte, n)
	for i := 0; i < n; i++ {
		i := i
		b := make([]byte, 300)
		for k := range b {
			b[k] = byte(i)
		}
		copy(b[100:], any)
		bodies[i] = b
		go func() {
			m := &transport.Message{Body: append([]byte(nil), b...)}
			m.Headers.Actor = transport.MessageActorType(20 + i)
			switch i % 5 {
			case 3:
				cl.RequestReply(ctx, m)
				oks[i] = true
			case 4:
				cl.Ping(ctx)
				oks[i] = true
			default:
				oks[i] = cl.SendOneWay(m) == nil
			}
		}()
	}
	for i := 0; i < 10; i++ {
		c.Feed(control("HeartbeatRequest", hnet.TickV(int64(i))))
	}
	go cl.Wait()
	sym.Quiesce()
	cancel()
	sym.Quiesce()
	fs, ok := hnet.Parse(c.Out()[before:])
	sym.Assert(ok, "the byte stream is not a sequence of whole frames")
	sym.Assert(len(fs) == n+10, "not every message was written exactly once")
	pings := 0
	beats, answers := 0, 0
	for _, f := range fs {
		sym.Assert(f.HCrc == headCrc(f), "a frame is damaged")
		switch {
		case f.Is(hnet.HAction, hnet.ActionV("HeartbeatRequest")):
			pings++
		case f.Is(hnet.HAction, hnet.ActionV("HeartbeatResponse")):
			for i := 0; i < 10; i++ {
				if contents(f, hnet.TickV(int64(i))) {
					beats |= 1 << i
				}
			}
			answers++
		}
	}
	sym.Assert(pings == n/5 && beats == 1<<10-1 && answers == 10, "not every ping and heartbeat was written exactly once")
	for i := 0; i < n; i++ {
		sym.Assert(oks[i], "a send over a working connection fails")
		if i%5 == 4 {
			continue
		}
		seen := 0
		for _, f := range fs {
			if f.Is(hnet.HActor, hnet.ActorV(int64(20+i))) {
				seen++
				sym.Assert(contents(f, bodies[i]), "a message is damaged")
			}
		}
		sym.Assert(seen == 1, "not every message was written exactly once")
	}
	cl.Close()
}

//verif:harness prop=C09,C30 budget=90 bound="a server or a piper that gets 40 connections which end at once, send garbage, break off in a frame or stay silent, then a good one"
func ManyBad() {
	hnet.Rand()
	var in inbox
	l := hnet.NewListener()
	piped := sym.Choose("piper", 2) == 1
	kind := sym.Choose("kind", 4)
	var server *hnet.Conn
	served := make(chan error, 1)
	var stop func() error
	if piped {
		var up *hnet.Conn
		up, server = hnet.Pair()
		p, err := transport.NewPiper(l, transport.PiperConfig{FindUpstream: func(*transport.MessageHeaders, net.Conn) (net.Conn, transport.Config, error) {
			return up, transport.Config{}, nil
		}})
		sym.Assert(err == nil, "NewPiper fails")
		stop = l.Close
		go func() { served <- p.Serve() }()
	} else {
		srv, err := transport.Listen(l, transport.ServerConfig{MessageCallback: in.cb})
		sym.Assert(err == nil, "Listen fails")
		stop = srv.Close
		go func() { served <- srv.Serve() }()
	}
	frame := good(1, []byte{1, 2})
	var bad []*hnet.Conn
	for i := 0; i < 40; i++ {
		b := hnet.New("bad")
		switch kind {
		case 0:
			b.End(nil)
		case 1:
			b.Feed(hnet.Head(12, 0, 0, 1, 0))
		case 2:
			b.Feed(frame[:len(frame)-1])
			b.End(io.ErrUnexpectedEOF)
		}
		bad = append(bad, b)
		l.Put(b)
		sym.Quiesce()
		sym.Assert(len(served) == 0, "a failing connection ends the server")
		sym.Assert(b.Closed() == (kind != 3), "a connection that failed is not closed, or one that did not is")
	}
	body := sym.Bytes("body", 2)
	ok := hnet.New("ok")
	ok.Feed(good(2, body), good(3, body))
	l.Put(ok)
	sym.Quiesce()
	if piped {
		var far inbox
		cl := connect(server, transport.Config{}, far.cb)
		go cl.Wait()
		sym.Quiesce()
		sym.Assert(len(far.all()) == 2, "a connection suffers from many failed ones")
	} else {
		m := in.all()
		sym.Assert(len(m) == 2 && sym.BytesEq(m[0].Body, body), "a connection suffers from many failed ones")
	}
	stop()
	sym.Quiesce()
	sym.Assert(len(served) == 1, "closing does not end the server")
}

//verif:harness prop=C39,C30 budget=90 bound="a server and 6 clients with 5 requests each in flight at once, answered forwards, backwards or in strides, and one message from the server to every client in between; then one connection closed by the server"
func ServeMany() {
	hnet.Rand()
	type held struct {
		c transport.Conn
		m *transport.ByteArrayMessage
	}
	var hold []held
	back := make([]inbox, 6)
	e := serve(transport.Config{}, transport.Config{}, 6, func(c transport.Conn, m *transport.ByteArrayMessage) {
		hold = append(hold, held{c, m})
	}, func(i int) transport.MessageCallback { return back[i].cb })
	const n = 30
	any := sym.Bytes("any", 2)
	var calls []*call
	body := func(i int) []byte { return append([]byte{byte(i)}, any...) }
	for i := 0; i < n; i++ {
		calls = append(calls, start(e.clients[i%6], context.Background(), ask(body(i))))
		sym.Quiesce()
	}
	sym.Assert(len(hold) == n, "the server's callback does not get every request once")
	order := sym.Choose("order", 3)
	for k := 0; k < n; k++ {
		i := nth(order, k, n)
		sym.Assert(sym.BytesEq(hold[i].m.Body, body(i)), "the server's callback gets another request")
		sym.Assert(!calls[i].returned(), "a request returns without its answer")
		sym.Assert(hold[i].c.SendOneWay(answer(hold[i].m, flip(body(i)))) == nil, "answering a request fails")
		sym.Quiesce()
		sym.Assert(calls[i].returned() && calls[i].err == nil, "a request misses its answer")
		sym.Assert(sym.BytesEq(calls[i].reply.Body, flip(body(i))), "a request gets another answer")
		if k == n/2 {
			for j := 0; j < 6; j++ {
				sym.Assert(hold[j].c.SendOneWay(ask(body(j))) == nil, "sending to a client fails")
			}
			sym.Quiesce()
		}
	}
	for j := 0; j < 6; j++ {
		m := back[j].all()
		sym.Assert(len(m) == 1 && sym.BytesEq(m[0].Body, body(j)), "a message is not delivered once to the client it was sent to")
	}
	last := start(e.clients[3], context.Background(), ask(any))
	sym.Quiesce()
	hold[3].c.Close()
	sym.Quiesce()
	sym.Assert(last.returned() && last.err != nil, "a request outlives its connection")
	for j := range e.raw {
		sym.Assert(e.far[j].Closed() == (j == 3), "closing a connection leaves it open, or closes another")
		sym.Assert(len(e.loops[j]) > 0 == (j == 3), "a client's receive loop outlives its connection, or ends with another")
	}
}

//verif:harness prop=C19 budget=90 bound="80 messages from the client and 80 from the server through one session of the piper, bodies of 0 to 12 bytes, 2 bytes of which arbitrary, handed over at once, in lumps of 10 or one by one"
func ManyPiped() {
	hnet.Rand()
	p := newPipe(transport.PiperConfig{}, transport.Config{}, nil)
	const n = 80
	any := sym.Bytes("any", 2)
	message := func(i, side int) *transport.Message {
		m := &transport.Message{Body: append(append([]byte(nil), any...), make([]byte, i%11)...)}
		m.Headers.Id = many(i)
		m.Headers.Actor = transport.MessageActorType(20 + side)
		if i%9 == 4 {
			m.Headers.RelatesTo = many(i + 3)
		}
		return m
	}
	var down, up inbox
	cl := connect(p.client, transport.Config{}, down.cb)
	go cl.Wait()
	sv := connect(p.server, transport.Config{}, up.cb)
	go sv.Wait()
	lump := []int{n, 10, 1}[sym.Choose("lump", 3)]
	for i := 0; i < n; i++ {
		sym.Assert(cl.SendOneWay(message(i, 0)) == nil && sv.SendOneWay(message(i, 1)) == nil, "a send over a working connection fails")
		if (i+1)%lump == 0 {
			sym.Quiesce()
		}
	}
	sym.Quiesce()
	for side, in := range []*inbox{&up, &down} {
		ms := in.all()
		sym.Assert(len(ms) == n, "the piper does not pass every message on once")
		for i, m := range ms {
			sameMessage(m, message(i, side))
		}
	}
	sym.Assert(p.found == 1, "the piper looks for an upstream again")
}
