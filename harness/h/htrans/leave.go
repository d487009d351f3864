package htrans

import (
	"context"
	"errors"
	"net"
	"time"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// none checks that nothing runs any more.
func none() {
	sym.Quiesce()
	sym.Assert(sym.Left() == 0, "a goroutine is left of finished work")
}

//verif:harness prop=C42 budget=60 tbudget=300 bound="a client over 3 (thorough 4) of: a request or ping answered, cancelled or left waiting; an incoming message or heartbeat request, which it can answer or which the peer does not read; then closed, by its peer, a malformed frame, a refusal, or twice"
func LeaveClient() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	go cl.Wait()
	stall := make(chan struct{})
	n := byte(0)
	for i := 0; i < sym.Tier(3, 4); i++ {
		ctx, cancel := context.WithCancel(context.Background())
		n++
		switch sym.Choose("event", 9) {
		case 0:
			start(cl, ctx, request(mid(n)))
			sym.Quiesce()
			c.Feed(reply(100+n, mid(n), nil))
		case 1:
			start(cl, ctx, request(mid(n)))
			sym.Quiesce()
			cancel()
		case 2:
			start(cl, ctx, request(mid(n)))
		case 3:
			startPing(cl, ctx)
			sym.Quiesce()
			if p := asked(c); len(p) > 0 {
				c.Feed(control("HeartbeatResponse", p[len(p)-1]))
			}
		case 4:
			startPing(cl, ctx)
			sym.Quiesce()
			cancel()
		case 5:
			startPing(cl, ctx)
		case 6:
			c.Feed(control("HeartbeatRequest", hnet.TickV(77)))
		case 7:
			c.Feed(reply(100+n, transport.MessageId{}, nil))
		case 8:
			c.Stall = stall
		}
		sym.Quiesce()
		defer cancel()
	}
	switch sym.Choose("end", 5) {
	case 0:
		cl.Close()
	case 1:
		c.End(nil)
	case 2:
		c.Feed(hnet.Head(3, 0, 0, 0, 0))
	case 3:
		c.Feed(auth(5, nil, false))
	case 4:
		cl.Close()
		cl.Close()
	}
	none()
}

//verif:harness prop=C42 budget=60 tbudget=300 bound="a server, with TLS or without; 2 peers, each of which sends nothing, half a greeting, messages that the callback answers, keeps or closes on, heartbeat requests, a malformed frame, does not read, or cannot be written to; a closed listener and an accept error; then the peers hang up"
func LeaveServer() {
	hnet.Rand()
	var cfg transport.Config
	secure := sym.Choose("tls", 2) == 1
	var h *hand
	if secure {
		h = newHand(sym.Choose("kind", 3))
		cfg.TLS = tlsConfig()
	}
	l := hnet.NewListener()
	does := 0
	srv, err := transport.Listen(l, transport.ServerConfig{Config: cfg, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		switch does {
		case 1:
			c.SendOneWay(answer(m, nil))
		case 2:
			c.Close()
		case 3:
			_, err := c.RequestReply(context.Background(), request(mid(1)))
			sym.Assert(err != nil, "a request without a reply succeeded")
		}
	}})
	sym.Assert(err == nil, "Listen fails")
	go srv.Serve()
	var conns []*hnet.Conn
	for i := 0; i < 2; i++ {
		c := hnet.New("in")
		var f []byte
		switch sym.Choose("peer", 8) {
		case 0:
		case 1:
			f = good(1, nil)[:20]
		case 2:
			does = sym.Choose("does", 4)
			f = append(good(1, []byte{2}), good(3, nil)...)
		case 3:
			f = append(control("HeartbeatRequest", hnet.TickV(1)), control("HeartbeatResponse", hnet.TickV(1))...)
		case 4:
			f = malformed()[sym.Choose("bad", 3)]
		case 5:
			c.Stall = make(chan struct{})
			f = control("HeartbeatRequest", hnet.TickV(1))
		case 6:
			c.FailWrite = 1 + sym.Choose("write", 2)
			f = control("HeartbeatRequest", hnet.TickV(1))
		case 7:
			// the handshake breaks off
			if secure {
				f = securityFrame(0, h.of(true)[0])
			}
			c.Feed(f)
			f = nil
		}
		if secure && len(f) > 0 && sym.Choose("handshake", 2) == 1 {
			for n, x := range h.of(true) {
				c.Feed(securityFrame(n, x))
			}
			f = record(f)
		}
		c.Feed(f)
		l.Put(c)
		conns = append(conns, c)
		sym.Quiesce()
	}
	if sym.Choose("stop", 2) == 0 {
		srv.Close()
	} else {
		l.PutErr(errors.New("no more"))
	}
	for _, c := range conns {
		if c.Stall != nil { // a peer that has gone
			close(c.Stall)
		}
		c.End(nil)
	}
	none()
	for _, c := range conns {
		sym.Assert(c.Closed(), "a connection whose peer has gone stays open")
	}
}

//verif:harness prop=C42 budget=60 tbudget=300 bound="a piper with one client: 0 to 2 messages relayed each way, either side not reading or not; then the client or the upstream ends or sends a malformed frame, there is no upstream, or it refuses writes; then the listener closes"
func LeavePiper() {
	hnet.Rand()
	var fail error
	kind := sym.Choose("kind", 6)
	if kind == 4 {
		fail = errors.New("no upstream")
	}
	p := newPipe(transport.PiperConfig{}, transport.Config{}, fail)
	if kind == 5 {
		p.up.FailWrite = 1 + sym.Choose("write", 3)
	}
	n, m := sym.Choose("up", 3), sym.Choose("down", 3)
	for i := 0; i < n; i++ {
		p.client.Write(good(1, []byte{1}))
	}
	for i := 0; i < m; i++ {
		p.server.Write(good(2, []byte{1}))
	}
	sym.Quiesce()
	if sym.Choose("stall", 2) == 1 {
		// one side does not read while the other goes on sending
		p.up.Stall = make(chan struct{})
		p.client.Write(good(1, []byte{1}))
		sym.Quiesce()
	}
	side := sym.Choose("side", 2)
	from := []*hnet.Conn{p.client, p.server}[side]
	switch kind {
	case 0, 4, 5:
		p.client.Close()
	case 1:
		p.server.Close()
		if p.found == 0 {
			p.client.Close()
		}
	case 2:
		from.Write(malformed()[0])
		p.client.Close()
	case 3:
		from.Write(good(2, nil)[:20])
		p.client.Close()
		p.server.Close()
	}
	if p.up.Stall != nil {
		close(p.up.Stall) // the ends are not seen before
	}
	p.l.Close()
	none()
	sym.Assert(p.down.Closed(), "a finished pipe leaves a connection open")
	sym.Assert(p.found == 0 || fail != nil || p.up.Closed(), "a finished pipe leaves a connection open")
}

// grows checks that doing something again and again takes no more room; size
// measures.
func grows(size func() int, do func(i int)) {
	do(0)
	do(1)
	sym.Quiesce()
	was := size()
	for i := 2; i < 4; i++ {
		do(i)
		sym.Quiesce()
		sym.Assert(size() == was, "finished work takes room for ever")
	}
}

//verif:harness prop=C42 budget=60 tbudget=300 sched=1 bound="a client over 4 rounds of one or two of: a request answered, answered twice, cancelled, expired, or whose write fails; a ping answered, cancelled, expired, or whose write fails; an incoming message, a heartbeat request or a response nobody waits for, or with a request or ping cancelled before; all that is reachable from the client is measured"
func GrowClient() {
	hnet.Rand()
	c := hnet.New("tx")
	seen := 0
	cl := connect(c, transport.Config{}, func(transport.Conn, *transport.ByteArrayMessage) { seen++ })
	go cl.Wait()
	a := sym.Choose("event", 13)
	b := sym.Choose("event", 14)
	n := byte(0)
	do := func(kind int) {
		n++
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		answered := func(times int) {
			p := asked(c)
			for i := 0; i < times; i++ {
				c.Feed(control("HeartbeatResponse", p[len(p)-1]))
			}
			sym.Quiesce()
		}
		switch kind {
		case 0, 1:
			x := start(cl, ctx, request(mid(n)))
			sym.Quiesce()
			for i := 0; i <= kind; i++ {
				c.Feed(reply(100+n, mid(n), []byte{1}))
			}
			sym.Quiesce()
			sym.Assert(x.returned() && x.err == nil, "a request misses its answer")
		case 2:
			start(cl, ctx, request(mid(n)))
			sym.Quiesce()
			cancel()
		case 3:
			tctx, tc := context.WithTimeout(ctx, time.Second)
			defer tc()
			start(cl, tctx, request(mid(n)))
			time.Sleep(2 * time.Second)
		case 4:
			c.FailWrite = 1
			start(cl, ctx, request(mid(n)))
			sym.Quiesce()
			c.FailWrite = 0
		case 5:
			start(cl, ctx, request(mid(n)))
			sym.Quiesce()
			cancel()
			sym.Quiesce()
			c.Feed(reply(100+n, mid(n), nil))
		case 6:
			p := startPing(cl, ctx)
			sym.Quiesce()
			answered(1)
			sym.Assert(p.returned() && p.err == nil, "a ping misses its answer")
		case 7:
			startPing(cl, ctx)
			sym.Quiesce()
			cancel()
		case 8:
			tctx, tc := context.WithTimeout(ctx, time.Second)
			defer tc()
			startPing(cl, tctx)
			time.Sleep(2 * time.Second)
		case 9:
			c.FailWrite = 1
			startPing(cl, ctx)
			sym.Quiesce()
			c.FailWrite = 0
		case 10:
			startPing(cl, ctx)
			sym.Quiesce()
			cancel()
			sym.Quiesce()
			answered(2)
		case 11:
			c.Feed(reply(100+n, transport.MessageId{}, []byte{1}), reply(100+n, mid(200), []byte{1}))
		case 12:
			c.Feed(control("HeartbeatRequest", hnet.TickV(77)), control("HeartbeatResponse", hnet.TickV(int64(1000+int(n)))))
		}
		time.Sleep(time.Millisecond)
		sym.Quiesce()
	}
	grows(func() int { return sym.Size(cl) }, func(i int) {
		do(a)
		if b < 13 {
			do(b)
		}
	})
	cl.Close()
	none()
}

//verif:harness prop=C42 budget=60 sched=1 bound="a server over 4 rounds of a peer that connects, sends nothing, a message the callback answers, a request it answers, heartbeat requests or garbage, and hangs up; all that is reachable from the server is measured"
func GrowServer() {
	hnet.Rand()
	l := hnet.NewListener()
	srv, err := transport.Listen(l, transport.ServerConfig{MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		c.SendOneWay(answer(m, nil))
	}})
	sym.Assert(err == nil, "Listen fails")
	go srv.Serve()
	kind := sym.Choose("peer", 4)
	grows(func() int { return sym.Size(srv) }, func(i int) {
		c := hnet.New("in")
		switch kind {
		case 1:
			c.Feed(good(1, []byte{2}))
		case 2:
			c.Feed(control("HeartbeatRequest", hnet.TickV(1)))
		case 3:
			c.Feed(malformed()[0])
		}
		c.End(nil)
		l.Put(c)
	})
	srv.Close()
	none()
}

//verif:harness prop=C42 budget=60 sched=1 bound="a piper over 4 rounds of a client whose messages are relayed and which, or whose upstream, then ends; all that is reachable from the piper is measured"
func GrowPiper() {
	hnet.Rand()
	l := hnet.NewListener()
	var far *hnet.Conn
	side := sym.Choose("side", 2)
	pp, err := transport.NewPiper(l, transport.PiperConfig{FindUpstream: func(*transport.MessageHeaders, net.Conn) (net.Conn, transport.Config, error) {
		var up net.Conn
		up, far = hnet.Pair()
		return up, transport.Config{}, nil
	}})
	sym.Assert(err == nil, "NewPiper fails")
	go pp.Serve()
	grows(func() int { return sym.Size(pp) }, func(i int) {
		c, d := hnet.Pair()
		l.Put(d)
		c.Write(good(1, []byte{1}))
		sym.Quiesce()
		c.Write(good(2, []byte{1}))
		far.Write(good(3, nil))
		sym.Quiesce()
		[]*hnet.Conn{c, far}[side].Close()
	})
	l.Close()
	none()
}
