package htrans

import (
	"context"
	"sync"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// ends are a server and its clients, all of this library.
type ends struct {
	srv     *transport.Server
	clients []*transport.Client
	raw     []*hnet.Conn // the clients' ends
	far     []*hnet.Conn // the server's ends
	loops   []chan error
}

// serve starts a server and n clients; cb is the server's callback, ccb(i) the
// ith client's.
func serve(scfg, ccfg transport.Config, n int, cb transport.MessageCallback, ccb func(i int) transport.MessageCallback) *ends {
	e := &ends{}
	l := hnet.NewListener()
	var err error
	e.srv, err = transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: cb})
	sym.Assert(err == nil, "Listen fails")
	go e.srv.Serve()
	for i := 0; i < n; i++ {
		a, b := hnet.Pair()
		l.Put(b)
		var mc transport.MessageCallback
		if ccb != nil {
			mc = ccb(i)
		}
		cl := connect(a, ccfg, mc)
		loop := make(chan error, 1)
		go func() { loop <- cl.Wait() }()
		e.clients, e.raw, e.far, e.loops = append(e.clients, cl), append(e.raw, a), append(e.far, b), append(e.loops, loop)
	}
	sym.Quiesce()
	return e
}

func answer(m *transport.ByteArrayMessage, body []byte) *transport.Message {
	r := &transport.Message{Body: body}
	r.Headers.Actor = transport.MessageActorTypeFM
	r.Headers.RelatesTo = m.Headers.Id
	return r
}

// ask is a request with a body and an identifier of its own.
func ask(body []byte) *transport.Message {
	m := &transport.Message{Body: body}
	m.Headers.Actor = transport.MessageActorTypeFM
	return m
}

func flip(b []byte) []byte {
	out := append([]byte{7}, b...)
	for i := range out {
		out[i] ^= 0xff
	}
	return out
}

//verif:harness prop=C39 budget=60 tbudget=300 bound="a server and two clients (checksums of bodies on or off, or everything through the tls model), two and one requests with bodies of 3 arbitrary bytes in flight, answered in any order; the last answered twice"
func ServeRequests() {
	hnet.Rand()
	cfg := transport.Config{}
	switch sym.Choose("mode", 3) {
	case 1:
		cfg.CheckFrameBodyCRC, cfg.GenerateFrameBodyCRC = true, true
	case 2:
		newHand(sym.Choose("kind", 3))
		cfg.TLS = tlsConfig()
	}
	type held struct {
		c transport.Conn
		m *transport.ByteArrayMessage
	}
	var mu sync.Mutex
	var hold []held
	var back [2]inbox
	e := serve(cfg, cfg, 2, func(c transport.Conn, m *transport.ByteArrayMessage) {
		mu.Lock()
		defer mu.Unlock()
		hold = append(hold, held{c, m})
	}, func(i int) transport.MessageCallback { return back[i].cb })
	var calls []*call
	var bodies [][]byte
	for i := 0; i < 3; i++ {
		body := sym.Bytes("body", 3)
		bodies = append(bodies, body)
		calls = append(calls, start(e.clients[i/2], context.Background(), ask(body)))
		sym.Quiesce()
	}
	sym.Assert(len(hold) == 3, "the server's callback does not get every request once")
	for i, h := range hold {
		sym.Assert(h.m.Headers.ExpectsReply && sym.BytesEq(h.m.Body, bodies[i]), "the server's callback gets another request")
	}
	left := []int{0, 1, 2}
	for len(left) > 0 {
		k := sym.Choose("next", len(left))
		i := left[k]
		left = append(left[:k:k], left[k+1:]...)
		sym.Assert(!calls[i].returned(), "a request returns without its answer")
		sym.Assert(hold[i].c.SendOneWay(answer(hold[i].m, flip(bodies[i]))) == nil, "answering a request fails")
		sym.Quiesce()
		sym.Assert(calls[i].returned() && calls[i].err == nil, "a request misses its answer")
		sym.Assert(sym.BytesEq(calls[i].reply.Body, flip(bodies[i])), "a request gets another answer")
		if len(left) == 0 {
			sym.Assert(hold[i].c.SendOneWay(answer(hold[i].m, flip(bodies[i]))) == nil, "answering a request fails")
			sym.Quiesce()
			sym.Assert(len(back[i/2].all()) == 1 && len(back[1-i/2].all()) == 0, "a message is not delivered once to the client it was sent to")
		}
	}
}

//verif:harness prop=C39 budget=60 tbudget=300 bound="a server whose callback does not return for some of 3 messages of two clients (either's, in turn); heartbeats of both; then a further message from each, the end of a client, and the callbacks' answers"
func ServeSlow() {
	hnet.Rand()
	release := make(chan struct{})
	var box inbox
	stuck := map[byte]bool{}
	var mu sync.Mutex
	fails := 0
	e := serve(transport.Config{}, transport.Config{}, 2, func(c transport.Conn, m *transport.ByteArrayMessage) {
		box.cb(c, m)
		mu.Lock()
		wait := stuck[m.Body[0]]
		mu.Unlock()
		if wait {
			<-release
			if c.SendOneWay(answer(m, []byte{m.Body[0]})) != nil {
				mu.Lock()
				fails++
				mu.Unlock()
			}
		}
	}, nil)
	var calls []*call
	var from []int
	n := 0
	for i := 0; i < 3; i++ {
		w := sym.Choose("client", 2)
		if sym.Choose("stuck", 2) == 1 {
			stuck[byte(i)] = true
			calls = append(calls, start(e.clients[w], context.Background(), ask([]byte{byte(i)})))
			from = append(from, w)
		} else {
			sym.Assert(e.clients[w].SendOneWay(ask([]byte{byte(i)})) == nil, "sending fails")
		}
		sym.Quiesce()
		n++
		sym.Assert(len(box.all()) == n, "a message waits for the callback of another")
	}
	for _, cl := range e.clients {
		p := startPing(cl, context.Background())
		sym.Quiesce()
		sym.Assert(p.returned() && p.err == nil, "a heartbeat waits for a callback")
	}
	gone := sym.Choose("gone", 3) - 1
	if gone >= 0 {
		e.clients[gone].Close()
		sym.Quiesce()
		sym.Assert(e.far[gone].Closed(), "the server keeps a connection whose client is gone")
		sym.Assert(len(e.loops[gone]) == 1, "a closed client's receive loop does not return")
	}
	close(release)
	sym.Quiesce()
	failed := 0
	for i, c := range calls {
		sym.Assert(c.returned(), "a request waits on although it was answered or its connection is gone")
		if from[i] == gone {
			failed++
		}
		sym.Assert((c.err == nil) == (from[i] != gone), "a request fails because of another connection, or succeeds without one")
	}
	sym.Assert(fails == failed, "an answer over a connection that is gone succeeds, or one over a live connection fails")
	for i, cl := range e.clients {
		if i != gone {
			sym.Assert(cl.SendOneWay(ask([]byte{9})) == nil, "sending fails")
			n++
		}
	}
	sym.Quiesce()
	sym.Assert(len(box.all()) == n, "a message is not delivered although its connection lives")
}

//verif:harness prop=C39 budget=60 tbudget=300 sched=1 bound="requests from either side at once: two of a client's and one that the server's callback sends back to the client before it answers; one preemption (thorough two) anywhere"
func ServeBothWays() {
	hnet.Rand()
	e := serve(transport.Config{}, transport.Config{}, 1, func(c transport.Conn, m *transport.ByteArrayMessage) {
		switch m.Body[0] {
		case 1:
			r, err := c.RequestReply(context.Background(), ask([]byte{3}))
			if err == nil && len(r.Body) == 1 {
				c.SendOneWay(answer(m, []byte{1, r.Body[0]}))
			}
		case 2:
			c.SendOneWay(answer(m, []byte{2, 0}))
		}
	}, func(int) transport.MessageCallback {
		return func(c transport.Conn, m *transport.ByteArrayMessage) {
			c.SendOneWay(answer(m, []byte{m.Body[0] + 1}))
		}
	})
	sym.Preempt(sym.Tier(1, 2))
	p, q := start(e.clients[0], context.Background(), ask([]byte{1})), start(e.clients[0], context.Background(), ask([]byte{2}))
	sym.Quiesce()
	sym.Preempt(0)
	sym.Assert(p.returned() && q.returned(), "a request waits on although it was answered")
	sym.Assert(p.err == nil && q.err == nil, "a request fails although it was answered")
	sym.Assert(string(p.reply.Body) == "\x01\x04" && string(q.reply.Body) == "\x02\x00", "a request gets another answer")
}

//verif:harness prop=C39 budget=60 bound="a server without a callback, one set before Serve, or changed before the client connects; a client without one; messages and requests each way"
func ServeCallbacks() {
	hnet.Rand()
	var first, second inbox
	l := hnet.NewListener()
	cfg := transport.ServerConfig{}
	what := sym.Choose("callback", 4)
	if what == 1 || what == 3 {
		cfg.MessageCallback = first.cb
	}
	srv, err := transport.Listen(l, cfg)
	sym.Assert(err == nil, "Listen fails")
	if what >= 2 {
		srv.SetMessageCallback(second.cb)
	}
	go srv.Serve()
	a, b := hnet.Pair()
	l.Put(b)
	cl := connect(a, transport.Config{}, nil)
	go cl.Wait()
	sym.Quiesce()
	body := sym.Bytes("body", 2)
	n := 2 + sym.Choose("more", 2)
	for i := 0; i < n; i++ {
		sym.Assert(cl.SendOneWay(ask(body)) == nil, "sending fails")
		b.Feed() // nothing
		a.Feed(reply(byte(i), mid(byte(i)), nil))
		sym.Quiesce()
	}
	want := [4][2]int{{0, 0}, {n, 0}, {0, n}, {0, n}}[what]
	sym.Assert(len(first.all()) == want[0] && len(second.all()) == want[1], "the callback that was set does not get each message once")
	p := startPing(cl, context.Background())
	sym.Quiesce()
	sym.Assert(p.returned() && p.err == nil, "a connection without a callback does not go on")
}
