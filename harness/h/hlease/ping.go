package hlease

import (
	"context"
	"errors"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

type ping struct {
	done chan struct{}
	err  error
}

func startPing(s lease.Session, ctx context.Context) *ping {
	p := &ping{done: make(chan struct{})}
	go func() {
		p.err = s.Ping(ctx)
		close(p.done)
	}()
	return p
}

func (p *ping) returned() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *ping) ok() bool     { return p.returned() && p.err == nil }
func (p *ping) failed() bool { return p.returned() && p.err != nil }

// pongs feeds pongs into a new incoming connection.
func (a *agent) pong(host string, port uint16) {
	a.incoming(connectFrame(), frame(message(pingResponse, host, port)))
}

//verif:harness prop=C29 budget=60 reach=pong,ended bound="one session, a ping, then 3 events of: its pong, a message of any other type (32 bits) from its peer, a pong of another endpoint (port below 12, another host, one host a prefix), cancellation, close of the session"
func PingEvents() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	other := a.establish("peers:9")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	p := startPing(s, ctx)
	sym.Quiesce()
	sym.Assert(!p.returned(), "a ping returns without a pong")
	got, ended := false, false
	var why string
	for i := 0; i < 3; i++ {
		switch sym.Choose("event", 6) {
		case 0:
			a.pong("peer", 9)
			if !ended {
				got = true
			}
		case 1:
			typ := sym.I32("type")
			sym.Assume(typ != pingResponse)
			a.incoming(frame(message(typ, "peer", 9)))
		case 2:
			port := uint16(sym.U8("port"))
			sym.Assume(sym.And(port != 9, port < 12))
			a.pong("peer", port)
		case 3:
			a.pong([]string{"peers", "pee", "", "Peer"}[sym.Choose("host", 4)], 9)
		case 4:
			cancel()
			if why == "" {
				why = "cancel"
			}
		case 5:
			s.Close()
			if why == "" {
				why = "close"
			}
		}
		ended = ended || !got && why != ""
		sym.Quiesce()
		switch {
		case got:
			sym.Reach("pong")
			sym.Assert(p.ok(), "a ping does not succeed on its pong")
		case ended:
			sym.Reach("ended")
			sym.Assert(p.failed(), "a ping whose context or session ended does not fail")
		default:
			sym.Assert(!p.returned(), "a ping returns without a pong")
		}
		if ended && why == "cancel" {
			sym.Assert(errors.Is(p.err, context.Canceled), "a cancelled ping does not return its context's error")
		}
	}
	q := startPing(other, context.Background())
	sym.Quiesce()
	sym.Assert(!q.returned(), "a ping succeeds on a pong that came before it")
	a.pong("peers", 9)
	sym.Quiesce()
	sym.Assert(q.ok(), "another session's ping fails")
}

//verif:harness prop=C29 budget=60 tbudget=300 sched=1 bound="a pong that arrives as soon as the ping is written, two preemptions (thorough three) anywhere"
func PingEarlyPong() {
	hnet.Rand()
	a := newAgent()
	sent := make(chan struct{}, 4)
	a.prep = func(c *hnet.Conn) {
		c.OnWrite = func(int, []byte) { sent <- struct{}{} }
	}
	a.serve()
	s := a.establish("peer:9")
	in := a.incoming(connectFrame())
	sym.Quiesce()
	go func() {
		<-sent
		in.Feed(frame(message(pingResponse, "peer", 9)))
	}()
	sym.Preempt(sym.Tier(2, 3))
	p := startPing(s, context.Background())
	sym.Quiesce()
	sym.Preempt(0)
	sym.Assert(p.returned(), "a pong that comes right after the ping is missed")
	sym.Assert(p.err == nil, "a ping fails although its pong arrived")
}

//verif:harness prop=C29 budget=60 tbudget=300 sched=1 bound="a ping, its pong, and the end of its context or session, concurrent, two preemptions (thorough three) anywhere"
func PingRaces() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	in := a.incoming(connectFrame())
	sym.Quiesce()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	how := sym.Choose("how", 3)
	sym.Preempt(sym.Tier(2, 3))
	p := startPing(s, ctx)
	go in.Feed(frame(message(pingResponse, "peer", 9)))
	go func() {
		switch how {
		case 0:
			cancel()
		case 1:
			s.Close()
		case 2:
			a.Close()
		}
	}()
	sym.Quiesce()
	sym.Preempt(0)
	sym.Assert(p.returned(), "a ping waits on although its context or session ended")
	if how > 0 {
		p = startPing(s, context.Background())
		sym.Quiesce()
		sym.Assert(p.failed(), "a ping on a closed session does not fail")
	}
}

//verif:harness prop=C29,C27 budget=60 tbudget=300 sched=1 bound="two concurrent pings of one session, one of another session; two preemptions (thorough three) anywhere"
func PingsTogether() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s, o := a.establish("peer:9"), a.establish("other:9")
	sym.Preempt(sym.Tier(2, 3))
	p, q, r := startPing(s, context.Background()), startPing(s, context.Background()), startPing(o, context.Background())
	sym.Quiesce()
	sym.Preempt(0)
	bodies, connects, ok := frames(a.conns[0].Out())
	sym.Assert(ok, "the frames of concurrent pings interleave")
	sym.Assert(len(bodies) == 2 && connects == 0, "two pings do not send two messages")
	for _, b := range bodies {
		sym.Assert(b[24] == pingRequest, "a ping is no ping request")
	}
	a.pong("peer", 9)
	sym.Quiesce()
	sym.Assert(p.ok() && q.ok(), "a waiting ping misses a pong")
	sym.Assert(!r.returned(), "a ping succeeds on another session's pong")
}

//verif:harness prop=C29 budget=60 bound="a write that fails, for good, temporarily or otherwise, at the first or second ping after 0, 5 or 40 bytes"
func PingWriteFails() {
	hnet.Rand()
	a := newAgent()
	at := 1 + sym.Choose("at", 2)
	part := []int{0, 5, 40}[sym.Choose("part", 3)]
	kind := hnet.WriteErrs[sym.Choose("kind", 3)]
	a.prep = func(c *hnet.Conn) {
		if len(a.conns) == 0 {
			c.FailWrite, c.Part, c.WriteErr = at, part, kind
		}
	}
	a.serve()
	s := a.establish("peer:9")
	o := a.establish("other:9")
	for i := 1; i <= 2; i++ {
		p := startPing(s, context.Background())
		sym.Quiesce()
		if i >= at {
			sym.Assert(p.failed(), "a ping whose write fails does not fail")
			continue
		}
		a.pong("peer", 9)
		sym.Quiesce()
		sym.Assert(p.ok(), "a ping does not succeed on its pong")
	}
	q := startPing(o, context.Background())
	sym.Quiesce()
	a.pong("other", 9)
	sym.Quiesce()
	sym.Assert(q.ok(), "another session's ping fails")
}

//verif:harness prop=C29 budget=60 bound="a session whose peer's pongs carry arbitrary instances (2 x 64 bits); two pings before, between and after"
func PingInstances() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	o := a.establish("other:9")
	var want [3]int64
	want[1], want[2] = sym.I64("first"), sym.I64("second")
	var mine []byte
	for i := 0; i < 3; i++ {
		p := startPing(s, context.Background())
		sym.Quiesce()
		bodies, _, ok := frames(a.conns[0].Out())
		sym.Assert(ok && len(bodies) == i+1, "a ping sends other than one message")
		b := bodies[i]
		if i == 0 {
			mine = b[32:40]
		}
		sym.Assert(sym.BytesEq(b[32:40], mine), "a session's instance changes")
		sym.Assert(sym.BytesEq(b[40:48], href.LE64(uint64(want[i]))), "a ping does not name the peer's instance of the last pong")
		sym.Assert(sym.BytesEq(b[56:64], href.LE64(30000)), "a ping does not name the lease duration")
		m := message(pingResponse, "peer", 9)
		if i < 2 {
			copy(m[40:48], href.LE64(uint64(want[i+1])))
		}
		a.incoming(frame(m))
		sym.Quiesce()
		sym.Assert(p.ok(), "a ping does not succeed on its pong")
	}
	p := startPing(o, context.Background())
	sym.Quiesce()
	bodies, _, _ := frames(a.conns[1].Out())
	sym.Assert(len(bodies) == 1 && sym.BytesEq(bodies[0][40:48], make([]byte, 8)), "a session names another session's peer")
	sym.Assert(!p.returned(), "a ping returns without a pong")
}

//verif:harness prop=C29 budget=60 tbudget=300 sched=1 bound="two sessions to one address, one after the other or established concurrently; the older one closed again or not; two preemptions (thorough three) anywhere"
func PingReplaced() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	var s [2]lease.Session
	if sym.Choose("how", 2) == 0 {
		s[0] = a.establish("peer:9")
		p := startPing(s[0], context.Background())
		sym.Quiesce()
		sym.Preempt(sym.Tier(2, 3))
		go func() { s[1] = a.establish("peer:9") }()
		sym.Quiesce()
		sym.Preempt(0)
		sym.Assert(p.failed(), "a ping of a replaced session waits on")
	} else {
		sym.Preempt(sym.Tier(2, 3))
		for i := range s {
			i := i
			go func() { s[i] = a.establish("peer:9") }()
		}
		sym.Quiesce()
		sym.Preempt(0)
	}
	open := 0
	for i, c := range a.conns {
		if !c.Closed() {
			open++
		}
		_ = i
	}
	sym.Assert(open == 1, "of two sessions to an address not exactly one is open")
	var ps [2]*ping
	for i := range s {
		ps[i] = startPing(s[i], context.Background())
	}
	sym.Quiesce()
	live := 0
	if ps[0].returned() {
		live = 1
	}
	sym.Assert(ps[1-live].failed() && !ps[live].returned(), "a ping of a replaced session waits, or one of a live session fails")
	if sym.Choose("again", 2) == 1 {
		s[1-live].Close()
	}
	a.pong("peer", 9)
	sym.Quiesce()
	sym.Assert(ps[live].ok(), "a ping does not succeed on its pong")
}
