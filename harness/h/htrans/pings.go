package htrans

import (
	"context"
	"errors"
	"time"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

type ping struct {
	done chan struct{}
	d    time.Duration
	err  error
}

func startPing(cl transport.Conn, ctx context.Context) *ping {
	p := &ping{done: make(chan struct{})}
	go func() {
		p.d, p.err = cl.Ping(ctx)
		close(p.done)
	}()
	return p
}

func (p *ping) returned() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// asked returns the payloads of the heartbeat requests written so far.
func asked(c *hnet.Conn) (out [][]byte) {
	fs, ok := hnet.Parse(c.Out())
	sym.Assert(ok, "the byte stream is not a sequence of whole frames")
	for _, f := range fs {
		if f.Is(hnet.HAction, hnet.ActionV("HeartbeatRequest")) {
			sym.Assert(f.Is(hnet.HActor, hnet.ActorV(1)), "a heartbeat request is no transport message")
			out = append(out, f.Body)
		}
	}
	return
}

//verif:harness prop=C14 budget=90 tbudget=300 bound="2 or 3 pings, one after the other (each cancelled or left waiting), then 2 (thorough 4) incoming heartbeat responses: of any of the pings, with an unknown tick (64 bits), empty, or garbage; arrival order of the responses any"
func Pings() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	loop := make(chan error, 1)
	go func() { loop <- cl.Wait() }()
	n := 2 + sym.Choose("pings", 2)
	ctx, cancelRest := context.WithCancel(context.Background())
	var ps []*ping
	var gone [3]bool
	for i := 0; i < n; i++ {
		cx, cancel := context.WithCancel(ctx)
		ps = append(ps, startPing(cl, cx))
		sym.Quiesce()
		if sym.Choose("cancel", 2) == 1 {
			gone[i] = true
			cancel()
			sym.Quiesce()
			sym.Assert(ps[i].returned() && errors.Is(ps[i].err, context.Canceled), "a cancelled ping does not return its context's error")
		} else {
			sym.Assert(!ps[i].returned(), "a ping without a response returned")
		}
		time.Sleep(time.Millisecond)
		defer cancel()
	}
	pay := asked(c)
	sym.Assert(len(pay) == n, "a ping sends other than one heartbeat request")
	var answered [3]bool
	for k := 0; k < sym.Tier(2, 4); k++ {
		w := sym.Choose("response", n+3)
		var b []byte
		switch {
		case w < n:
			b = pay[w]
			answered[w] = true
		case w == n:
			t := sym.I64("tick")
			b = hnet.TickV(t)
			for _, p := range pay {
				sym.Assume(!sym.BytesEq(p, b))
			}
		case w == n+1:
		default:
			b = []byte{0, 1, 2}
		}
		c.Feed(control("HeartbeatResponse", b))
	}
	sym.Quiesce()
	for i, p := range ps {
		if gone[i] {
			continue
		}
		if answered[i] {
			sym.Assert(p.returned() && p.err == nil && p.d >= 0, "a ping fails although its response arrived")
		} else {
			sym.Assert(!p.returned(), "a ping without a response returned")
		}
	}
	// later pings work
	p := startPing(cl, ctx)
	sym.Quiesce()
	pay = asked(c)
	c.Feed(control("HeartbeatResponse", pay[len(pay)-1]))
	sym.Quiesce()
	sym.Assert(p.returned() && p.err == nil, "a ping fails although its response arrived")
	c.Feed(reply(9, transport.MessageId{}, nil))
	sym.Quiesce()
	sym.Assert(len(in.all()) == 1, "the receive loop is stuck, or a heartbeat was delivered")
	cl.Close()
	sym.Quiesce()
	for i, p := range ps {
		if !gone[i] && !answered[i] {
			sym.Assert(p.returned() && p.err != nil, "a ping does not fail although its connection is closed")
		}
	}
	cancelRest()
	select {
	case <-loop:
	default:
		sym.Fail("the receive loop does not return although the connection is closed")
	}
}

//verif:harness prop=C14 budget=60 bound="heartbeat requests with payloads of 0 to 12 arbitrary bytes or any tick (64 bits), two of them in a row"
func Answers() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	go cl.Wait()
	n := len(c.Out())
	var want [][]byte
	for i := 0; i < 2; i++ {
		var b []byte
		if k := sym.Choose("n", 14); k < 13 {
			b = sym.Bytes("payload", k)
		} else {
			b = hnet.TickV(sym.I64("tick"))
		}
		want = append(want, b)
		c.Feed(control("HeartbeatRequest", b))
		sym.Quiesce()
	}
	fs, ok := hnet.Parse(c.Out()[n:])
	sym.Assert(ok && len(fs) == 2, "heartbeat requests are not answered once each")
	for i, f := range fs {
		sym.Assert(f.Is(hnet.HActor, hnet.ActorV(1)) && f.Is(hnet.HAction, hnet.ActionV("HeartbeatResponse")), "the answer is no heartbeat response")
		sym.Assert(sym.BytesEq(f.Body, want[i]), "a heartbeat is answered with another payload")
		sym.Assert(f.HCrc == headCrc(f), "a frame is damaged")
	}
	sym.Assert(len(in.all()) == 0, "a heartbeat was delivered to the application")
}

//verif:harness prop=C14,C13 budget=120 tbudget=600 reach=ok,failed bound="2 pings at the same instant whose responses (possibly doubled) race with a cancellation, a close or the end of the stream; every schedule with at most 2 (thorough 3; doubled: 1, thorough 2) preemptions"
func PingRaces() {
	hnet.Rand()
	sym.SetNow(1700000000000000000)
	c := hnet.New("tx")
	cl := connect(c, transport.Config{}, nil)
	loop := make(chan error, 1)
	kind := sym.Choose("kind", 4)
	twice := sym.Choose("twice", 2) == 1
	c.OnWrite = func(n int, b []byte) {
		if n == 1 {
			return
		}
		// the peer answers at once
		fs, ok := hnet.Parse(b)
		sym.Assert(ok && len(fs) == 1, "the byte stream is not a sequence of whole frames")
		r := control("HeartbeatResponse", fs[0].Body)
		c.Feed(r)
		if twice {
			c.Feed(r)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	if twice {
		sym.Preempt(sym.Tier(1, 2))
	} else {
		sym.Preempt(sym.Tier(2, 3))
	}
	go func() { loop <- cl.Wait() }()
	p0 := startPing(cl, context.Background())
	p1 := startPing(cl, ctx)
	switch kind {
	case 1:
		cancel()
	case 2:
		cl.Close()
	case 3:
		c.End(nil)
	}
	sym.Quiesce()
	sym.Preempt(0)
	for i, p := range []*ping{p0, p1} {
		sym.Assert(p.returned(), "a ping does not return although its response arrived or its connection is closed")
		if p.err == nil {
			sym.Reach("ok")
		} else {
			sym.Reach("failed")
			sym.Assert(kind >= 2 || kind == 1 && i == 1, "a ping fails although its response arrived")
		}
	}
	cancel()
	cl.Close()
	sym.Quiesce()
	select {
	case <-loop:
	default:
		sym.Fail("the receive loop does not return although the connection is closed")
	}
	p2 := startPing(cl, context.Background())
	sym.Quiesce()
	sym.Assert(p2.returned() && p2.err != nil, "a ping on a closed connection does not fail")
}

//verif:harness prop=C14,C09 budget=60 bound="1 to 3 unsolicited heartbeat messages (response, request, unknown action; payload valid, empty or garbage) racing with the close of the connection; every schedule with at most 1 (thorough 2) preemptions"
func HeartbeatsAtClose() {
	hnet.Rand()
	c := hnet.New("tx")
	cl := connect(c, transport.Config{}, nil)
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		a := []string{"HeartbeatResponse", "HeartbeatRequest", "Other", ""}[sym.Choose("action", 4)]
		b := [][]byte{nil, hnet.TickV(int64(i)), {1}}[sym.Choose("body", 3)]
		c.Feed(control(a, b))
		if n == 3 {
			c.Feed(control(a, b))
			break
		}
	}
	loop := make(chan error, 1)
	sym.Preempt(sym.Tier(1, 2))
	go func() { loop <- cl.Wait() }()
	cl.Close()
	sym.Quiesce()
	sym.Preempt(0)
	select {
	case err := <-loop:
		sym.Assert(err != nil, "the receive loop ended without an error")
	default:
		sym.Fail("the receive loop does not return although the connection is closed")
	}
}

//verif:harness prop=C14,C13 budget=60 tbudget=300 reach=released,closed bound="a peer that does not read: a request, a ping or a one-way send, then 1 or 2 heartbeat requests (tick of 64 bits) and a message come in while writes block; then the peer reads again or the connection is closed; every schedule with at most 1 (thorough 2) preemptions"
func PeerNotReading() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	n := len(c.Writes())
	c.Stall = make(chan struct{})
	loop := make(chan error, 1)
	sent := make(chan error, 1)
	tick := hnet.TickV(1<<40 | int64(sym.U32("tick")))
	beats := 1 + sym.Choose("beats", 2)
	sym.Preempt(sym.Tier(1, 2))
	go func() { loop <- cl.Wait() }()
	var cc *call
	var p *ping
	what := sym.Choose("what", 4)
	switch what {
	case 0:
		cc = start(cl, context.Background(), request(mid(1)))
	case 1:
		p = startPing(cl, context.Background())
	case 2:
		go func() { sent <- cl.SendOneWay(request(mid(1))) }()
	}
	for i := 0; i < beats; i++ {
		c.Feed(control("HeartbeatRequest", tick))
	}
	c.Feed(reply(9, transport.MessageId{}, nil))
	sym.Quiesce()
	sym.Preempt(0)
	sym.Assert(len(in.all()) == 1, "the receive loop waits for the peer to read")
	if sym.Choose("close", 2) == 1 {
		sym.Reach("closed")
		done := make(chan struct{})
		go func() {
			cl.Close()
			close(done)
		}()
		sym.Quiesce()
		select {
		case <-done:
		default:
			sym.Fail("closing waits for the peer to read")
		}
		sym.Assert(cc == nil || cc.returned() && cc.err != nil, "a request does not fail although its connection is closed")
		sym.Assert(p == nil || p.returned() && p.err != nil, "a ping does not fail although its connection is closed")
		sym.Assert(what != 2 || len(sent) == 1 && <-sent != nil, "a send does not fail although its connection is closed")
		sym.Assert(len(loop) == 1, "the receive loop does not return although the connection is closed")
		return
	}
	sym.Reach("released")
	close(c.Stall)
	sym.Quiesce()
	answers := 0
	for _, w := range c.Writes()[n:] {
		fs, ok := hnet.Parse(w)
		sym.Assert(ok && len(fs) == 1, "the byte stream is not a sequence of whole frames")
		if fs[0].Is(hnet.HAction, hnet.ActionV("HeartbeatResponse")) {
			sym.Assert(sym.BytesEq(fs[0].Body, tick), "a heartbeat is answered with another payload")
			answers++
		}
	}
	sym.Assert(answers == beats, "a heartbeat request is not answered once")
	switch what {
	case 0:
		c.Feed(reply(8, mid(1), nil))
		sym.Quiesce()
		sym.Assert(cc.returned() && cc.err == nil, "a request misses its reply")
	case 1:
		c.Feed(control("HeartbeatResponse", asked(c)[0]))
		sym.Quiesce()
		sym.Assert(p.returned() && p.err == nil, "a ping fails although its response arrived")
	case 2:
		sym.Assert(len(sent) == 1 && <-sent == nil, "a send does not end")
	}
}
