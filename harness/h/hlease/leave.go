package hlease

import (
	"context"
	"time"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// none checks that nothing runs any more.
func none() {
	sym.Quiesce()
	sym.Assert(sym.Left() == 0, "a goroutine is left of finished work")
}

//verif:harness prop=C42 budget=60 tbudget=300 bound="an agent over 3 (thorough 4) of: a session to one of two peers (also a second one to a peer), a ping answered, cancelled, left waiting, or not taken by its peer, a ping loop, a session closed, and peers that send a pong, another message, garbage, nothing, do not read or cannot be written to; then the agent is closed, its ping loops' contexts end and its peers hang up"
func LeaveAgent() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	var ss []lease.Session
	var ins []*hnet.Conn
	ctx, cancel := context.WithCancel(context.Background())
	s := a.establish("peer:9")
	ss = append(ss, s)
	for i := 0; i < sym.Tier(3, 4); i++ {
		s := ss[len(ss)-1]
		switch sym.Choose("event", 12) {
		case 0:
			ss = append(ss, a.establish("peer:9"))
		case 1:
			ss = append(ss, a.establish("other:9"))
		case 2:
			startPing(s, ctx)
			sym.Quiesce()
			c := a.incoming(connectFrame(), frame(message(pingResponse, "peer", 9)))
			ins = append(ins, c)
		case 3:
			cx, cancel := context.WithCancel(ctx)
			startPing(s, cx)
			sym.Quiesce()
			cancel()
		case 4:
			startPing(s, context.Background())
		case 5:
			a.conns[len(a.conns)-1].Stall = make(chan struct{})
			startPing(s, context.Background())
		case 6:
			go lease.PingLoop(ctx, s, time.Hour)
		case 7:
			s.Close()
		case 8:
			ins = append(ins, a.incoming(connectFrame(), frame(message(pingRequest, "peer", 9))))
		case 9:
			ins = append(ins, a.incoming(frameHead(9, 9)))
		case 10:
			ins = append(ins, a.incoming())
		case 11:
			c := hnet.New("in")
			if sym.Choose("write", 2) == 0 {
				c.FailWrite = 1
			} else {
				c.Stall = make(chan struct{})
			}
			a.l.Put(c)
			ins = append(ins, c)
		}
		sym.Quiesce()
	}
	a.Close()
	cancel()
	for _, c := range ins {
		if c.Stall != nil {
			close(c.Stall)
		}
		c.End(nil)
	}
	none()
	for _, c := range append(ins, a.conns...) {
		sym.Assert(c.Closed(), "a connection of finished work stays open")
	}
}

//verif:harness prop=C42 budget=60 sched=1 bound="an agent over 4 rounds of: a session opened and closed, or replaced by another to its peer; a ping answered, cancelled, expired or whose write fails; a ping loop of two pings; a peer that connects and hangs up; a session that cannot be dialed; all that is reachable from the agent is measured"
func GrowAgent() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	kind := sym.Choose("event", 9)
	last := s
	do := func(i int) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		switch kind {
		case 0:
			a.establish([]string{"a:1", "b:1", "c:1", "d:1"}[i]).Close()
		case 1:
			last = a.establish("peer:9")
		case 2:
			p := startPing(s, ctx)
			sym.Quiesce()
			a.incoming(connectFrame(), frame(message(pingResponse, "peer", 9))).End(nil)
			sym.Quiesce()
			sym.Assert(p.ok(), "a ping does not succeed on its pong")
		case 3:
			startPing(s, ctx)
			sym.Quiesce()
			cancel()
		case 4:
			tctx, tc := context.WithTimeout(ctx, time.Second)
			defer tc()
			startPing(s, tctx)
			time.Sleep(2 * time.Second)
		case 5:
			a.conns[0].FailWrite = 1
			startPing(s, ctx)
			sym.Quiesce()
			a.conns[0].FailWrite = 0
		case 6:
			tctx, tc := context.WithTimeout(ctx, 3*time.Second)
			defer tc()
			l := startLoop(tctx, s, 2*time.Second)
			<-l.done
		case 7:
			a.incoming(connectFrame(), frame(message(pingRequest, "peer", 9))).End(nil)
		case 8:
			a.prep = func(c *hnet.Conn) { c.Close() }
			if s, err := a.Establish("gone:" + []string{"1", "2", "3", "4"}[i]); err == nil {
				s.Close()
			}
		}
	}
	do(0)
	do(1)
	sym.Quiesce()
	was := sym.Size(a.Agent)
	one := sym.Size(last)
	for i := 2; i < 4; i++ {
		do(i)
		sym.Quiesce()
		sym.Assert(sym.Size(a.Agent) == was && sym.Size(last) == one, "finished work takes room for ever")
	}
	a.Close()
	none()
}
