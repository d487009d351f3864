package hlease

import (
	"context"
	"errors"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

var errAccept = errors.New("accept failed")

//verif:harness prop=C30 budget=60 reach=closed,broken,open bound="3 (thorough 5) accept results of: a peer with a pong, a peer whose greeting fails, a peer with garbage, a peer that hangs up, one that does not read, a temporary error, a permanent error, close of the agent; two sessions, one with a waiting ping"
func AcceptResults() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	o := a.establish("other:9")
	quiet := a.incoming(connectFrame())
	sym.Quiesce()
	p := startPing(s, context.Background())
	sym.Quiesce()
	closed, broken := false, false
	for i := 0; i < sym.Tier(3, 5); i++ {
		switch sym.Choose("accept", 8) {
		case 7:
			c := hnet.New("in")
			c.Stall = make(chan struct{})
			a.l.Put(c)
		case 0:
			if !closed && !broken {
				was := o.LastPongTime()
				sym.SetNow(sym.Now() + 1)
				a.pong("other", 9)
				sym.Quiesce()
				sym.Assert(o.LastPongTime().After(was), "a peer is not served")
			}
		case 1:
			c := hnet.New("in")
			c.FailWrite = 1
			a.l.Put(c)
			if !closed && !broken {
				sym.Quiesce()
				sym.Assert(c.Closed(), "a broken connection is kept")
			}
		case 2:
			c := a.incoming(frameHead(9, 9))
			if !closed && !broken {
				sym.Quiesce()
				sym.Assert(c.Closed(), "a broken connection is kept")
			}
		case 3:
			c := a.incoming(connectFrame())
			c.End(nil)
			if !closed && !broken {
				sym.Quiesce()
				sym.Assert(c.Closed(), "a broken connection is kept")
			}
		case 4:
			a.l.PutErr(hnet.TempErr{})
		case 5:
			a.l.PutErr(errAccept)
			broken = broken || !closed
		case 6:
			a.Close()
			closed = true
		}
		sym.Quiesce()
		sym.Assert(a.ended() == (closed || broken), "the accept loop ends without a permanent error or close, or stays after one")
		sym.Assert(p.returned() == closed, "a ping's session closes without its agent, or stays")
	}
	switch {
	case closed:
		sym.Reach("closed")
		sym.Assert(p.err != nil, "a ping of a closed agent succeeds")
		for _, c := range a.conns {
			sym.Assert(c.Closed(), "a session of a closed agent is open")
		}
		for _, x := range []lease.Session{s, o} {
			q := startPing(x, context.Background())
			sym.Quiesce()
			sym.Assert(q.failed(), "a ping of a closed agent does not fail")
		}
		_, err := a.Establish("third:9")
		sym.Assert(err != nil, "a closed agent establishes a session")
		for _, c := range a.conns {
			sym.Assert(c.Closed(), "a session of a closed agent is open")
		}
	default:
		if broken {
			sym.Reach("broken")
		} else {
			sym.Reach("open")
		}
		sym.Assert(!quiet.Closed() || broken, "other connections' failures close a connection")
		quiet.Feed(frame(message(pingResponse, "peer", 9)))
		sym.Quiesce()
		sym.Assert(p.ok(), "other connections' failures lose a peer's pong")
	}
	if broken {
		sym.Assert(len(a.wait) == 1, "the accept loop did not end once")
		err := <-a.wait
		sym.Assert(errors.Is(err, errAccept), "the accept loop does not return the error that ended it")
	}
}

//verif:harness prop=C30 budget=60 tbudget=300 sched=1 bound="Close concurrent with Establish to a new or a known address and with a ping, two preemptions (thorough three) anywhere"
func CloseRaces() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	sym.Quiesce()
	addr := []string{"peer:9", "other:9"}[sym.Choose("addr", 2)]
	sym.Preempt(sym.Tier(2, 3))
	var n lease.Session
	var err error
	est := make(chan struct{})
	go func() {
		n, err = a.Establish(addr)
		close(est)
	}()
	p := startPing(s, context.Background())
	done := make(chan struct{})
	go func() {
		a.Close()
		close(done)
	}()
	sym.Quiesce()
	sym.Preempt(0)
	sym.Assert(a.ended(), "the accept loop of a closed agent goes on")
	sym.Assert(p.returned(), "closing an agent leaves a call waiting")
	<-done
	<-est
	sym.Assert(p.err != nil, "a ping without a pong succeeds")
	for _, c := range a.conns {
		sym.Assert(c.Closed(), "a session of a closed agent is open")
	}
	if err == nil {
		q := startPing(n, context.Background())
		sym.Quiesce()
		sym.Assert(q.failed(), "a ping of a closed agent does not fail")
	}
}

//verif:harness prop=C30 budget=60 tbudget=300 sched=1 bound="Close of a session and of its agent, twice each, in any order or concurrent, two preemptions (thorough three) anywhere"
func CloseTwice() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	o := a.establish("other:9")
	sym.Quiesce()
	if sym.Choose("how", 2) == 0 {
		for i := 0; i < 4; i++ {
			if sym.Choose("which", 2) == 0 {
				s.Close()
			} else {
				a.Close()
			}
		}
		a.Close()
	} else {
		sym.Preempt(sym.Tier(2, 3))
		for i := 0; i < 2; i++ {
			go s.Close()
			go a.Close()
		}
		sym.Quiesce()
		sym.Preempt(0)
	}
	sym.Quiesce()
	sym.Assert(a.ended(), "the accept loop of a closed agent goes on")
	for _, x := range []lease.Session{s, o} {
		q := startPing(x, context.Background())
		sym.Quiesce()
		sym.Assert(q.failed(), "a ping of a closed session does not fail")
	}
	for _, c := range a.conns {
		sym.Assert(c.Closed(), "a closed session's connection is open")
	}
}

//verif:harness prop=C30,C29 budget=60 bound="one session closed while another of the same agent is used"
func CloseOne() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s := a.establish("peer:9")
	o := a.establish("other:9")
	p, q := startPing(s, context.Background()), startPing(o, context.Background())
	sym.Quiesce()
	s.Close()
	sym.Quiesce()
	sym.Assert(p.failed() && !q.returned(), "closing a session does not end exactly its pings")
	sym.Assert(a.conns[0].Closed() && !a.conns[1].Closed(), "closing a session does not close exactly its connection")
	sym.Assert(!a.ended(), "closing a session ends the accept loop")
	a.pong("peer", 9)
	a.pong("other", 9)
	sym.Quiesce()
	sym.Assert(q.ok(), "another session's ping fails")
	n := a.establish("peer:9")
	p = startPing(n, context.Background())
	sym.Quiesce()
	a.pong("peer", 9)
	sym.Quiesce()
	sym.Assert(p.ok(), "a session cannot be established again")
}
