package hfed

import (
	"context"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// none checks that nothing runs any more.
func none() {
	sym.Quiesce()
	sym.Assert(sym.Left() == 0, "a goroutine is left of finished work")
}

//verif:harness prop=C42 budget=60 tbudget=300 bound="a serving site node over 3 (thorough 4) of: a send or route to one of two nodes (dials that work, fail or hang; a connection that its peer does not read), the answer to a route, its cancellation, an ended connection, Bootstrap, Discover, news over a new connection; then the node is closed, what hangs is released, contexts end and peers hang up"
func LeaveNode() {
	hnet.Rand()
	s := newSite(self, seed(nodeB, "b:1"), seed(nodeC, "c:1"))
	dial := sym.Choose("dial", 3) // of the second node
	s.dialFail = func(addr string) bool { return dial == 1 && addr == "c:1" }
	s.hang = func(addr string) bool { return dial == 2 && addr == "c:1" }
	go s.node.Serve()
	sym.Quiesce()
	ctx, cancel := context.WithCancel(context.Background())
	var ins []*hnet.Conn
	n := byte(40)
	for i := 0; i < sym.Tier(3, 4); i++ {
		n++
		switch sym.Choose("event", 9) {
		case 0:
			go s.node.SendOneWay(nodeB, plain("m"))
		case 1:
			go s.node.SendOneWay(nodeC, plain("m"))
		case 2:
			s.route(mid(n))
			sym.Quiesce()
			ins = append(ins, s.incoming(answer(100+n, mid(n), 0, nil)))
		case 3:
			r := s.route(mid(n))
			sym.Quiesce()
			r.cancel()
		case 4:
			s.route(mid(n))
		case 5:
			if len(s.conns) > 0 {
				s.conns[len(s.conns)-1].End(nil)
			}
		case 6:
			go s.node.Bootstrap(ctx)
		case 7:
			go s.node.Discover(ctx)
		case 8:
			if len(s.conns) > 0 {
				s.conns[len(s.conns)-1].Stall = make(chan struct{})
			}
		}
		sym.Quiesce()
	}
	s.node.Close()
	cancel()
	close(s.release)
	for _, c := range ins {
		c.End(nil)
	}
	none()
	for _, c := range append(ins, s.conns...) {
		sym.Assert(c.Closed(), "a connection of finished work stays open")
	}
}

//verif:harness prop=C42 budget=60 sched=1 bound="a serving site node over 4 rounds of: a send; a send whose dial or write fails; a send over a connection that then ends; a route answered over either connection, cancelled, expired, or whose write fails; the same news again; Discover; Bootstrap cancelled; all that is reachable from the node is measured"
func GrowNode() {
	hnet.Rand()
	s := newSite(self, seed(nodeB, "b:1"))
	go s.node.Serve()
	kind := sym.Choose("event", 11)
	n := byte(40)
	do := func() {
		n++
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		switch kind {
		case 0:
			s.node.SendOneWay(nodeB, plain("m"))
		case 1:
			s.fail = alwaysFail
			sym.Assert(s.node.SendOneWay(nodeB, plain("m")) != nil, "sending over no connection succeeds")
		case 2:
			s.failWrite = 2
			s.node.SendOneWay(nodeB, plain("m"))
			s.conns[len(s.conns)-1].End(nil)
		case 3:
			s.node.SendOneWay(nodeB, plain("m"))
			s.conns[len(s.conns)-1].End(nil)
		case 4, 5:
			r := s.route(mid(n))
			sym.Quiesce()
			if kind == 4 {
				s.incoming(answer(100+n, mid(n), 0, nil)).End(nil)
			} else {
				s.conns[0].Feed(encode(answer(100+n, mid(n), 5, []byte{1})))
			}
			sym.Quiesce()
			sym.Assert(r.returned(), "a route misses its answer")
		case 6:
			r := s.route(mid(n))
			sym.Quiesce()
			r.cancel()
		case 7:
			r := s.route(mid(n))
			sym.Quiesce()
			s.conns[0].FailWrite = 1
			r2 := s.route(mid(n + 100))
			sym.Quiesce()
			s.conns[0].FailWrite = 0
			sym.Assert(r2.returned() && r2.err != nil, "a route that was not sent succeeds")
			r.cancel()
		case 8:
			s.incoming(gossip(1, info(nodeC, 7, "c:1"), info(federation.NodeID{Hi: 6}, 3, "d:1"))).End(nil)
		case 9:
			s.node.Discover(ctx)
		case 10:
			b := s.boot()
			time.Sleep(50 * time.Second)
			b.cancel()
		}
		sym.Quiesce()
	}
	do()
	do()
	was := sym.Size(s.node)
	for i := 2; i < 4; i++ {
		do()
		sym.Assert(sym.Size(s.node) == was, "finished work takes room for ever")
	}
	s.node.Close()
	none()
}
