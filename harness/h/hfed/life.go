package hfed

import (
	"context"
	"errors"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

var nodeC = federation.NodeID{Hi: 5, Lo: 9}

func info(id federation.NodeID, inst uint64, addr string) federation.PartnerNodeInfo {
	return federation.PartnerNodeInfo{Instance: federation.NodeInstance{Id: id, InstanceId: inst}, Address: addr}
}

// instance is an instance number that encodes in 1 or 6 bytes.
func instance(name string) uint64 {
	return uint64([]int64{32, 1 << 40}[sym.Choose(name+".size", 2)] + int64(sym.U8(name)&31))
}

type found struct {
	ps   []federation.PartnerNodeInfo
	err  error
	done chan struct{}
}

func (s *site) discover(ctx context.Context) *found {
	f := &found{done: make(chan struct{})}
	go func() {
		f.ps, f.err = s.node.Discover(ctx)
		close(f.done)
	}()
	return f
}

func (f *found) returned() bool {
	select {
	case <-f.done:
		return true
	default:
		return false
	}
}

// get returns what was found about a node.
func (f *found) get(id federation.NodeID) (p federation.PartnerNodeInfo, n int) {
	for _, x := range f.ps {
		if x.Instance.Id == id {
			p = x
			n++
		}
	}
	return
}

// tried tells whether an address was dialed.
func (s *site) tried(addr string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, a := range s.dialed {
		if a == addr {
			return true
		}
	}
	return false
}

// asks counts the vote pings sent to an address.
func (s *site) asks(addr string) (n int) {
	for _, c := range s.conns {
		if c.Name != addr {
			continue
		}
		for _, m := range written(c) {
			sym.Assert(m.Headers.Action == "VotePing" && m.Headers.Actor == transport.MessageActorTypeFederation, "discovery sends something other than vote pings")
			n++
		}
	}
	return
}

//verif:harness prop=C35 native=no budget=90 tbudget=300 reach=found,unreachable bound="two seeds, one of which may refuse connections or hang (neither connect nor fail); the first tells about itself and a third node, the third about a fourth or newer about the second (instances around 32 and 2^40, 5 arbitrary bits), each 0.1, 0.9 or (thorough) 2.5 seconds after it is asked for the first time"
func Discovers() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"), seed(nodeB, "b:1"))
	how := sym.Choose("unreachable", 3)
	gone := how > 0
	s.dialFail = func(addr string) bool { return how == 1 && addr == "b:1" }
	s.hang = func(addr string) bool { return how == 2 && addr == "b:1" }
	delays := []time.Duration{100 * time.Millisecond, 900 * time.Millisecond, 2500 * time.Millisecond}[:sym.Tier(2, 3)]
	first := info(nodeA, 1+uint64(sym.U8("first")&31), "a:1")
	third := info(nodeC, 1+instance("third"), "c:1")
	second := info(nodeB, 1+instance("second"), "b:1")
	fourth := info(federation.NodeID{Hi: 6}, 3, "d:1")
	tells := map[string][]federation.PartnerNodeInfo{
		"a:1": {first, third},
		"b:1": {second},
		"c:1": {third, fourth},
	}
	more := sym.Choose("more", 2) == 1
	if more {
		second.Instance.InstanceId += 1 + uint64(sym.U8("newer")&7)
		tells["c:1"] = append(tells["c:1"], second)
	}
	asked := map[string]bool{}
	n := byte(0)
	s.prep = func(c *hnet.Conn) {
		name := c.Name
		c.OnWrite = func(i int, b []byte) {
			if i < 2 || asked[name] || tells[name] == nil {
				return // the greeting
			}
			asked[name] = true
			d := delays[sym.Choose("delay."+name, len(delays))]
			n++
			g := gossip(n, tells[name]...)
			go func() {
				time.Sleep(d)
				s.incoming(g)
			}()
		}
	}
	go s.node.Serve()
	f := s.discover(context.Background())
	<-f.done
	sym.Reach("found")
	sym.Assert(f.err == nil, "discovery fails")
	for _, w := range []federation.PartnerNodeInfo{first, third, fourth} {
		p, n := f.get(w.Instance.Id)
		sym.Assert(n == 1, "discovery does not return a node it heard of exactly once")
		sym.Assert(sym.And(p.Instance.InstanceId == w.Instance.InstanceId, p.Address == w.Address), "discovery does not return the newest information")
		sym.Assert(s.asks(w.Address) > 0, "discovery does not ask a node it heard of")
	}
	p, k := f.get(nodeB)
	sym.Assert(k == 1 && len(f.ps) == 4, "discovery returns other than the seeds and the nodes heard of")
	want := uint64(0)
	switch {
	case more:
		want = second.Instance.InstanceId
	case !gone:
		want = second.Instance.InstanceId
	}
	if gone {
		sym.Reach("unreachable")
	} else {
		sym.Assert(s.asks("b:1") > 0, "discovery does not ask a seed")
	}
	sym.Assert(sym.And(p.Instance.InstanceId == want, p.Address == "b:1"), "discovery does not return the newest information")
}

//verif:harness prop=C35 native=no budget=60 reach=ended bound="discovery with one seed that is reachable, refuses connections or hangs, nothing heard or news every second; its context cancelled before it or after 0 to 12 half seconds"
func DiscoverCancelled() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"))
	switch sym.Choose("unreachable", 3) {
	case 1:
		s.fail = alwaysFail
	case 2:
		s.hang = func(string) bool { return true }
	}
	go s.node.Serve()
	news := sym.Choose("news", 2) == 1
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	after := sym.Choose("after", 14) - 1
	if after < 0 {
		cancel()
	}
	f := s.discover(ctx)
	for i := 0; i < after; i++ {
		if news && i%2 == 1 {
			s.incoming(gossip(byte(1+i), info(nodeA, uint64(2+i), "a:1")))
		}
		time.Sleep(500 * time.Millisecond)
	}
	sym.Quiesce()
	if f.returned() && after >= 0 {
		sym.Assert(!news && after >= 10 && f.err == nil && len(f.ps) == 1, "discovery does not wait for answers")
		return
	}
	cancel()
	sym.Quiesce()
	sym.Reach("ended")
	sym.Assert(f.returned() && errors.Is(f.err, context.Canceled), "a cancelled discovery does not return its context's error at once")
}

// closing starts Close and tells whether it returned.
func (s *site) closing() chan struct{} {
	done := make(chan struct{})
	go func() {
		s.node.Close()
		close(done)
	}()
	return done
}

// closed checks a closed node.
func (s *site) closed(done chan struct{}, serve chan error) {
	sym.Quiesce()
	sym.Assert(len(serve) == 1, "Serve goes on after Close")
	<-done
	for _, c := range s.conns {
		sym.Assert(c.Closed(), "a connection of a closed node stays open")
	}
	dials := len(s.dialed)
	sym.Assert(s.node.SendOneWay(nodeB, plain("late")) != nil, "a closed node sends")
	_, err := s.node.Route(context.Background(), nodeB, plain("late"))
	sym.Assert(err != nil, "a closed node routes")
	sym.Assert(len(s.dialed) == dials, "a closed node dials")
	_, err = s.l.Accept()
	sym.Assert(err != nil, "a closed node listens")
	_, err = s.lease.Accept()
	sym.Assert(err != nil, "a closed node listens for leases")
}

//verif:harness prop=C36 budget=60 bound="a node with 0 to 2 connections and 0 to 2 routes in flight, one of them answered (arbitrary 16-bit error code and 2-byte body) or not; closed once or twice, its server or its lease agent having been closed before or not"
func Closes() {
	hnet.Rand()
	s := newSite(self, seed(nodeB, "b:1"), seed(nodeC, "c:1"))
	serve := make(chan error, 1)
	go func() { serve <- s.node.Serve() }()
	sym.Quiesce()
	sym.Assert(len(serve) == 0, "Serve returns")
	if sym.Choose("other", 2) == 1 {
		sym.Assert(s.node.SendOneWay(nodeC, plain("m")) == nil, "sending over a working connection fails")
	}
	var rs []*route
	for i := sym.Choose("routes", 3); i > 0; i-- {
		rs = append(rs, s.route(mid(byte(40+i))))
		sym.Quiesce()
	}
	answered := len(rs) > 0 && sym.Choose("answered", 2) == 1
	code := transport.FabricErrorCode(sym.U16("code"))
	body := sym.Bytes("body", 2)
	if answered {
		s.incoming(answer(60, rs[0].id, code, body))
		sym.Quiesce()
	}
	switch sym.Choose("part", 3) { // a part of it may have been closed before
	case 1:
		s.l.Close()
	case 2:
		s.lease.Close()
	}
	for i := sym.Choose("again", 2); i >= 0; i-- {
		done := s.closing()
		s.closed(done, serve)
	}
	for i, r := range rs {
		sym.Assert(r.returned(), "a route of a closed node waits on")
		if !answered || i != 0 {
			sym.Assert(r.err != nil, "a route succeeds without an answer")
			continue
		}
		sym.Assert((r.err == nil) == (code == 0), "Close changes the outcome of an answered route")
		if r.err == nil {
			sym.Assert(sym.BytesEq(r.reply.Body, body), "Close changes the answer of a route")
		}
	}
}

//verif:harness prop=C36 budget=90 tbudget=400 sched=1 bound="Close concurrent with a send or a route over a new or a known connection (dials that work or fail) and with the answer to a route, every schedule of at most 1 (thorough 2) preemptions; data races"
func CloseConcurrent() {
	hnet.Rand()
	s := newSite(self, seed(nodeB, "b:1"), seed(nodeC, "c:1"))
	serve := make(chan error, 1)
	go func() { serve <- s.node.Serve() }()
	sym.Quiesce()
	what := sym.Choose("what", 5)
	if what >= 2 {
		sym.Assert(s.node.SendOneWay(nodeB, plain("m")) == nil, "sending over a working connection fails")
		sym.Quiesce()
	}
	var r *route
	sent := make(chan error, 1)
	if what == 4 {
		r = s.route(mid(40))
		sym.Quiesce()
	}
	sym.Preempt(sym.Tier(1, 2))
	switch what {
	case 0, 2:
		go func() { sent <- s.node.SendOneWay(nodeB, plain("n")) }()
	case 1, 3:
		r = s.route(mid(40))
	case 4:
		go s.conns[0].Feed(encode(answer(60, r.id, 0, nil)))
	}
	done := s.closing()
	sym.Quiesce()
	sym.Preempt(0)
	s.closed(done, serve)
	sym.Assert(r != nil || len(sent) == 1, "a send hangs")
	sym.Assert(r == nil || r.returned(), "a route of a closed node waits on")
	sym.Assert(r == nil || what == 4 || r.err != nil, "a route succeeds without an answer")
}
