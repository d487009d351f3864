package hfed

import (
	"context"
	"errors"
	"strconv"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

func nodeAddr(i int) string { return "n" + strconv.Itoa(i) + ":1" }

//verif:harness prop=C22 budget=120 tbudget=400 bound="20 (thorough 48) partners at places all around the ring, some next to each other, the local node one of two places between them, an arbitrary target (128 bits)"
func NearestOfMany() {
	hnet.Rand()
	n := sym.Tier(20, 48)
	var ids []federation.NodeID
	var seeds []federation.SeedNodeInfo
	for i := 0; i < n; i++ {
		id := federation.NodeID{Hi: uint64(i/2*7%n) << 57, Lo: uint64(i%2) * 9}
		if i%5 == 3 {
			id = federation.NodeID{Hi: uint64(i), Lo: 1<<64 - 1 - uint64(i)}
		}
		ids = append(ids, id)
		seeds = append(seeds, seed(id, nodeAddr(i)))
	}
	me := federation.NodeInstance{Id: federation.NodeID{Hi: 1 << 60, Lo: 5}, InstanceId: 5}
	if sym.Choose("self", 2) == 1 {
		me.Id = ids[2]
	}
	s := newSite(me, seeds...)
	s.fail = alwaysFail
	target := anyID("target")
	_, err := s.node.Route(context.Background(), target, plain("x"))
	sym.Assert(errors.Is(err, errDial) && len(s.dialed) == 1, "routing does not dial one partner")
	k := -1
	for i := range ids {
		if s.dialed[0] == nodeAddr(i) {
			k = i
		}
	}
	sym.Assert(k >= 0 && !eqID(ids[k], me.Id), "the local node is chosen, or an unknown address")
	nearest := true
	for i, id := range ids {
		if i != k && id != me.Id {
			nearest = sym.And(nearest, le(dist(target, ids[k]), dist(target, id)))
		}
	}
	sym.Assert(nearest, "another partner is nearer, clockwise from the target")
}

//verif:harness prop=C22,C26,C36 budget=120 bound="30 partners at 30 addresses, each sent to twice and routed to once, forwards or in strides, the routes answered backwards or cancelled; every fourth connection ended by its peer in between or not; then the node is closed"
func ManyRoutes() {
	hnet.Rand()
	const n = 30
	var seeds []federation.SeedNodeInfo
	id := func(i int) federation.NodeID { return federation.NodeID{Hi: uint64(i) << 50, Lo: uint64(i)} }
	for i := 0; i < n; i++ {
		seeds = append(seeds, seed(id(i), nodeAddr(i)))
	}
	s := newSite(self, seeds...)
	served := make(chan error, 1)
	go func() { served <- s.node.Serve() }()
	stride := []int{1, 7}[sym.Choose("stride", 2)]
	ends := sym.Choose("ended", 2) == 1
	byAddr := map[string]*hnet.Conn{}
	for i := 0; i < n; i++ {
		k := i * stride % n
		sym.Assert(s.node.SendOneWay(id(k), plain("one")) == nil, "sending to a node that can be reached fails")
		sym.Assert(len(s.dialed) == i+1 && s.dialed[i] == nodeAddr(k), "a message is not sent to the node it is for")
		byAddr[nodeAddr(k)] = s.conns[i]
	}
	sym.Quiesce()
	if ends {
		for i := 0; i < n; i += 4 {
			byAddr[nodeAddr(i)].End(nil)
		}
		sym.Quiesce()
	}
	type route struct {
		done  chan struct{}
		reply *transport.ByteArrayMessage
		err   error
	}
	ctx, cancel := context.WithCancel(context.Background())
	var rs []*route
	dials := n
	for i := 0; i < n; i++ {
		i := i
		sym.Assert(s.node.SendOneWay(id(i), plain("two")) == nil, "sending to a node that can be reached fails")
		if ends && i%4 == 0 {
			dials++
			sym.Assert(len(s.dialed) == dials && s.dialed[dials-1] == nodeAddr(i), "a node whose connection ended is not dialed again")
			byAddr[nodeAddr(i)] = s.conns[dials-1]
		}
		sym.Assert(len(s.dialed) == dials, "a node with a working connection is dialed again")
		r := &route{done: make(chan struct{})}
		rs = append(rs, r)
		m := plain("ask")
		m.Headers.Id = mid(byte(i))
		go func() {
			r.reply, r.err = s.node.Route(ctx, id(i), m)
			close(r.done)
		}()
		sym.Quiesce()
		ms := written(byAddr[nodeAddr(i)])
		want := []string{"one", "two", "ask"}
		if ends && i%4 == 0 {
			want = want[1:]
		}
		sym.Assert(len(ms) == len(want), "a message does not go out once on the connection to its node")
		for j, m := range ms {
			sym.Assert(m.Headers.Action == want[j], "messages to a node change their order")
			if pp, ok := m.Headers.GetFirstCustomHeader(hPToP); ok {
				sym.Assert(pp.(*federation.PToPHeader).To.Id == id(i), "a message is not addressed to its node")
			} else {
				sym.Fail("a message is not addressed to its node")
			}
		}
	}
	cancels := sym.Choose("cancelled", 2) == 1
	for i := n - 1; i >= 0; i-- {
		if cancels && i < n/2 {
			cancel()
			break
		}
		sym.Assert(len(rs[i].done) == 0, "a route returns without its answer")
		m := plain("answer")
		m.Headers.Id = mid(byte(100 + i))
		m.Headers.RelatesTo = mid(byte(i))
		m.Body = []byte{byte(i)}
		byAddr[nodeAddr(i)].Feed(encode(m))
		sym.Quiesce()
		select {
		case <-rs[i].done:
			sym.Assert(rs[i].err == nil && len(rs[i].reply.Body) == 1 && rs[i].reply.Body[0] == byte(i), "a route gets another answer")
		default:
			sym.Fail("an answered route does not return")
		}
	}
	sym.Quiesce()
	for i := 0; cancels && i < n/2; i++ {
		select {
		case <-rs[i].done:
			sym.Assert(errors.Is(rs[i].err, context.Canceled), "a cancelled route does not return its context's error")
		default:
			sym.Fail("a cancelled route does not return")
		}
	}
	cancel()
	s.node.Close()
	sym.Quiesce()
	for _, c := range s.conns {
		sym.Assert(c.Closed(), "closing the node leaves a connection open")
	}
	sym.Assert(len(served) == 1, "closing the node does not end it")
	sym.Assert(s.node.SendOneWay(id(3), plain("late")) != nil, "a closed node sends")
}
