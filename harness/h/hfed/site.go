package hfed

import (
	"context"
	"errors"
	"net"
	"sync"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// site is a site node whose connections the harness plays.
type site struct {
	node      *federation.SiteNode
	l         *hnet.Listener // of the transport server
	mu        sync.Mutex
	dialed    []string
	conns     []*hnet.Conn
	fail      func(n int) bool // the n-th dial (from 0) fails
	failWrite int
	dialFail  func(addr string) bool
	hang      func(addr string) bool // the dial takes until release is closed
	release   chan struct{}
	prep      func(c *hnet.Conn) // sees every connection dialed
	lease     *hnet.Listener
}

var errDial = errors.New("dial failed")

var self = federation.NodeInstance{Id: federation.NodeID{Hi: 1 << 63, Lo: 77}, InstanceId: 900}

func newSite(me federation.NodeInstance, seeds ...federation.SeedNodeInfo) *site {
	s := &site{l: hnet.NewListener(), lease: hnet.NewListener(), release: make(chan struct{})}
	ts, err := transport.Listen(s.l, transport.ServerConfig{})
	sym.Assert(err == nil, "Listen fails")
	la, err := lease.NewAgent(lease.AgentConfig{}, leaseListener{s.lease}, func(string) (net.Conn, error) { return nil, errDial })
	sym.Assert(err == nil, "NewAgent fails")
	s.node, err = federation.NewSiteNode(federation.SiteNodeConfig{
		ClientDialer: func(addr string) (*transport.Client, error) {
			s.mu.Lock()
			n := len(s.dialed)
			s.dialed = append(s.dialed, addr)
			if s.hang != nil && s.hang(addr) {
				s.mu.Unlock()
				<-s.release
				return nil, errDial
			}
			if s.fail != nil && s.fail(n) || s.dialFail != nil && s.dialFail(addr) {
				s.mu.Unlock()
				return nil, errDial
			}
			c := hnet.New(addr)
			c.FailWrite = s.failWrite
			if s.prep != nil {
				s.prep(c)
			}
			s.conns = append(s.conns, c)
			s.mu.Unlock()
			return transport.Connect(c, transport.ClientConfig{})
		},
		TransportServer: ts, LeaseAgent: la, Instance: me, SeedNodes: seeds,
	})
	sym.Assert(err == nil, "NewSiteNode fails")
	return s
}

type leaseListener struct{ *hnet.Listener }

func (leaseListener) Addr() net.Addr { return hnet.Addr("lease:9") }

func alwaysFail(int) bool { return true }

func seed(id federation.NodeID, addr string) federation.SeedNodeInfo {
	return federation.SeedNodeInfo{Id: id, Address: addr}
}

func addr(i int) string { return string([]byte{'n', byte('0' + i)}) + ":1" }

func mid(n byte) transport.MessageId {
	return transport.MessageId{Id: serialization.GUID{Data1: 0x01020300 + uint32(n), Data4: [8]byte{1, 2, 3, 4, 5, 6, 7, n}}, Index: uint32(n)}
}

// incoming puts a message into a new connection to the node's server.
func (s *site) incoming(ms ...*transport.Message) *hnet.Conn {
	c := hnet.New("in")
	c.Feed(encode(ms...))
	s.l.Put(c)
	return c
}

// encode returns the frames of messages.
func encode(ms ...*transport.Message) []byte {
	c := hnet.New("tx")
	cl, err := transport.Connect(c, transport.ClientConfig{})
	sym.Assert(err == nil, "connecting fails")
	n := len(c.Out())
	for _, m := range ms {
		sym.Assert(cl.SendOneWay(m) == nil, "sending fails")
	}
	return c.Out()[n:]
}

// decode returns the messages of a byte stream.
func decode(b []byte) (ms []*transport.ByteArrayMessage) {
	c := hnet.New("rx")
	cl, err := transport.Connect(c, transport.ClientConfig{MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) { ms = append(ms, m) }})
	sym.Assert(err == nil, "connecting fails")
	c.Feed(b)
	c.End(nil)
	cl.Wait()
	return
}

// gossip is a message that tells about nodes.
func gossip(n byte, ps ...federation.PartnerNodeInfo) *transport.Message {
	m := &transport.Message{}
	m.Headers.Id = mid(n)
	m.Headers.Actor = transport.MessageActorTypeFederation
	m.Headers.Action = "news"
	for _, p := range ps {
		m.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &federation.FederationPartnerNodeHeader{PartnerNodeInfo: p})
	}
	return m
}

func plain(action string) *transport.Message {
	m := &transport.Message{Body: []byte("body")}
	m.Headers.Actor = transport.MessageActorTypeFederation
	m.Headers.Action = action
	return m
}

func eqID(a, b federation.NodeID) bool { return sym.And(a.Hi == b.Hi, a.Lo == b.Lo) }

//verif:harness prop=C22 budget=240 bound="3 (thorough 4) partners with arbitrary different ids, an arbitrary local id and an arbitrary target (each 128 bits), in every order by symmetry"
func Nearest() {
	hnet.Rand()
	n := sym.Tier(3, 4)
	me := federation.NodeInstance{Id: anyID("self"), InstanceId: 5}
	var ids []federation.NodeID
	var seeds []federation.SeedNodeInfo
	for i := 0; i < n; i++ {
		id := anyID("id")
		for _, o := range ids {
			sym.Assume(!eqID(id, o))
		}
		ids = append(ids, id)
		seeds = append(seeds, seed(id, addr(i)))
	}
	s := newSite(me, seeds...)
	s.fail = alwaysFail
	target := anyID("target")
	if sym.Choose("routed", 2) == 1 && sym.Choose("to", 2) == 1 {
		target = ids[1]
	}
	// the ids are arbitrary, so the first partner yielded may be any of them
	_, err := s.node.Route(context.Background(), target, plain("x"))
	others := false
	for _, id := range ids {
		others = sym.Or(others, !eqID(id, me.Id))
	}
	sym.Assert(len(s.dialed) <= 1, "routing dials more than one partner")
	if len(s.dialed) == 0 {
		sym.Reach("none")
		sym.Assert(err != nil, "routing to nobody succeeds")
		sym.Assert(!others, "routing fails though another partner is known")
		return
	}
	sym.Reach("chosen")
	sym.Assert(errors.Is(err, errDial), "the error of the dial is not reported")
	k := int(s.dialed[0][1] - '0')
	sym.Assert(s.dialed[0] == addr(k), "an unknown address is dialed")
	sym.Assert(!eqID(ids[k], me.Id), "the local node is chosen")
	for i, id := range ids {
		if i != k && !eqID(id, me.Id) {
			sym.Assert(le(dist(target, ids[k]), dist(target, id)), "another partner is nearer, clockwise from the target")
		}
	}
}

//verif:harness prop=C22 budget=60 reach=known,unknown bound="3 partners with arbitrary different ids, an arbitrary local id and target (each 128 bits), every order the partner map may yield"
func Exact() {
	hnet.Rand()
	me := federation.NodeInstance{Id: anyID("self"), InstanceId: 5}
	var ids []federation.NodeID
	var seeds []federation.SeedNodeInfo
	for i := 0; i < 3; i++ {
		id := anyID("id")
		for _, o := range ids {
			sym.Assume(!eqID(id, o))
		}
		ids = append(ids, id)
		seeds = append(seeds, seed(id, addr(i)))
	}
	s := newSite(me, seeds...)
	s.fail = alwaysFail
	target := anyID("target")
	sym.MapOrder(true)
	err := s.node.SendOneWay(target, plain("x"))
	sym.MapOrder(false)
	sym.Assert(err != nil, "sending over no connection succeeds")
	known := false
	for i, id := range ids {
		if eqID(id, target) && !eqID(id, me.Id) {
			known = true
			sym.Reach("known")
			sym.Assert(len(s.dialed) == 1 && s.dialed[0] == addr(i), "a message is not sent to the node it is for")
		}
	}
	if !known {
		sym.Reach("unknown")
		sym.Assert(len(s.dialed) == 0, "a message for an unknown node is sent to somebody")
	}
}

//verif:harness prop=C22 budget=60 tbudget=240 reach=redialed,reused,refused bound="4 (thorough 5) sends or routes, each to one of two nodes at one address or a third at another; each dial works or fails, before each send the peer may end any connection (cleanly or not)"
func Redials() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"), seed(nodeB, "b:1"), seed(federation.NodeID{Hi: 3, Lo: 3}, "b:1"))
	fails := false
	s.fail = func(int) bool { return fails }
	live := map[string]*hnet.Conn{}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	n := sym.Tier(4, 5)
	for i := 0; i < n; i++ {
		to, addr := nodeA, "a:1"
		if i > 0 {
			if k := sym.Choose("to", 3); k > 0 {
				to, addr = federation.NodeID{Hi: 3, Lo: 1 + uint64(k)}, "b:1"
			}
		}
		if c := live[addr]; c != nil && sym.Choose("ended", 2) == 1 {
			var err error
			if i%2 == 1 {
				err = errDial
			}
			c.End(err)
			sym.Quiesce()
			sym.Assert(c.Closed(), "a connection its peer ended stays open")
			live[addr] = nil
		}
		dials := len(s.dialed)
		fails = live[addr] == nil && sym.Choose("fails", 2) == 1
		var err error
		routed := i == 2
		if routed {
			_, err = s.node.Route(ctx, to, plain("m"))
		} else {
			err = s.node.SendOneWay(to, plain("m"))
		}
		if live[addr] != nil {
			sym.Reach("reused")
			sym.Assert(len(s.dialed) == dials, "a node with a working connection is dialed again")
		} else {
			sym.Assert(len(s.dialed) == dials+1 && s.dialed[dials] == addr, "a node without a working connection is not dialed")
			if fails {
				sym.Reach("refused")
				sym.Assert(errors.Is(err, errDial), "the error of the dial is not reported")
				continue
			}
			sym.Reach("redialed")
			live[addr] = s.conns[len(s.conns)-1]
		}
		if routed {
			sym.Assert(errors.Is(err, context.Canceled), "a cancelled route does not return its context's error")
		} else {
			sym.Assert(err == nil, "sending to a node that can be reached fails")
		}
		ms := written(live[addr])
		sym.Assert(len(ms) > 0 && ms[len(ms)-1].Headers.Action == "m", "a message does not go out on the connection to its node")
		pp, ok := ms[len(ms)-1].Headers.GetFirstCustomHeader(hPToP)
		sym.Assert(ok && pp.(*federation.PToPHeader).To.Id == to, "a message is not addressed to its node")
		sym.Quiesce()
	}
}

func phase(name string) federation.NodePhase {
	return federation.NodePhase(sym.Choose(name, 5))
}

func (s *site) known() map[federation.NodeID]federation.PartnerNodeInfo {
	m := map[federation.NodeID]federation.PartnerNodeInfo{}
	for _, p := range s.node.KnownPartnerNodes(func(federation.PartnerNodeInfo) bool { return true }) {
		_, twice := m[p.Instance.Id]
		sym.Assert(!twice, "a node is listed twice")
		m[p.Instance.Id] = p
	}
	return m
}

var (
	nodeA = federation.NodeID{Hi: 3, Lo: 1}
	nodeB = federation.NodeID{Hi: 3, Lo: 2}
)

//verif:harness prop=C23 budget=90 tbudget=300 bound="news of 3 messages about one of two nodes each, one after the other, any one of them the answer of a route, on either connection; instance numbers below 64, around 2^40 or around 2^63 (6 arbitrary bits each; thorough: 2 messages with all 64 bits arbitrary)"
func NewestLast() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"), seed(nodeB, "b:1"))
	go s.node.Serve()
	newest := map[federation.NodeID]uint64{}
	addrs := map[federation.NodeID]map[int]uint64{nodeA: {}, nodeB: {}}
	n := sym.Tier(3, 2)
	answer := sym.Choose("answer", n+1) // this one answers a route
	var routed sync.WaitGroup
	var answered error
	if answer < n {
		routed.Add(1)
		m := plain("ask")
		m.Headers.Id = mid(99)
		go func() {
			defer routed.Done()
			_, answered = s.node.Route(context.Background(), nodeA, m)
		}()
		sym.Quiesce()
	}
	for i := 0; i < n; i++ {
		id := nodeA
		if i > 0 && sym.Choose("node", 2) == 1 {
			id = nodeB
		}
		inst := sym.U64("instance")
		if sym.Tier(0, 1) == 0 {
			inst &= 63
			inst |= []uint64{0, 1 << 40, 1 << 63}[sym.Choose("scale", 3)]
		}
		newest[id] = sym.IteU64(inst > newest[id], inst, newest[id])
		addrs[id][i] = inst
		m := gossip(byte(i), federation.PartnerNodeInfo{Instance: federation.NodeInstance{Id: id, InstanceId: inst}, Address: addr(i)})
		if i == answer {
			m.Headers.RelatesTo = mid(99)
			if sym.Choose("back", 2) == 1 {
				// on the connection the route went out on
				s.conns[0].Feed(encode(m))
				sym.Quiesce()
				continue
			}
		}
		s.incoming(m)
		sym.Quiesce()
	}
	routed.Wait()
	sym.Assert(answered == nil, "an answered route fails")
	s.checkNewest(newest, addrs)
}

//verif:harness prop=C23 budget=90 tbudget=300 bound="2 messages, one after the other, the first with 1 to 3, the second with 1 or 2 pieces of news about either of two nodes in any order, instance numbers 0 to 31 in any relation, equal ones included"
func NewestWithin() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"), seed(nodeB, "b:1"))
	go s.node.Serve()
	newest := map[federation.NodeID]uint64{}
	addrs := map[federation.NodeID]map[int]uint64{nodeA: {}, nodeB: {}}
	k := 0
	for i := 0; i < 2; i++ {
		var ps []federation.PartnerNodeInfo
		for j := 1 + sym.Choose("news", 3-i); j > 0; j-- {
			id := nodeA
			if k > 0 && sym.Choose("node", 2) == 1 {
				id = nodeB
			}
			inst := uint64(sym.U8("instance") & 31)
			newest[id] = sym.IteU64(inst > newest[id], inst, newest[id])
			addrs[id][k] = inst
			ps = append(ps, federation.PartnerNodeInfo{Instance: federation.NodeInstance{Id: id, InstanceId: inst}, Address: addr(k)})
			k++
		}
		s.incoming(gossip(byte(i), ps...))
		sym.Quiesce()
	}
	s.checkNewest(newest, addrs)
}

//verif:harness prop=C23 budget=60 bound="one message with news of 12 (thorough 40) nodes, then another, on the same connection or another, with newer or older news of 4 of them (instances 1 to 32 in any relation)"
func NewsOfMany() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"))
	go s.node.Serve()
	n := sym.Tier(12, 40)
	var first, second []federation.PartnerNodeInfo
	want := map[federation.NodeID]uint64{}
	for i := 0; i < n; i++ {
		p := federation.PartnerNodeInfo{Instance: federation.NodeInstance{Id: federation.NodeID{Hi: 100, Lo: uint64(i)}, InstanceId: uint64(5 + i%20)}, Address: addr(0)}
		first = append(first, p)
		want[p.Instance.Id] = p.Instance.InstanceId
		if i%4 == 1 && len(second) < 4 {
			p.Instance.InstanceId = 1 + uint64(sym.U8("instance")&31)
			p.Address = addr(1)
			second = append(second, p)
			want[p.Instance.Id] = sym.IteU64(p.Instance.InstanceId > want[p.Instance.Id], p.Instance.InstanceId, want[p.Instance.Id])
		}
	}
	if sym.Choose("connection", 2) == 0 {
		s.incoming(gossip(1, first...), gossip(2, second...))
		sym.Quiesce()
		// they may be handled in either order, which must not matter
	} else {
		s.incoming(gossip(1, first...))
		sym.Quiesce()
		s.incoming(gossip(2, second...))
		sym.Quiesce()
	}
	ps := s.known()
	sym.Assert(len(ps) == n+1, "a node is lost or made up")
	for id, inst := range want {
		p, ok := ps[id]
		sym.Assert(ok, "a node is lost")
		sym.Assert(p.Instance.InstanceId == inst, "the information kept is not of the highest instance received")
		first := uint64(5 + id.Lo%20)
		sym.Assert((p.Address == addr(1)) == (inst > first) || inst == first, "the information kept mixes instances")
	}
}

func (s *site) checkNewest(newest map[federation.NodeID]uint64, addrs map[federation.NodeID]map[int]uint64) {
	ps := s.known()
	sym.Assert(len(ps) == 2, "a node is lost or made up")
	for _, id := range []federation.NodeID{nodeA, nodeB} {
		p, ok := ps[id]
		sym.Assert(ok, "a node is lost")
		sym.Assert(p.Instance.InstanceId == newest[id], "the information kept is not of the highest instance received")
		from := false
		if p.Address == "a:1" || p.Address == "b:1" {
			from = newest[id] == 0
		}
		for i, inst := range addrs[id] {
			if p.Address == addr(i) {
				from = inst == newest[id]
			}
		}
		sym.Assert(from, "the information kept mixes instances")
	}
}

//verif:harness prop=C23 budget=90 tbudget=400 sched=1 bound="3 messages about one node (thorough: or two) arriving concurrently, with instance numbers in any relation (8 bits), every schedule of at most 1 (thorough 2) preemptions; data races"
func NewestConcurrent() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"), seed(nodeB, "b:1"))
	newest := map[federation.NodeID]uint64{}
	addrs := map[federation.NodeID]map[int]uint64{nodeA: {}, nodeB: {}}
	var ms []*transport.Message
	for i := 0; i < 3; i++ {
		id := nodeA
		if i == 2 && sym.Choose("node", sym.Tier(1, 2)) == 1 {
			id = nodeB
		}
		inst := uint64(sym.U8("instance"))
		newest[id] = sym.IteU64(inst > newest[id], inst, newest[id])
		addrs[id][i] = inst
		ms = append(ms, gossip(byte(i), federation.PartnerNodeInfo{Instance: federation.NodeInstance{Id: id, InstanceId: inst}, Address: addr(i)}))
	}
	s.incoming(ms...)
	go s.node.Serve()
	sym.Preempt(sym.Tier(1, 2))
	sym.Quiesce()
	sym.Preempt(0)
	s.checkNewest(newest, addrs)
}

// boot runs Bootstrap.
type boot struct {
	done   chan struct{}
	err    error
	cancel context.CancelFunc
}

func (s *site) boot() *boot {
	ctx, cancel := context.WithCancel(context.Background())
	b := &boot{done: make(chan struct{}), cancel: cancel}
	go func() {
		b.err = s.node.Bootstrap(ctx)
		close(b.done)
	}()
	return b
}

func (b *boot) returned() bool {
	select {
	case <-b.done:
		return true
	default:
		return false
	}
}

//verif:harness prop=C25 budget=90 tbudget=400 sched=1 reach=booted,waiting bound="news of two nodes in any phase, or of one node in two phases (with the same instance or a newer one), arriving at any moment of Bootstrap (every schedule of at most 1 (thorough 2) preemptions); data races"
func Boot() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"))
	p, q := phase("phase"), phase("phase")
	second := nodeB
	i1, i2 := 1+uint64(sym.U8("instance")&31), 1+uint64(sym.U8("instance")&31)
	same := sym.Choose("same", 2) == 1
	if same {
		second = nodeA
		sym.Assume(sym.Or(i2 > i1, sym.And(i1 == i2, q >= p)))
	}
	ms := []*transport.Message{
		gossip(1, federation.PartnerNodeInfo{Instance: federation.NodeInstance{Id: nodeA, InstanceId: i1}, Phase: p, Address: "a:1"}),
		gossip(2, federation.PartnerNodeInfo{Instance: federation.NodeInstance{Id: second, InstanceId: i2}, Phase: q, Address: "b:1"})}
	go s.node.Serve()
	var b *boot
	late := sym.Choose("late", 2) == 1
	if late {
		b = s.boot()
		sym.Quiesce()
		sym.Assert(!b.returned(), "Bootstrap returns before a partner is known")
		sym.Preempt(sym.Tier(1, 2))
	} else {
		sym.Preempt(sym.Tier(1, 2))
		b = s.boot()
	}
	if second == nodeA {
		// in order
		s.incoming(ms[0])
		sym.Quiesce()
		s.incoming(ms[1])
	} else {
		s.incoming(ms...)
	}
	sym.Quiesce()
	sym.Preempt(0)
	if p == federation.NodePhaseRouting || q == federation.NodePhaseRouting {
		sym.Reach("booted")
		sym.Assert(b.returned(), "Bootstrap does not return though a routing partner is known")
		sym.Assert(b.err == nil, "Bootstrap fails though a routing partner is known")
		return
	}
	sym.Reach("waiting")
	sym.Assert(!b.returned(), "Bootstrap returns though no routing partner is known")
	b.cancel()
	sym.Quiesce()
	sym.Assert(b.returned() && errors.Is(b.err, context.Canceled), "a cancelled Bootstrap does not return its context's error")
}

//verif:harness prop=C25 budget=60 bound="two seeds, both reachable, both refusing, the first hanging (neither connecting nor failing) or both; a routing partner becomes known before Bootstrap is called, or after up to 3 periods of waiting; the context cancelled before the call or after up to 3 periods"
func BootTimes() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"), seed(nodeB, "b:1"))
	seeds := sym.Choose("seeds", 4)
	switch seeds {
	case 1:
		s.fail = alwaysFail
	case 2:
		s.hang = func(addr string) bool { return addr == "a:1" }
	case 3:
		s.hang = func(string) bool { return true }
	}
	go s.node.Serve()
	routing := federation.PartnerNodeInfo{Instance: federation.NodeInstance{Id: nodeA, InstanceId: 4}, Phase: federation.NodePhaseRouting, Address: "a:1"}
	switch sym.Choose("when", 4) {
	case 0:
		s.incoming(gossip(1, routing))
		sym.Quiesce()
		b := s.boot()
		sym.Quiesce()
		sym.Assert(b.returned() && b.err == nil, "Bootstrap does not return though a routing partner is known")
	case 1:
		b := s.boot()
		sleep(sym.Choose("periods", 4))
		sym.Quiesce()
		sym.Assert(!b.returned(), "Bootstrap returns before a partner is known")
		if seeds != 1 {
			sym.Assert(s.tried("a:1") && s.tried("b:1"), "Bootstrap does not try to reach a seed")
		}
		if seeds%2 == 0 {
			sym.Assert(s.asks("b:1") > 0, "Bootstrap does not ask a seed")
		}
		s.incoming(gossip(1, routing))
		sym.Quiesce()
		sym.Assert(b.returned() && b.err == nil, "Bootstrap does not return though a routing partner is known")
		b2 := s.boot()
		sym.Quiesce()
		sym.Assert(b2.returned() && b2.err == nil, "a second Bootstrap does not return")
	case 2:
		b := s.boot()
		sleep(sym.Choose("periods", 4))
		b.cancel()
		sym.Quiesce()
		sym.Assert(b.returned() && errors.Is(b.err, context.Canceled), "a cancelled Bootstrap does not return its context's error")
	case 3:
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		err := s.node.Bootstrap(ctx)
		sym.Assert(errors.Is(err, context.Canceled), "Bootstrap with a cancelled context does not return its error")
	}
}
