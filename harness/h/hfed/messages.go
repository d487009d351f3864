package hfed

import (
	"context"
	"errors"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

const (
	hPToP    = transport.MessageHeaderIdTypePToP
	hPartner = transport.MessageHeaderIdTypeFederationPartnerNode
	hRouting = transport.MessageHeaderIdTypeRouting
)

func eqInst(a, b federation.NodeInstance) bool {
	return sym.And(eqID(a.Id, b.Id), a.InstanceId == b.InstanceId)
}

// written returns the messages written to a connection after its greeting.
func written(c *hnet.Conn) []*transport.ByteArrayMessage {
	fs, ok := hnet.Parse(c.Out())
	sym.Assert(ok && len(fs) > 0, "the byte stream is not a sequence of whole frames")
	var ms []*transport.ByteArrayMessage
	for _, f := range fs[1:] {
		d := decode(f.Raw)
		sym.Assert(len(d) == 1, "a message does not decode")
		ms = append(ms, d...)
	}
	return ms
}

type partner struct {
	id    federation.NodeID
	inst  uint64
	phase federation.NodePhase
	addr  string
}

func (p partner) info() federation.PartnerNodeInfo {
	return federation.PartnerNodeInfo{Instance: federation.NodeInstance{Id: p.id, InstanceId: p.inst}, Phase: p.phase, Address: p.addr, LeaseAgentAddress: "l" + p.addr, RingName: "ring"}
}

// checkHeaders checks what every message of a site node carries.
func checkHeaders(m *transport.ByteArrayMessage, me federation.NodeInstance, to federation.NodeInstance, actor federation.PToPActor, phase federation.NodePhase, live []partner) {
	p := m.Headers.GetCustomHeaders(hPToP)
	sym.Assert(len(p) == 1, "a message does not carry one point-to-point header")
	pp, ok := p[0].(*federation.PToPHeader)
	sym.Assert(ok, "the point-to-point header does not decode")
	sym.Assert(eqInst(pp.From, me), "the point-to-point header names another sender")
	sym.Assert(eqInst(pp.To, to), "the point-to-point header names another receiver")
	sym.Assert(pp.Actor == actor, "the point-to-point header names the wrong actor")
	hs := m.Headers.GetCustomHeaders(hPartner)
	sym.Assert(len(hs) == 1+len(live), "the partner headers are not those of the node and its live partners")
	var seen [8]bool
	for _, h := range hs {
		n, ok := h.(*federation.FederationPartnerNodeHeader)
		sym.Assert(ok, "a partner header does not decode")
		if n.Instance.Id == me.Id {
			sym.Assert(!seen[7], "the node describes itself twice")
			seen[7] = true
			sym.Assert(eqInst(n.Instance, me), "the node describes itself with another instance")
			sym.Assert(n.Address == "listener:1" && n.LeaseAgentAddress == "lease:9", "the node describes itself with other addresses")
			sym.Assert(n.Phase == phase, "the node describes itself in another phase")
			continue
		}
		found := false
		for i, l := range live {
			if n.Instance.Id == l.id {
				found = true
				sym.Assert(!seen[i], "a partner is described twice")
				seen[i] = true
				w := l.info()
				sym.Assert(n.Instance.InstanceId == w.Instance.InstanceId && n.Phase == w.Phase && n.Address == w.Address && n.LeaseAgentAddress == w.LeaseAgentAddress && n.RingName == w.RingName, "a partner is described wrongly")
			}
		}
		sym.Assert(found, "a node that is not a live partner is described")
	}
	sym.Assert(seen[7], "the node does not describe itself")
}

//verif:harness prop=C26 native=no budget=60 bound="the vote pings of Bootstrap (up to 3 periods) or of Discover (up to 4 seconds) at a node with two seeds not heard of and one live partner (any instance of 5 bits, two phases)"
func PingHeaders() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"), seed(nodeB, "b:1"))
	go s.node.Serve()
	p := partner{id: nodeC, inst: 1 + uint64(sym.U8("instance")&31), addr: "c:1"}
	p.phase = []federation.NodePhase{federation.NodePhaseInserting, federation.NodePhaseJoining}[sym.Choose("phase", 2)]
	s.incoming(gossip(1, p.info()))
	sym.Quiesce()
	periods := 1 + sym.Choose("periods", 3)
	to := map[string]federation.NodeInstance{"a:1": {Id: nodeA}, "b:1": {Id: nodeB}}
	if sym.Choose("what", 2) == 0 {
		b := s.boot()
		sleep(periods - 1)
		sym.Quiesce()
		b.cancel()
	} else {
		to["c:1"] = p.info().Instance
		ctx, cancel := context.WithCancel(context.Background())
		s.discover(ctx)
		time.Sleep(time.Duration(periods)*time.Second + 500*time.Millisecond)
		cancel()
	}
	sym.Quiesce()
	ids := map[transport.MessageId]bool{}
	for _, c := range s.conns {
		sym.Assert(to[c.Name].Id != federation.NodeID{}, "an unknown node is pinged")
		ms := written(c)
		sym.Assert(len(ms) > 0, "a connection is made for nothing")
		for _, m := range ms {
			sym.Assert(m.Headers.Action == "VotePing" && m.Headers.Actor == transport.MessageActorTypeFederation && len(m.Body) == 0, "something other than a vote ping is sent")
			checkHeaders(m, self, to[c.Name], federation.PToPActorDirect, federation.NodePhaseBooting, []partner{p})
			sym.Assert(!m.Headers.Id.IsEmpty() && !ids[m.Headers.Id], "two vote pings share an identifier")
			ids[m.Headers.Id] = true
		}
	}
	sym.Assert(len(s.conns) == len(to), "a node is not pinged")
}

//verif:harness prop=C26 budget=90 reach=direct,routed bound="a node that knows 2 seeds not heard of and 0 to 2 live partners with instance numbers 1 to 32 and 2^40 to 2^40+31, in two phases each, sends and routes 2 messages, with and without an identifier of the caller's, partners listed in any order"
func Headers() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"), seed(nodeB, "b:1"))
	go s.node.Serve()
	n := sym.Choose("live", 3)
	var live []partner
	booted := federation.NodePhaseBooting
	for i := 0; i < n; i++ {
		p := partner{id: federation.NodeID{Hi: 3, Lo: uint64(2 + i)}, inst: uint64(sym.U8("instance")&31) + []uint64{1, 1 << 40}[i], addr: addr(i)}
		p.phase = []federation.NodePhase{federation.NodePhaseInserting, federation.NodePhaseRouting}[sym.Choose("phase", 2)]
		if p.phase == federation.NodePhaseRouting {
			booted = federation.NodePhaseJoining
		}
		live = append(live, p)
		s.incoming(gossip(byte(i), p.info()))
		sym.Quiesce()
	}
	to := federation.NodeInstance{Id: nodeB}
	toAddr := "b:1"
	if n > 0 {
		to.InstanceId = live[0].inst
		toAddr = live[0].addr
	}
	mine := sym.Choose("id", 2) == 1
	var ids []transport.MessageId
	kind := sym.Choose("kind", 2)
	for i := 0; i < 2; i++ {
		sym.MapOrder(i == 1)
		m := plain("act")
		if mine {
			m.Headers.Id = mid(byte(50 + i))
		}
		if kind == 0 {
			sym.Assert(s.node.SendOneWay(nodeB, m) == nil, "sending to a known node fails")
			continue
		}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() {
			_, err := s.node.Route(ctx, nodeB, m)
			done <- err
		}()
		sym.Quiesce()
		cancel()
		sym.Assert(errors.Is(<-done, context.Canceled), "a cancelled route does not return its context's error")
	}
	sym.MapOrder(false)
	sym.Assert(len(s.dialed) == 1 && s.dialed[0] == toAddr, "the messages are not sent over one connection to the receiver")
	ms := written(s.conns[0])
	sym.Assert(len(ms) == 2, "a message is not sent once")
	for i, m := range ms {
		sym.Assert(m.Headers.Action == "act" && m.Headers.Actor == transport.MessageActorTypeFederation && string(m.Body) == "body", "a message changed on the way")
		if mine {
			sym.Assert(m.Headers.Id == mid(byte(50+i)), "the caller's identifier is replaced")
		}
		sym.Assert(!m.Headers.Id.IsEmpty(), "a message has no identifier")
		for _, o := range ids {
			sym.Assert(o != m.Headers.Id, "messages share an identifier")
		}
		ids = append(ids, m.Headers.Id)
		rs := m.Headers.GetCustomHeaders(hRouting)
		if kind == 0 {
			sym.Reach("direct")
			checkHeaders(m, self, to, federation.PToPActorDirect, booted, live)
			sym.Assert(len(rs) == 0, "a direct message carries a routing header")
			continue
		}
		sym.Reach("routed")
		checkHeaders(m, self, to, federation.PToPActorRouting, booted, live)
		sym.Assert(len(rs) == 1, "a routed message does not carry one routing header")
		r, ok := rs[0].(*federation.RoutingHeader)
		sym.Assert(ok, "the routing header does not decode")
		sym.Assert(r.MessageId == m.Headers.Id, "the routing header is tied to another message")
		sym.Assert(eqInst(r.From, self), "the routing header names another sender")
		sym.Assert(r.ExpectsReply && m.Headers.ExpectsReply, "a routed message does not expect a reply")
	}
}

// route is a Route call in flight.
type route struct {
	done   chan struct{}
	reply  *transport.ByteArrayMessage
	err    error
	cancel context.CancelFunc
	id     transport.MessageId
}

func (s *site) route(id transport.MessageId) *route {
	ctx, cancel := context.WithCancel(context.Background())
	r := &route{done: make(chan struct{}), cancel: cancel, id: id}
	m := plain("query")
	m.Headers.Id = id
	go func() {
		r.reply, r.err = s.node.Route(ctx, nodeB, m)
		close(r.done)
	}()
	return r
}

func (r *route) returned() bool {
	select {
	case <-r.done:
		return true
	default:
		return false
	}
}

func answer(n byte, relates transport.MessageId, code transport.FabricErrorCode, body []byte) *transport.Message {
	m := &transport.Message{Body: body}
	m.Headers.Id = mid(n)
	m.Headers.Actor = transport.MessageActorTypeFederation
	m.Headers.Action = "reply"
	m.Headers.RelatesTo = relates
	m.Headers.ErrorCode = code
	return m
}

//verif:harness prop=C26 budget=120 tbudget=400 reach=ok,failed,pending bound="two routes in flight; 2 (thorough 3) incoming messages relating to either route, to an unknown message or to none, over the connection the request went out on or a new one to the server, with error code 0 or an arbitrary one (16 bits) and arbitrary bodies (2 bytes)"
func Routed() {
	hnet.Rand()
	s := newSite(self, seed(nodeB, "b:1"))
	go s.node.Serve()
	rs := []*route{s.route(mid(40)), s.route(mid(41))}
	sym.Quiesce()
	sym.Assert(len(s.conns) == 1, "the routes do not share a connection")
	type want struct {
		code transport.FabricErrorCode
		body []byte
		set  bool
	}
	var wants [2]want
	for i := 0; i < sym.Tier(2, 3); i++ {
		k := sym.Choose("relates", 4)
		rel := []transport.MessageId{mid(40), mid(41), mid(99), {}}[k]
		code := transport.FabricErrorCode(0)
		if sym.Choose("code", 2) == 1 {
			code = transport.FabricErrorCode(sym.I16("error"))
		}
		body := sym.Bytes("body", 2)
		if k < 2 && !wants[k].set {
			wants[k] = want{code, body, true}
		}
		a := answer(byte(60+i), rel, code, body)
		if sym.Choose("way", 2) == 0 {
			s.conns[0].Feed(encode(a))
		} else {
			s.incoming(a)
		}
		sym.Quiesce()
	}
	for k, r := range rs {
		w := wants[k]
		if !w.set {
			sym.Reach("pending")
			sym.Assert(!r.returned(), "a route returns without its reply")
			r.cancel()
			sym.Quiesce()
			sym.Assert(r.returned() && errors.Is(r.err, context.Canceled), "a cancelled route does not return its context's error")
			continue
		}
		sym.Assert(r.returned(), "a route does not return though its reply arrived")
		if w.code != 0 {
			sym.Reach("failed")
			sym.Assert(r.err != nil, "an error code in the reply does not become an error")
			continue
		}
		sym.Reach("ok")
		sym.Assert(r.err == nil, "a route fails though its reply is a success")
		sym.Assert(r.reply != nil && r.reply.Headers.RelatesTo == r.id && sym.BytesEq(r.reply.Body, w.body), "a route returns another message than its reply")
	}
}

//verif:harness prop=C26 budget=60 bound="4 (thorough 5) sends to one node; each dial fails or works, each write fails or works, the peer closes the connection or not in between"
func Dialing() {
	hnet.Rand()
	s := newSite(self, seed(nodeB, "b:1"))
	var failed []bool
	s.fail = func(n int) bool {
		f := sym.Choose("dial", 2) == 1
		failed = append(failed, f)
		return f
	}
	open := -1 // the connection in use
	for i := 0; i < sym.Tier(4, 5); i++ {
		dials := len(s.dialed)
		m := plain(string([]byte{'m', byte('0' + i)}))
		var err error
		if sym.Choose("kind", 2) == 0 {
			err = s.node.SendOneWay(nodeB, m)
		} else {
			ctx, cancel := context.WithCancel(context.Background())
			r := make(chan error, 1)
			go func() {
				_, e := s.node.Route(ctx, nodeB, m)
				r <- e
			}()
			sym.Quiesce()
			cancel()
			err = <-r
			if errors.Is(err, context.Canceled) {
				err = nil
			}
		}
		if open >= 0 {
			sym.Assert(len(s.dialed) == dials, "a node with a live connection is dialed again")
		} else {
			sym.Assert(len(s.dialed) == dials+1, "a node without a connection is not dialed once")
			if failed[dials] {
				sym.Assert(errors.Is(err, errDial), "a failed dial is not reported")
				continue
			}
			open = len(s.conns) - 1
		}
		sym.Assert(err == nil, "sending over a working connection fails")
		ms := written(s.conns[open])
		sym.Assert(len(ms) > 0 && ms[len(ms)-1].Headers.Action == m.Headers.Action, "the message is not on the connection in use")
		if sym.Choose("close", 2) == 1 {
			s.conns[open].End(nil)
			sym.Quiesce()
			open = -1
		}
	}
}

//verif:harness prop=C26 budget=90 tbudget=300 sched=1 bound="two concurrent sends to one node or to two, dials failing or working, every schedule of at most 1 (thorough 2) preemptions; data races"
func ConcurrentSends() {
	hnet.Rand()
	s := newSite(self, seed(nodeA, "a:1"), seed(nodeB, "b:1"))
	bad := sym.Choose("fail", 2) == 1
	if bad {
		s.fail = alwaysFail
	}
	to := []federation.NodeID{nodeB, nodeB}
	if sym.Choose("other", 2) == 1 {
		to[0] = nodeA
	}
	sym.Preempt(sym.Tier(1, 2))
	ch := make(chan error, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() { ch <- s.node.SendOneWay(to[i], plain(string([]byte{'m', byte('0' + i)}))) }()
	}
	e0, e1 := <-ch, <-ch
	sym.Preempt(0)
	if bad {
		sym.Assert(errors.Is(e0, errDial) && errors.Is(e1, errDial), "a failed dial is not reported")
		return
	}
	sym.Assert(e0 == nil && e1 == nil, "a concurrent send fails")
	got := map[string]string{}
	for _, c := range s.conns {
		for _, m := range written(c) {
			_, twice := got[m.Headers.Action]
			sym.Assert(!twice, "a message is sent twice")
			got[m.Headers.Action] = c.Name
		}
	}
	for i, id := range to {
		a := "b:1"
		if id == nodeA {
			a = "a:1"
		}
		sym.Assert(got[string([]byte{'m', byte('0' + i)})] == a, "a message is not sent to the node it is for")
	}
	if to[0] == to[1] {
		sym.Assert(len(s.conns) == 1, "one node is dialed twice")
	}
}
