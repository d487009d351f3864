package hfed

import (
	"context"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

type join struct {
	done chan struct{}
	err  error
}

func (s *site) join(ctx context.Context) *join {
	j := &join{done: make(chan struct{})}
	go func() {
		j.err = s.node.Join(ctx)
		close(j.done)
	}()
	return j
}

func (j *join) returned() bool {
	select {
	case <-j.done:
		return true
	default:
		return false
	}
}

// leaseBody is a global lease with one ticket.
func leaseBody(hi, lo uint64, t, u int64) []byte {
	objects := []byte{href.Array | href.Object, 1}
	gaps := href.Cat(objects, href.Obj(href.S(href.Int64, t), href.S(href.Int64, u)))
	id := href.Cat([]byte{href.Array | href.UChar, 16}, href.LE64(hi), href.LE64(lo))
	return href.Obj(href.Cat(objects, href.Obj(id, href.S(href.Int64, u), gaps)), href.S(href.Int64, t), href.S(href.Int64, 5))
}

//verif:harness prop=C43 budget=60 tbudget=240 reach=answered,ended bound="a node that joins through one of two nodes (arbitrary distances, 8 bits each); after another message: the answer (error code of 16 bits; body of 0 to 3 (thorough 4) arbitrary bytes or a lease with a ticket of arbitrary contents, whole or cut), over the connection asked or a new one; or the dial or the write fails, the connection ends, the context is cancelled before or while it waits, or the node is closed; then the node joins again"
func Joins() {
	hnet.Rand()
	a, b := 1+uint64(sym.U8("distance")), 1+uint64(sym.U8("distance"))
	sym.Assume(a != b)
	ids := []federation.NodeID{{Hi: self.Id.Hi, Lo: self.Id.Lo + a}, {Hi: self.Id.Hi, Lo: self.Id.Lo + b}}
	s := newSite(self, seed(ids[0], addr(0)), seed(ids[1], addr(1)))
	serve := make(chan error, 1)
	go func() { serve <- s.node.Serve() }()
	sym.AllocLimit(1 << 16)
	// news of the node itself does not make it ask itself
	s.incoming(gossip(1, info(self.Id, self.InstanceId, "self:1")))
	sym.Quiesce()
	near := 0
	if b < a {
		near = 1
	}
	ctx, cancel := context.WithCancel(context.Background())
	kind := sym.Choose("kind", 6)
	switch kind {
	case 1:
		s.fail = alwaysFail
	case 2:
		s.failWrite = 2
	case 3:
		cancel()
	}
	j := s.join(ctx)
	sym.Quiesce()
	sym.Assert(len(s.dialed) == 1 && s.dialed[0] == addr(near), "the node does not ask the one nearest to it")
	if kind == 1 || kind == 2 || kind == 3 {
		sym.Reach("ended")
		sym.Assert(j.returned(), "Join waits though nothing can come")
	} else {
		sym.Assert(!j.returned(), "Join ends without an answer")
		checkJoin(s.conns[0], ids[near], 1)
		id := written(s.conns[0])[0].Headers.Id
		s.incoming(answer(90, mid(91), 0, nil), gossip(2, info(nodeC, 3, "c:1")))
		sym.Quiesce()
		sym.Assert(!j.returned(), "Join ends without an answer")
		switch kind {
		case 0:
			var body []byte
			over, code := 0, transport.FabricErrorCode(0)
			if sym.Choose("shape", 2) == 0 {
				body = sym.Bytes("body", sym.Choose("n", sym.Tier(4, 5)))
			} else {
				body = leaseBody(sym.U64("hi"), sym.U64("lo"), int64(sym.U8("t")), int64(sym.U8("u")))
				if n := sym.Choose("cut", 4); n > 0 {
					body = body[:len(body)*n/4]
				}
				over, code = sym.Choose("over", 2), transport.FabricErrorCode(sym.U16("code"))
			}
			m := answer(92, id, code, body)
			if over == 0 {
				s.incoming(m)
			} else {
				s.conns[0].Feed(encode(m))
			}
			sym.Quiesce()
			sym.Reach("answered")
			sym.Assert(j.returned(), "Join does not end with its answer")
		case 4:
			cancel()
			sym.Quiesce()
			sym.Reach("ended")
			sym.Assert(j.returned(), "Join does not end with its context")
		case 5:
			done := s.closing()
			sym.Quiesce()
			sym.Reach("ended")
			sym.Assert(j.returned(), "Join does not end with its node")
			<-done
			cancel()
			return
		}
	}
	cancel()
	// it may be called again
	s.fail, s.failWrite = nil, 0
	j = s.join(context.Background())
	sym.Quiesce()
	if kind == 2 {
		s.conns[len(s.conns)-1].FailWrite = 0
	}
	if kind == 0 || kind == 3 || kind == 4 {
		sym.Assert(!j.returned() && len(s.dialed) == 1, "Join does not use the connection it has")
		checkJoin(s.conns[0], ids[near], 2)
	}
	s.node.Close()
	sym.Quiesce()
	sym.Assert(j.returned() && len(serve) == 1, "Join does not end with its node")
}

// checkJoin checks that all that was sent over a connection are n queries.
func checkJoin(c *hnet.Conn, to federation.NodeID, n int) {
	ms := written(c)
	sym.Assert(len(ms) == n, "Join does not send exactly one query")
	seen := map[transport.MessageId]bool{}
	for _, m := range ms {
		sym.Assert(m.Headers.Action == "NeighborhoodQueryRequest" && m.Headers.Actor == transport.MessageActorTypeFederation && m.Headers.ExpectsReply, "Join sends something other than a query")
		sym.Assert(!m.Headers.Id.IsEmpty() && !seen[m.Headers.Id], "a query has no identifier of its own")
		seen[m.Headers.Id] = true
		p, ok := m.Headers.GetFirstCustomHeader(hPToP)
		sym.Assert(ok && eqID(p.(*federation.PToPHeader).To.Id, to) && p.(*federation.PToPHeader).From == self, "a query is not addressed to the node it is sent to")
		sym.Assert(sym.BytesEq(m.Body, href.Obj(href.S(href.Int64, 1))) || sym.BytesEq(m.Body, href.Obj(href.Obj(href.S(href.Int64, 1)))), "a query does not carry its time")
	}
}
