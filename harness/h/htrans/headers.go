package htrans

import (
	"context"
	"crypto/rand"
	"sync"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

type symRand struct{ n int }

func (r *symRand) Read(b []byte) (int, error) {
	copy(b, sym.Bytes("random", len(b)))
	return len(b), nil
}

//verif:harness prop=C15 budget=60 reach=kept,generated bound="5 messages on one connection: without identifier, or with an arbitrary one (160 bits); sent one-way or as a request; every random source"
func Ids() {
	rand.Reader = &symRand{}
	c := hnet.New("tx")
	cl := connect(c, transport.Config{}, nil)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	var own []transport.MessageId
	at := sym.Choose("at", 5)
	req := sym.Choose("request", 2) == 1
	for i := 0; i < 5; i++ {
		m := &transport.Message{}
		m.Headers.Actor = transport.MessageActorTypeFM
		var id transport.MessageId
		if i == at {
			switch sym.Choose("shape", 3) {
			case 0:
				id.Index = sym.U32("index")
			case 1:
				id.Id = anyGuid("guid")
			case 2:
				id.Id.Data4[sym.Choose("byte", 8)] = sym.U8("b")
			}
		}
		own = append(own, id)
		m.Headers.Id = id
		if req && i >= at {
			cl.RequestReply(ctx, m)
		} else {
			cl.SendOneWay(m)
		}
	}
	fs, ok := hnet.Parse(c.Out())
	sym.Assert(ok && len(fs) == 6, "not every message was written exactly once")
	var gen [][]byte
	empty := refId(transport.MessageId{})
	for i, f := range fs {
		g := f.Get(hnet.HId)
		sym.Assert(len(g) == 1, "a message has no identifier")
		if i > 0 && !eqId(own[i-1], transport.MessageId{}) {
			sym.Reach("kept")
			sym.Assert(sym.BytesEq(g[0], refId(own[i-1])), "an identifier set by the caller was changed")
			continue
		}
		sym.Reach("generated")
		sym.Assert(!sym.BytesEq(g[0], empty), "a generated identifier is empty")
		for _, o := range gen {
			sym.Assert(!sym.BytesEq(o, g[0]), "two generated identifiers are equal")
		}
		gen = append(gen, g[0])
	}
}

//verif:harness prop=C15 budget=60 tbudget=300 bound="3 goroutines, the first drawing 2 identifiers from one generator; every schedule with at most 3 (thorough 5) preemptions"
func IdRaces() {
	hnet.Rand()
	g, err := transport.NewMessageIdGenerator()
	sym.Assert(err == nil, "no generator although the random source works")
	var ids [4]transport.MessageId
	sym.Preempt(sym.Tier(3, 5))
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { ids[0] = g.Next(); ids[3] = g.Next(); wg.Done() }()
	go func() { ids[1] = g.Next(); wg.Done() }()
	go func() { ids[2] = g.Next(); wg.Done() }()
	wg.Wait()
	for i := range ids {
		sym.Assert(!ids[i].IsEmpty(), "a generated identifier is empty")
		for j := range ids[:i] {
			sym.Assert(ids[i] != ids[j], "two generated identifiers are equal")
		}
	}
}

//verif:harness prop=C15,C14 budget=60 reach=answered bound="4 (thorough 5) steps on a dialed or an accepted connection: a send or request without identifier, a ping, or a heartbeat request to answer (without identifier, under the one of a message the connection sent before, or under one that repeats, its number at least 2^27; bodies of 2 arbitrary bytes)"
func IdKinds() {
	hnet.Rand()
	c := hnet.New("tx")
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	var k transport.Conn
	if sym.Choose("accepted", 2) == 0 {
		cl := connect(c, transport.Config{}, nil)
		go cl.Wait()
		k = cl
	} else {
		l := hnet.NewListener()
		s, err := transport.Listen(l, transport.ServerConfig{MessageCallback: func(conn transport.Conn, m *transport.ByteArrayMessage) { k = conn }})
		sym.Assert(err == nil, "Listen fails")
		go s.Serve()
		l.Put(c)
		c.Feed(good(1, nil))
		sym.Quiesce()
		sym.Assert(k != nil, "a message is not delivered")
	}
	index := sym.U32("index")
	sym.Assume(index >= 1<<27)
	n := sym.Tier(4, 5)
	for i := 0; i < n; i++ {
		switch op := sym.Choose("op", 6); op {
		case 0, 1:
			m := &transport.Message{}
			m.Headers.Actor = transport.MessageActorTypeFM
			if op == 0 {
				k.SendOneWay(m)
			} else {
				k.RequestReply(ctx, m)
			}
		case 2:
			k.Ping(ctx)
		default:
			hs := []hnet.Hdr{{Id: hnet.HActor, Data: hnet.ActorV(1)}, {Id: hnet.HAction, Data: hnet.ActionV("HeartbeatRequest")}}
			switch op {
			case 4:
				fs, _ := hnet.Parse(c.Out())
				hs = append(hs, hnet.Hdr{Id: hnet.HId, Data: fs[len(fs)-1].Get(hnet.HId)[0]})
			case 5:
				hs = append(hs, hnet.Hdr{Id: hnet.HId, Data: hnet.IdV(1, 2, 3, [8]byte{4}, index)})
			}
			sym.Reach("answered")
			c.Feed(hnet.Frame(hnet.Hdrs(hs...), sym.Bytes("body", 2), false))
			sym.Quiesce()
		}
	}
	fs, ok := hnet.Parse(c.Out())
	sym.Assert(ok && len(fs) == n+1, "not every message was written exactly once")
	empty := refId(transport.MessageId{})
	for i, f := range fs {
		g := f.Get(hnet.HId)
		sym.Assert(len(g) == 1 && !sym.BytesEq(g[0], empty), "a message has no identifier")
		for _, o := range fs[:i] {
			sym.Assert(!sym.BytesEq(o.Get(hnet.HId)[0], g[0]), "two generated identifiers are equal")
		}
	}
}

func eqVal(a, b interface{}) bool {
	x, ok := a.([]byte)
	y, ok2 := b.([]byte)
	return ok && ok2 && sym.BytesEq(x, y)
}

//verif:harness prop=C16 budget=90 tbudget=300 bound="4 (thorough 5) operations on 2 header types: set one value, append 0 to 3 values; values of 0 to 1 arbitrary bytes; then read, send and read at the receiver; every map order"
func CustomOps() {
	hnet.Rand()
	sym.MapOrder(true)
	m := &transport.Message{}
	m.Headers.Id = mid(1)
	m.Headers.Actor = transport.MessageActorTypeFM
	types := []transport.MessageHeaderIdType{custom, custom2}
	var model [2][][]byte
	for k := 0; k < sym.Tier(4, 5); k++ {
		op := sym.Choose("op", 9)
		if op == 8 {
			break
		}
		t, op := op%2, op/2
		if op == 0 {
			v := sym.Bytes("v", 1)
			ok := m.Headers.SetCustomHeader(types[t], v)
			sym.Assert(ok == (len(model[t]) == 0), "SetCustomHeader does not tell whether it stored the value")
			if len(model[t]) == 0 {
				model[t] = [][]byte{v}
			}
			continue
		}
		var vs []interface{}
		for i := 0; i < op; i++ {
			v := sym.Bytes("v", 1-i/2)
			vs = append(vs, v)
			model[t] = append(model[t], v)
		}
		m.Headers.AppendCustomHeader(types[t], vs...)
	}
	check := func(h *transport.MessageHeaders, where string) {
		for t, typ := range types {
			got := h.GetCustomHeaders(typ)
			sym.Assert(len(got) == len(model[t]), "values of a custom header were lost or added"+where)
			for i, v := range got {
				sym.Assert(eqVal(v, model[t][i]), "values of a custom header changed"+where)
			}
			f, ok := h.GetFirstCustomHeader(typ)
			sym.Assert(ok == (len(model[t]) > 0), "GetFirstCustomHeader does not tell whether there is a value"+where)
			if ok {
				sym.Assert(eqVal(f, model[t][0]), "GetFirstCustomHeader returns another value than the first"+where)
			}
		}
	}
	check(&m.Headers, "")
	s := sent(transport.Config{}, m)
	fs, ok := hnet.Parse(s)
	sym.Assert(ok && len(fs) == 1, "what was written is not one frame")
	for t, typ := range types {
		g := fs[0].Get(uint16(typ))
		sym.Assert(len(g) == len(model[t]), "values of a custom header were lost or added on the wire")
		for i, v := range g {
			sym.Assert(sym.BytesEq(v, model[t][i]), "values of a custom header changed on the wire")
		}
	}
	msgs, _ := receive(transport.Config{}, s)
	sym.Assert(len(msgs) == 1, "the message was not delivered exactly once")
	check(&msgs[0].Headers, " on the way")
}

type typedHeader struct {
	A uint32
	B bool
	S string
}

//verif:harness prop=C16 budget=60 bound="1 to 3 struct values (32-bit number, flag, ASCII character) of a header type with or without a registered decoder, raw values of another type in between; every map order"
func CustomTyped() {
	hnet.Rand()
	sym.MapOrder(true)
	const typed = transport.MessageHeaderIdType(0x2222)
	reg := sym.Choose("registered", 2) == 1
	made := 0
	if reg {
		transport.RegisterHeaderActivator(typed, func() interface{} { made++; return &typedHeader{A: 99, S: "old"} })
	}
	m := &transport.Message{Body: []byte{7}}
	m.Headers.Id = mid(1)
	m.Headers.Actor = transport.MessageActorTypeFM
	n := 1 + sym.Choose("n", 3)
	var vals []*typedHeader
	for i := 0; i < n; i++ {
		s := sym.Str("s", 1)
		sym.Assume(s[0] < 0x80)
		v := &typedHeader{A: sym.U32("a"), B: sym.Bool("b"), S: s}
		if i > 0 {
			sym.Assume(v.A < 64)
		}
		vals = append(vals, v)
		m.Headers.AppendCustomHeader(typed, v)
		m.Headers.AppendCustomHeader(custom, []byte{byte(i)})
	}
	msgs, _ := receive(transport.Config{}, sent(transport.Config{}, m))
	sym.Assert(len(msgs) == 1 && sym.BytesEq(msgs[0].Body, []byte{7}), "the message was not delivered exactly once")
	h := &msgs[0].Headers
	got, raws := h.GetCustomHeaders(typed), h.GetCustomHeaders(custom)
	sym.Assert(len(got) == n && len(raws) == n, "values of a custom header were lost or added on the way")
	for i, v := range vals {
		sym.Assert(eqVal(raws[i], []byte{byte(i)}), "values of a custom header changed on the way")
		if reg {
			d, ok := got[i].(*typedHeader)
			sym.Assert(ok, "a header with a decoder was not decoded")
			sym.Assert(sym.And(d.A == v.A, sym.Iff(d.B, v.B), d.S == v.S), "values of a custom header changed on the way")
		} else {
			want := href.Obj(href.U(href.UInt32, uint64(v.A)), href.BoolV(v.B), href.Ascii(v.S))
			sym.Assert(eqVal(got[i], want), "a header without a decoder is not passed as raw bytes")
		}
	}
	_ = made
}
