package htrans

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// reply is a frame of an application message that relates to id.
func reply(own byte, relates transport.MessageId, body []byte) []byte {
	hs := []hnet.Hdr{
		{Id: hnet.HId, Data: refId(mid(own))},
		{Id: hnet.HActor, Data: hnet.ActorV(11)}}
	if relates != (transport.MessageId{}) {
		hs = append(hs, hnet.Hdr{Id: hnet.HRelates, Data: refId(relates)})
	}
	return hnet.Frame(hnet.Hdrs(hs...), body, false)
}

func request(id transport.MessageId) *transport.Message {
	m := &transport.Message{Body: []byte{1}}
	m.Headers.Id = id
	m.Headers.Actor = transport.MessageActorTypeFM
	return m
}

// call is a request in flight.
type call struct {
	done  chan struct{}
	reply *transport.ByteArrayMessage
	err   error
}

func start(cl transport.Conn, ctx context.Context, m *transport.Message) *call {
	c := &call{done: make(chan struct{})}
	go func() {
		c.reply, c.err = cl.RequestReply(ctx, m)
		close(c.done)
	}()
	return c
}

func (c *call) returned() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

var errOut = errors.New("out of time")

// anyTwoIds returns two identifiers with one GUID and any different indices.
func anyTwoIds() (a, b transport.MessageId) {
	a, b = mid(1), mid(1)
	a.Index, b.Index = sym.U32("index"), sym.U32("index")
	sym.Assume(a.Index != b.Index)
	return
}

// twoIds returns two identifiers with one GUID and different indices, among
// 2^16 each, that take the same room.
func twoIds() (a, b transport.MessageId) {
	a, b = mid(1), mid(1)
	a.Index, b.Index = 1<<24+uint32(sym.U16("index")), 1<<24+uint32(sym.U16("index"))
	sym.Assume(a.Index != b.Index)
	return
}

//verif:harness prop=C12 budget=90 tbudget=300 reach=answered,passed bound="3 requests in flight; 4 incoming messages, each relating to any of the requests, to an unknown identifier or to none; bodies of 2 arbitrary bytes"
func Replies() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	ctx, cancel := context.WithCancel(context.Background())
	ids := []transport.MessageId{mid(1), mid(2), mid(1)}
	ids[2].Index = 77 // differs from the first by the index only
	var calls []*call
	for _, id := range ids {
		calls = append(calls, start(cl, ctx, request(id)))
	}
	sym.Quiesce()
	unknown := mid(2)
	unknown.Id.Data4[7]++
	targets := append(append([]transport.MessageId(nil), ids...), unknown, transport.MessageId{})
	go cl.Wait()
	var first [3]int
	var rest, all []int
	var bodies [][]byte
	for k := 0; k < 4; k++ {
		t := sym.Choose("relates", len(targets))
		all = append(all, t)
		bodies = append(bodies, sym.Bytes("body", 2))
		if t < 3 && first[t] == 0 {
			first[t] = k + 1
		} else {
			rest = append(rest, k)
		}
		c.Feed(reply(byte(100+k), targets[t], bodies[k]))
	}
	sym.Quiesce()
	for i, cc := range calls {
		sym.Assert(cc.returned() == (first[i] > 0), "a request returned without its reply, or not at all")
		if first[i] > 0 {
			sym.Reach("answered")
			k := first[i] - 1
			sym.Assert(cc.err == nil && cc.reply != nil, "a request with a reply failed")
			sym.Assert(eqId(cc.reply.Headers.Id, mid(byte(100+k))), "a request received a reply other than its own")
			sym.Assert(sym.And(eqId(cc.reply.Headers.RelatesTo, ids[i]), sym.BytesEq(cc.reply.Body, bodies[k])), "the reply changed on the way")
		}
	}
	got := in.all()
	sym.Assert(len(got) == len(rest), "a message without a request was not delivered exactly once, or a reply was delivered twice")
	for j, k := range rest {
		sym.Reach("passed")
		sym.Assert(eqId(got[j].Headers.Id, mid(byte(100+k))), "messages without a request changed their order")
		sym.Assert(sym.BytesEq(got[j].Body, bodies[k]), "a message changed on the way")
	}
	cancel()
	sym.Quiesce()
	for i, cc := range calls {
		sym.Assert(cc.returned(), "a cancelled request does not return")
		if first[i] == 0 {
			sym.Assert(cc.err != nil && cc.reply == nil, "a cancelled request succeeded")
		}
	}
}

//verif:harness prop=C12 budget=60 reach=match,other bound="one request with an arbitrary identifier (160 bits), one incoming message relating to an arbitrary identifier (160 bits)"
func ReplyMatch() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	id, rel := anyId("id"), mid(3)
	id.Id.Data4 = guid(3).Data4
	id.Id.Data4[6] = sym.U8("id.byte")
	sym.Assume(!eqId(id, transport.MessageId{}))
	if sym.Choose("sym", 2) == 0 {
		rel = anyId("rel")
		id = mid(3)
		if sym.Choose("zeroindex", 2) == 1 {
			id.Index = 0
		}
	}
	cc := start(cl, context.Background(), request(id))
	sym.Quiesce()
	go cl.Wait()
	body := sym.Bytes("body", 1)
	c.Feed(hnet.Frame(hnet.Hdrs(hnet.Hdr{Id: hnet.HActor, Data: hnet.ActorV(5)}, hnet.Hdr{Id: hnet.HRelates, Data: refId(rel)}), body, false))
	sym.Quiesce()
	if cc.returned() {
		sym.Reach("match")
		sym.Assert(cc.err == nil && eqId(id, rel), "a request received a reply other than its own")
		sym.Assert(sym.BytesEq(cc.reply.Body, body), "the reply changed on the way")
		sym.Assert(len(in.all()) == 0, "a reply was delivered twice")
	} else {
		sym.Reach("other")
		sym.Assert(!eqId(id, rel), "a request misses its reply")
		sym.Assert(len(in.all()) == 1, "a message without a request was not delivered exactly once")
	}
}

//verif:harness prop=C12,C13 budget=120 tbudget=600 bound="2 overlapping requests with any two identifiers that differ in their index (16 bits each) whose replies arrive in either order, the second possibly cancelled at any moment; every schedule with at most 2 (thorough 3) preemptions"
func ReplyRaces() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	order := sym.Choose("order", 2)
	cancels := sym.Choose("cancel", 2) == 1
	bodies := [][]byte{sym.Bytes("body", 1), sym.Bytes("body", 1)}
	// the peer answers what it sees
	id0, id1 := twoIds()
	ids := []transport.MessageId{id0, id1}
	waiting := make(chan struct{}, 2)
	c.OnWrite = func(n int, b []byte) {
		if n > 1 {
			waiting <- struct{}{}
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	go cl.Wait()
	sym.Preempt(sym.Tier(2, 3))
	c0 := start(cl, context.Background(), request(ids[0]))
	c1 := start(cl, ctx, request(ids[1]))
	go func() {
		<-waiting
		<-waiting
		c.Feed(reply(byte(100+order), ids[order], bodies[order]), reply(byte(101-order), ids[1-order], bodies[1-order]))
	}()
	if cancels {
		cancel()
	}
	sym.Quiesce()
	sym.Preempt(0)
	cancel()
	for i, cc := range []*call{c0, c1} {
		sym.Assert(cc.returned(), "a request does not return")
		if cc.err == nil {
			sym.Assert(eqId(cc.reply.Headers.Id, mid(byte(100+i))) && sym.BytesEq(cc.reply.Body, bodies[i]), "a request received a reply other than its own")
		} else {
			sym.Assert(i == 1 && cancels, "a request failed although its reply arrived")
			sym.Assert(cc.reply == nil, "a reply together with an error")
		}
	}
	// a reply nobody waits for goes to the callback, no other one does
	for _, m := range in.all() {
		sym.Assert(cancels && eqId(m.Headers.RelatesTo, ids[1]) && c1.err != nil, "a reply was delivered twice")
	}
	// the receive loop is alive
	n := len(in.all())
	c.Feed(reply(9, transport.MessageId{}, nil))
	sym.Quiesce()
	sym.Assert(len(in.all()) == n+1, "the receive loop is stuck")
}

//verif:harness prop=C13 budget=120 tbudget=600 bound="2 requests with any two identifiers that differ in their index (16 bits each); their replies, the end of the stream, a cancellation and 2 concurrent closes race; every schedule with at most 2 (thorough 3) preemptions"
func CloseRaces() {
	hnet.Rand()
	c := hnet.New("tx")
	cl := connect(c, transport.Config{}, nil)
	ctx, cancel := context.WithCancel(context.Background())
	loop := make(chan struct{})
	kind := sym.Choose("kind", 5)
	id0, id1 := twoIds()
	sym.Preempt(sym.Tier(2, 3))
	go func() { cl.Wait(); close(loop) }()
	c0 := start(cl, context.Background(), request(id0))
	c1 := start(cl, ctx, request(id1))
	closed := make(chan struct{}, 2)
	var r0 bool
	switch kind {
	case 0: // closing twice
		for i := 0; i < 2; i++ {
			go func() { cl.Close(); closed <- struct{}{} }()
		}
		<-closed
		<-closed
	case 1: // the stream ends while a reply arrives
		c.Feed(reply(100, id0, nil))
		c.End(nil)
	case 2: // closing against replies
		c.Feed(reply(100, id0, nil), reply(101, id1, nil))
		cl.Close()
	case 3: // cancelling against its reply, then closing
		c.Feed(reply(101, id1, nil))
		cancel()
		go func() { cl.Close(); closed <- struct{}{} }()
		<-closed
	case 4: // a malformed frame
		r0 = true
		c.Feed(reply(100, id0, nil), hnet.Head(3, 0, 0, 0, 0))
	}
	sym.Quiesce()
	sym.Preempt(0)
	cancel()
	sym.Assert(c0.returned() && c1.returned(), "a request does not return although its connection is closed")
	for i, cc := range []*call{c0, c1} {
		if cc.err == nil {
			sym.Assert(cc.reply != nil && kind != 0, "a request without a reply succeeded")
			sym.Assert(eqId(cc.reply.Headers.RelatesTo, []transport.MessageId{id0, id1}[i]), "a request received a reply other than its own")
		} else {
			sym.Assert(cc.reply == nil, "a reply together with an error")
		}
	}
	_ = r0
	select {
	case <-loop:
	default:
		sym.Fail("the receive loop does not return although the connection is closed")
	}
	sym.Assert(c.Closed(), "the connection is not closed")
	cl.Close()
	// later requests fail at once
	c2 := start(cl, context.Background(), request(id0))
	sym.Quiesce()
	sym.Assert(c2.returned() && c2.err != nil, "a request on a closed connection does not fail")
}

//verif:harness prop=C13 budget=90 bound="requests with any two identifiers that differ in their index (32 bits each), one whose context has a deadline, is cancelled before or while waiting, or whose write fails after 0, 5 or all but one bytes; then its late reply, other requests and their replies"
func CancelOrFail() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	go cl.Wait()
	ctx, cancel := context.WithCancel(context.Background())
	want := context.Canceled
	failed := false
	kind := sym.Choose("kind", 5)
	id0, id1 := anyTwoIds()
	var cc *call
	switch kind {
	case 0:
		cancel()
		cc = start(cl, ctx, request(id0))
	case 1:
		cc = start(cl, ctx, request(id0))
		sym.Quiesce()
		sym.Assert(!cc.returned(), "a request without a reply returned")
		cancel()
	case 2:
		ctx, cancel = context.WithTimeout(context.Background(), 20*time.Millisecond)
		want = context.DeadlineExceeded
		cc = start(cl, ctx, request(id0))
		time.Sleep(50 * time.Millisecond)
	case 3, 4:
		failed = true
		part := sym.Choose("part", 3)
		c.FailWrite, c.WriteErr = 2, hnet.WriteErrs[sym.Choose("kind of error", 3)]
		c.OnWrite = func(n int, b []byte) { c.Part = []int{0, 5, len(b) - 1}[part] }
		cc = start(cl, ctx, request(id0))
	}
	sym.Quiesce()
	sym.Assert(cc.returned() && cc.err != nil && cc.reply == nil, "a request that was cancelled or not sent does not return an error")
	if !failed {
		sym.Assert(errors.Is(cc.err, want), "a cancelled request does not return its context's error")
	}
	c.FailWrite = 0
	// its late reply is a message like any other, and others are unaffected
	c2 := start(cl, context.Background(), request(id1))
	body := sym.Bytes("body", 2)
	sym.Quiesce()
	c.Feed(reply(100, id0, body), reply(102, id1, body))
	sym.Quiesce()
	sym.Assert(c2.returned() && c2.err == nil && sym.BytesEq(c2.reply.Body, body), "a request after a cancelled one fails")
	sym.Assert(len(in.all()) == 1 && eqId(in.all()[0].Headers.Id, mid(100)), "a reply without a request was not delivered once")
	// a new request may use the identifier again
	c3 := start(cl, context.Background(), request(id0))
	sym.Quiesce()
	sym.Assert(!c3.returned(), "a request without a reply returned")
	c.Feed(reply(103, id0, body))
	sym.Quiesce()
	sym.Assert(c3.returned() && c3.err == nil, "a request reusing an identifier fails")
	sym.Assert(cl.Close() == nil, "closing fails")
	cl.Close()
	cancel()
}

//verif:harness prop=C13,C07 budget=60 bound="messages and replies arriving while the callback closes the connection, sends a request, or panics are none; 3 incoming messages"
func CallbackCloses() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	closeAt := sym.Choose("close", 4)
	cl := connect(c, transport.Config{}, func(cn transport.Conn, m *transport.ByteArrayMessage) {
		in.cb(cn, m)
		if len(in.all()) == closeAt {
			cn.Close()
		}
	})
	cc := start(cl, context.Background(), request(mid(1)))
	sym.Quiesce()
	c.Feed(reply(1, transport.MessageId{}, nil), reply(2, transport.MessageId{}, nil), reply(3, transport.MessageId{}, nil))
	done := make(chan error, 1)
	go func() { done <- cl.Wait() }()
	sym.Quiesce()
	if closeAt > 0 {
		select {
		case err := <-done:
			sym.Assert(err != nil, "the receive loop ended without an error")
		default:
			sym.Fail("the receive loop does not return although the connection is closed")
		}
		sym.Assert(cc.returned() && cc.err != nil, "a request does not return although its connection is closed")
	} else {
		sym.Assert(len(in.all()) == 3, "not every message arrived")
	}
}

//verif:harness prop=C13 budget=60 tbudget=300 sched=1 bound="2 goroutines putting requests in and 2 closing or feeding one RequestTable; every schedule with at most 3 (thorough 4) preemptions"
func Table() {
	var rt transport.RequestTable
	m := request(mid(1))
	sym.Preempt(sym.Tier(3, 4))
	p := rt.Put(m)
	var wg sync.WaitGroup
	wg.Add(3)
	r := &transport.ByteArrayMessage{}
	r.Headers.RelatesTo = mid(1)
	fed := false
	go func() { fed = rt.Feed(r); wg.Done() }()
	go func() { p.Close(); wg.Done() }()
	go func() { rt.Close(); wg.Done() }()
	got, err := p.Wait(context.Background())
	wg.Wait()
	sym.Preempt(0)
	sym.Assert((got != nil) == (err == nil), "a reply together with an error, or neither")
	if got != nil {
		sym.Assert(fed && got == r, "another reply than the one fed")
	}
	sym.Assert(!rt.Feed(r), "a reply without a request was taken")
	p.Close()
	rt.Close()
}

//verif:harness prop=C13,C12 budget=60 reach=answered bound="2 requests in flight with one identifier; either cancelled or not, in either order; 0 to 2 replies; then the connection is closed; the same through a RequestTable alone"
func SameId() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	loop := make(chan error, 1)
	go func() { loop <- cl.Wait() }()
	ctx0, cancel0 := context.WithCancel(context.Background())
	ctx1, cancel1 := context.WithCancel(context.Background())
	defer cancel0()
	defer cancel1()
	c0 := start(cl, ctx0, request(mid(1)))
	sym.Quiesce()
	c1 := start(cl, ctx1, request(mid(1)))
	sym.Quiesce()
	gone := sym.Choose("cancel", 3)
	switch gone {
	case 0:
		cancel0()
	case 1:
		cancel1()
	}
	sym.Quiesce()
	sym.Assert((c0.returned() || gone != 0) && (c1.returned() || gone != 1), "a cancelled request does not return")
	sym.Assert(!c1.returned() || gone == 1, "a request fails because another one with its identifier ends")
	n := sym.Choose("replies", 3)
	for i := 0; i < n; i++ {
		c.Feed(reply(byte(100+i), mid(1), []byte{byte(i)}))
	}
	sym.Quiesce()
	if n > 0 && gone != 1 {
		sym.Reach("answered")
		sym.Assert(c1.returned() && c1.err == nil && eqId(c1.reply.Headers.Id, mid(100)), "a request misses its reply")
	}
	took := 0
	for _, x := range []*call{c0, c1} {
		if x.returned() && x.err == nil {
			took++
		}
	}
	sym.Assert(took+len(in.all()) == n, "a reply is not delivered exactly once")
	cl.Close()
	sym.Quiesce()
	sym.Assert(c0.returned() && c1.returned(), "a request does not return although its connection is closed")
	sym.Assert(len(loop) == 1, "the receive loop does not return although the connection is closed")
}
