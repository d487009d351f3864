// Package htrans checks the transport package.
package htrans

import (
	"sync"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// inbox records what a message callback gets.
type inbox struct {
	mu   sync.Mutex
	msgs []*transport.ByteArrayMessage
}

func (i *inbox) cb(c transport.Conn, m *transport.ByteArrayMessage) {
	i.mu.Lock()
	defer i.mu.Unlock()
	i.msgs = append(i.msgs, m)
}

func (i *inbox) all() []*transport.ByteArrayMessage {
	i.mu.Lock()
	defer i.mu.Unlock()
	return append([]*transport.ByteArrayMessage(nil), i.msgs...)
}

func connect(c *hnet.Conn, cfg transport.Config, cb transport.MessageCallback) *transport.Client {
	cl, err := transport.Connect(c, transport.ClientConfig{Config: cfg, MessageCallback: cb})
	sym.Assert(err == nil, "connecting over a working connection fails")
	return cl
}

// receive runs a receive loop over a byte stream, cut as given, and returns
// what its callback got and what Wait returned.
func receive(cfg transport.Config, segs ...[]byte) ([]*transport.ByteArrayMessage, error) {
	c := hnet.New("rx")
	var in inbox
	cl := connect(c, cfg, in.cb)
	c.Feed(segs...)
	c.End(nil)
	err := cl.Wait()
	sym.Assert(err != nil, "the receive loop ended without an error at the end of the stream")
	return in.all(), err
}

// sent returns the bytes one client writes for the messages, after its
// greeting.
func sent(cfg transport.Config, ms ...*transport.Message) []byte {
	c := hnet.New("tx")
	cl := connect(c, cfg, nil)
	n := len(c.Out())
	for _, m := range ms {
		sym.Assert(cl.SendOneWay(m) == nil, "a send over a working connection fails")
	}
	return c.Out()[n:]
}

func guid(n byte) serialization.GUID {
	return serialization.GUID{Data1: 0x01020300 + uint32(n), Data2: 0x0405, Data3: 0x4607, Data4: [8]byte{0x88, 9, 10, 11, 12, 13, 14, n}}
}

func mid(n byte) transport.MessageId {
	return transport.MessageId{Id: guid(n), Index: uint32(n)}
}

func anyGuid(name string) serialization.GUID {
	g := serialization.GUID{Data1: sym.U32(name + ".1"), Data2: sym.U16(name + ".2"), Data3: sym.U16(name + ".3")}
	copy(g.Data4[:], sym.Bytes(name+".4", 8))
	return g
}

func anyId(name string) transport.MessageId {
	return transport.MessageId{Id: anyGuid(name), Index: sym.U32(name + ".index")}
}

func eqId(a, b transport.MessageId) bool {
	return sym.And(a.Id.Data1 == b.Id.Data1, a.Id.Data2 == b.Id.Data2, a.Id.Data3 == b.Id.Data3,
		sym.BytesEq(a.Id.Data4[:], b.Id.Data4[:]), a.Index == b.Index)
}

func refId(m transport.MessageId) []byte {
	return hnet.IdV(m.Id.Data1, m.Id.Data2, m.Id.Data3, m.Id.Data4, m.Index)
}

func boolEq(a, b bool) bool { return sym.Iff(a, b) }

// sameHeaders compares the built-in headers.
func sameHeaders(got, want *transport.MessageHeaders) bool {
	return sym.And(eqId(got.Id, want.Id), eqId(got.RelatesTo, want.RelatesTo),
		got.Actor == want.Actor, got.Action == want.Action,
		boolEq(got.ExpectsReply, want.ExpectsReply), boolEq(got.HighPriority, want.HighPriority), boolEq(got.Idempotent, want.Idempotent),
		got.ErrorCode == want.ErrorCode, boolEq(got.HasFaultBody, want.HasFaultBody), got.RetryCount == want.RetryCount)
}

func checkOne(msgs []*transport.ByteArrayMessage, want *transport.MessageHeaders, body []byte) {
	sym.Assert(len(msgs) == 1, "the message was not delivered exactly once")
	sym.Assert(sameHeaders(&msgs[0].Headers, want), "the headers changed on the way")
	sym.Assert(sym.BytesEq(msgs[0].Body, body), "the body changed on the way")
}
