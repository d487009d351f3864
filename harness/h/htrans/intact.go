package htrans

import (
	"errors"
	"io"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

func config() transport.Config {
	// every combination under which writer and reader agree
	switch sym.Choose("config", 3) {
	case 1:
		return transport.Config{CheckFrameBodyCRC: true, GenerateFrameBodyCRC: true}
	case 2:
		return transport.Config{DisableCheckFrameHeaderCRC: true, DisableGenerateFrameHeaderCRC: true}
	}
	return transport.Config{}
}

//verif:harness prop=C07 budget=40 bound="one message; identifier and related identifier arbitrary (2 x 160 bits), 4-byte body"
func IntactIds() {
	hnet.Rand()
	m := &transport.Message{}
	m.Headers.Actor = transport.MessageActorTypeNamingGateway
	m.Headers.Action = "a"
	if sym.Choose("which", 2) == 0 {
		m.Headers.Id = anyId("id")
		m.Headers.RelatesTo = mid(9)
		sym.Assume(!eqId(m.Headers.Id, transport.MessageId{}))
	} else {
		m.Headers.Id = mid(1)
		m.Headers.RelatesTo = anyId("relates")
	}
	body := sym.Bytes("body", 4)
	m.Body = append([]byte(nil), body...)
	want := m.Headers
	msgs, _ := receive(transport.Config{}, sent(transport.Config{}, m))
	checkOne(msgs, &want, body)
}

//verif:harness prop=C07 budget=60 bound="one message; one of actor (not the transport's own), error code, retry count (not negative) arbitrary (64/64/32 bits)"
func IntactNumbers() {
	hnet.Rand()
	m := &transport.Message{}
	m.Headers.Id = mid(1)
	m.Headers.Actor = transport.MessageActorTypeNamingGateway
	switch sym.Choose("which", 3) {
	case 0:
		m.Headers.Actor = transport.MessageActorType(sym.I64("actor"))
		sym.Assume(m.Headers.Actor != transport.MessageActorTypeTransport)
	case 1:
		m.Headers.ErrorCode = transport.FabricErrorCode(sym.I64("error"))
		m.Headers.HasFaultBody = sym.Bool("faultbody")
	case 2:
		m.Headers.RetryCount = sym.I32("retry")
		sym.Assume(m.Headers.RetryCount >= 0)
	}
	want := m.Headers
	cfg := config()
	msgs, _ := receive(cfg, sent(cfg, m))
	checkOne(msgs, &want, nil)
}

//verif:harness prop=C07 budget=60 tbudget=300 bound="one message; all 5 flags, action of 0 to 2 (thorough 3) ASCII characters, body of 0 to 6 (thorough 24) arbitrary bytes"
func IntactFlags() {
	hnet.Rand()
	m := &transport.Message{}
	m.Headers.Id = mid(1)
	m.Headers.Actor = transport.MessageActorTypeFM
	m.Headers.ExpectsReply = sym.Bool("expects")
	m.Headers.HighPriority = sym.Bool("high")
	m.Headers.Idempotent = sym.Bool("idempotent")
	m.Headers.HasFaultBody = sym.Bool("fault")
	n := sym.Choose("actionlen", sym.Tier(3, 4))
	a := sym.Str("action", n)
	for i := 0; i < n; i++ {
		sym.Assume(a[i] < 0x80)
	}
	m.Headers.Action = a
	body := sym.Bytes("body", []int{0, 1, sym.Tier(6, 24)}[sym.Choose("bodylen", 3)])
	m.Body = append([]byte(nil), body...)
	want := m.Headers
	msgs, _ := receive(transport.Config{}, sent(transport.Config{}, m))
	checkOne(msgs, &want, body)
}

type payload struct {
	A uint32
	B string
	C []byte
}

//verif:harness prop=C07,C02 budget=30 bound="one message without body, with bytes, with a struct (32-bit field, 2 ASCII characters, 2 bytes)"
func IntactBody() {
	hnet.Rand()
	m := &transport.Message{}
	m.Headers.Id = mid(1)
	m.Headers.Actor = transport.MessageActorTypeFM
	var want []byte
	switch sym.Choose("kind", 3) {
	case 1:
		want = sym.Bytes("body", 3)
		m.Body = want
	case 2:
		s := sym.Str("text", 2)
		sym.Assume(sym.And(s[0] < 0x80, s[1] < 0x80))
		p := payload{A: sym.U32("a"), B: s, C: sym.Bytes("c", 2)}
		want = href.Obj(href.U(href.UInt32, uint64(p.A)), href.Ascii(s), []byte{href.Array | href.UChar, 2}, href.B(href.UChar, p.C[0]), href.B(href.UChar, p.C[1]))
		m.Body = &p
	}
	h := m.Headers
	msgs, _ := receive(transport.Config{}, sent(transport.Config{}, m))
	checkOne(msgs, &h, want)
}

func threeMessages() (ms []*transport.Message, bodies [][]byte) {
	for i := 0; i < 3; i++ {
		m := &transport.Message{}
		m.Headers.Id = mid(byte(i + 1))
		m.Headers.Actor = transport.MessageActorTypeFM
		b := sym.Bytes("body", 2*i)
		bodies = append(bodies, b)
		m.Body = b
		ms = append(ms, m)
	}
	return
}

func checkThree(msgs []*transport.ByteArrayMessage, bodies [][]byte) {
	sym.Assert(len(msgs) == 3, "not every message arrived exactly once")
	for i, m := range msgs {
		sym.Assert(eqId(m.Headers.Id, mid(byte(i+1))), "messages changed their order")
		sym.Assert(sym.And(m.Headers.Actor == transport.MessageActorTypeFM, sym.BytesEq(m.Body, bodies[i])), "a message changed on the way")
	}
}

//verif:harness prop=C07 budget=60 tbudget=300 bound="3 messages with bodies of 0, 2 and 4 arbitrary bytes; the stream cut at any two places less than 4 (thorough 80) bytes apart, the end of the stream glued to the last bytes or not"
func Segments() {
	hnet.Rand()
	ms, bodies := threeMessages()
	s := sent(transport.Config{}, ms...)
	i := sym.Choose("cut", len(s))
	j := i + sym.Choose("cut2", sym.Tier(4, 80))
	if j > len(s) {
		j = len(s)
	}
	c := hnet.New("rx")
	c.Glued = sym.Choose("glued", 2) == 1
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	c.Feed(s[:i], s[i:j], s[j:])
	c.End(nil)
	sym.Assert(cl.Wait() != nil, "the receive loop ended without an error")
	checkThree(in.all(), bodies)
}

//verif:harness prop=C07 budget=30 bound="3 messages; reads of at most 1 to 16 bytes, the whole stream in one piece"
func SmallReads() {
	hnet.Rand()
	ms, bodies := threeMessages()
	s := sent(transport.Config{}, ms...)
	k := 1 + sym.Choose("max", 16)
	c := hnet.New("rx")
	c.OnRead = func(n int) int {
		if n > k {
			return k
		}
		return n
	}
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	c.Feed(s)
	c.End(nil)
	cl.Wait()
	checkThree(in.all(), bodies)
}

//verif:harness prop=C07,C09 budget=60 bound="3 messages, the stream broken off at any place by an end of file or another error"
func BrokenOff() {
	hnet.Rand()
	ms, bodies := threeMessages()
	s := sent(transport.Config{}, ms...)
	one := len(sent(transport.Config{}, ms[0]))
	two := one + len(sent(transport.Config{}, ms[1]))
	i := sym.Choose("cut", len(s))
	c := hnet.New("rx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	c.Feed(s[:i])
	bad := errors.New("reset")
	if sym.Choose("err", 2) == 1 {
		c.End(bad)
	} else {
		c.End(io.EOF)
	}
	err := cl.Wait()
	sym.Assert(err != nil, "the receive loop ended without an error")
	n := 0
	if i >= one {
		n++
	}
	if i >= two {
		n++
	}
	got := in.all()
	sym.Assert(len(got) == n, "other than the whole frames were delivered")
	for k, m := range got {
		sym.Assert(sym.BytesEq(m.Body, bodies[k]), "a message changed on the way")
	}
	sym.Assert(c.Closed(), "the connection is not closed after a failed read")
}

//verif:harness prop=C07 budget=30 bound="3 sends and a request, the 1st to 5th write fails, for good, temporarily or otherwise, after taking 0, 1, 20 or all but 1 bytes"
func WriteFails() {
	hnet.Rand()
	c := hnet.New("tx")
	c.FailWrite, c.WriteErr = 1+sym.Choose("fails", 6), hnet.WriteErrs[sym.Choose("kind of error", 3)]
	part := sym.Choose("part", 4)
	failed := 0
	c.OnWrite = func(n int, b []byte) {
		if n >= c.FailWrite {
			failed++
			c.Part = []int{0, 1, 20, len(b) - 1}[part]
		}
	}
	cl, err := transport.Connect(c, transport.ClientConfig{})
	sym.Assert((err != nil) == (failed > 0), "Connect does not report the failed write of its greeting")
	if err != nil {
		return
	}
	ms, _ := threeMessages()
	for _, m := range ms {
		before := failed
		err := cl.SendOneWay(m)
		if failed > before {
			sym.Reach("failed")
			sym.Assert(err != nil, "a send whose write failed reports success")
		} else if before == 0 {
			sym.Assert(err == nil, "a send over a working connection fails")
		}
	}
}

//verif:harness prop=C07 budget=60 bound="a client and a server exchange 2 messages each way, bodies of 3 arbitrary bytes; callbacks of the server in any order"
func ClientServer() {
	hnet.Rand()
	sym.AllOrders(true)
	a, b := hnet.Pair()
	l := hnet.NewListener()
	var atServer, atClient inbox
	body := [][]byte{sym.Bytes("body", 3), sym.Bytes("body", 3)}
	srv, err := transport.Listen(l, transport.ServerConfig{MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		atServer.cb(c, m)
		r := &transport.Message{Body: m.Body}
		r.Headers.Id = m.Headers.Id
		r.Headers.Id.Index += 10
		r.Headers.Actor = m.Headers.Actor
		sym.Assert(c.SendOneWay(r) == nil, "a send over a working connection fails")
	}})
	sym.Assert(err == nil, "Listen fails")
	go srv.Serve()
	l.Put(b)
	cl := connect(a, transport.Config{}, atClient.cb)
	go cl.Wait()
	for i := range body {
		m := &transport.Message{Body: body[i]}
		m.Headers.Id = mid(byte(i))
		m.Headers.Actor = transport.MessageActorTypeFM
		sym.Assert(cl.SendOneWay(m) == nil, "a send over a working connection fails")
	}
	sym.Quiesce()
	for _, in := range []*inbox{&atServer, &atClient} {
		var off uint32
		if in == &atClient {
			off = 10
		}
		var seen [2]int
		for _, m := range in.all() {
			for i := range body {
				if m.Headers.Id.Index == uint32(i)+off {
					seen[i]++
					sym.Assert(sym.BytesEq(m.Body, body[i]), "a message changed on the way")
				}
			}
		}
		sym.Assert(seen == [2]int{1, 1} && len(in.all()) == 2, "not every message arrived exactly once")
	}
}
