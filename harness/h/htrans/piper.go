package htrans

import (
	"errors"
	"net"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// pipe is a piper between a client and an upstream server, both played by
// the harness.
type pipe struct {
	l            *hnet.Listener
	client, down *hnet.Conn // the client's end, the piper's
	up, server   *hnet.Conn // the piper's end, the server's
	found        int
	init         *transport.MessageHeaders
	serve        chan error
}

func newPipe(cfg transport.PiperConfig, ucfg transport.Config, fail error) *pipe {
	p := &pipe{l: hnet.NewListener(), serve: make(chan error, 1)}
	p.client, p.down = hnet.Pair()
	p.up, p.server = hnet.Pair()
	cfg.FindUpstream = func(h *transport.MessageHeaders, c net.Conn) (net.Conn, transport.Config, error) {
		p.found++
		p.init = h
		if fail != nil {
			return nil, transport.Config{}, fail
		}
		return p.up, ucfg, nil
	}
	pp, err := transport.NewPiper(p.l, cfg)
	sym.Assert(err == nil, "NewPiper fails")
	go func() { p.serve <- pp.Serve() }()
	p.l.Put(p.down)
	return p
}

// relayed parses what the piper wrote and leaves out its greeting.
func relayed(c *hnet.Conn) []byte {
	fs, ok := hnet.Parse(c.Out())
	sym.Assert(ok && len(fs) > 0, "the byte stream is not a sequence of whole frames")
	return c.Out()[len(fs[0].Raw):]
}

func pipeMessage(i int, arbitrary bool) *transport.Message {
	m := &transport.Message{}
	m.Headers.Id = mid(byte(10 + i))
	m.Headers.Actor = transport.MessageActorType(20 + i)
	if !arbitrary {
		m.Body = []byte("body")[:i]
		return m
	}
	switch i {
	case 0:
		m.Headers.Action = "first"
		m.Headers.HighPriority = sym.Bool("high")
	case 1:
		m.Headers.RelatesTo = anyId("relates")
		m.Headers.AppendCustomHeader(custom, sym.Bytes("h", 1), sym.Bytes("h", 2))
	case 2:
		m.Headers.ExpectsReply = sym.Bool("expects")
		m.Headers.Idempotent = sym.Bool("idem")
		m.Headers.ErrorCode = transport.FabricErrorCode(sym.I8("code"))
		m.Headers.HasFaultBody = sym.Bool("fault")
		m.Headers.RetryCount = int32(sym.U8("retry"))
	}
	m.Body = sym.Bytes("body", i)
	return m
}

func sameMessage(got *transport.ByteArrayMessage, want *transport.Message) {
	sym.Assert(sameHeaders(&got.Headers, &want.Headers), "the piper changed the headers")
	b, _ := want.Body.([]byte)
	sym.Assert(sym.BytesEq(got.Body, b), "the piper changed the body")
	for _, t := range []transport.MessageHeaderIdType{custom, custom2} {
		g, w := got.Headers.GetCustomHeaders(t), want.Headers.GetCustomHeaders(t)
		sym.Assert(len(g) == len(w), "the piper changed the custom headers")
		for i := range g {
			sym.Assert(eqVal(g[i], w[i]), "the piper changed the custom headers")
		}
	}
}

//verif:harness prop=C19 budget=90 bound="3 messages from the client, any one of them with arbitrary related id, flags, error code (8 bits), retry count, custom headers and body, and 2 from the server; 4 combinations of checksum settings; frames cut in two"
func Relay() {
	hnet.Rand()
	sums := sym.Choose("sums", 4)
	// what the client writes and reads, and the server
	ccfg := transport.Config{GenerateFrameBodyCRC: sums&1 != 0, CheckFrameBodyCRC: sums&1 != 0, DisableGenerateFrameHeaderCRC: sums&1 != 0, DisableCheckFrameHeaderCRC: sums&1 != 0}
	scfg := transport.Config{GenerateFrameBodyCRC: sums&2 != 0, CheckFrameBodyCRC: sums&2 != 0}
	p := newPipe(transport.PiperConfig{Config: ccfg}, scfg, nil)
	which := sym.Choose("which", 3)
	var ms, rs []*transport.Message
	for i := 0; i < 3; i++ {
		ms = append(ms, pipeMessage(i, i == which))
	}
	for i := 0; i < 2; i++ {
		r := &transport.Message{Body: sym.Bytes("rbody", 2)}
		r.Headers.Id = mid(byte(30 + i))
		r.Headers.RelatesTo = mid(byte(10 + i))
		r.Headers.Actor = transport.MessageActorTypeFM
		rs = append(rs, r)
	}
	for i := range ms {
		cp := *ms[i]
		f := sent(ccfg, &cp)
		p.client.Write(f[:13])
		p.client.Write(f[13:])
		if i == 0 {
			sym.Quiesce()
			sym.Assert(p.found == 1, "the upstream was not looked up once")
			sym.Assert(sameHeaders(p.init, &ms[0].Headers), "the upstream is looked up with other headers than the first message's")
		}
	}
	for _, r := range rs {
		cp := *r
		p.server.Write(sent(scfg, &cp))
	}
	sym.Quiesce()
	atServer, _ := receive(scfg, relayed(p.up))
	sym.Assert(len(atServer) == 3, "the piper does not relay each message of the client once")
	for i, m := range atServer {
		sameMessage(m, ms[i])
	}
	atClient, _ := receive(ccfg, relayed(p.down))
	sym.Assert(len(atClient) == 2, "the piper does not relay each message of the server once")
	for i, m := range atClient {
		sameMessage(m, rs[i])
	}
	sym.Assert(!p.client.Closed() && !p.down.Closed() && !p.up.Closed(), "the piper closes a working pipe")
}

//verif:harness prop=C19 budget=90 bound="4 messages from the client and 2 from the server through a filter that passes, replaces or drops each; bodies arbitrary"
func Filtered() {
	hnet.Rand()
	var action [7]int
	srcOK := true
	var p *pipe
	filter := func(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
		i := int(m.Headers.Id.Index) - 10
		up := i < 4
		if up != (src == net.Conn(p.down)) || up != (dst == net.Conn(p.up)) {
			srcOK = false
		}
		action[i] = 1 + sym.Choose("action", 3)
		switch action[i] {
		case 1:
			return &transport.Message{Headers: m.Headers, Body: m.Body}
		case 2:
			n := &transport.Message{Body: []byte{0xee, byte(i)}}
			n.Headers.Id = mid(byte(60 + i))
			n.Headers.Actor = transport.MessageActorTypeCM
			return n
		}
		return nil
	}
	p = newPipe(transport.PiperConfig{Filter: filter}, transport.Config{}, nil)
	body := sym.Bytes("body", 2)
	send := func(i int) {
		m := &transport.Message{Body: body}
		m.Headers.Id = mid(byte(10 + i))
		m.Headers.Actor = transport.MessageActorTypeFM
		if i < 4 {
			p.client.Write(sent(transport.Config{}, m))
		} else {
			p.server.Write(sent(transport.Config{}, m))
		}
		sym.Quiesce()
	}
	for i := 0; i < 6; i++ {
		send(i)
	}
	check := func(c *hnet.Conn, lo, hi int) {
		got, _ := receive(transport.Config{}, relayed(c))
		for i := lo; i < hi; i++ {
			if action[i] == 0 {
				// the first message of a plain client goes past the filter
				sym.Assert(i == 0, "a message went past the filter")
				action[i] = 1
			}
			if action[i] == 3 {
				continue
			}
			sym.Assert(len(got) > 0, "a message the filter let pass was not relayed")
			m := got[0]
			got = got[1:]
			if action[i] == 1 {
				sym.Assert(eqId(m.Headers.Id, mid(byte(10+i))) && sym.BytesEq(m.Body, body), "the message relayed is not the one the filter returned")
			} else {
				sym.Assert(eqId(m.Headers.Id, mid(byte(60+i))) && sym.BytesEq(m.Body, []byte{0xee, byte(i)}), "the message relayed is not the one the filter returned")
			}
		}
		sym.Assert(len(got) == 0, "a message the filter dropped was relayed")
	}
	check(p.up, 0, 4)
	check(p.down, 4, 6)
	sym.Assert(srcOK, "the filter is given the wrong connections")
	sym.Assert(!p.down.Closed() && !p.up.Closed(), "the piper closes a working pipe")
}

func malformed() [][]byte {
	act := hnet.Hdrs(hnet.Hdr{Id: hnet.HActor, Data: hnet.ActorV(20)})
	bad := hnet.Frame(act, []byte{1}, false)
	bad[5] ^= 1
	return [][]byte{
		bad,
		hnet.Head(5, 0, 0, hnet.Crc8(hnet.Head(5, 0, 0, 0, 0)), 0),
		hnet.Head(12, 0, 7, hnet.Crc8(hnet.Head(12, 0, 7, 0, 0)), 0),
		hnet.Frame(act[:len(act)-1], nil, false),
		hnet.Frame(act[:3], nil, false),
		hnet.Frame(hnet.Hdrs(hnet.Hdr{Id: hnet.HActor, Data: []byte{3, 4}}), nil, false),
	}
}

//verif:harness prop=C19 budget=90 bound="a pipe after 0 to 2 relayed messages; then the client or the server ends, breaks off in a frame or sends one of 6 malformed frames, or the 1st to 4th write to either fails, or there is no upstream; then another client; every order of goroutines at blocking operations"
func PipeFails() {
	hnet.Rand()
	sym.AllOrders(true)
	var fail error
	kind := sym.Choose("kind", 6)
	if kind == 5 {
		fail = errors.New("no upstream")
	}
	p := newPipe(transport.PiperConfig{}, transport.Config{}, fail)
	first := true
	msg := func(c *hnet.Conn) {
		c.Write(good(1, []byte{1}))
	}
	bads := malformed()
	side := sym.Choose("side", 2)
	from := []*hnet.Conn{p.client, p.server}[side]
	switch kind {
	case 0: // the end of a stream
		n := sym.Choose("before", 3)
		if side == 1 && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			msg(p.client)
		}
		from.Close()
	case 1: // breaking off
		msg(p.client)
		from.Write(good(2, nil)[:20])
		from.Close()
	case 2: // malformed first message
		if side == 1 {
			msg(p.client)
		}
		from.Write(bads[sym.Choose("bad", len(bads))])
		first = side == 1
	case 3: // malformed later message
		msg(p.client)
		msg(p.server)
		from.Write(bads[sym.Choose("bad", len(bads))])
	case 4: // a failing write
		to := []*hnet.Conn{p.down, p.up}[side]
		to.FailWrite, to.WriteErr = 1+sym.Choose("write", 4), hnet.WriteErrs[sym.Choose("kind of error", 3)]
		for i := 0; i < 4; i++ {
			msg(p.client)
			msg(p.server)
		}
	case 5:
		msg(p.client)
	}
	sym.Quiesce()
	sym.Assert(p.down.Closed(), "the client's side is not closed after a failure")
	if p.found > 0 && kind != 5 {
		sym.Assert(p.up.Closed(), "the server's side is not closed after a failure")
	}
	if !first {
		sym.Assert(p.found == 0 || p.up.Closed(), "a malformed first message opens a pipe")
	}
	// the piper goes on serving
	c2, d2 := hnet.Pair()
	n := p.found
	p.l.Put(d2)
	c2.Write(good(3, nil))
	sym.Quiesce()
	sym.Assert(p.found == n+1, "the piper serves no more clients after a failure")
	select {
	case <-p.serve:
		sym.Fail("the piper stopped after a failure of one client")
	default:
	}
}

//verif:harness prop=C19,C08 budget=60 bound="the first and the second frame of a client, header or body checksum off by any error (8/32 bits), under the 4 reader settings of the piper"
func PipeChecksums() {
	hnet.Rand()
	cfg := transport.Config{DisableCheckFrameHeaderCRC: sym.Choose("nohead", 2) == 1, CheckFrameBodyCRC: sym.Choose("body", 2) == 1}
	p := newPipe(transport.PiperConfig{Config: cfg}, transport.Config{}, nil)
	which := sym.Choose("frame", 2)
	h := hnet.Hdrs(hnet.Hdr{Id: hnet.HActor, Data: hnet.ActorV(20)})
	f := hnet.Frame(h, []byte{1, 2}, true)
	bad := append([]byte(nil), f...)
	e8, e32 := sym.U8("headerr"), sym.U32("bodyerr")
	bad[5] ^= e8
	for i := 0; i < 4; i++ {
		bad[8+i] ^= byte(e32 >> uint(8*i))
	}
	if which == 1 {
		p.client.Write(f)
	}
	p.client.Write(bad)
	sym.Quiesce()
	ok := sym.And(sym.Or(cfg.DisableCheckFrameHeaderCRC, e8 == 0), sym.Or(!cfg.CheckFrameBodyCRC, e32 == 0))
	if p.found == 0 || p.up.Closed() {
		sym.Assert(!ok, "a frame without a wrong checksum among those checked ended the pipe")
		sym.Assert(p.down.Closed(), "the client's side is not closed after a failure")
	} else {
		sym.Assert(ok, "a frame with a wrong checksum was relayed")
		fs, _ := hnet.Parse(p.up.Out())
		sym.Assert(len(fs) == 2+which, "the piper does not relay each message of the client once")
	}
}
