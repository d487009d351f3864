package htrans

import (
	"crypto/tls"
	"errors"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

// hand is a handshake with arbitrary contents.
type hand struct {
	kind  int // 0: three flights (tls 1.3), 1: four flights (tls 1.2), 2: as 0 with session tickets in the server's flight
	bytes []byte
	pad   []byte // follows the certificates
}

// newHand switches the tls model on.
func newHand(kind int) *hand {
	h := &hand{kind: kind, bytes: sym.Bytes("handshake", 9)}
	tls.ZZPlan = h.flights
	tls.ZZEqual = sym.BytesEq
	tls.ZZRead = func(need int) int { return 512 }
	tls.ZZSplit = func(n int) int { return n }
	tls.ZZVerify = nil
	return h
}

func (h *hand) flights(client bool, cfg *tls.Config) []tls.ZZFlight {
	b := h.bytes
	if h.kind == 1 {
		return []tls.ZZFlight{{Client: true, Data: b[:2]}, {Data: href.Cat(b[2:5], h.pad)}, {Client: true, Data: href.Cat(b[5:7], h.pad)}, {Data: b[7:9]}}
	}
	fs := []tls.ZZFlight{{Client: true, Data: b[:2]}, {Data: href.Cat(b[2:5], h.pad)}, {Client: true, Data: href.Cat(b[5:7], h.pad)}}
	if h.kind == 2 && (client || cfg.ClientAuth == tls.NoClientCert) {
		fs[1].Extra = []byte{0x16, 0, 1, 7}
	}
	if !client && cfg.ClientAuth != tls.NoClientCert && !cfg.SessionTicketsDisabled {
		// tickets follow once the client's certificate is in
		fs = append(fs, tls.ZZFlight{Data: []byte{0x16, 0, 1, 7}, Late: true})
	}
	return fs
}

// of returns what one side writes.
func (h *hand) of(client bool) (fs [][]byte) {
	for _, f := range h.flights(true, nil) {
		if f.Client == client {
			fs = append(fs, href.Cat(f.Data, f.Extra))
		}
	}
	return
}

func join(b [][]byte) []byte { return href.Cat(b...) }

var negotiation = uint16(0x8048)

// securityFrame is what a peer sends during the handshake.
func securityFrame(n int, data []byte) []byte {
	hs := []hnet.Hdr{{Id: hnet.HId, Data: hnet.IdV(1, 2, 3, [8]byte{4}, uint32(n+1))}, {Id: hnet.HActor, Data: hnet.ActorV(35)}}
	if n == 0 {
		hs = append(hs, hnet.Hdr{Id: negotiation, Data: href.Obj(href.BoolV(true), href.BoolV(true),
			href.Obj(href.Ascii(""), href.U(href.UInt64, 0), href.GuidV(0, 0, 0, [8]byte{})), href.U(href.UInt64, 0))})
	}
	h := hnet.Hdrs(hs...)
	f := hnet.Head(uint32(12+len(h)+len(data)), 1, uint16(len(h)), 0, 0)
	return href.Cat(f, h, data)
}

// record is application data of the tls model.
func record(b []byte) []byte {
	out := []byte{0x17, byte(len(b) >> 8), byte(len(b))}
	for _, x := range b {
		out = append(out, x^0x55)
	}
	return out
}

// unseal takes records apart.
func unseal(b []byte) (plain []byte, ok bool) {
	for len(b) > 0 {
		if len(b) < 3 {
			return plain, false
		}
		typ, n := sym.Concrete(int(b[0])), sym.Concrete(int(b[1])<<8|int(b[2]))
		if typ != 0x17 && typ != 0x15 || len(b) < 3+n {
			return plain, false
		}
		if typ == 0x17 {
			for _, x := range b[3 : 3+n] {
				plain = append(plain, x^0x55)
			}
		}
		b = b[3+n:]
	}
	return plain, true
}

// handshakeOut checks what one side wrote up to the end of the handshake and
// returns what it wrote after it.
func handshakeOut(out []byte, want []byte) (rest []byte, frames int) {
	var got []byte
	ids := map[string]bool{}
	for len(got) < len(want) {
		sym.Assert(len(out) >= 12, "the handshake bytes are not all in security messages")
		n := sym.Concrete(int(out[0]) | int(out[1])<<8 | int(out[2])<<16 | int(out[3])<<24)
		sym.Assert(n >= 12 && n <= len(out), "a handshake frame is cut off")
		ms, ok := hnet.Parse(out[:n])
		sym.Assert(ok && len(ms) == 1, "a handshake frame is malformed")
		m := ms[0]
		sym.Assert(m.Mask == 1, "a handshake frame does not name the security provider")
		sym.Assert(m.Is(hnet.HActor, hnet.ActorV(35)), "handshake bytes are sent in another message than a security message")
		id := m.Get(hnet.HId)
		sym.Assert(len(id) == 1 && !ids[string(id[0])], "handshake messages share an identifier")
		ids[string(id[0])] = true
		if frames == 0 {
			sym.Assert(len(m.Get(negotiation)) == 1, "the first handshake message does not announce the negotiation once")
		} else {
			sym.Assert(len(m.Get(negotiation)) == 0, "the negotiation is announced again")
		}
		got = append(got, m.Body...)
		out = out[n:]
		frames++
	}
	sym.Assert(sym.BytesEq(got, want), "the security messages do not carry the handshake bytes")
	return out, frames
}

func tlsConfig() *tls.Config { return &tls.Config{} }

func cutReads(c *hnet.Conn, max int) {
	left := max
	c.OnRead = func(n int) int {
		if n > 1 && left > 0 {
			switch sym.Choose("cut", 4) {
			case 1:
				left--
				return 1
			case 2:
				left--
				return n - 1
			case 3:
				left--
				return (n + 1) / 2
			}
		}
		return n
	}
}

func appMessage(body []byte) *transport.Message {
	m := &transport.Message{Body: body}
	m.Headers.Id = mid(9)
	m.Headers.Actor = transport.MessageActorTypeFM
	m.Headers.Action = "act"
	return m
}

func checkApp(in *inbox, body []byte) {
	ms := in.all()
	sym.Assert(len(ms) == 1, "a message after the handshake is not delivered once")
	sym.Assert(ms[0].Headers.Action == "act" && ms[0].Headers.Actor == transport.MessageActorTypeFM && sym.BytesEq(ms[0].Body, body), "a message changed in the tunnel")
}

//verif:harness prop=C18 budget=60 bound="a client against a scripted server: handshakes of three flights (with or without session tickets at the end of the server's) or four, with arbitrary contents (7 or 9 bytes); each flight written in up to 3 pieces, each server flight framed whole, in two or byte by byte, read with buffers of 1, 2 or 512 bytes, one short read (thorough 2) if segments are large; the first data of the server in the same segment as the handshake or not; checksums on or off"
func TunnelClient() {
	hnet.Rand()
	h := newHand(sym.Choose("kind", 3))
	sizes := []int{512, 1, 2}
	size := sizes[sym.Choose("read", 3)]
	tls.ZZRead = func(need int) int { return size }
	pieces := sym.Choose("write", 2)
	tls.ZZSplit = func(n int) int {
		if pieces == 1 {
			return 1
		}
		return n
	}
	c := hnet.New("client")
	split := sym.Choose("frames", 3)
	var in [][]byte
	n := 0
	for _, f := range h.of(false) {
		switch split {
		case 0:
			in = append(in, securityFrame(n, f))
			n++
		case 1:
			in = append(in, securityFrame(n, f[:1]), securityFrame(n+1, f[1:]))
			n += 2
		case 2:
			last := 1
			if h.kind == 2 {
				last += 4 // tickets come with the end of the flight
			}
			for i := 0; i+last < len(f); i++ {
				in = append(in, securityFrame(n, f[i:i+1]))
				n++
			}
			in = append(in, securityFrame(n, f[len(f)-last:]))
			n++
		}
	}
	body := sym.Bytes("body", 3)
	plain := sent(transport.Config{DisableGenerateFrameHeaderCRC: true}, appMessage(body))
	in = append(in, record(plain[:11]), record(plain[11:]))
	glued := sym.Choose("glued", 2) == 1
	if glued {
		c.Feed(join(in))
	} else {
		c.Feed(in...)
	}
	c.End(nil)
	if glued && size == 512 || sym.Tier(0, 1) == 1 {
		cutReads(c, sym.Tier(1, 2))
	}
	var box inbox
	cfg := transport.Config{TLS: tlsConfig()}
	if sym.Choose("sums", 2) == 1 {
		cfg.CheckFrameBodyCRC, cfg.GenerateFrameBodyCRC = true, true
	}
	cl, err := transport.Connect(c, transport.ClientConfig{Config: cfg, MessageCallback: box.cb})
	sym.Assert(err == nil, "connecting fails though the handshake bytes arrived")
	rest, _ := handshakeOut(c.Out(), join(h.of(true)))
	p, ok := unseal(rest)
	sym.Assert(ok, "bytes after the handshake are framed")
	greeting, ok := hnet.Parse(p)
	sym.Assert(ok && len(greeting) == 1 && greeting[0].Is(hnet.HActor, hnet.ActorV(1)), "the greeting is not the first message in the tunnel")
	sym.Assert(cl.SendOneWay(appMessage([]byte("xyz"))) == nil, "sending through the tunnel fails")
	rest, _ = handshakeOut(c.Out(), join(h.of(true)))
	p, ok = unseal(rest)
	sym.Assert(ok, "bytes after the handshake are framed")
	ms, ok := hnet.Parse(p)
	sym.Assert(ok && len(ms) == 2 && string(ms[1].Body) == "xyz", "a message sent after the handshake is not in the tunnel once")
	sym.Assert(cl.Wait() != nil, "the receive loop ends without an error")
	checkApp(&box, body)
}

//verif:harness prop=C18 budget=60 bound="a server against a scripted client: as TunnelClient, with and without a demand for client certificates and with session tickets on or off"
func TunnelServer() {
	hnet.Rand()
	h := newHand(sym.Choose("kind", 3))
	size := []int{512, 1, 2}[sym.Choose("read", 3)]
	tls.ZZRead = func(need int) int { return size }
	if sym.Choose("write", 2) == 1 {
		tls.ZZSplit = func(n int) int { return 1 }
	}
	cfg := transport.Config{TLS: tlsConfig()}
	auth := sym.Choose("auth", 3)
	if auth == 1 {
		cfg.TLS.ClientAuth = tls.RequireAnyClientCert
	} else if auth == 2 {
		cfg.TLS.ClientAuth = tls.RequestClientCert
		cfg.TLS.SessionTicketsDisabled = true
	}
	if h.kind == 2 {
		sym.Assume(auth == 0) // no tickets before the certificate is in
	}
	var box inbox
	l := hnet.NewListener()
	s, err := transport.Listen(l, transport.ServerConfig{Config: cfg, MessageCallback: box.cb})
	sym.Assert(err == nil, "Listen fails")
	c := hnet.New("server")
	split := sym.Choose("frames", 2)
	var in [][]byte
	n := 0
	for _, f := range h.of(true) {
		if split == 0 {
			in = append(in, securityFrame(n, f))
			n++
		} else {
			in = append(in, securityFrame(n, f[:1]), securityFrame(n+1, f[1:]))
			n += 2
		}
	}
	body := sym.Bytes("body", 3)
	in = append(in, record(sent(transport.Config{DisableGenerateFrameHeaderCRC: true}, appMessage(body))))
	glued := sym.Choose("glued", 2) == 1
	if glued {
		c.Feed(join(in))
	} else {
		c.Feed(in...)
	}
	if glued && size == 512 || sym.Tier(0, 1) == 1 {
		cutReads(c, sym.Tier(1, 2))
	}
	l.Put(c)
	go s.Serve()
	sym.Quiesce()
	rest, _ := handshakeOut(c.Out(), join(h.of(false)))
	p, ok := unseal(rest)
	sym.Assert(ok, "what the server writes after the client's last flight does not pass unframed")
	ms, ok := hnet.Parse(p)
	sym.Assert(ok && len(ms) == 1 && ms[0].Is(hnet.HActor, hnet.ActorV(1)), "the greeting is not the first message in the tunnel")
	checkApp(&box, body)
	sym.Assert(!c.Closed(), "the server closes a working connection")
	if auth == 1 {
		sym.Assert(!cfg.TLS.SessionTicketsDisabled, "the caller's configuration is changed")
	}
}

//verif:harness prop=C18 budget=60 bound="a client and a server of this library, handshakes of three or four flights with arbitrary contents, buffers of 1 or 512 bytes, writes whole or byte by byte, up to 1 (thorough 3) short reads, client certificates asked for or not; one message each way"
func TunnelBoth() {
	hnet.Rand()
	newHand(sym.Choose("kind", 3))
	if sym.Choose("read", 2) == 1 {
		tls.ZZRead = func(need int) int { return 1 }
	}
	if sym.Choose("write", 2) == 1 {
		tls.ZZSplit = func(n int) int { return 1 }
	}
	a, b := hnet.Pair()
	if sym.Choose("cutter", 2) == 0 {
		cutReads(a, sym.Tier(1, 3))
	} else {
		cutReads(b, sym.Tier(1, 3))
	}
	scfg := transport.Config{TLS: tlsConfig()}
	if sym.Choose("auth", 2) == 1 {
		scfg.TLS.ClientAuth = tls.RequireAndVerifyClientCert
	}
	body := sym.Bytes("body", 3)
	answer := sym.Bytes("answer", 2)
	l := hnet.NewListener()
	var box, back inbox
	s, err := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		box.cb(c, m)
		sym.Assert(c.SendOneWay(appMessage(answer)) == nil, "answering through the tunnel fails")
	}})
	sym.Assert(err == nil, "Listen fails")
	l.Put(b)
	go s.Serve()
	cl, err := transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: tlsConfig()}, MessageCallback: back.cb})
	sym.Assert(err == nil, "connecting to a server fails")
	go cl.Wait()
	sym.Assert(cl.SendOneWay(appMessage(body)) == nil, "sending through the tunnel fails")
	sym.Quiesce()
	checkApp(&box, body)
	checkApp(&back, answer)
	cl.Close()
	sym.Quiesce()
	sym.Assert(b.Closed(), "the server keeps the connection its client closed")
}

//verif:harness prop=C18 budget=60 bound="flights of 600, 20000 or 70000 bytes (certificates of client and server), between a client and a server of this library; buffers of 512 bytes or 16 KB; one message each way"
func TunnelLarge() {
	hnet.Rand()
	h := newHand(sym.Choose("kind", 2))
	h.pad = make([]byte, []int{600, 20000, 70000}[sym.Choose("size", 3)])
	for i := range h.pad {
		h.pad[i] = byte(i>>8) ^ byte(i)
	}
	if sym.Choose("read", 2) == 1 {
		tls.ZZRead = func(need int) int { return 16384 }
	}
	a, b := hnet.Pair()
	var box, back inbox
	body, answer := sym.Bytes("body", 3), sym.Bytes("answer", 2)
	l := hnet.NewListener()
	s, err := transport.Listen(l, transport.ServerConfig{Config: transport.Config{TLS: tlsConfig()}, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		box.cb(c, m)
		sym.Assert(c.SendOneWay(appMessage(answer)) == nil, "answering through the tunnel fails")
	}})
	sym.Assert(err == nil, "Listen fails")
	l.Put(b)
	go s.Serve()
	cl, err := transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: tlsConfig()}, MessageCallback: back.cb})
	sym.Assert(err == nil, "connecting to a server fails")
	go cl.Wait()
	sym.Assert(cl.SendOneWay(appMessage(body)) == nil, "sending through the tunnel fails")
	sym.Quiesce()
	checkApp(&box, body)
	checkApp(&back, answer)
	for client, c := range map[bool]*hnet.Conn{true: a, false: b} {
		handshakeOut(c.Out(), join(h.of(client)))
	}
}

//verif:harness prop=C18 budget=60 bound="the k-th write of a client or a server fails after any of 3 parts of it, for every k up to one past the greeting; handshakes of 3 or 4 flights, writes whole or byte by byte"
func TunnelWriteFails() {
	hnet.Rand()
	h := newHand(sym.Choose("kind", 3))
	if sym.Choose("write", 2) == 1 {
		tls.ZZSplit = func(n int) int { return 1 }
	}
	client := sym.Choose("client", 2) == 1
	a := hnet.New("end")
	n := 0
	for _, f := range h.of(!client) {
		a.Feed(securityFrame(n, f))
		n++
	}
	a.FailWrite, a.WriteErr = 1+sym.Choose("fail", 7), hnet.WriteErrs[sym.Choose("kind of error", 3)]
	wrong := a.WriteErr
	if wrong == nil {
		wrong = hnet.ErrWrite
	}
	a.Part = []int{0, 1, 40}[sym.Choose("part", 3)]
	cfg := transport.Config{TLS: tlsConfig()}
	failed := func() bool { return len(a.Writes()) >= a.FailWrite }
	if !client {
		a.End(errors.New("nothing more"))
		l := hnet.NewListener()
		s, _ := transport.Listen(l, transport.ServerConfig{Config: cfg})
		l.Put(a)
		go s.Serve()
		sym.Quiesce()
		if failed() {
			sym.Assert(a.Closed(), "the server keeps a connection whose handshake failed")
		}
		return
	}
	cl, err := transport.Connect(a, transport.ClientConfig{Config: cfg})
	if failed() {
		sym.Assert(err != nil, "a failed write is not reported by Connect")
		sym.Assert(errors.Is(err, wrong), "a failed write is reported as something else")
		return
	}
	sym.Assert(err == nil, "connecting fails though all writes worked")
	err = cl.SendOneWay(appMessage([]byte("xyz")))
	sym.Assert((err != nil) == failed(), "the failed write of a message is not reported")
}

//verif:harness prop=C18,C09 budget=60 bound="the peer of a client or a server ends the stream or fails anywhere in a handshake frame, or sends one with any length up to 1024, any header length, or a byte of the handshake changed arbitrarily"
func TunnelHostile() {
	hnet.Rand()
	h := newHand(0)
	client := sym.Choose("client", 2) == 1
	for i := range h.bytes {
		h.bytes[i] = byte(0xa0 + i)
	}
	a := hnet.New("end")
	whole := h.of(!client)
	f := securityFrame(0, whole[0])
	good := false
	hlen := len(f) - 12 - len(whole[0])
	what := sym.Choose("what", 4)
	switch what {
	case 0: // cut off anywhere
		a.Feed(f[:sym.Choose("end", len(f))])
	case 1: // any length
		n := sym.U32("len")
		sym.Assume(n <= 1024)
		good = n == uint32(len(f))
		copy(f, href.LE32(n))
		a.Feed(f)
	case 2: // any header length
		n := sym.U16("hlen")
		good = int(n) == hlen
		copy(f[6:], href.LE16(n))
		a.Feed(f)
	case 3: // one byte of the handshake differs
		g := append([]byte(nil), whole[0]...)
		d := sym.U8("delta")
		g[sym.Choose("at", len(g))] ^= d
		good = d == 0
		a.Feed(securityFrame(0, g))
	}
	for i, f := range whole[1:] {
		if what == 0 || what == 1 && !good {
			break
		}
		a.Feed(securityFrame(i+1, f))
	}
	var failure error
	if sym.Choose("failure", 2) == 1 {
		failure = errors.New("read failed")
	}
	a.End(failure)
	sym.AllocLimit(1 << 20)
	cfg := transport.Config{TLS: tlsConfig()}
	if client {
		_, err := transport.Connect(a, transport.ClientConfig{Config: cfg})
		sym.Assert((err == nil) == good, "a damaged handshake succeeds, or a whole one fails")
		return
	}
	l := hnet.NewListener()
	s, _ := transport.Listen(l, transport.ServerConfig{Config: cfg})
	l.Put(a)
	done := make(chan error, 1)
	go func() { done <- s.Serve() }()
	sym.Quiesce()
	sym.Assert(a.Closed(), "the server keeps a connection that ended during the handshake")
	sym.Assert(len(done) == 0, "a damaged handshake ends the server")
}

//verif:harness prop=C19,C18,C40 budget=60 bound="a client through a piper to an upstream, either or both encrypted: 2 messages up, 1 down, bodies arbitrary, handshakes of three or four flights, buffers of 1 or 512 bytes, writes whole or byte by byte"
func PipeEncrypted() {
	hnet.Rand()
	h := newHand(sym.Choose("kind", 3))
	if sym.Choose("read", 2) == 1 {
		tls.ZZRead = func(need int) int { return 1 }
	}
	if sym.Choose("write", 2) == 1 {
		tls.ZZSplit = func(n int) int { return 1 }
	}
	var ucfg transport.Config
	sides := sym.Choose("sides", 3)
	if sides > 0 {
		ucfg.TLS = tlsConfig()
	}
	var cfg, ccfg transport.Config
	if sides < 2 {
		cfg.TLS, ccfg.TLS = tlsConfig(), tlsConfig()
	}
	if sides < 2 && sym.Choose("auth", 2) == 1 {
		cfg.TLS.ClientAuth = tls.RequireAndVerifyClientCert
	}
	p := newPipe(transport.PiperConfig{Config: cfg}, ucfg, nil)
	var up, down inbox
	answer := sym.Bytes("answer", 2)
	l := hnet.NewListener()
	s, err := transport.Listen(l, transport.ServerConfig{Config: ucfg, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		up.cb(c, m)
		if m.Headers.Id == mid(9) {
			sym.Assert(c.SendOneWay(appMessage(answer)) == nil, "answering through the pipe fails")
		}
	}})
	sym.Assert(err == nil, "Listen fails")
	l.Put(p.server)
	go s.Serve()
	cl, err := transport.Connect(p.client, transport.ClientConfig{Config: ccfg, MessageCallback: down.cb})
	sym.Assert(err == nil, "connecting through the piper fails")
	go cl.Wait()
	body, more := sym.Bytes("body", 3), sym.Bytes("more", 1)
	sym.Assert(cl.SendOneWay(appMessage(body)) == nil, "sending into the pipe fails")
	m := appMessage(more)
	m.Headers.Id = mid(10)
	sym.Assert(cl.SendOneWay(m) == nil, "sending into the pipe fails")
	sym.Quiesce()
	sym.Assert(p.found == 1, "the upstream was not looked up once")
	checkApp(&down, answer)
	ms := up.all()
	sym.Assert(len(ms) == 2, "the piper does not relay each message of the client once")
	first, second := ms[0], ms[1]
	if first.Headers.Id == mid(10) {
		first, second = second, first
	}
	sym.Assert(first.Headers.Id == mid(9) && first.Headers.Action == "act" && sym.BytesEq(first.Body, body), "the piper changed a message")
	sym.Assert(second.Headers.Id == mid(10) && second.Headers.Action == "act" && sym.BytesEq(second.Body, more), "the piper changed a message")
	if h.kind < 2 && sides < 2 {
		onlyHandshake(p.down.Out(), join(h.of(false)))
	}
	if sides < 2 {
		onlyHandshake(p.client.Out(), join(h.of(true)))
	}
	if ucfg.TLS != nil {
		onlyHandshake(p.up.Out(), join(h.of(true)))
	}
	cl.Close()
	sym.Quiesce()
	sym.Assert(p.down.Closed() && p.up.Closed(), "the piper keeps a side open after the other ended")
}
