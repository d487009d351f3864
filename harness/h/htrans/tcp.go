package htrans

import (
	"context"
	"errors"
	"net"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

//verif:harness prop=C41 budget=60 reach=open,failed bound="DialTCP to 3 addresses, plain (body checksums on or off) or with TLS; the dial fails, the k-th write fails after any of 3 parts, the peer ends the connection at once, or all goes well; then a request and a message each way"
func TcpDial() {
	hnet.Rand()
	addr := []string{"gateway:19000", "10.0.0.1:1", ""}[sym.Choose("addr", 3)]
	cfg := transport.Config{}
	mode := sym.Choose("mode", 3)
	switch mode {
	case 1:
		cfg.CheckFrameBodyCRC, cfg.GenerateFrameBodyCRC = true, true
	case 2:
		newHand(sym.Choose("kind", 2))
		cfg.TLS = tlsConfig()
	}
	a, b := hnet.Pair()
	what := sym.Choose("what", 4)
	if what == 2 {
		a.FailWrite, a.Part = 1+sym.Choose("fail", 3), []int{0, 1, 40}[sym.Choose("part", 3)]
	}
	dials := 0
	net.ZZDial = func(network, to string) (net.Conn, error) {
		dials++
		sym.Assert(network == "tcp" && to == addr, "another address is dialed")
		if what == 1 {
			return nil, errOut
		}
		if what == 3 {
			b.Close()
		}
		return a, nil
	}
	l := hnet.NewListener()
	var box, back inbox
	s, err := transport.Listen(l, transport.ServerConfig{Config: cfg, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		box.cb(c, m)
		c.SendOneWay(answer(m, flip(m.Body)))
		c.SendOneWay(ask(m.Body))
	}})
	sym.Assert(err == nil, "Listen fails")
	go s.Serve()
	if what == 0 || what == 2 {
		l.Put(b)
	}
	cl, err := transport.DialTCP(addr, transport.ClientConfig{Config: cfg, MessageCallback: back.cb})
	net.ZZDial = nil
	sym.Assert(dials == 1, "not exactly one connection is dialed")
	if err != nil {
		sym.Reach("failed")
		sym.Assert(cl == nil, "a failed dial yields a client")
		sym.Assert(what > 0, "dialing fails though nothing did")
		sym.Assert(what != 1 || errors.Is(err, errOut), "the reason of a failed dial is lost")
		sym.Assert(what != 2 || errors.Is(err, hnet.ErrWrite), "the reason of a failed dial is lost")
		sym.Assert(what == 1 || a.Closed(), "a dial that fails leaves its connection open")
		return
	}
	sym.Assert(what != 1, "a failed dial is not reported")
	sym.Assert(what != 2 || len(a.Writes()) < a.FailWrite, "a failed greeting is not reported")
	sym.Assert(what != 3 || mode != 2, "a handshake without a peer succeeds")
	if what > 0 {
		cl.Close()
		sym.Assert(a.Closed(), "a closed client keeps its connection")
		return
	}
	sym.Reach("open")
	go cl.Wait()
	body := sym.Bytes("body", 3)
	c := start(cl, context.Background(), ask(body))
	sym.Quiesce()
	sym.Assert(c.returned() && c.err == nil && sym.BytesEq(c.reply.Body, flip(body)), "a request over a dialed connection does not get its answer")
	sym.Assert(len(back.all()) == 1 && sym.BytesEq(back.all()[0].Body, body), "the callback given to DialTCP does not get a message")
	sums := false
	if ms, ok := hnet.Parse(a.Out()); ok && mode < 2 {
		sums = ms[0].BCrc != 0
	}
	sym.Assert(sums == (mode == 1), "the settings given to DialTCP are not in force")
	cl.Close()
	sym.Quiesce()
	sym.Assert(a.Closed() && b.Closed(), "a closed client keeps its connection")
}

//verif:harness prop=C41 budget=60 bound="ListenTCP on 2 addresses, plain or with TLS; or with body checksums; listening fails or not; two clients, a message each, and a peer without checksums"
func TcpListen() {
	hnet.Rand()
	addr := []string{"0.0.0.0:19000", ":0"}[sym.Choose("addr", 2)]
	cfg := transport.Config{}
	mode := sym.Choose("mode", 3)
	switch mode {
	case 1:
		newHand(0)
		cfg.TLS = tlsConfig()
	case 2:
		cfg.CheckFrameBodyCRC, cfg.GenerateFrameBodyCRC = true, true
	}
	fails := sym.Choose("fails", 2) == 1
	l := hnet.NewListener()
	n := 0
	net.ZZListen = func(network, at string) (net.Listener, error) {
		n++
		sym.Assert(network == "tcp" && at == addr, "the server listens on another address")
		if fails {
			return nil, errOut
		}
		return l, nil
	}
	var box inbox
	s, err := transport.ListenTCP(addr, transport.ServerConfig{Config: cfg, MessageCallback: box.cb})
	net.ZZListen = nil
	sym.Assert(n == 1, "the server does not listen once")
	if fails {
		sym.Assert(s == nil && errors.Is(err, errOut), "the reason why listening fails is lost")
		return
	}
	sym.Assert(err == nil && s.Addr() == l.Addr(), "a server does not tell its listener's address")
	wait := make(chan error, 1)
	go func() { wait <- s.Serve() }()
	for i := 0; i < 2; i++ {
		a, b := hnet.Pair()
		l.Put(b)
		cl := connect(a, cfg, nil)
		body := sym.Bytes("body", 2)
		sym.Assert(cl.SendOneWay(ask(body)) == nil, "sending fails")
		sym.Quiesce()
		sym.Assert(len(box.all()) == i+1 && sym.BytesEq(box.all()[i].Body, body), "a message is not delivered to the callback given to ListenTCP")
		if mode != 1 {
			ms, ok := hnet.Parse(b.Out())
			sym.Assert(ok && len(ms) > 0 && (ms[0].BCrc != 0) == (mode == 2), "the settings given to ListenTCP are not in force")
		}
	}
	if mode != 1 {
		x, y := hnet.Pair()
		l.Put(y)
		x.Write(hnet.Frame(hnet.Hdrs(hnet.Hdr{Id: hnet.HId, Data: refId(mid(3))}), []byte("bad"), false))
		sym.Quiesce()
		sym.Assert(y.Closed() == (mode == 2), "the settings given to ListenTCP are not in force")
	}
	s.Close()
	sym.Quiesce()
	sym.Assert(len(wait) == 1, "a closed server goes on serving")
}
