package htrans

import (
	"crypto/tls"
	"errors"
	"net"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

var errVerify = errors.New("certificate refused")

// onlyHandshake asserts that out carries nothing but security messages with
// the first bytes of hs and, after all of them, records; it returns what the
// records carry.
func onlyHandshake(out, hs []byte) (plain []byte) {
	ms, ok := hnet.Parse(out)
	if ok { // the handshake may have stopped half way
		var got []byte
		for _, m := range ms {
			sym.Assert(m.Mask == 1 && m.Is(hnet.HActor, hnet.ActorV(35)), "a message leaves in the clear")
			got = append(got, m.Body...)
		}
		sym.Assert(len(got) <= len(hs) && sym.BytesEq(got, hs[:len(got)]), "other bytes than the handshake's leave in the clear")
		return nil
	}
	rest, _ := handshakeOut(out, hs)
	plain, ok = unseal(rest)
	sym.Assert(ok, "bytes leave in the clear after the handshake")
	return plain
}

//verif:harness prop=C40 budget=90 tbudget=300 reach=open,refused bound="a client (Connect, DialTCP) or server (Listen, ListenTCP) with TLS and any checksum settings, whose peer does the handshake (3 or 4 flights, arbitrary contents), sends a plain message before, in or after it, an empty security message, stops after any flight, or is refused by the last step; sends, requests and pings of this end at once; messages of 3 arbitrary bytes"
func ClearNothing() {
	hnet.Rand()
	h := newHand(sym.Choose("kind", 3))
	client := sym.Choose("client", 2) == 1
	cfg := transport.Config{TLS: tlsConfig()}
	if sym.Choose("sums", 2) == 1 {
		cfg = transport.Config{TLS: tlsConfig(), DisableCheckFrameHeaderCRC: true, DisableGenerateFrameHeaderCRC: true, CheckFrameBodyCRC: true, GenerateFrameBodyCRC: true}
	}
	a := hnet.New("end")
	clear := sym.Bytes("clear", 3)
	for _, x := range clear { // or it would do as a handshake message
		for _, y := range h.bytes {
			sym.Assume(x != y)
		}
	}
	stranger := hnet.Frame(hnet.Hdrs(hnet.Hdr{Id: hnet.HId, Data: refId(mid(3))}, hnet.Hdr{Id: hnet.HActor, Data: hnet.ActorV(11)}), clear, false)
	flights := h.of(!client)
	var in [][]byte
	for i, f := range flights {
		in = append(in, securityFrame(i, f))
	}
	done := true
	what := sym.Choose("what", 6)
	switch what {
	case 1: // a plain message in front of, between or behind the flights
		at := sym.Choose("at", len(in)+1)
		in = append(in[:at:at], append([][]byte{stranger}, in[at:]...)...)
		done = at == len(in)-1
	case 2:
		in = append([][]byte{securityFrame(0, nil)}, in...)
	case 3: // no handshake
		in = in[:sym.Choose("stop", len(in))]
		done = false
	case 4:
		tls.ZZVerify = func(c bool) error {
			if c == client {
				return errVerify
			}
			return nil
		}
		done = false
	case 5: // the clear message only
		in = [][]byte{stranger}
		done = false
	}
	body := sym.Bytes("body", 3)
	if done && what != 1 {
		in = append(in, record(sent(transport.Config{DisableGenerateFrameHeaderCRC: true}, appMessage(body))))
	}
	a.Feed(in...)
	if what > 0 {
		a.End(nil)
	}
	hs := join(h.of(client))
	var box inbox
	dial := sym.Choose("tcp", 2) == 1
	if client {
		var cl *transport.Client
		var err error
		ccfg := transport.ClientConfig{Config: cfg, MessageCallback: box.cb}
		if dial {
			net.ZZDial = func(network, addr string) (net.Conn, error) { return a, nil }
			cl, err = transport.DialTCP("gateway:19000", ccfg)
			net.ZZDial = nil
		} else {
			cl, err = transport.Connect(a, ccfg)
		}
		if !done {
			sym.Assert(err != nil || what == 1, "connecting succeeds without a handshake")
			if err == nil {
				cl.Wait()
			}
		} else {
			if what != 2 {
				sym.Assert(err == nil, "connecting fails though the handshake bytes arrived")
			}
			if err == nil {
				go cl.Wait()
				go cl.SendOneWay(appMessage([]byte("xyz")))
				sym.Quiesce()
			}
		}
	} else {
		l := hnet.NewListener()
		scfg := transport.ServerConfig{Config: cfg, MessageCallback: box.cb}
		var s *transport.Server
		var err error
		if dial {
			net.ZZListen = func(network, addr string) (net.Listener, error) { return l, nil }
			s, err = transport.ListenTCP("0.0.0.0:19000", scfg)
			net.ZZListen = nil
		} else {
			s, err = transport.Listen(l, scfg)
		}
		sym.Assert(err == nil, "Listen fails")
		l.Put(a)
		go s.Serve()
		sym.Quiesce()
		sym.Assert(done || a.Closed(), "the server keeps a connection without a handshake")
	}
	plain := onlyHandshake(a.Out(), hs)
	if what == 0 {
		sym.Reach("open")
		ms, ok := hnet.Parse(plain)
		sym.Assert(ok && len(ms) >= 1, "there is no message in the tunnel")
		checkApp(&box, body)
		return
	}
	sym.Reach("refused")
	n := 0
	if what == 2 {
		n = len(box.all()) // an empty message may be skipped or refused
		sym.Assert(n == 0 || n == 1 && sym.BytesEq(box.all()[0].Body, body), "a message in the clear is delivered")
		return
	}
	sym.Assert(len(box.all()) == 0, "a message in the clear is delivered")
	sym.Assert(done || len(plain) == 0, "a message is sent without a handshake")
}
