package hfed

import (
	"crypto/tls"
	"errors"
	"net"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

//verif:harness prop=C40,C41 budget=60 reach=delivered,refused,failed bound="a site node without a dialer of its own, with TLS (3 flights, 7 arbitrary bytes) or without; two sends to each of two seeds; a seed can be dialed, cannot be, ends the connection at once, does no handshake, or is refused in the last step of it"
func DefaultDialer() {
	hnet.Rand()
	secure := sym.Choose("tls", 2) == 1
	var cfg *tls.Config
	b := sym.Bytes("handshake", 7)
	sym.Assume(b[2] != 'b') // or the body of a message in the clear would do
	if secure {
		cfg = &tls.Config{}
		tls.ZZEqual = sym.BytesEq
		tls.ZZPlan = func(bool, *tls.Config) []tls.ZZFlight {
			return []tls.ZZFlight{{Client: true, Data: b[:2]}, {Data: b[2:5]}, {Client: true, Data: b[5:]}}
		}
	}
	what := sym.Choose("what", 5) // of the second seed
	sym.Assume(secure || what < 3)
	current := 0
	tls.ZZVerify = func(client bool) error {
		if client && what == 4 && current == 1 {
			return errors.New("certificate refused")
		}
		return nil
	}
	ll := hnet.NewListener()
	var boxes [2][]*transport.ByteArrayMessage
	var servers [2]*hnet.Listener
	for i := range servers {
		i := i
		servers[i] = hnet.NewListener()
		srv, err := transport.Listen(servers[i], transport.ServerConfig{Config: transport.Config{TLS: cfg}, MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
			boxes[i] = append(boxes[i], m)
		}})
		sym.Assert(err == nil, "Listen fails")
		go srv.Serve()
	}
	var conns []*hnet.Conn
	dials := [2]int{}
	net.ZZDial = func(network, to string) (net.Conn, error) {
		current = 0
		if to == addr(1) {
			current = 1
		}
		sym.Assert(network == "tcp" && to == addr(current), "another address than a seed's is dialed")
		dials[current]++
		if current == 1 && what == 1 {
			return nil, errDial
		}
		a, far := hnet.Pair()
		conns = append(conns, a)
		switch {
		case current == 0 || what == 0 || what == 4:
			servers[current].Put(far)
		case what == 2:
			far.Close()
		case what == 3:
			far.Feed() // nothing
			far.Write(encode(plain("clear")))
			far.Close()
		}
		return a, nil
	}
	ts, err := transport.Listen(hnet.NewListener(), transport.ServerConfig{})
	sym.Assert(err == nil, "Listen fails")
	la, err := lease.NewAgent(lease.AgentConfig{}, leaseListener{ll}, func(string) (net.Conn, error) { return nil, errDial })
	sym.Assert(err == nil, "NewAgent fails")
	ids := [2]federation.NodeID{{Hi: 1, Lo: 1}, {Hi: 2, Lo: 2}}
	node, err := federation.NewSiteNode(federation.SiteNodeConfig{ClientTLS: cfg, TransportServer: ts, LeaseAgent: la, Instance: self,
		SeedNodes: []federation.SeedNodeInfo{seed(ids[0], addr(0)), seed(ids[1], addr(1))}})
	sym.Assert(err == nil, "NewSiteNode fails")
	sym.Assert(dials == [2]int{}, "a node dials before it sends")
	for n := 1; n <= 2; n++ {
		for i, id := range ids {
			m := &transport.Message{Body: []byte{byte(n)}}
			m.Headers.Actor = transport.MessageActorTypeFederation
			err := node.SendOneWay(id, m)
			sym.Quiesce()
			good := i == 0 || what == 0
			if good {
				sym.Reach("delivered")
				sym.Assert(err == nil && len(boxes[i]) == n && boxes[i][n-1].Body[0] == byte(n), "a message is not delivered")
				sym.Assert(dials[i] == 1, "a connection that lives is dialed again")
				continue
			}
			if what == 1 {
				sym.Reach("failed")
				sym.Assert(errors.Is(err, errDial) && dials[1] == n, "a failed dial is not reported, or remembered")
			} else if secure {
				sym.Reach("refused")
				sym.Assert(err != nil, "a message is sent without a handshake")
			}
			sym.Assert(len(boxes[1]) == 0, "a message is sent without a handshake")
		}
	}
	first := true
	for i, c := range conns {
		bad := c.Closed()
		sym.Assert(i > 0 || !bad, "a connection that lives is closed")
		if !secure {
			continue
		}
		sym.Assert(bad || i == 0 || what == 0, "a connection whose handshake fails stays open")
		// the framed handshake, then records
		out, hs := c.Out(), href.Cat(b[:2], b[5:])
		var got []byte
		for len(out) > 0 && len(got) < len(hs) {
			sym.Assert(len(out) >= 12, "bytes leave in the clear")
			n := sym.Concrete(int(out[0]) | int(out[1])<<8 | int(out[2])<<16 | int(out[3])<<24)
			sym.Assert(n >= 12 && n <= len(out), "bytes leave in the clear")
			fs, ok := hnet.Parse(out[:n])
			sym.Assert(ok && len(fs) == 1 && fs[0].Is(hnet.HActor, hnet.ActorV(35)), "a message leaves in the clear")
			got = append(got, fs[0].Body...)
			out = out[n:]
		}
		sym.Assert(sym.BytesEq(got, hs[:len(got)]), "other bytes than the handshake's leave in the clear")
		for len(out) > 0 {
			sym.Assert(len(out) >= 3 && (out[0] == 0x17 || out[0] == 0x15), "bytes leave in the clear after the handshake")
			n := 3 + int(out[1])<<8 + int(out[2])
			sym.Assert(n <= len(out), "bytes leave in the clear after the handshake")
			out = out[n:]
		}
		first = false
	}
	sym.Assert(!secure || !first, "no connection is dialed")
}
