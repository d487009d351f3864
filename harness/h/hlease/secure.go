package hlease

import (
	"context"
	"crypto/tls"
	"errors"
	"io"

	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

// unseal takes the records of the tls model apart.
func unseal(b []byte) (plain []byte, ok bool) {
	for len(b) > 0 {
		if len(b) < 3 {
			return plain, false
		}
		typ, n := sym.Concrete(int(b[0])), sym.Concrete(int(b[1])<<8|int(b[2]))
		if typ != 0x17 && typ != 0x15 || len(b) < 3+n {
			return plain, false
		}
		if typ == 0x17 {
			for _, x := range b[3 : 3+n] {
				plain = append(plain, x^0x55)
			}
		}
		b = b[3+n:]
	}
	return plain, true
}

// sealed asserts that out is no more than a handshake's bytes and then
// records, and returns what these carry.
func sealed(out, hs []byte) []byte {
	if len(out) <= len(hs) {
		sym.Assert(sym.BytesEq(out, hs[:len(out)]), "bytes leave in the clear")
		return nil
	}
	sym.Assert(sym.BytesEq(out[:len(hs)], hs), "bytes leave in the clear")
	plain, ok := unseal(out[len(hs):])
	sym.Assert(ok, "bytes leave in the clear")
	return plain
}

//verif:harness prop=C40,C29 budget=60 tbudget=300 reach=pong,refused bound="a lease agent with TLS: a ping to a peer that does the handshake (arbitrary contents), answers in the clear, ends the connection or is refused by the last step; then a pong over an incoming connection with a handshake, in the clear, or with a handshake that is refused; buffers of 1 or 512 bytes"
func PingSecure() {
	hnet.Rand()
	b := sym.Bytes("handshake", 7)
	for _, x := range b {
		sym.Assume(x > 3) // no lease frame, no record
		sym.Assume(sym.And(x != 0x17, x != 0x15))
	}
	tls.ZZPlan = func(bool, *tls.Config) []tls.ZZFlight {
		return []tls.ZZFlight{{Client: true, Data: b[:2]}, {Data: b[2:5]}, {Client: true, Data: b[5:]}}
	}
	tls.ZZEqual = sym.BytesEq
	if sym.Choose("read", 2) == 1 {
		tls.ZZRead = func(int) int { return 1 }
	}
	cside, sside := href.Cat(b[:2], b[5:]), b[2:5]
	a := newAgentTLS(&tls.Config{})
	refuse := 0
	tls.ZZVerify = func(client bool) error {
		if client && refuse == 1 || !client && refuse == 2 {
			return errors.New("certificate refused")
		}
		return nil
	}
	out := sym.Choose("out", 4)
	var got []byte
	a.peer = func(far *hnet.Conn) {
		switch out {
		case 0, 3:
			go func() {
				t := tls.Server(far, &tls.Config{})
				buf := make([]byte, 300)
				for {
					n, err := io.ReadAtLeast(t, buf, 1)
					got = append(got, buf[:n]...)
					if err != nil {
						return
					}
				}
			}()
		case 1:
			far.Write(href.Cat(connectFrame(), frame(message(pingResponse, "peer", 9))))
		case 2:
			far.Close()
		}
	}
	if out == 3 {
		refuse = 1
	}
	a.serve()
	s := a.establish("peer:9")
	p := startPing(s, context.Background())
	sym.Quiesce()
	plain := sealed(a.conns[0].Out(), cside)
	if out != 0 {
		sym.Reach("refused")
		sym.Assert(p.failed(), "a ping succeeds, or waits, without a handshake")
		sym.Assert(len(plain) == 0, "a ping is sent without a handshake")
		return
	}
	sym.Assert(sym.BytesEq(got, plain), "the peer gets other bytes than were sent")
	bodies, _, ok := frames(plain)
	sym.Assert(ok && len(bodies) == 1 && bodies[0][24] == pingRequest, "a ping is not one message in the tunnel")
	sym.Assert(!p.returned(), "a ping returns without a pong")
	c, d := hnet.Pair()
	a.l.Put(d)
	pong := href.Cat(connectFrame(), frame(message(pingResponse, "peer", 9)))
	in := sym.Choose("in", 3)
	switch in {
	case 0:
		go tls.Client(c, &tls.Config{}).Write(pong)
	case 1:
		c.Write(pong)
	case 2:
		refuse = 2
		go tls.Client(c, &tls.Config{}).Write(pong)
	}
	sym.Quiesce()
	plain = sealed(d.Out(), sside)
	if in == 0 {
		sym.Reach("pong")
		_, n, ok := frames(plain)
		sym.Assert(ok && n == 1, "an agent does not greet an incoming connection once")
		sym.Assert(p.ok(), "a ping does not succeed on its pong")
		return
	}
	sym.Assert(!p.returned(), "a pong counts without a handshake")
	sym.Assert(len(plain) == 0, "a message is sent without a handshake")
	sym.Assert(d.Closed(), "an agent keeps a connection without a handshake")
}
