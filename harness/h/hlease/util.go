// Package hlease checks the lease package.
package hlease

import (
	"crypto/tls"
	"errors"
	"net"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

type listener struct{ *hnet.Listener }

func (listener) Addr() net.Addr { return hnet.Addr("10.0.0.1:443") }

// agent is a lease agent whose connections the harness plays.
type agent struct {
	*lease.Agent
	l     *hnet.Listener
	conns []*hnet.Conn
	prep  func(c *hnet.Conn)
	peer  func(c *hnet.Conn) // gets the other end of each connection
	wait  chan error
}

var errDial = errors.New("dial failed")

func newAgent() *agent { return newAgentTLS(nil) }

func newAgentTLS(cfg *tls.Config) *agent {
	a := &agent{l: hnet.NewListener(), wait: make(chan error, 1)}
	var err error
	a.Agent, err = lease.NewAgent(lease.AgentConfig{TLS: cfg, AppId: "app", LeaseDuration: 30e9}, listener{a.l}, func(addr string) (net.Conn, error) {
		c := hnet.New(addr)
		if a.peer != nil {
			var far *hnet.Conn
			c, far = hnet.Pair()
			a.peer(far)
		}
		if a.prep != nil {
			a.prep(c)
		}
		a.conns = append(a.conns, c)
		return c, nil
	})
	sym.Assert(err == nil, "NewAgent fails")
	return a
}

func (a *agent) serve() { go func() { a.wait <- a.Wait() }() }

// ended tells whether the accept loop returned.
func (a *agent) ended() bool { return len(a.wait) > 0 }

func (a *agent) establish(addr string) lease.Session {
	s, err := a.Establish(addr)
	sym.Assert(err == nil, "Establish fails")
	return s
}

// incoming connects a peer.
func (a *agent) incoming(b ...[]byte) *hnet.Conn {
	c := hnet.New("in")
	c.Feed(b...)
	a.l.Put(c)
	return c
}

const (
	pingRequest  = 2
	pingResponse = 3
)

func utf16(s string) []byte {
	var out []byte
	for i := 0; i < len(s); i++ {
		out = append(out, s[i], 0)
	}
	return out
}

// endpoint is a listen endpoint's bytes.
func endpoint(host string, port uint16) []byte {
	return href.Cat(utf16(host), []byte{0, 0, 2, 0}, href.LE16(port))
}

// header is a message header with an endpoint descriptor.
func header(typ int32, total, start, size uint32) []byte {
	h := make([]byte, 200)
	h[0], h[1] = 2, 1
	copy(h[4:], href.LE32(200))
	copy(h[8:], href.LE32(total))
	copy(h[24:], href.LE32(uint32(typ)))
	copy(h[76+9*12:], href.Cat(href.LE32(0), href.LE32(start), href.LE32(size)))
	return h
}

// message is a lease message from an endpoint.
func message(typ int32, host string, port uint16) []byte {
	e := endpoint(host, port)
	return href.Cat(header(typ, uint32(200+len(e)), 200, uint32(len(e))), e)
}

func frameHead(typ byte, size uint32) []byte {
	return href.Cat([]byte{typ, 0, 0, 0}, href.LE32(size), href.LE32(0))
}

func frame(body []byte) []byte { return href.Cat(frameHead(1, uint32(12+len(body))), body) }

func connectFrame() []byte { return frameHead(2, 12) }

// frames takes apart what a lease endpoint wrote; ok is false if that is not
// a sequence of whole frames.
func frames(b []byte) (bodies [][]byte, connects int, ok bool) {
	for len(b) > 0 {
		if len(b) < 12 {
			return bodies, connects, false
		}
		n := sym.Concrete(int(b[4]) | int(b[5])<<8 | int(b[6])<<16 | int(b[7])<<24)
		if n < 12 || n > len(b) {
			return bodies, connects, false
		}
		switch sym.Concrete(int(b[0])) {
		case 1:
			bodies = append(bodies, b[12:n])
		case 2:
			connects++
		default:
			return bodies, connects, false
		}
		b = b[n:]
	}
	return bodies, connects, true
}
