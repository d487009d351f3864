// Package hnet holds in-memory connections and listeners whose behaviour the
// harness controls, and a reader of the frame format that does not use the
// code under test.
package hnet

import (
	"crypto/rand"
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// ErrWrite is what a failing write returns.
var ErrWrite = errors.New("write failed")

type Addr string

func (a Addr) Network() string { return "mem" }
func (a Addr) String() string  { return string(a) }

// Conn is one end of a connection. Every Write is atomic, as on a real
// net.Conn.
type Conn struct {
	Name string
	mu   sync.Mutex
	in   chan []byte
	cur  []byte
	done chan struct{}
	shut bool
	peer *Conn

	writes [][]byte
	closes int

	// FailWrite is the number (from 1) of the first Write that fails; it
	// takes Part bytes of its data. 0 never fails.
	// The error is WriteErr, ErrWrite if it is nil.
	FailWrite int
	Part      int
	WriteErr  error
	// Stall, if set, makes writes wait until it is closed, as those to a peer
	// that does not read.
	Stall chan struct{}
	// OnWrite, if set, sees every write before it takes place.
	OnWrite func(n int, b []byte)
	// OnRead, if set, says how many of the n bytes present a Read yields.
	OnRead func(n int) int
	// FailRead is returned by reads once the input is used up.
	FailRead error
	// Glued is set if the last bytes come together with FailRead.
	Glued bool
}

// New makes a lone end: reads yield what Feed puts in.
func New(name string) *Conn {
	return &Conn{Name: name, in: make(chan []byte, 512), done: make(chan struct{})}
}

// Pair makes two connected ends.
func Pair() (*Conn, *Conn) {
	a, b := New("a"), New("b")
	a.peer, b.peer = b, a
	return a, b
}

// Feed makes bytes available to Read.
func (c *Conn) Feed(b ...[]byte) {
	for _, x := range b {
		if len(x) > 0 {
			c.in <- append([]byte(nil), x...)
		}
	}
}

// End makes Read return err (io.EOF if nil) after all that was fed.
func (c *Conn) End(err error) {
	if err == nil {
		err = io.EOF
	}
	c.FailRead = err
	c.in <- nil
}

func (c *Conn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	select {
	case <-c.done:
		return 0, net.ErrClosed
	default:
	}
	if len(c.cur) == 0 {
		select {
		case x := <-c.in:
			if x == nil {
				c.in <- nil
				return 0, c.FailRead
			}
			c.cur = x
		case <-c.done:
			return 0, net.ErrClosed
		}
	}
	n := len(c.cur)
	if n > len(b) {
		n = len(b)
	}
	if c.OnRead != nil {
		n = c.OnRead(n)
	}
	copy(b, c.cur[:n])
	c.cur = c.cur[n:]
	if c.Glued && len(c.cur) == 0 && len(c.in) == 1 && c.FailRead != nil {
		return n, c.FailRead
	}
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.Stall != nil {
		select {
		case <-c.Stall:
		case <-c.done:
			return 0, net.ErrClosed
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.shut {
		return 0, net.ErrClosed
	}
	n := len(c.writes) + 1
	if c.OnWrite != nil {
		c.OnWrite(n, b)
	}
	cp := append([]byte(nil), b...)
	if c.FailWrite > 0 && n >= c.FailWrite {
		p := c.Part
		if n > c.FailWrite {
			p = 0
		}
		if p > len(b) {
			p = len(b)
		}
		c.writes = append(c.writes, cp[:p])
		if c.peer != nil && p > 0 {
			c.peer.Feed(cp[:p])
		}
		if c.WriteErr != nil {
			return p, c.WriteErr
		}
		return p, ErrWrite
	}
	c.writes = append(c.writes, cp)
	if c.peer != nil {
		c.peer.Feed(cp)
	}
	return len(b), nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.shut {
		return net.ErrClosed
	}
	c.shut = true
	close(c.done)
	if c.peer != nil {
		c.peer.End(nil)
	}
	return nil
}

// Closed tells whether Close was called.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.shut
}

// Writes returns the data of each Write so far.
func (c *Conn) Writes() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([][]byte(nil), c.writes...)
}

// Out is the byte stream written so far.
func (c *Conn) Out() []byte {
	var out []byte
	for _, w := range c.Writes() {
		out = append(out, w...)
	}
	return out
}

func (c *Conn) LocalAddr() net.Addr                { return Addr(c.Name + ".local:1") }
func (c *Conn) RemoteAddr() net.Addr               { return Addr(c.Name + ".remote:2") }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Listener hands out what the harness puts in.
type Listener struct {
	in   chan accepted
	done chan struct{}
	once sync.Once
}

type accepted struct {
	c   net.Conn
	err error
}

func NewListener() *Listener {
	return &Listener{in: make(chan accepted, 64), done: make(chan struct{})}
}

func (l *Listener) Put(c net.Conn)   { l.in <- accepted{c, nil} }
func (l *Listener) PutErr(err error) { l.in <- accepted{nil, err} }
func (l *Listener) Addr() net.Addr   { return Addr("listener:1") }
func (l *Listener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Err: net.ErrClosed}
	default:
	}
	select {
	case a := <-l.in:
		return a.c, a.err
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Err: net.ErrClosed}
	}
}

func (l *Listener) Close() error {
	err := error(net.ErrClosed)
	l.once.Do(func() { close(l.done); err = nil })
	return err
}

// TempErr is a temporary network error.
type TempErr struct{}

func (TempErr) Error() string   { return "temporary" }
func (TempErr) Timeout() bool   { return false }
func (TempErr) Temporary() bool { return true }

// LastErr is a network error that is not temporary.
type LastErr struct{ TempErr }

func (LastErr) Error() string   { return "broken for good" }
func (LastErr) Temporary() bool { return false }

// WriteErrs are the kinds of errors writes fail with.
var WriteErrs = []error{nil, TempErr{}, LastErr{}}

type counter struct {
	mu sync.Mutex
	n  byte
}

func (r *counter) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	for i := range b {
		b[i] = r.n
	}
	return len(b), nil
}

// Rand replaces the random source: every read yields another byte, repeated.
func Rand() { rand.Reader = &counter{} }
