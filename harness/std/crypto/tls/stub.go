package tls

import (
	"errors"
	"io"
	"sync"
)

// The model of a tls connection that the harnesses run in place of the
// protocol: a handshake of scripted flights and then plain records. While
// ZZPlan is nil the real protocol runs.

// ZZFlight is what one side writes during the handshake.
type ZZFlight struct {
	Client bool
	Data   []byte
	// Late flights are not awaited by the other side: they are records it
	// comes across when it reads data (session tickets after a client's
	// certificate).
	Late bool
	// Extra goes out with the last piece of Data, the other side does not await
	// it either (session tickets in the first flight of a server).
	Extra []byte
}

// ZZPlan, if set, switches the model on.
var ZZPlan func(client bool, cfg *Config) []ZZFlight

// ZZRead is the buffer size of the next read, at least 1, for need bytes.
var ZZRead = func(need int) int { return 512 }

// ZZSplit is the size of the next of the writes that make up a flight.
var ZZSplit = func(n int) int { return n }

// ZZVerify, if set, is the last step of a handshake.
var ZZVerify func(client bool) error

type zzState struct {
	hs    sync.Mutex
	out   sync.Mutex
	in    sync.Mutex
	done  bool
	err   error
	raw   []byte // read, not taken yet
	rerr  error
	plain []byte
}

func (c *Conn) zzNeed(n int) error {
	z := &c.zz
	for idle := 0; len(z.raw) < n; {
		if z.rerr != nil {
			if z.rerr == io.EOF && len(z.raw) > 0 {
				return io.ErrUnexpectedEOF
			}
			return z.rerr
		}
		b := make([]byte, ZZRead(n-len(z.raw)))
		k, err := c.conn.Read(b)
		if k == 0 && err == nil {
			if idle++; idle > 100 {
				return io.ErrNoProgress
			}
			continue
		}
		z.raw = append(z.raw, b[:k]...)
		z.rerr = err
	}
	return nil
}

// ZZEqual compares what was read with the script.
var ZZEqual = func(a, b []byte) bool { return string(a) == string(b) }

func (c *Conn) zzHandshake() error {
	z := &c.zz
	z.hs.Lock()
	defer z.hs.Unlock()
	if z.done || z.err != nil {
		return z.err
	}
	z.err = c.zzRun()
	z.done = z.err == nil
	return z.err
}

func (c *Conn) zzRun() error {
	z := &c.zz
	for _, f := range ZZPlan(c.isClient, c.config) {
		if f.Client == c.isClient {
			for rest := f.Data; len(rest) > 0; {
				n := ZZSplit(len(rest))
				piece := rest[:n:n]
				if n == len(rest) {
					piece = append(piece, f.Extra...)
				}
				k, err := c.conn.Write(piece)
				if err != nil {
					return err
				}
				if k != len(piece) {
					return io.ErrShortWrite
				}
				rest = rest[n:]
			}
			continue
		}
		if f.Late {
			continue
		}
		if err := c.zzNeed(len(f.Data)); err != nil {
			return err
		}
		if !ZZEqual(z.raw[:len(f.Data)], f.Data) {
			return errors.New("tls model: unexpected handshake bytes")
		}
		z.raw = z.raw[len(f.Data):]
	}
	if ZZVerify != nil {
		return ZZVerify(c.isClient)
	}
	return nil
}

func zzRecord(typ byte, b []byte) []byte {
	out := []byte{typ, byte(len(b) >> 8), byte(len(b))}
	for _, x := range b {
		out = append(out, x^0x55)
	}
	return out
}

func (c *Conn) zzRead(b []byte) (int, error) {
	if err := c.zzHandshake(); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	z := &c.zz
	z.in.Lock()
	defer z.in.Unlock()
	for len(z.plain) == 0 {
		if err := c.zzNeed(3); err != nil {
			return 0, err
		}
		n := int(z.raw[1])<<8 | int(z.raw[2])
		typ := z.raw[0]
		if typ != 0x17 && typ != 0x16 && typ != 0x15 {
			return 0, errors.New("tls model: not a record")
		}
		if err := c.zzNeed(3 + n); err != nil {
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return 0, err
		}
		data := z.raw[3 : 3+n]
		z.raw = z.raw[3+n:]
		switch typ {
		case 0x15:
			z.rerr = io.EOF
			z.raw = nil
			return 0, io.EOF
		case 0x17:
			for _, x := range data {
				z.plain = append(z.plain, x^0x55)
			}
		}
	}
	n := copy(b, z.plain)
	z.plain = z.plain[n:]
	return n, nil
}

func (c *Conn) zzWrite(b []byte) (int, error) {
	if err := c.zzHandshake(); err != nil {
		return 0, err
	}
	z := &c.zz
	z.out.Lock()
	defer z.out.Unlock()
	done := 0
	for done < len(b) {
		n := len(b) - done
		if n > 16384 {
			n = 16384
		}
		if _, err := c.conn.Write(zzRecord(0x17, b[done:done+n])); err != nil {
			return done, err
		}
		done += n
	}
	return done, nil
}

func (c *Conn) zzClose() error {
	z := &c.zz
	z.out.Lock()
	if z.done {
		c.conn.Write(zzRecord(0x15, []byte{1, 0}))
	}
	z.out.Unlock()
	return c.conn.Close()
}
