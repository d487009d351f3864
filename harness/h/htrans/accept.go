package htrans

import (
	"errors"
	"net"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

var errAccept = errors.New("accept failed")

// acceptSequence plays accept results to an accept loop: serving says that a
// new connection is served.
func acceptSequence(l *hnet.Listener, ended func() bool, result func() error, stop func() error, serving func() bool) {
	broken, closed := false, false
	for i := 0; i < sym.Tier(3, 5); i++ {
		live := !broken && !closed
		switch sym.Choose("accept", 5) {
		case 0:
			sym.Assert(!live || serving(), "a connection is not served")
		case 1:
			c := hnet.New("bad")
			switch sym.Choose("how", 5) {
			case 3:
				c.Stall = make(chan struct{}) // the peer does not read
				c.Feed(good(1, nil))
				l.Put(c)
				continue
			case 4:
				l.Put(c) // the peer sends nothing
				continue
			case 0:
				c.FailWrite = 1
				c.Feed(good(1, nil))
			case 1:
				c.Feed([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13})
			case 2:
			}
			c.End(nil)
			l.Put(c)
			sym.Quiesce()
			sym.Assert(!live || c.Closed(), "a connection that failed is not closed")
		case 2:
			l.PutErr(hnet.TempErr{})
		case 3:
			l.PutErr(errAccept)
			broken = broken || live
		case 4:
			sym.Assert(closed || stop() == nil, "closing a listening server fails")
			closed = true
		}
		sym.Quiesce()
		sym.Assert(ended() == (broken || closed), "the accept loop ends without a permanent error or close, or stays after one")
	}
	switch {
	case broken || closed:
		err := result()
		sym.Assert(err != nil, "an ended accept loop returns no error")
		sym.Assert(closed || errors.Is(err, errAccept), "the accept loop does not return the error that ended it")
		sym.Reach("ended")
	default:
		sym.Assert(serving(), "a connection is not served")
		sym.Reach("open")
	}
}

//verif:harness prop=C30 budget=60 reach=ended,open bound="a server with one live connection and 3 (thorough 5) accept results of: a good connection, one whose greeting fails, one with garbage, one that hangs up, one whose peer does not read or sends nothing, a temporary error, a permanent error, close of the server"
func ServerAccepts() {
	hnet.Rand()
	var in inbox
	l := hnet.NewListener()
	srv, err := transport.Listen(l, transport.ServerConfig{MessageCallback: in.cb})
	sym.Assert(err == nil, "Listen fails")
	wait := make(chan error, 1)
	go func() { wait <- srv.Serve() }()
	old := hnet.New("old")
	l.Put(old)
	sym.Quiesce()
	n := 0
	acceptSequence(l, func() bool { return len(wait) > 0 }, func() error { return <-wait }, srv.Close, func() bool {
		n++
		c := hnet.New("good")
		c.Feed(good(byte(n), nil))
		l.Put(c)
		sym.Quiesce()
		m := in.all()
		return len(m) == n && eqId(m[n-1].Headers.Id, mid(byte(n))) && !c.Closed()
	})
	sym.Assert(!old.Closed(), "a connection is closed by what others did")
	old.Feed(good(9, nil))
	sym.Quiesce()
	sym.Assert(len(in.all()) == n+1, "a connection suffers from what others did")
}

//verif:harness prop=C30 budget=60 reach=ended,open bound="a piper with one live pair and 3 (thorough 5) accept results of: a good connection, one whose greeting fails, one with garbage, one that hangs up, one whose peer does not read or sends nothing, a temporary error, a permanent error, close of the listener"
func PiperAccepts() {
	hnet.Rand()
	l := hnet.NewListener()
	var up *hnet.Conn
	p, err := transport.NewPiper(l, transport.PiperConfig{FindUpstream: func(*transport.MessageHeaders, net.Conn) (net.Conn, transport.Config, error) {
		up = hnet.New("up")
		return up, transport.Config{}, nil
	}})
	sym.Assert(err == nil, "NewPiper fails")
	wait := make(chan error, 1)
	go func() { wait <- p.Serve() }()
	pair := func() (down, u *hnet.Conn) {
		up = nil
		down = hnet.New("down")
		down.Feed(good(1, nil))
		l.Put(down)
		sym.Quiesce()
		return down, up
	}
	carries := func(down, u *hnet.Conn) bool {
		if u == nil || down.Closed() || u.Closed() {
			return false
		}
		was := len(u.Out())
		down.Feed(good(2, nil))
		sym.Quiesce()
		return len(u.Out()) > was
	}
	oldDown, oldUp := pair()
	acceptSequence(l, func() bool { return len(wait) > 0 }, func() error { return <-wait }, l.Close, func() bool {
		return carries(pair())
	})
	sym.Assert(carries(oldDown, oldUp), "a pair of connections suffers from what others did")
}
