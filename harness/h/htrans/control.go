package htrans

import (
	"context"
	"errors"
	"net"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

//verif:harness prop=C17 budget=60 bound="2 transport messages relating to a request in flight or not (greeting, heartbeat request and response, unknown action of 1 arbitrary character), bodies of 0 to 3 arbitrary bytes, any of the flags; then the reply"
func ControlInternal() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	cc := start(cl, context.Background(), request(mid(1)))
	go cl.Wait()
	sym.Quiesce()
	k := sym.Choose("n", 4)
	for i := 0; i < 2; i++ {
		hs := []hnet.Hdr{{Id: hnet.HActor, Data: hnet.ActorV(1)}, {Id: hnet.HId, Data: refId(mid(50))}}
		switch sym.Choose("action", 5) {
		case 0:
		case 1:
			hs = append(hs, hnet.Hdr{Id: hnet.HAction, Data: hnet.ActionV("HeartbeatRequest")})
		case 2:
			hs = append(hs, hnet.Hdr{Id: hnet.HAction, Data: hnet.ActionV("HeartbeatResponse")})
		case 3:
			a := sym.Str("a", 1)
			sym.Assume(a[0] < 0x80)
			hs = append(hs, hnet.Hdr{Id: hnet.HAction, Data: hnet.ActionV(a)})
		case 4:
			hs = append(hs, hnet.Hdr{Id: hnet.HAction, Data: hnet.ActionV("ConnectionAuth")}, hnet.Hdr{Id: hnet.HFault, Data: hnet.FaultV(int64(sym.Choose("code", 2)*9), true)})
		}
		if sym.Choose("relates", 2) == 1 {
			hs = append(hs, hnet.Hdr{Id: hnet.HRelates, Data: refId(mid(1))}, hnet.Hdr{Id: hnet.HExpects, Data: hnet.BoolV(sym.Bool("expects"))})
		}
		c.Feed(hnet.Frame(hnet.Hdrs(hs...), sym.Bytes("body", k), false))
	}
	sym.Quiesce()
	sym.Assert(!cc.returned(), "a transport message answered a request")
	sym.Assert(len(in.all()) == 0, "a transport message was delivered to the application")
	sym.Assert(!c.Closed(), "a transport message closed the connection")
	c.Feed(reply(9, mid(1), nil))
	sym.Quiesce()
	sym.Assert(cc.returned() && cc.err == nil, "a request misses its reply")
}

// auth is the peer's answer to the authentication.
func auth(code int64, body []byte, relates bool) []byte {
	hs := []hnet.Hdr{
		{Id: hnet.HActor, Data: hnet.ActorV(int64(transport.MessageActorTypeTransportSendTarget))},
		{Id: hnet.HAction, Data: hnet.ActionV("ConnectionAuth")},
		{Id: hnet.HFault, Data: hnet.FaultV(code, true)}}
	if relates {
		hs = append(hs, hnet.Hdr{Id: hnet.HRelates, Data: refId(mid(1))})
	}
	return hnet.Frame(hnet.Hdrs(hs...), body, false)
}

//verif:harness prop=C17 budget=90 reach=failed,works bound="an authentication message with any error code (64 bits), a body with a text of 1 ASCII character, empty or of 3 arbitrary bytes, relating to a request in flight or not"
func AuthFailure() {
	hnet.Rand()
	c := hnet.New("tx")
	var in inbox
	cl := connect(c, transport.Config{}, in.cb)
	cc := start(cl, context.Background(), request(mid(1)))
	c2 := start(cl, context.Background(), request(mid(2)))
	p := startPing(cl, context.Background())
	sym.Quiesce()
	loop := make(chan error, 1)
	go func() { loop <- cl.Wait() }()
	code := sym.I64("code")
	var body []byte
	switch sym.Choose("body", 3) {
	case 0:
		s := sym.Str("text", 1)
		sym.Assume(s[0] < 0x80)
		body = href.Obj(href.Ascii(s))
	case 2:
		body = sym.Bytes("garbage", 3)
	}
	relates := sym.Choose("relates", 2) == 1
	c.Feed(auth(code, body, relates))
	sym.Quiesce()
	if code == 0 {
		sym.Reach("works")
		sym.Assert(!c.Closed(), "an authentication without an error closed the connection")
		sym.Assert(!c2.returned() && !p.returned(), "an authentication without an error failed a request")
		n := len(in.all())
		c.Feed(reply(8, mid(2), nil), reply(9, transport.MessageId{}, nil))
		sym.Quiesce()
		sym.Assert(c2.returned() && c2.err == nil, "a request fails after an authentication without an error")
		sym.Assert(len(in.all()) == n+1, "the receive loop is stuck")
		m := request(mid(3))
		sym.Assert(cl.SendOneWay(m) == nil, "a send fails after an authentication without an error")
		return
	}
	sym.Reach("failed")
	sym.Assert(c.Closed(), "a failed authentication does not close the connection")
	sym.Assert(len(in.all()) == 0, "a failed authentication was delivered to the application")
	select {
	case <-loop:
	default:
		sym.Fail("the receive loop goes on after a failed authentication")
	}
	sym.Assert(cc.returned() && cc.err != nil && c2.returned() && c2.err != nil, "a request does not fail although the authentication failed")
	sym.Assert(p.returned() && p.err != nil, "a ping does not fail although the authentication failed")
	n := len(c.Out())
	failure := func(err error) bool {
		return err != nil && !errors.Is(err, net.ErrClosed) && len(c.Out()) == n
	}
	sym.Assert(failure(cl.SendOneWay(request(mid(4)))), "a send after a failed authentication does not return that failure")
	_, err := cl.RequestReply(context.Background(), request(mid(5)))
	sym.Assert(failure(err), "a request after a failed authentication does not return that failure")
	_, err = cl.Ping(context.Background())
	sym.Assert(failure(err), "a ping after a failed authentication does not return that failure")
	cl.Close()
	sym.Assert(failure(cl.SendOneWay(request(mid(6)))), "a send after closing does not return the authentication failure")
}

//verif:harness prop=C17 budget=60 tbudget=300 bound="a failed authentication races with 2 requests and a close; every schedule with at most 2 (thorough 3) preemptions"
func AuthRaces() {
	hnet.Rand()
	c := hnet.New("tx")
	cl := connect(c, transport.Config{}, nil)
	c.Feed(auth(5, nil, sym.Choose("relates", 2) == 1))
	sym.Preempt(sym.Tier(2, 3))
	go cl.Wait()
	c1 := start(cl, context.Background(), request(mid(1)))
	c2 := start(cl, context.Background(), request(mid(2)))
	if sym.Choose("close", 2) == 1 {
		cl.Close()
	}
	sym.Quiesce()
	sym.Preempt(0)
	sym.Assert(c.Closed(), "a failed authentication does not close the connection")
	sym.Assert(c1.returned() && c1.err != nil && c2.returned() && c2.err != nil, "a request does not fail although the authentication failed")
	sym.Assert(cl.SendOneWay(request(mid(3))) != nil, "a send succeeds after a failed authentication")
}
