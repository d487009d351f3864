package hlease

import (
	"context"
	"errors"
	"strconv"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

//verif:harness prop=C29,C30 budget=90 bound="24 sessions with a ping each waiting, pongs forwards, backwards or in strides, on one connection or one each, one pong from any port (16 bits) that has no session, some sessions closed, replaced or cancelled first; then another ping each and the agent closed"
func ManySessions() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	const n = 24
	var ss []lease.Session
	var ps []*ping
	for i := 0; i < n; i++ {
		ss = append(ss, a.establish("peer:"+strconv.Itoa(100+i)))
	}
	ctx, cancel := context.WithCancel(context.Background())
	for i := 0; i < n; i++ {
		cx := context.Background()
		if i%6 == 1 {
			cx = ctx
		}
		ps = append(ps, startPing(ss[i], cx))
		sym.Quiesce()
		bodies, _, ok := frames(a.conns[i].Out())
		sym.Assert(ok && len(bodies) == 1 && bodies[0][24] == pingRequest, "a ping does not send one ping request on its session's connection")
	}
	what := sym.Choose("first", 4)
	over := func(i int) bool { return what > 0 && i%6 == 1 }
	for i := 1; i < n; i += 6 {
		switch what {
		case 1:
			ss[i].Close()
		case 2:
			ss[i] = a.establish("peer:" + strconv.Itoa(100+i))
		}
	}
	if what == 3 {
		cancel()
	}
	sym.Quiesce()
	for i, p := range ps {
		sym.Assert(p.returned() == over(i), "a ping returns without a pong, or waits on though its session or context ended")
		sym.Assert(!over(i) || p.err != nil, "a ping without a pong succeeds")
		sym.Assert(!over(i) || what < 3 || errors.Is(p.err, context.Canceled), "a cancelled ping does not return its context's error")
	}
	order := sym.Choose("order", 3)
	var in *hnet.Conn
	if sym.Choose("connection", 2) == 0 {
		in = a.incoming(connectFrame())
	}
	port := sym.U16("port")
	sym.Assume(sym.And(port >= 100+n, port < 1000))
	a.pong("peer", port)
	sym.Quiesce()
	for k := 0; k < n; k++ {
		i := k
		switch order {
		case 1:
			i = n - 1 - k
		case 2:
			i = k * 7 % n
		}
		sym.Assert(over(i) || !ps[i].returned(), "a ping returns without a pong")
		if in != nil {
			in.Feed(frame(message(pingResponse, "peer", uint16(100+i))))
		} else {
			a.pong("peer", uint16(100+i))
		}
		sym.Quiesce()
		sym.Assert(over(i) || ps[i].ok(), "a ping does not succeed on its pong")
	}
	for i, s := range ss {
		p := startPing(s, context.Background())
		sym.Quiesce()
		if what == 1 && over(i) {
			sym.Assert(p.failed(), "a ping on a closed session does not fail")
			continue
		}
		sym.Assert(!p.returned(), "a ping returns without a pong")
		if i%2 == 0 {
			a.pong("peer", uint16(100+i))
			sym.Quiesce()
			sym.Assert(p.ok(), "a ping does not succeed on its pong")
		}
		ps[i] = p
	}
	a.Close()
	cancel()
	sym.Quiesce()
	for _, p := range ps {
		sym.Assert(p.returned(), "a ping outlives its agent")
	}
	for _, c := range a.conns {
		sym.Assert(c.Closed(), "closing the agent leaves a session open")
	}
	sym.Assert(a.ended(), "closing the agent does not end it")
}
