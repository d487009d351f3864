package hlease

import (
	"context"
	"errors"
	"net"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

var errListen = errors.New("listen failed")

//verif:harness prop=C41 budget=60 reach=open,failed bound="NewTcpListeningAgent on 2 addresses that fails or not, TcpDialer of a session to 2 addresses that fails or not; a ping and its pong; close"
func AgentTcp() {
	hnet.Rand()
	at := []string{"0.0.0.0:1026", "10.1.2.3:0"}[sym.Choose("listen", 2)]
	to := []string{"peer:9", "peer:10"}[sym.Choose("dial", 2)]
	l := listener{hnet.NewListener()}
	lfail, dfail := sym.Choose("lfail", 2) == 1, sym.Choose("dfail", 2) == 1
	var out *hnet.Conn
	dials, listens := 0, 0
	net.ZZListen = func(network, addr string) (net.Listener, error) {
		listens++
		sym.Assert(network == "tcp" && addr == at, "the agent listens on another address")
		if lfail {
			return nil, errListen
		}
		return l, nil
	}
	net.ZZDial = func(network, addr string) (net.Conn, error) {
		dials++
		sym.Assert(network == "tcp" && addr == to, "another address is dialed")
		if dfail {
			return nil, errDial
		}
		out = hnet.New(addr)
		return out, nil
	}
	ag, err := lease.NewTcpListeningAgent(lease.AgentConfig{AppId: "app", LeaseDuration: 30e9}, at)
	sym.Assert(listens == 1 && dials == 0, "an agent does not listen once")
	if lfail {
		sym.Reach("failed")
		sym.Assert(ag == nil && errors.Is(err, errListen), "the reason why listening fails is lost")
		return
	}
	sym.Assert(err == nil && ag.Addr() == l.Addr(), "an agent does not tell its listener's address")
	a := &agent{Agent: ag, l: l.Listener, wait: make(chan error, 1)}
	a.serve()
	s, err := ag.Establish(to)
	sym.Assert(dials == 1, "a session does not dial once")
	if dfail {
		sym.Reach("failed")
		sym.Assert(s == nil && errors.Is(err, errDial), "the reason of a failed dial is lost")
	} else {
		sym.Assert(err == nil, "Establish fails")
		p := startPing(s, context.Background())
		sym.Quiesce()
		bodies, _, ok := frames(out.Out())
		sym.Assert(ok && len(bodies) == 1, "a ping is not one message")
		a.pong("peer", uint16(to[len(to)-1]-'0')+map[bool]uint16{true: 0, false: 10}[to == "peer:9"])
		sym.Quiesce()
		sym.Assert(p.ok(), "a ping does not succeed on its pong")
		sym.Reach("open")
	}
	ag.Close()
	sym.Quiesce()
	sym.Assert(a.ended(), "a closed agent goes on accepting")
	sym.Assert(out == nil || out.Closed(), "a closed agent keeps its sessions' connections")
	_, err = ag.Establish(to)
	sym.Assert(err != nil && dials == 1, "a closed agent opens a session")
}
