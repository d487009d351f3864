// Package hnaming checks the naming package.
package hnaming

import (
	"context"
	"sync"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

const (
	hActivity = 0x8020
	hTimeout  = 0x8023
	hVersion  = 0x8025
	hClient   = 0x8040
)

// client is a naming client whose gateway the harness plays.
type client struct {
	*naming.NamingClient
	tr   *transport.Client
	c    *hnet.Conn
	loop chan error
	seen int // requests taken so far

	mu  sync.Mutex
	got []*naming.ServiceNotification
}

func newClient() *client {
	k := &client{c: hnet.New("gateway"), loop: make(chan error, 1)}
	var err error
	k.tr, err = transport.Connect(k.c, transport.ClientConfig{})
	sym.Assert(err == nil, "connecting over a working connection fails")
	k.NamingClient, err = naming.NewNamingClient(k.tr)
	sym.Assert(err == nil, "NewNamingClient fails")
	k.OnServiceNotification = func(n *naming.ServiceNotification) {
		k.mu.Lock()
		defer k.mu.Unlock()
		k.got = append(k.got, n)
	}
	k.seen = 1 // the greeting
	go func() { k.loop <- k.tr.Wait() }()
	return k
}

// ended tells whether the receive loop returned.
func (k *client) ended() bool { return len(k.loop) > 0 }

func (k *client) notified() []*naming.ServiceNotification {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]*naming.ServiceNotification(nil), k.got...)
}

// sent returns the messages sent since the last call.
func (k *client) sent() []*hnet.Msg {
	sym.Quiesce()
	ms, ok := hnet.Parse(k.c.Out())
	sym.Assert(ok && len(ms) >= k.seen, "the byte stream is not a sequence of whole frames")
	out := ms[k.seen:]
	k.seen = len(ms)
	return out
}

// request takes the one request sent since the last call.
func (k *client) request(action string) *hnet.Msg {
	ms := k.sent()
	sym.Assert(len(ms) == 1, "a naming call does not send one request at a time")
	checkRequest(ms[0], action)
	return ms[0]
}

func checkRequest(m *hnet.Msg, action string) {
	sym.Assert(m.Is(hnet.HAction, hnet.ActionV(action)), "wrong action of a naming request")
	sym.Assert(m.Is(hnet.HActor, hnet.ActorV(5)), "a naming request is not for the naming gateway")
	sym.Assert(m.Is(hnet.HExpects, hnet.BoolV(true)), "a naming request expects no reply")
	sym.Assert(len(m.Get(hnet.HId)) == 1 && len(m.Get(hnet.HRelates)) == 0, "a naming request has no identifier")
	sym.Assert(m.Is(hVersion, href.Obj(href.S(href.Int64, 1), href.S(href.Int64, 2))), "a naming request names no protocol version")
	sym.Assert(len(m.Get(hActivity)) == 1, "a naming request has no activity")
}

// answer is a reply to a request.
type answer struct {
	action string
	code   int64 // the error header, if not 0
	body   []byte
}

func (a answer) frame(m *hnet.Msg) []byte {
	hs := []hnet.Hdr{{Id: hnet.HActor, Data: hnet.ActorV(5)}, {Id: hnet.HRelates, Data: m.Get(hnet.HId)[0]}}
	if a.action != "" {
		hs = append(hs, hnet.Hdr{Id: hnet.HAction, Data: hnet.ActionV(a.action)})
	}
	if a.code != 0 {
		hs = append(hs, hnet.Hdr{Id: hnet.HFault, Data: hnet.FaultV(a.code, false)})
	}
	return hnet.Frame(hnet.Hdrs(hs...), a.body, false)
}

func (k *client) reply(m *hnet.Msg, a answer) {
	k.c.Feed(a.frame(m))
	sym.Quiesce()
}

// call is a naming call in flight.
type call struct {
	done chan struct{}
	v    interface{}
	err  error
}

func start(f func() (interface{}, error)) *call {
	c := &call{done: make(chan struct{})}
	go func() {
		c.v, c.err = f()
		close(c.done)
	}()
	return c
}

func (c *call) returned() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}
func (c *call) failed() bool { return c.returned() && c.err != nil }
func (c *call) ok() bool     { return c.returned() && c.err == nil }

// the three calls

var calls = []func(k *client, ctx context.Context) (interface{}, error){
	func(k *client, ctx context.Context) (interface{}, error) { return k.Ping(ctx) },
	func(k *client, ctx context.Context) (interface{}, error) { return k.GetApplicationList(ctx, "app") },
	func(k *client, ctx context.Context) (interface{}, error) {
		return k.RegisterFilter(ctx, common.Uri{Path: "p"}, true, false)
	},
}

// steps are the requests each call sends, in turn, with a good answer.
var steps = [][]struct {
	action string
	good   answer
}{
	{{"PingRequest", answer{"PingRequest", 0, href.Obj(gatewayV([]byte("gw"), 1, 2, 3, []byte("n")))}}},
	{{"QueryRequest", answer{"QueryReply", 0, href.Obj(href.S(href.Int32, 1), pointer(href.Obj(array())), href.S(href.Int32, 0))}}},
	{
		{"NotificationClientConnectionRequest", answer{"NotificationClientConnectionReply", 0, href.Obj(generationV(1, 2, 3), href.S(href.Int64, 0), gatewayV([]byte("gw"), 1, 2, 3, []byte("n")))}},
		{"RegisterServiceNotificationFilterRequest", answer{"RegisterServiceNotificationFilterReply", 0, nil}},
	},
}

// encodings

func nodeIdV(hi, lo uint64) []byte {
	return href.Cat([]byte{href.Array | href.UChar, 16}, href.LE64(hi), href.LE64(lo))
}

func str(b []byte) []byte { return href.Ascii(string(b)) }

func gatewayV(addr []byte, hi, lo, inst uint64, name []byte) []byte {
	return href.Obj(str(addr), href.Obj(nodeIdV(hi, lo), href.U(href.UInt64, inst)), str(name))
}

func generationV(g int64, hi, lo uint64) []byte {
	return href.Obj(href.S(href.Int64, g), nodeIdV(hi, lo))
}

func pointer(obj []byte) []byte {
	if obj == nil {
		return []byte{href.Empty | href.Pointer}
	}
	return href.Cat([]byte{href.Pointer}, obj)
}

// array encodes a slice of objects or a map.
func array(items ...[]byte) []byte {
	if len(items) == 0 {
		return []byte{href.Empty | href.Array | href.Object}
	}
	return href.Cat([]byte{href.Array | href.Object, byte(len(items))}, href.Cat(items...))
}

// list encodes a slice of strings or pointers.
func list(items ...[]byte) []byte {
	if len(items) == 0 {
		return []byte{href.Empty | href.UInt32}
	}
	return href.Cat([]byte{href.UInt32, byte(len(items))}, href.Cat(items...))
}

func uriV(u common.Uri) []byte {
	var segs [][]byte
	for _, s := range u.PathSegments {
		segs = append(segs, href.Ascii(s))
	}
	return href.Obj(href.S(href.Int64, int64(u.Type)), href.Ascii(u.Scheme), href.Ascii(u.Authority),
		href.S(href.Int64, int64(u.HostType)), href.Ascii(u.Host), href.S(href.Int32, int64(u.Port)),
		href.Ascii(u.Path), href.Ascii(u.Query), href.Ascii(u.Fragment), list(segs...))
}

func ascii(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for _, x := range b {
		sym.Assume(x < 0x80)
	}
	return b
}

func sameGateway(g *naming.GatewayDescription, addr []byte, hi, lo, inst uint64, name []byte) bool {
	return sym.And(sym.BytesEq([]byte(g.Address), addr), g.NodeInstance.Id == federation.NodeID{Hi: hi, Lo: lo},
		g.NodeInstance.InstanceId == inst, sym.BytesEq([]byte(g.NodeName), name))
}
