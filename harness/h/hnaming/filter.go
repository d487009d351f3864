package hnaming

import (
	"context"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

// registered takes a registration apart: it is sent by RegisterFilter for
// the name and flags under the id.
func registration(client []byte, id uint64, name common.Uri, flags uint64) []byte {
	return href.Obj(client, pointer(href.Obj(href.U(href.UInt64, id), uriV(name), href.Obj(href.U(href.UInt32, flags)))))
}

// identity reads the client's name, as encoded, off its connection request.
func identity(m *hnet.Msg) []byte {
	var tail = [][]byte{generationV(0, 0, 0), pointer(href.Obj(array())), list()}
	rest := len(href.Cat(tail...)) + 2
	sym.Assert(len(m.Body) > 10+rest, "a connection request names no client")
	id := m.Body[10 : len(m.Body)-rest]
	sym.Assert(sym.BytesEq(m.Body, href.Obj(id, tail[0], tail[1], tail[2])), "a connection request carries more than the client's name")
	sym.Assert(len(id) > 2 && id[0] == href.Array|href.WString, "a connection request names no client")
	return id
}

//verif:harness prop=C33 budget=60 tbudget=240 bound="a name of any type (8 bits), port (32 bits), path (0 to 2 ASCII characters), 0 to 2 segments, with all other parts set or not; both options any"
func Registration() {
	hnet.Rand()
	k := newClient()
	name := common.Uri{Type: common.UriType(sym.I8("type")), Port: sym.I32("port"), Path: string(ascii("path", sym.Choose("path.n", 3)))}
	if sym.Choose("parts", 2) == 1 {
		name.Scheme, name.Authority, name.HostType, name.Host, name.Query, name.Fragment = "s", "au", common.UriHostTypeIPv6, "h", "q", "f"
	}
	for i := sym.Choose("segments", 3); i > 0; i-- {
		name.PathSegments = append(name.PathSegments, string(ascii("segment", i-1)))
	}
	prefix, primary := sym.Bool("prefix"), sym.Bool("primary")
	c := start(func() (interface{}, error) { return k.RegisterFilter(context.Background(), name, prefix, primary) })
	m := k.request(steps[2][0].action)
	id := identity(m)
	k.reply(m, steps[2][0].good)
	sym.Assert(!c.returned(), "a registration returns before it was sent")
	m = k.request(steps[2][1].action)
	sym.Assert(m.Is(hClient, href.Obj(href.Ascii(""), id)), "a registration is not tied to this client's identity")
	k.reply(m, steps[2][1].good)
	sym.Assert(c.ok(), "a registration that was answered fails")
	flags := sym.IteU64(prefix, 1, 0) | sym.IteU64(primary, 2, 0)
	sym.Assert(c.v.(uint64) != 0, "a registration has no id")
	sym.Assert(sym.BytesEq(m.Body, registration(id, c.v.(uint64), name, flags)), "a registration does not send what was asked for")
}

//verif:harness prop=C33 budget=60 tbudget=300 sched=1 bound="two or three registrations, concurrent, two preemptions (thorough three) anywhere, and a failing reply to any of them or none; each registration's id, name and flags"
func RegistrationsTogether() {
	hnet.Rand()
	k := newClient()
	names := []common.Uri{{Path: "a"}, {Path: "b"}}
	n := 2
	var cs [2]*call
	sym.Preempt(sym.Tier(2, 3))
	for i := 0; i < n; i++ {
		i := i
		cs[i] = start(func() (interface{}, error) { return k.RegisterFilter(context.Background(), names[i], i == 0, i == 1) })
	}
	sym.Quiesce()
	sym.Preempt(0)
	ms := k.sent()
	sym.Assert(len(ms) == n, "a registration does not begin with one request")
	fail := sym.Choose("failing", n+1)
	var id []byte
	for i, m := range ms {
		checkRequest(m, steps[2][0].action)
		x := identity(m)
		sym.Assert(i == 0 || sym.BytesEq(x, id), "the client's identity changes")
		id = x
		k.reply(m, steps[2][0].good)
	}
	ms = k.sent()
	sym.Assert(len(ms) == n, "a registration sends other than two requests")
	for i, m := range ms {
		checkRequest(m, steps[2][1].action)
		a := steps[2][1].good
		if i == fail {
			a = answer{action: "ClientOperationFailure", body: href.Obj(href.S(href.Int64, 5))}
		}
		k.reply(m, a)
	}
	var got [2]uint64
	failed := 0
	for i, c := range cs {
		sym.Assert(c.returned(), "a registration that was answered does not return")
		if c.err != nil {
			failed++
			continue
		}
		got[i] = c.v.(uint64)
		found := 0
		for j, m := range ms {
			if j != fail && sym.BytesEq(m.Body, registration(id, got[i], names[i], uint64(1+i))) {
				found++
			}
		}
		sym.Assert(found == 1, "a registration was not sent under the id returned")
	}
	sym.Assert(failed == 0 && fail == n || failed == 1 && fail < n, "a failure is not returned as an error")
	sym.Assert(failed > 0 || got[0] != got[1], "two registrations share an id")
}

//verif:harness prop=C33 budget=60 bound="3 registrations one after the other, any of them failing at its first or second request; a second client"
func RegistrationsInTurn() {
	hnet.Rand()
	k := newClient()
	used := map[uint64]bool{}
	var id []byte
	for i := 0; i < 3; i++ {
		c := start(func() (interface{}, error) {
			return k.RegisterFilter(context.Background(), common.Uri{Path: "x"}, false, true)
		})
		fail := sym.Choose("failing", 3)
		bad := answer{action: "ClientOperationFailure", body: href.Obj(href.S(href.Int64, -3))}
		m := k.request(steps[2][0].action)
		if x := identity(m); i == 0 {
			id = x
		} else {
			sym.Assert(sym.BytesEq(x, id), "the client's identity changes")
		}
		if fail == 0 {
			k.reply(m, bad)
		} else {
			k.reply(m, steps[2][0].good)
			m = k.request(steps[2][1].action)
			if fail == 1 {
				k.reply(m, bad)
			} else {
				k.reply(m, steps[2][1].good)
			}
		}
		if fail < 2 {
			sym.Assert(c.failed(), "a failure is not returned as an error")
			continue
		}
		sym.Assert(c.ok(), "a registration that was answered fails")
		v := c.v.(uint64)
		sym.Assert(!used[v], "two registrations share an id")
		used[v] = true
		sym.Assert(sym.BytesEq(m.Body, registration(id, v, common.Uri{Path: "x"}, 2)), "a registration does not send what was asked for")
	}
	o := newClient()
	start(func() (interface{}, error) {
		return o.RegisterFilter(context.Background(), common.Uri{Path: "x"}, false, true)
	})
	sym.Assert(!sym.BytesEq(identity(o.request(steps[2][0].action)), id), "two clients share an identity")
}
