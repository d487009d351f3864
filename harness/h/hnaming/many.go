package hnaming

import (
	"context"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

//verif:harness prop=C33 budget=90 bound="40 registrations, one after the other or all at once, every seventh refused; ids, names, options"
func ManyFilters() {
	hnet.Rand()
	k := newClient()
	const n = 40
	together := sym.Choose("together", 2) == 1
	used := map[uint64]bool{}
	name := func(i int) common.Uri { return common.Uri{Path: string([]byte{'p', byte('A' + i)})} }
	var cs []*call
	var id []byte
	reg := func(i int) *call {
		return start(func() (interface{}, error) {
			return k.RegisterFilter(context.Background(), name(i), i%2 == 1, i%3 == 1)
		})
	}
	flags := func(i int) (f uint64) {
		if i%2 == 1 {
			f |= 1
		}
		if i%3 == 1 {
			f |= 2
		}
		return
	}
	bad := answer{action: "ClientOperationFailure", body: href.Obj(href.S(href.Int64, -3))}
	check := func(i int, c *call, m *hnet.Msg) {
		if i%7 == 6 {
			sym.Assert(c.failed(), "a failure is not returned as an error")
			return
		}
		sym.Assert(c.ok(), "a registration that was answered fails")
		v := c.v.(uint64)
		sym.Assert(v != 0 && !used[v], "two registrations share an id, or one has none")
		used[v] = true
		sym.Assert(sym.BytesEq(m.Body, registration(id, v, name(i), flags(i))), "a registration does not send what was asked for")
	}
	who := func(m *hnet.Msg) {
		x := identity(m)
		sym.Assert(id == nil || sym.BytesEq(x, id), "the client's identity changes")
		id = x
	}
	second := func(i int) answer {
		if i%7 == 6 {
			return bad
		}
		return steps[2][1].good
	}
	if !together {
		for i := 0; i < n; i++ {
			c := reg(i)
			m := k.request(steps[2][0].action)
			who(m)
			k.reply(m, steps[2][0].good)
			m = k.request(steps[2][1].action)
			k.reply(m, second(i))
			check(i, c, m)
		}
		return
	}
	var ms []*hnet.Msg
	for i := 0; i < n; i++ {
		cs = append(cs, reg(i))
		m := k.request(steps[2][0].action)
		who(m)
		ms = append(ms, m)
	}
	for i := n - 1; i >= 0; i-- {
		k.reply(ms[i], steps[2][0].good)
		ms[i] = k.request(steps[2][1].action)
	}
	for i := range cs {
		sym.Assert(!cs[i].returned(), "a registration returns without its answer")
		k.reply(ms[i], second(i))
		check(i, cs[i], ms[i])
	}
}

//verif:harness prop=C32 budget=90 bound="60 notifications (page index and node arbitrary in each tenth), one by one or in one piece, every ninth garbage; then one with 40 partitions, 20 replicas and 30 version ranges"
func ManyNotified() {
	hnet.Rand()
	k := newClient()
	const n = 60
	together := sym.Choose("together", 2) == 1
	var all [][]byte
	var ids [][]byte
	var want []*naming.ServiceNotification
	for i := 0; i < n; i++ {
		id := idV(uint32(i), uint32(100+i))
		w := &naming.ServiceNotification{}
		w.NotificationPageId.NotificationId.Index = uint32(i + 1)
		w.NotificationPageId.PageIndex = uint64(i + 1)
		w.Generation.Generation = 4
		w.Generation.Owner.Lo = uint64(i)
		if i%10 == 3 {
			w.Generation.Owner.Hi = sym.U64("hi")
			w.NotificationPageId.PageIndex = uint64(sym.U8("index")&0x3f | 1)
		}
		body := href.Obj(pointer(href.Obj(
			href.Obj(href.Obj(href.GuidV(0, 0, 0, [8]byte{}), href.U(href.UInt32, uint64(i+1))), href.U(href.UInt64, w.NotificationPageId.PageIndex)),
			generationV(4, w.Generation.Owner.Hi, w.Generation.Owner.Lo), pointer(nil), list())))
		if i%9 == 8 {
			body = []byte{1}
		} else {
			ids = append(ids, id)
			want = append(want, w)
		}
		f := notification("ServiceNotificationRequest", id, body)
		if together {
			all = append(all, f)
		} else {
			k.c.Feed(f)
			sym.Quiesce()
		}
	}
	if together {
		k.c.Feed(href.Cat(all...))
	}
	var got []*naming.ServiceNotification
	if together {
		// they may be handled in any order
		ms := k.sent()
		sym.Assert(len(ms) == len(ids), "a notification is not acknowledged exactly once")
		for _, id := range ids {
			n := 0
			for _, m := range ms {
				if m.Is(hnet.HRelates, id) {
					n++
				}
			}
			sym.Assert(n == 1, "a notification is not acknowledged exactly once")
		}
		got = make([]*naming.ServiceNotification, n)
		for _, g := range k.notified() {
			i := g.NotificationPageId.NotificationId.Index - 1
			sym.Assert(i < n && got[i] == nil, "a notification is not delivered exactly once")
			got[i] = g
		}
		j := 0
		for _, g := range got {
			if g != nil {
				got[j] = g
				j++
			}
		}
		got = got[:j]
	} else {
		k.acked(ids...)
		got = k.notified()
	}
	sym.Assert(len(got) == len(want), "a notification is not delivered exactly once")
	for i, g := range got {
		w := want[i]
		sym.Assert(sym.And(g.NotificationPageId == w.NotificationPageId, g.Generation == w.Generation), "a notification changed on the way, or overtook another")
	}
	var vs, ps, rs [][]byte
	for i := 0; i < 30; i++ {
		vs = append(vs, href.Obj(href.S(href.Int64, int64(i)), href.S(href.Int64, int64(1000+i))))
	}
	for i := 0; i < 20; i++ {
		rs = append(rs, href.Ascii(string([]byte{'r', byte('A' + i)})))
	}
	for i := 0; i < 40; i++ {
		set := href.Obj(href.BoolV(i%2 == 0), href.BoolV(true), href.Ascii("x"), list(rs...), href.S(href.Int64, int64(i)), href.BoolV(false), list())
		ps = append(ps, pointer(href.Obj(pointer(href.Obj(href.Obj(href.GuidV(uint32(i), 0, 0, [8]byte{})), href.Ascii("s"), set, href.BoolV(true))), href.BoolV(i%3 == 0))))
	}
	k.c.Feed(notification("ServiceNotificationRequest", idV(200, 1), href.Obj(pointer(href.Obj(
		href.Obj(href.Obj(href.GuidV(1, 0, 0, [8]byte{}), href.U(href.UInt32, 1)), href.U(href.UInt64, 1)),
		generationV(1, 2, 3), pointer(href.Obj(array(vs...))), list(ps...))))))
	k.acked(idV(200, 1))
	got = k.notified()[len(want):]
	sym.Assert(len(got) == 1 && got[0].Versions != nil && len(got[0].Partitions) == 40 && len(got[0].Versions.VersionRanges) == 30, "a notification changed on the way")
	for i, v := range got[0].Versions.VersionRanges {
		sym.Assert(v.StartVersion == int64(i) && v.EndVersion == int64(1000+i), "a notification changed on the way")
	}
	for i, p := range got[0].Partitions {
		e := p.ServiceTable
		sym.Assert(e != nil && p.MatchedPrimaryOnly == (i%3 == 0) && int(e.ConsistencyUnitId.GUID.Data1) == i && e.ServiceName == "s" && e.IsFound, "a notification changed on the way")
		r := e.ServiceReplicaSet
		sym.Assert(r.IsStateful == (i%2 == 0) && r.PrimaryLocation == "x" && r.LookupVersion == int64(i) && len(r.ReplicaLocations) == 20, "a notification changed on the way")
		for j, x := range r.ReplicaLocations {
			sym.Assert(x == string([]byte{'r', byte('A' + j)}), "a notification changed on the way")
		}
	}
	sym.Assert(!k.ended(), "a message ends the receive loop")
}

//verif:harness prop=C31 budget=90 bound="45 naming calls (pings, lists, registrations in turn) in flight at once, answered forwards, backwards or in strides, every seventh with an error, every eleventh cancelled first"
func ManyCalls() {
	hnet.Rand()
	k := newClient()
	const n = 45
	ctx, cancel := context.WithCancel(context.Background())
	var cs []*call
	var ms []*hnet.Msg
	for i := 0; i < n; i++ {
		i := i
		cx := context.Background()
		if i%11 == 5 {
			cx = ctx
		}
		cs = append(cs, start(func() (interface{}, error) { return calls[i%3](k, cx) }))
		ms = append(ms, k.request(steps[i%3][0].action))
	}
	cancel()
	sym.Quiesce()
	for i, c := range cs {
		sym.Assert(c.returned() == (i%11 == 5), "a naming call returns without its answer, or does not when cancelled")
	}
	order := sym.Choose("order", 3)
	hi := sym.U64("hi")
	for j := 0; j < n; j++ {
		i := j
		switch order {
		case 1:
			i = n - 1 - j
		case 2:
			i = j * 7 % n
		}
		c := cs[i]
		if i%11 == 5 {
			sym.Assert(c.failed(), "a cancelled call succeeds")
			k.reply(ms[i], steps[i%3][0].good)
			continue
		}
		sym.Assert(!c.returned(), "a naming call returns without its answer")
		a := steps[i%3][0].good
		fails := i%7 == 6
		if fails {
			a.code = -int64(5 + i)
		}
		switch {
		case fails:
			k.reply(ms[i], a)
			sym.Assert(c.failed(), "a failure is not returned as an error")
		case i%3 == 0:
			k.reply(ms[i], answer{"PingRequest", 0, href.Obj(gatewayV([]byte("gw"), hi, uint64(i), 3, []byte("n")))})
			sym.Assert(c.ok(), "a call that was answered fails")
			g := c.v.(*naming.GatewayDescription)
			sym.Assert(sameGateway(g, []byte("gw"), hi, uint64(i), 3, []byte("n")), "a call gets another answer")
		case i%3 == 1:
			k.reply(ms[i], a)
			sym.Assert(c.ok(), "a call that was answered fails")
		default:
			k.reply(ms[i], a)
			sym.Assert(!c.returned(), "a registration returns before it was sent")
			m := k.request(steps[2][1].action)
			k.reply(m, steps[2][1].good)
			sym.Assert(c.ok(), "a call that was answered fails")
		}
	}
	sym.Assert(!k.ended(), "a message ends the receive loop")
	sym.Assert(len(k.sent()) == 0, "a naming call sends more requests than it needs")
}
