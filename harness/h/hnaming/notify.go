package hnaming

import (
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

// notice is a notification and its encoding.
func notice(rich bool) (*naming.ServiceNotification, []byte) {
	n := &naming.ServiceNotification{}
	n.NotificationPageId.NotificationId = transport.ActivityId{Id: serialization.GUID{Data1: sym.U32("page"), Data2: 1}, Index: 3}
	n.NotificationPageId.PageIndex = uint64(sym.U8("index")&0x3f | 1)
	n.Generation = naming.GenerationNumber{Generation: 4, Owner: federation.NodeID{Hi: sym.U64("hi"), Lo: sym.U64("lo")}}
	page := href.Obj(href.Obj(href.GuidV(n.NotificationPageId.NotificationId.Id.Data1, 1, 0, [8]byte{}), href.U(href.UInt32, 3)), href.U(href.UInt64, n.NotificationPageId.PageIndex))
	gen := generationV(4, n.Generation.Owner.Hi, n.Generation.Owner.Lo)
	versions, parts := pointer(nil), list()
	if rich {
		var vs [][]byte
		v := &naming.VersionRangeCollection{}
		nv := sym.Choose("versions", 3)
		for i := 0; i < nv; i++ {
			r := naming.VersionRange{StartVersion: int64(i), EndVersion: int64(sym.U8("version")&0x3f | 1)}
			v.VersionRanges = append(v.VersionRanges, r)
			vs = append(vs, href.Obj(href.S(href.Int64, r.StartVersion), href.S(href.Int64, r.EndVersion)))
		}
		n.Versions = v
		versions = pointer(href.Obj(array(vs...)))
		var ps [][]byte
		np := sym.Choose("partitions", 3)
		for i := 0; i < np; i++ {
			if i == 1 {
				n.Partitions = append(n.Partitions, &naming.ServiceTableEntryNotification{})
				ps = append(ps, pointer(href.Obj(pointer(nil), href.BoolV(false))))
				continue
			}
			e := &naming.ServiceTableEntry{IsFound: sym.Bool("found"), ServiceName: string(ascii("service", 2))}
			e.ConsistencyUnitId.GUID = serialization.GUID{Data1: 7, Data2: sym.U16("cuid")}
			s := &e.ServiceReplicaSet
			s.IsStateful, s.IsPrimaryLocationValid, s.IsPrimaryAuxiliary = sym.Bool("stateful"), sym.Bool("valid"), sym.Bool("aux")
			s.PrimaryLocation = string(ascii("primary", 1))
			s.ReplicaLocations = []string{"x", string(ascii("replica", 1))}
			s.LookupVersion = int64(sym.U8("lookup")&0x3f | 1)
			set := href.Obj(href.BoolV(s.IsStateful), href.BoolV(s.IsPrimaryLocationValid), href.Ascii(s.PrimaryLocation),
				list(href.Ascii("x"), href.Ascii(s.ReplicaLocations[1])), href.S(href.Int64, s.LookupVersion), href.BoolV(s.IsPrimaryAuxiliary), list())
			p := &naming.ServiceTableEntryNotification{ServiceTable: e, MatchedPrimaryOnly: sym.Bool("matched")}
			n.Partitions = append(n.Partitions, p)
			ps = append(ps, pointer(href.Obj(pointer(href.Obj(href.Obj(href.GuidV(7, e.ConsistencyUnitId.GUID.Data2, 0, [8]byte{})), href.Ascii(e.ServiceName), set, href.BoolV(e.IsFound))), href.BoolV(p.MatchedPrimaryOnly))))
		}
		parts = list(ps...)
	}
	return n, href.Obj(pointer(href.Obj(page, gen, versions, parts)))
}

func idV(d1 uint32, index uint32) []byte {
	return hnet.IdV(d1, 2, 3, [8]byte{4, 5, 6, 7, 8, 9, 10, 11}, index)
}

func notification(action string, id []byte, body []byte) []byte {
	return notificationWith(action, id, body, true)
}

func notificationWith(action string, id []byte, body []byte, expects bool) []byte {
	hs := []hnet.Hdr{{Id: hnet.HActor, Data: hnet.ActorV(5)}, {Id: hnet.HAction, Data: hnet.ActionV(action)}, {Id: hnet.HId, Data: id}}
	if expects {
		hs = append(hs, hnet.Hdr{Id: hnet.HExpects, Data: hnet.BoolV(true)})
	}
	return hnet.Frame(hnet.Hdrs(hs...), body, false)
}

// acked checks that what was sent since the last call are acknowledgements
// of exactly these messages.
func (k *client) acked(ids ...[]byte) {
	ms := k.sent()
	sym.Assert(len(ms) == len(ids), "a notification is not acknowledged exactly once")
	for i, m := range ms {
		sym.Assert(m.Is(hnet.HRelates, ids[i]), "an acknowledgement does not relate to its notification")
		sym.Assert(m.Is(hnet.HActor, hnet.ActorV(5)), "an acknowledgement is not for the naming gateway")
		sym.Assert(m.Is(hnet.HAction, hnet.ActionV("ServiceNotificationReply")), "wrong action of an acknowledgement")
		sym.Assert(sym.BytesEq(m.Body, href.Obj(href.S(href.Int64, 0))), "an acknowledgement does not say success")
		sym.Assert(len(m.Get(hnet.HFault)) == 0, "an acknowledgement carries an error")
	}
}

//verif:harness prop=C32 budget=60 tbudget=240 bound="a notification of any page id, index (6 bits), node (128 bits) with 0 to 2 version ranges, 0 to 2 partitions (one any, one empty), from any message id (32 bits and index), with the expects-reply header or not; a second one after it"
func Notified() {
	hnet.Rand()
	k := newClient()
	want, body := notice(true)
	id := idV(sym.U32("id"), sym.U32("id.index"))
	k.c.Feed(notificationWith("ServiceNotificationRequest", id, body, sym.Choose("expects", 2) == 1))
	k.acked(id)
	got := k.notified()
	sym.Assert(len(got) == 1, "a notification is not delivered exactly once")
	sym.Assert(len(got[0].Partitions) == len(want.Partitions) && got[0].Versions != nil, "a notification changed on the way")
	sym.Assert(sym.DeepEq(*got[0], *want), "a notification changed on the way")
	k.c.Feed(notification("ServiceNotificationRequest", idV(1, 9), body))
	k.acked(idV(1, 9))
	sym.Assert(len(k.notified()) == 2, "a notification is not delivered exactly once")
}

//verif:harness prop=C32 budget=60 tbudget=300 reach=bad,good bound="a notification of 0 to 3 arbitrary bytes, or a good one cut at any place or with any one byte changed, or without content; then a good one"
func NotifiedGarbage() {
	hnet.Rand()
	k := newClient()
	body := goodNotice
	bad := true
	switch sym.Choose("how", 4) {
	case 0:
		body = sym.Bytes("body", sym.Choose("n", 4))
		// the decoder takes any empty value for an object of zeros, and any
		// type for an object without a header
		bad = len(body) == 0 || body[0] == href.Object
	case 1:
		body = body[:sym.Choose("cut", len(body))]
	case 2:
		body = append([]byte(nil), body...)
		body[sym.Choose("byte", len(body))] = sym.U8("value")
		bad = false
	case 3:
		body = href.Obj(pointer(nil))
	}
	sym.AllocLimit(1 << 20)
	id := idV(1, 1)
	k.c.Feed(notification("ServiceNotificationRequest", id, body))
	sym.Quiesce()
	n := len(k.notified())
	sym.Assert(!k.ended(), "a notification that does not decode ends the receive loop")
	sym.Assert(!bad || n == 0, "a notification that does not decode is delivered")
	sym.Assert(n <= 1, "a notification is delivered twice")
	if n == 0 {
		sym.Reach("bad")
		for _, m := range k.sent() {
			sym.Assert(!sym.BytesEq(m.Body, href.Obj(href.S(href.Int64, 0))), "a notification that does not decode is acknowledged")
		}
	} else {
		sym.Reach("good")
		sym.Assert(k.notified()[0] != nil, "a notification without content is delivered")
		k.acked(id)
	}
	k.c.Feed(notification("ServiceNotificationRequest", idV(2, 2), goodNotice))
	k.acked(idV(2, 2))
	sym.Assert(len(k.notified()) == n+1, "a later notification is not delivered")
}

var goodNotice = href.Obj(pointer(href.Obj(
	href.Obj(href.Obj(href.GuidV(1, 0, 0, [8]byte{}), href.U(href.UInt32, 1)), href.U(href.UInt64, 1)),
	generationV(1, 2, 3),
	pointer(href.Obj(array(href.Obj(href.S(href.Int64, 1), href.S(href.Int64, 2))))),
	list(pointer(href.Obj(pointer(nil), href.BoolV(true)))))))

//verif:harness prop=C32 budget=60 bound="3 incoming messages of: a notification (one of two ids), another action (4 of them), a notification without an id, a reply nobody waits for; with or without a callback set"
func NotifiedSequence() {
	hnet.Rand()
	k := newClient()
	deaf := sym.Choose("callback", 2) == 1
	if deaf {
		k.OnServiceNotification = nil
	}
	var ids [][]byte
	n := 0
	for i := 0; i < 3; i++ {
		switch sym.Choose("message", 4) {
		case 0:
			id := idV(uint32(1+sym.Choose("id", 2)), 5)
			k.c.Feed(notification("ServiceNotificationRequest", id, goodNotice))
			ids = append(ids, id)
			n++
		case 1:
			k.c.Feed(notification([]string{"", "ServiceNotificationReply", "ServiceNotification", "PingRequest"}[sym.Choose("action", 4)], idV(3, 3), goodNotice))
		case 2:
			k.c.Feed(hnet.Frame(hnet.Hdrs(hnet.Hdr{Id: hnet.HActor, Data: hnet.ActorV(5)}, hnet.Hdr{Id: hnet.HRelates, Data: idV(8, 8)}), nil, false))
		case 3:
			k.c.Feed(notification("ServiceNotificationRequest", idV(4, 4), []byte{1}))
		}
		if sym.Tier(0, 1) == 1 && sym.Choose("gap", 2) == 1 {
			sym.Quiesce()
		}
	}
	k.acked(ids...)
	if !deaf {
		sym.Assert(len(k.notified()) == n, "a notification is not delivered exactly once")
	}
	sym.Assert(!k.ended(), "a message ends the receive loop")
}
