package hnaming

import (
	"context"
	"crypto/rand"

	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

type symRand struct{}

func (symRand) Read(b []byte) (int, error) {
	copy(b, sym.Bytes("random", len(b)))
	return len(b), nil
}

// the places of the GUID in an activity and of the number in a timeout
const (
	guidAt    = 21
	timeoutAt = 11
)

// envelope checks what every naming message carries and returns its activity.
func envelope(m *hnet.Msg, action []byte) []byte {
	sym.Assert(len(m.Get(hnet.HAction)) == 1 && sym.BytesEq(m.Get(hnet.HAction)[0], hnet.ActionV(string(action))), "a naming message has not the action asked for")
	sym.Assert(m.Is(hnet.HActor, hnet.ActorV(5)), "a naming message is not for the naming gateway")
	sym.Assert(m.Is(hVersion, href.Obj(href.S(href.Int64, 1), href.S(href.Int64, 2))), "a naming message does not name one protocol version")
	sym.Assert(len(m.Get(hnet.HId)) == 1, "a naming message has no identifier")
	a, t := m.Get(hActivity), m.Get(hTimeout)
	sym.Assert(len(a) == 1, "a naming message has not one activity")
	g := activity(a[0])
	sym.Assert(len(t) == 1, "a naming message has not one timeout")
	// a non-zero 64-bit integer whose sign bit is clear
	sym.Assert(len(t[0]) > timeoutAt && t[0][timeoutAt-1] == href.Int64 && t[0][timeoutAt]&0x40 == 0, "a naming message has no positive timeout")
	return g
}

// activity takes an activity apart.
func activity(b []byte) []byte {
	sym.Assert(len(b) > guidAt+16, "a naming message has a malformed activity")
	g := b[guidAt : guidAt+16]
	var d4 [8]byte
	copy(d4[:], g[8:])
	w := href.Obj(href.Obj(href.GuidV(uint32(g[0])|uint32(g[1])<<8|uint32(g[2])<<16|uint32(g[3])<<24, uint16(g[4])|uint16(g[5])<<8, uint16(g[6])|uint16(g[7])<<8, d4), href.U(href.UInt64, 0)))
	sym.Assert(sym.BytesEq(b, w), "a naming message has a malformed activity")
	sym.Assert(g[7]>>4 == 4 && g[8]>>6 == 2, "an activity's identifier is not a version 4 GUID")
	return g
}

//verif:harness prop=C45 budget=60 bound="two messages made for any actions of 0 to 3 ASCII characters, sent; every random source, or one that never repeats"
func Envelope() {
	repeat := sym.Choose("random", 2) == 0
	hnet.Rand()
	k := newClient()
	if repeat {
		rand.Reader = symRand{}
	}
	var acts [2][]byte
	for i := range acts {
		acts[i] = ascii("action", sym.Choose("n", 4))
		m, err := naming.NewNamingMessage(string(acts[i]))
		sym.Assert(err == nil && m != nil, "no naming message is made")
		sym.Assert(m.Body == nil && m.Headers.RelatesTo.IsEmpty() && m.Headers.ErrorCode == 0 && m.Headers.ExpectsReply, "a new naming message is not a request")
		sym.Assert(k.tr.SendOneWay(m) == nil, "a naming message cannot be sent")
	}
	ms := k.sent()
	sym.Assert(len(ms) == 2, "a naming message is not sent once")
	var gs [2][]byte
	for i, m := range ms {
		if len(acts[i]) == 0 {
			// the header of an empty action is left out
			sym.Assert(len(m.Get(hnet.HAction)) <= 1, "a naming message has several actions")
			sym.Assert(len(m.Get(hActivity)) == 1, "a naming message has not one activity")
			gs[i] = activity(m.Get(hActivity)[0])
			continue
		}
		gs[i] = envelope(m, acts[i])
		sym.Assert(m.Is(hnet.HExpects, hnet.BoolV(true)), "a new naming message expects no reply")
	}
	if !repeat {
		sym.Assert(!sym.BytesEq(gs[0], gs[1]), "two naming messages share an activity")
	}
}

//verif:harness prop=C45 budget=60 tbudget=240 bound="3 (thorough 4) steps, each any of the 3 calls or a notification, at one of two clients; a random source that never repeats"
func EnvelopeCalls() {
	hnet.Rand()
	ks := []*client{newClient(), newClient()}
	used := map[string]bool{}
	ids := [2][]byte{}
	own := func(m *hnet.Msg, action string) {
		g := envelope(m, []byte(action))
		sym.Assert(!used[string(g)], "two naming messages share an activity")
		used[string(g)] = true
	}
	for i := sym.Tier(3, 4); i > 0; i-- {
		w := sym.Choose("client", 2)
		k := ks[w]
		n := sym.Choose("call", 4)
		if n == 3 {
			k.c.Feed(notification("ServiceNotificationRequest", idV(uint32(i), 5), goodNotice))
			ms := k.sent()
			sym.Assert(len(ms) == 1, "a notification is not acknowledged once")
			own(ms[0], "ServiceNotificationReply")
			continue
		}
		c := start(func() (interface{}, error) { return calls[n](k, context.Background()) })
		for _, s := range steps[n] {
			m := k.request(s.action)
			own(m, s.action)
			if s.action == "NotificationClientConnectionRequest" {
				id := identity(m)
				sym.Assert(ids[w] == nil || sym.BytesEq(ids[w], id), "a client's identity changes")
				ids[w] = id
			}
			k.reply(m, s.good)
		}
		sym.Assert(c.ok(), "a call that was answered fails")
	}
	sym.Assert(ids[0] == nil || ids[1] == nil || !sym.BytesEq(ids[0], ids[1]), "two clients share an identity")
}
