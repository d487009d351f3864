package hnaming

import (
	"context"

	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

// none checks that nothing runs any more.
func none() {
	sym.Quiesce()
	sym.Assert(sym.Left() == 0, "a goroutine is left of finished work")
}

//verif:harness prop=C42 budget=60 sched=1 bound="a naming client over 4 rounds of each call, answered, answered with an error or garbage, cancelled at any of its requests, or whose write fails, or of a notification, good or not; all that is reachable from the client is measured; then its connection is closed or ends, with or without a call in flight"
func GrowNaming() {
	hnet.Rand()
	k := newClient()
	which := sym.Choose("call", 4)
	how, at := 0, 0
	if which == 3 {
		how = sym.Choose("notice", 2)
	} else {
		how = sym.Choose("how", 5)
		at = sym.Choose("at", len(steps[which]))
	}
	do := func() {
		if which == 3 {
			_, body := notice(false)
			if how == 1 {
				body = []byte{1, 2, 3}
			}
			k.c.Feed(notification("ServiceNotificationRequest", idV(1, 9), body))
			k.sent()
			k.got = nil
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if how == 4 && at == 0 {
			k.c.FailWrite = 1
		}
		c := start(func() (interface{}, error) { return calls[which](k, ctx) })
		for i, st := range steps[which] {
			if how == 4 && at == i {
				break
			}
			m := k.request(st.action)
			a := st.good
			if i == at {
				switch how {
				case 1:
					a.code = 5
				case 2:
					a.body = []byte{1, 2, 3}
				case 3:
					cancel()
				case 4:
				}
			}
			if how == 4 && at == i+1 {
				k.c.FailWrite = 1
			}
			if how != 3 || i != at {
				k.reply(m, a)
			}
			if i == at && how > 0 {
				break
			}
		}
		cancel()
		sym.Quiesce()
		k.c.FailWrite = 0
		k.seen = len(k.all())
		sym.Assert(c.returned(), "a naming call does not return")
	}
	do()
	do()
	was := sym.Size(k.NamingClient)
	for i := 2; i < 4; i++ {
		do()
		sym.Assert(sym.Size(k.NamingClient) == was, "finished work takes room for ever")
	}
	if x := sym.Choose("last", 4); x < 3 {
		start(func() (interface{}, error) { return calls[x](k, context.Background()) })
		sym.Quiesce()
	}
	if sym.Choose("end", 2) == 0 {
		k.tr.Close()
	} else {
		k.c.End(nil)
	}
	none()
}

// all returns what was sent so far.
func (k *client) all() []*hnet.Msg {
	ms, ok := hnet.Parse(k.c.Out())
	sym.Assert(ok, "the byte stream is not a sequence of whole frames")
	return ms
}
