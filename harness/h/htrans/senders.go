package htrans

import (
	"context"
	"sync"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

func control(action string, body []byte) []byte {
	return hnet.Frame(hnet.Hdrs(
		hnet.Hdr{Id: hnet.HActor, Data: hnet.ActorV(1)},
		hnet.Hdr{Id: hnet.HAction, Data: hnet.ActionV(action)}), body, false)
}

func contents(m *hnet.Msg, body []byte) bool { return sym.BytesEq(m.Body, body) }

//verif:harness prop=C11,C15 budget=90 tbudget=600 bound="a one-way send and a request (or two sends and a request), a heartbeat request to answer, with and without body checksums; bodies of 2 arbitrary bytes; every schedule with at most 2 (1 with three; thorough 3 and 2) preemptions"
func Concurrent() {
	hnet.Rand()
	c := hnet.New("tx")
	cfg := transport.Config{GenerateFrameBodyCRC: sym.Choose("crc", 2) == 1}
	cl := connect(c, cfg, nil)
	before := len(c.Out())
	tick := hnet.TickV(0x123456789)
	// the third sender is a request
	first := sym.Choose("senders", 2)
	sym.Preempt(sym.Tier(1+first, 2+first))
	var wg sync.WaitGroup
	ctx, cancel := context.WithCancel(context.Background())
	bodies := [][]byte{sym.Bytes("body", 2), sym.Bytes("body", 2), sym.Bytes("body", 2)}
	for i := first; i < 3; i++ {
		i := i
		wg.Add(1)
		go func() {
			m := &transport.Message{Body: bodies[i]}
			m.Headers.Actor = transport.MessageActorType(20 + i)
			if i == 2 {
				cl.RequestReply(ctx, m)
			} else {
				sym.Assert(cl.SendOneWay(m) == nil, "a send over a working connection fails")
			}
			wg.Done()
		}()
	}
	c.Feed(control("HeartbeatRequest", tick))
	go cl.Wait()
	sym.Quiesce()
	cancel()
	wg.Wait()
	sym.Preempt(0)
	fs, ok := hnet.Parse(c.Out()[before:])
	sym.Assert(ok, "the byte stream is not a sequence of whole frames")
	sym.Assert(len(fs) == 4-first, "not every message was written exactly once")
	var seen [4]int
	seen[0] = first
	var ids [][]byte
	for _, f := range fs {
		sym.Assert(f.HCrc == headCrc(f), "a frame is damaged")
		if cfg.GenerateFrameBodyCRC {
			sym.Assert(f.BCrc == hnet.Crc32(f.All), "a frame is damaged")
		}
		for i := 0; i < 3; i++ {
			if f.Is(hnet.HActor, hnet.ActorV(int64(20+i))) {
				seen[i]++
				sym.Assert(contents(f, bodies[i]), "a message is damaged")
			}
		}
		if f.Is(hnet.HActor, hnet.ActorV(1)) {
			seen[3]++
			sym.Assert(f.Is(hnet.HAction, hnet.ActionV("HeartbeatResponse")) && contents(f, tick), "a message is damaged")
		}
		id := f.Get(hnet.HId)
		sym.Assert(len(id) == 1 && len(id[0]) > 30, "a message has no identifier")
		for _, o := range ids {
			sym.Assert(!sym.BytesEq(o, id[0]), "two messages have the same identifier")
		}
		ids = append(ids, id[0])
	}
	sym.Assert(seen == [4]int{1, 1, 1, 1}, "not every message was written exactly once")
}

func headCrc(f *hnet.Msg) byte {
	h := append([]byte(nil), f.Raw[:12]...)
	h[5] = 0
	copy(h[8:], []byte{0, 0, 0, 0})
	return hnet.Crc8(h)
}

//verif:harness prop=C11 budget=60 tbudget=300 bound="a ping, a one-way send and 2 heartbeat requests with any different payloads of 4 bytes to answer at once; every schedule with at most 2 (thorough 3) preemptions"
func PingsAndReplies() {
	hnet.Rand()
	sym.SetNow(1000)
	c := hnet.New("tx")
	cl := connect(c, transport.Config{}, nil)
	before := len(c.Out())
	t1, t2 := sym.Bytes("payload", 4), sym.Bytes("payload", 4)
	sym.Assume(!sym.BytesEq(t1, t2))
	body := sym.Bytes("body", 3)
	ctx, cancel := context.WithCancel(context.Background())
	sym.Preempt(sym.Tier(2, 3))
	go cl.Wait()
	c.Feed(control("HeartbeatRequest", t1), control("HeartbeatRequest", t2))
	go cl.Ping(ctx)
	m := &transport.Message{Body: body}
	m.Headers.Actor = transport.MessageActorTypeFM
	sym.Assert(cl.SendOneWay(m) == nil, "a send over a working connection fails")
	sym.Quiesce()
	sym.Preempt(0)
	cancel()
	fs, ok := hnet.Parse(c.Out()[before:])
	sym.Assert(ok, "the byte stream is not a sequence of whole frames")
	var seen [4]int
	for _, f := range fs {
		sym.Assert(f.HCrc == headCrc(f), "a frame is damaged")
		switch {
		case f.Is(hnet.HAction, hnet.ActionV("HeartbeatRequest")):
			seen[0]++
		case f.Is(hnet.HAction, hnet.ActionV("HeartbeatResponse")) && contents(f, t1):
			seen[1]++
		case f.Is(hnet.HAction, hnet.ActionV("HeartbeatResponse")) && contents(f, t2):
			seen[2]++
		case contents(f, body):
			seen[3]++
		}
	}
	sym.Assert(len(fs) == 4 && seen == [4]int{1, 1, 1, 1}, "not every message was written exactly once")
}

//verif:harness prop=C11,C07 budget=90 tbudget=300 bound="two messages of 3, 600, 5000 or 70000 bytes sent together while a heartbeat is answered, one preemption (thorough two) anywhere"
func LargeTogether() {
	hnet.Rand()
	c := hnet.New("tx")
	cl := connect(c, transport.Config{}, nil)
	before := len(c.Out())
	sizes := []int{3, 600, 5000, 70000}
	var bodies [2][]byte
	for i := range bodies {
		n := sizes[sym.Choose("size", len(sizes))]
		b := make([]byte, n)
		for j := range b {
			b[j] = byte(j>>8) ^ byte(j) ^ byte(i*85)
		}
		copy(b, sym.Bytes("body", 2))
		bodies[i] = b
	}
	tick := hnet.TickV(0x123456789)
	sym.Preempt(sym.Tier(1, 2))
	for i := range bodies {
		i := i
		go func() {
			m := &transport.Message{Body: bodies[i]}
			m.Headers.Actor = transport.MessageActorType(20 + i)
			sym.Assert(cl.SendOneWay(m) == nil, "a send over a working connection fails")
		}()
	}
	c.Feed(control("HeartbeatRequest", tick))
	go cl.Wait()
	sym.Quiesce()
	sym.Preempt(0)
	fs, ok := hnet.Parse(c.Out()[before:])
	sym.Assert(ok && len(fs) == 3, "the byte stream is not a sequence of whole frames, one for each message")
	var seen [3]int
	for _, f := range fs {
		for i := range bodies {
			if f.Is(hnet.HActor, hnet.ActorV(int64(20+i))) {
				seen[i]++
				sym.Assert(contents(f, bodies[i]), "a message is damaged")
			}
		}
		if f.Is(hnet.HAction, hnet.ActionV("HeartbeatResponse")) {
			seen[2]++
			sym.Assert(contents(f, tick), "a message is damaged")
		}
	}
	sym.Assert(seen == [3]int{1, 1, 1}, "not every message was written exactly once")
}
