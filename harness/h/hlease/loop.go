package hlease

import (
	"context"
	"errors"
	"time"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/sym"
)

var errPing = errors.New("ping failed")

// scripted is a session whose pings do what the script says.
type scripted struct {
	lease.Session
	play func(ctx context.Context) error
}

func (s *scripted) Ping(ctx context.Context) error { return s.play(ctx) }

const ms = int64(time.Millisecond)

// loop is a running ping loop.
type loop struct {
	done chan struct{}
	err  error
	at   int64
}

func startLoop(ctx context.Context, s lease.Session, interval time.Duration) *loop {
	l := &loop{done: make(chan struct{})}
	go func() {
		l.err = lease.PingLoop(ctx, s, interval)
		l.at = sym.Now()
		close(l.done)
	}()
	return l
}

func (l *loop) returned() bool {
	select {
	case <-l.done:
		return true
	default:
		return false
	}
}

// near compares moments, of the real clock loosely.
func near(a, b, slack int64) bool { return a-b <= slack && b-a <= slack }

//verif:harness prop=C37 budget=60 tbudget=300 sched=1 reach=cancelled,expired,going bound="a session of which each of 4 (thorough 6) pings succeeds at once or after half the interval, fails at once or after half the interval, or waits for its context; interval 200 ms or 30 s; the loop's context cancelled, or over by its deadline, before the loop, within a ping, within a pause, or never"
func LoopPings() {
	interval, slack := []int64{200, 30000}[sym.Choose("interval", 2)]*ms, int64(0)
	if !sym.Symbolic() { // real time
		interval, slack = 200*ms, 100*ms
	}
	n := sym.Tier(4, 6)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	how := sym.Choose("how", 3) // 0 never ends, 1 is cancelled, 2 expires
	end := int64(0)
	start := sym.Now()
	if how > 0 {
		// quarters of an interval, and a bit so as not to meet the pings
		end = start + interval/4*int64(sym.Choose("end", 10)) + interval/16
		if how == 2 {
			ctx, cancel = context.WithDeadline(context.Background(), time.Unix(0, end))
			defer cancel()
		} else {
			go func() {
				time.Sleep(time.Duration(end - start))
				cancel()
			}()
		}
	}
	var began, over []int64
	enough := make(chan struct{})
	s := &scripted{play: func(pctx context.Context) error {
		began = append(began, sym.Now())
		defer func() { over = append(over, sym.Now()) }()
		i := len(began)
		if i > n {
			close(enough)
			<-pctx.Done()
			return pctx.Err()
		}
		sym.Assert(pctx.Err() == nil || how > 0 && sym.Now()+slack >= end, "a ping is started with a context that has ended")
		switch sym.Choose("ping", 5) {
		case 0:
			return nil
		case 1:
			return errPing
		case 2, 3:
			select {
			case <-time.After(time.Duration(interval / 2)):
				return nil
			case <-pctx.Done():
				return pctx.Err()
			}
		}
		<-pctx.Done()
		return pctx.Err()
	}}
	l := startLoop(ctx, s, time.Duration(interval))
	if how == 0 {
		sym.Reach("going")
		<-enough
		sym.Assert(!l.returned(), "the ping loop ends although its context lives")
	} else {
		select {
		case <-l.done:
		case <-enough:
			<-l.done
		}
		sym.Assert(near(l.at, end, slack), "the ping loop returns before or after its context ends")
		if how == 1 {
			sym.Reach("cancelled")
			sym.Assert(errors.Is(l.err, context.Canceled), "the ping loop does not return its context's error")
		} else {
			sym.Reach("expired")
			sym.Assert(errors.Is(l.err, context.DeadlineExceeded), "the ping loop does not return its context's error")
		}
	}
	sym.Assert(len(began) > 0 && near(began[0], start, slack), "the first ping is late")
	for i := 1; i < len(began); i++ {
		gap := began[i] - began[i-1]
		sym.Assert(gap+slack >= interval, "pings follow each other faster than the interval")
		sym.Assert(gap <= 2*interval+slack, "the ping loop skips a ping")
		sym.Assert(over[i-1] <= began[i], "a ping begins before the one before has ended")
		sym.Assert(over[i-1]-began[i-1] <= interval+slack, "a ping has more than the interval")
	}
	if how > 0 {
		last := began[len(began)-1]
		sym.Assert(last <= end+slack && end-last <= 2*interval+slack, "the ping loop stops pinging before its end")
	}
}

//verif:harness prop=C37 budget=60 tbudget=300 sched=1 reach=ended bound="a real session in a ping loop: each of 4 (thorough 5) pings is answered at once or later within the interval, by another endpoint, after the interval, or not, but the peer pings; its write fails from some ping on, or the session is closed, or never; the last pong's time after each"
func LoopSession() {
	hnet.Rand()
	a := newAgent()
	interval, slack := 400*ms, int64(0)
	if !sym.Symbolic() { // real time
		slack = 100 * ms
	}
	pings := 0
	n := sym.Tier(4, 5)
	enough := make(chan struct{})
	var last int64 // the last pong's time
	answer := func(after int64, host string) {
		go func() {
			time.Sleep(time.Duration(after))
			a.pong(host, 9)
			if host == "peer" {
				last = sym.Now()
			}
		}()
	}
	bad := sym.Choose("bad", 3) // 0 nothing, 1 writes fail, 2 the session is closed
	at := 0
	if bad > 0 {
		at = 1 + sym.Choose("at", n)
	}
	kind := 0
	if bad == 1 && at == 1 {
		kind = sym.Choose("kind of error", 3)
	}
	var sess lease.Session
	a.prep = func(c *hnet.Conn) {
		if bad == 1 {
			c.FailWrite, c.WriteErr = at, hnet.WriteErrs[kind]
		}
		c.OnWrite = func(int, []byte) {
			pings++
			if pings > n {
				return
			}
			if bad == 2 && at == pings {
				go sess.Close()
			}
			switch sym.Choose("answer", 5) {
			case 0:
				answer(0, "peer")
			case 1:
				answer(interval/4, "peer")
			case 2:
				answer(0, "other")
			case 3:
				answer(interval+interval/4, "peer")
			case 4: // the peer says something else
				a.incoming(connectFrame(), frame(message(pingRequest, "peer", 9)))
			}
		}
	}
	a.serve()
	sess = a.establish("peer:9")
	sym.Assert(sess.LastPongTime().IsZero(), "there is a pong time before any pong")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	l := startLoop(ctx, sess, time.Duration(interval))
	go func() {
		for i := 0; i < 2*(n+1); i++ {
			time.Sleep(time.Duration(interval - interval/8))
			got := sess.LastPongTime()
			if bad != 2 {
				sym.Assert(got.IsZero() == (last == 0) && (last == 0 || near(got.UnixNano(), last, slack)), "the pong time is not the last pong's")
			}
			sym.Assert(!l.returned(), "the ping loop ends although its context lives")
			time.Sleep(time.Duration(interval / 8))
		}
		close(enough)
	}()
	<-enough
	if bad == 0 {
		sym.Assert(pings >= n, "the ping loop does not go on pinging")
	}
	cancel()
	<-l.done
	sym.Reach("ended")
	sym.Assert(errors.Is(l.err, context.Canceled), "the ping loop does not return its context's error")
	was := pings
	time.Sleep(time.Duration(3 * interval))
	sym.Assert(pings == was, "an ended ping loop goes on pinging")
}

//verif:harness prop=C37 budget=60 tbudget=300 sched=1 bound="two ping loops of two sessions of one agent and a reader of both pong times, pongs arriving concurrently; two preemptions (thorough three) anywhere"
func LoopTogether() {
	hnet.Rand()
	a := newAgent()
	a.serve()
	s, o := a.establish("peer:9"), a.establish("other:9")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	in := a.incoming(connectFrame())
	sym.Quiesce()
	sym.Preempt(sym.Tier(2, 3))
	l := startLoop(ctx, s, time.Minute)
	go in.Feed(frame(message(pingResponse, "peer", 9)))
	go func() {
		t := s.LastPongTime()
		sym.Assert(t.IsZero() || t.UnixNano() == sym.Now(), "the pong time is not the last pong's")
		sym.Assert(o.LastPongTime().IsZero(), "a pong counts for another session")
	}()
	time.Sleep(time.Second)
	sym.Preempt(0)
	sym.Assert(!s.LastPongTime().IsZero(), "a pong's time is not kept")
	sym.Assert(!l.returned(), "the ping loop ends although its context lives")
	cancel()
	<-l.done
}
