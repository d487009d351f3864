package hnaming

import (
	"context"
	"errors"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/zzverif/hnet"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

//verif:harness prop=C31 budget=60 bound="a gateway description of any address and name (0 to 2 ASCII characters), node (128 bits) and instance (64 bits)"
func PingResult() {
	hnet.Rand()
	k := newClient()
	c := start(func() (interface{}, error) { return k.Ping(context.Background()) })
	m := k.request("PingRequest")
	sym.Assert(!c.returned(), "a call returns without a reply")
	addr, name := ascii("addr", sym.Choose("addr.n", 3)), ascii("name", sym.Choose("name.n", 3))
	hi, lo, inst := sym.U64("hi"), sym.U64("lo"), sym.U64("inst")
	k.reply(m, answer{"PingRequest", 0, href.Obj(gatewayV(addr, hi, lo, inst, name))})
	sym.Assert(c.ok(), "a ping that was answered fails")
	sym.Assert(sameGateway(c.v.(*naming.GatewayDescription), addr, hi, lo, inst, name), "a ping's result is not the gateway's")
}

//verif:harness prop=C31 budget=60 tbudget=240 bound="a filter of 0 to 2 ASCII characters; a list of 0 to 2 applications with any name, type, version (0 or 1 ASCII characters) and 0 to 2 parameters, for one application any status (64 bits) and health (8 bits)"
func ApplicationList() {
	hnet.Rand()
	k := newClient()
	filter := ascii("filter", sym.Choose("filter.n", 3))
	c := start(func() (interface{}, error) { return k.GetApplicationList(context.Background(), string(filter)) })
	m := k.request("QueryRequest")
	sym.Assert(sym.BytesEq(m.Body, href.Obj(href.Obj(array(href.Obj(href.Obj(href.Ascii("ApplicationName")), str(filter)))), href.Ascii("GetApplicationList"))), "a query is not the one asked for")
	n := sym.Choose("apps", 3)
	var want []naming.ApplicationQueryResult
	var enc [][]byte
	for i := 0; i < n; i++ {
		q := naming.ApplicationQueryResult{
			ApplicationTypeName:    string(ascii("type", 1)),
			ApplicationTypeVersion: string(ascii("version", 1-i)),
			HealthState:            int64(3 + i),
		}
		if n == 1 {
			q.ApplicationStatus, q.HealthState = sym.I64("status"), int64(sym.I8("health"))
		}
		q.ApplicationName = common.Uri{Type: 1, Scheme: "fabric", Path: string(ascii("path", 1)), PathSegments: []string{"a", string(ascii("seg", 1))}}
		var ps [][]byte
		params := i
		if i == n-1 {
			params = sym.Choose("params", 3)
		}
		for j := 0; j < params; j++ {
			if j == 0 {
				q.ApplicationParameters = map[string]string{}
			}
			key, v := []string{"k", "l"}[j], string(ascii("param", j))
			q.ApplicationParameters[key] = v
			ps = append(ps, href.Obj(href.Ascii(key), href.Ascii(v)))
		}
		want = append(want, q)
		enc = append(enc, href.Obj(uriV(q.ApplicationName), href.Ascii(q.ApplicationTypeName), href.Ascii(q.ApplicationTypeVersion),
			href.S(href.Int64, q.ApplicationStatus), href.S(href.Int64, q.HealthState), array(ps...)))
	}
	k.reply(m, answer{"QueryReply", 0, href.Obj(href.S(href.Int32, 1), pointer(href.Obj(array(enc...))), href.S(href.Int32, 0))})
	sym.Assert(c.ok(), "a query that was answered fails")
	got := c.v.([]naming.ApplicationQueryResult)
	sym.Assert(len(got) == n, "a query's result has another length")
	for i := range got {
		g, w := got[i], want[i]
		sym.Assert(len(g.ApplicationParameters) == len(w.ApplicationParameters), "a query's result is not the gateway's")
		for key, v := range w.ApplicationParameters {
			x, ok := g.ApplicationParameters[key]
			sym.Assert(sym.And(ok, x == v), "a query's result is not the gateway's")
		}
		g.ApplicationParameters, w.ApplicationParameters = nil, nil
		sym.Assert(sym.DeepEq(g, w), "a query's result is not the gateway's")
	}
}

//verif:harness prop=C31,C33 budget=60 reach=ok,failed bound="each call; at each of its requests: a good answer; one with any error code (64 bits) in its header; ClientOperationFailure with any code (64 bits), without or with undecodable code; for a query any error code in the result (32 bits) and a missing result; for a ping any other action (1 character)"
func Failures() {
	hnet.Rand()
	k := newClient()
	which := sym.Choose("call", len(calls))
	c := start(func() (interface{}, error) { return calls[which](k, context.Background()) })
	for i, st := range steps[which] {
		m := k.request(st.action)
		a := st.good
		bad := true
		switch sym.Choose("answer", 8) {
		case 0:
			bad = false
		case 1:
			a.code = sym.I64("code")
			sym.Assume(a.code != 0)
		case 2:
			a.action, a.body = "ClientOperationFailure", href.Obj(href.S(href.Int64, sym.I64("code")))
		case 3:
			a.action, a.body = "ClientOperationFailure", nil
		case 4:
			a.action, a.body = "ClientOperationFailure", []byte{1, 2, 3}
		case 5:
			sym.Assume(which == 1)
			code := sym.I32("result")
			sym.Assume(code != 0)
			a.body = href.Obj(href.S(href.Int32, 1), pointer(href.Obj(array())), href.S(href.Int32, int64(code)))
		case 6:
			sym.Assume(which == 1)
			a.body = href.Obj(href.S(href.Int32, 1), pointer(nil), href.S(href.Int32, int64(sym.I8("result"))))
		case 7:
			sym.Assume(which == 0)
			a.action = []string{"", "PingReply", "pingRequest", "ClientOperationSuccess"}[sym.Choose("action", 4)]
		}
		k.reply(m, a)
		if bad {
			sym.Reach("failed")
			sym.Assert(c.failed(), "a failure is not returned as an error")
			break
		}
		if i == len(steps[which])-1 {
			sym.Reach("ok")
			sym.Assert(c.ok(), "a call that was answered fails")
		} else {
			sym.Assert(!c.returned(), "a call returns before its last reply")
		}
	}
	sym.Assert(len(k.sent()) == 0, "a call goes on after its end")
	sym.Assert(!k.ended(), "a failure ends the receive loop")
	c = start(func() (interface{}, error) { return k.Ping(context.Background()) })
	k.reply(k.request("PingRequest"), steps[0][0].good)
	sym.Assert(c.ok(), "a later call fails")
}

//verif:harness prop=C31 budget=60 tbudget=300 bound="each call; the answer to each of its requests with a body of 0 to 3 arbitrary bytes, or a good body cut at any place, or with one byte of it arbitrary, or of the answer of another call"
func Garbage() {
	hnet.Rand()
	k := newClient()
	which := sym.Choose("call", len(calls))
	c := start(func() (interface{}, error) { return calls[which](k, context.Background()) })
	at := sym.Choose("at", len(steps[which]))
	sym.AllocLimit(1 << 20)
	for i, st := range steps[which] {
		m := k.request(st.action)
		a := st.good
		cut := false
		if i == at {
			switch sym.Choose("how", 4) {
			case 0:
				a.body = sym.Bytes("body", sym.Choose("n", 4))
				// the decoder takes any empty value for an object of zeros,
				// and any type for an object without a header
				cut = len(a.body) == 0 || a.body[0] == href.Object
			case 1:
				if len(a.body) > 0 {
					a.body = a.body[:sym.Choose("cut", len(a.body))]
					cut = true
				}
			case 2:
				if n := len(a.body); n > 0 {
					b := append([]byte(nil), a.body...)
					b[sym.Choose("byte", n)] = sym.U8("value")
					a.body = b
				}
			case 3:
				o := steps[sym.Choose("other", len(calls))][0].good
				a.body = o.body
			}
		}
		k.reply(m, a)
		if i == at && cut && which < 2 {
			sym.Assert(c.failed(), "an answer that does not decode is taken for one")
		}
		if c.returned() {
			break
		}
	}
	sym.Assert(c.returned(), "a call that was answered does not return")
	sym.Assert(!k.ended(), "an answer that does not decode ends the receive loop")
	c = start(func() (interface{}, error) { return k.Ping(context.Background()) })
	k.reply(k.request("PingRequest"), steps[0][0].good)
	sym.Assert(c.ok(), "a later call fails")
}

//verif:harness prop=C31 budget=60 bound="each call; its context cancelled or past its deadline before the call, or while it waits for its first or second reply; or the connection ends or is closed there"
func Ends() {
	hnet.Rand()
	k := newClient()
	which := sym.Choose("call", len(calls))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	at := sym.Choose("at", len(steps[which])+1) - 1
	how := sym.Choose("how", 4)
	var want error
	end := func() {
		switch how {
		case 0:
			cancel()
			want = context.Canceled
		case 1:
			k.c.End(nil)
		case 2:
			k.tr.Close()
		case 3:
			want = context.Canceled
			cancel()
			k.c.End(nil)
			want = nil
		}
		sym.Quiesce()
	}
	if at < 0 {
		end()
	}
	c := start(func() (interface{}, error) { return calls[which](k, ctx) })
	sym.Quiesce()
	for i, st := range steps[which] {
		if at < 0 {
			break
		}
		m := k.request(st.action)
		if i == at {
			end()
			break
		}
		k.reply(m, st.good)
	}
	if how == 1 && at < 0 {
		// the loop is gone, the connection may still take writes
		cancel()
		sym.Quiesce()
	}
	sym.Assert(c.failed(), "a call whose context or connection ended does not fail")
	if want != nil {
		sym.Assert(errors.Is(c.err, want), "a cancelled call does not return its context's error")
	}
}

//verif:harness prop=C31 budget=60 tbudget=300 sched=1 bound="two calls of any kind in flight, answered in either order"
func TwoCalls() {
	hnet.Rand()
	k := newClient()
	w := [2]int{sym.Choose("call", len(calls)), sym.Choose("call", len(calls))}
	var cs [2]*call
	var ms [2]*hnet.Msg
	for i := range cs {
		which := w[i]
		cs[i] = start(func() (interface{}, error) { return calls[which](k, context.Background()) })
		ms[i] = k.request(steps[which][0].action)
	}
	fail := sym.Choose("failing", 2)
	first := sym.Choose("first", 2)
	bad := answer{action: "ClientOperationFailure", body: href.Obj(href.S(href.Int64, 5))}
	for _, i := range []int{first, 1 - first} {
		if i == fail {
			k.reply(ms[i], bad)
			sym.Assert(cs[i].failed(), "a failure is not returned as an error")
			continue
		}
		k.reply(ms[i], steps[w[i]][0].good)
		if w[i] == 2 {
			k.reply(k.request(steps[2][1].action), steps[2][1].good)
		}
		sym.Assert(cs[i].ok(), "a call fails by another one's failure")
	}
}
