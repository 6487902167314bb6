package tcpx

import (
	"fmt"
	"strings"
	"testing"
	"time"
)

// vRegistration: random histories of registrations against a plain model of what should run
func vRegistration(t *testing.T) {
	type route struct {
		keys  map[string]bool // keys in use when it was registered
		chain []string
	}
	r := vRand()
	var trace []string
	mk := func(label string) func(c *Context) { return func(c *Context) { trace = append(trace, label); c.Next() } }
	last := func(label string) func(c *Context) { return func(c *Context) { trace = append(trace, label) } }
	for round := 0; round < 300; round++ {
		srv := NewTcpX(JsonMarshaller{})
		var globals, order []string
		label := map[string]string{}
		inuse := map[string]bool{}
		ids := map[int32]*route{}
		urls := map[string]*route{}
		var hist []string
		hb, hbOn, hbThrough := int32(0), false, false
		au, auOn, auThrough := int32(0), false, false
		n := 0
		name := func(k string) string { n++; return fmt.Sprintf("%s%d", k, n) }
		now := func() map[string]bool {
			m := map[string]bool{}
			for k := range inuse {
				m[k] = true
			}
			return m
		}
		what := func() string { return strings.Join(hist, "; ") }
		step := func(s string, refused bool, f func()) bool {
			hist = append(hist, s)
			p := vPanics(f)
			if (p != nil) != refused {
				vFail(t, "%s: refused: %v", what(), p)
			}
			return p == nil
		}
		check := func(ctx *Context, want []string, msg string, raw bool) {
			trace = nil
			if p := vPanics(func() {
				if raw {
					handleRaw(ctx, srv)
				} else {
					handleMiddleware(ctx, srv)
				}
			}); p != nil {
				vFail(t, "%s; then %s: panic %v", what(), msg, p)
			}
			if strings.Join(trace, " ") != strings.Join(want, " ") {
				vFail(t, "%s; then %s: ran [%s], want [%s]", what(), msg, strings.Join(trace, " "), strings.Join(want, " "))
			}
		}
		chain := func(rt *route) []string {
			w := append([]string{}, globals...)
			for _, k := range order {
				if rt == nil || rt.keys[k] {
					w = append(w, label[k])
				}
			}
			if rt != nil {
				w = append(w, rt.chain...)
			}
			return w
		}
		ask := func() {
			base := NewContext(&vConn{}, JsonMarshaller{})
			for id := int32(-1); id < 6; id++ {
				base.Stream = vBlock(id, []byte("{}"), nil)
				var want []string
				if rt := ids[id]; rt != nil {
					want = chain(rt)
					if hbOn && id == hb && !hbThrough || auOn && id == au && !auThrough {
						want = rt.chain[len(rt.chain)-1:]
					}
					if rt.chain[len(rt.chain)-1] == "" {
						continue
					}
				}
				check(copyContext(*base), want, fmt.Sprintf("message %d", id), false)
				if r.Intn(3) == 0 {
					c := NewContext(&vConn{}, JsonMarshaller{})
					c.Stream = base.Stream
					check(c, want, fmt.Sprintf("message %d", id), false)
				}
			}
			for _, u := range []string{"/a", "/b", "/c", "/none", ""} {
				base.Stream = vBlock(0, vJSON(map[string]interface{}{HEADER_ROUTER_KEY: "URL_PATTERN", HEADER_ROUTER_VALUE: u}), nil)
				var want []string
				if rt := urls[u]; rt != nil {
					want = chain(rt)
				}
				check(copyContext(*base), want, "url "+u, false)
			}
			base.Stream = vBlock(1, []byte(`{"Router-Type":"ELSE"}`), nil)
			check(copyContext(*base), nil, "a message with an unknown way of routing", false)
			base.Stream = []byte{0, 0}
			check(copyContext(*base), nil, "a cut message", false)
		}
		for k := 0; k < 4+r.Intn(14); k++ {
			key := string(rune('a' + r.Intn(3)))
			id := int32(r.Intn(5))
			url := []string{"/a", "/b", "/c"}[r.Intn(3)]
			switch r.Intn(9) {
			case 0:
				var hs []func(c *Context)
				var ls []string
				for i := r.Intn(3); i >= 0; i-- {
					l := name("global")
					ls = append(ls, l)
					hs = append(hs, mk(l))
				}
				if step("UseGlobal "+fmt.Sprint(ls), false, func() { srv.UseGlobal(hs...) }) {
					globals = append(globals, ls...)
				}
			case 1, 2:
				l := name(key)
				if step("Use "+key, inuse[key], func() { srv.Use(key, mk(l)) }) {
					if label[key] == "" {
						label[key] = l
						order = append(order, key)
					}
					inuse[key] = true
				}
			case 3:
				if step("UnUse "+key, !inuse[key], func() { srv.UnUse(key) }) {
					delete(inuse, key)
				}
			case 4, 5, 6:
				var ls []string
				var hs []func(c *Context)
				m := r.Intn(4)
				if r.Intn(8) == 0 {
					m = 11
				}
				for i := 0; i < m; i++ {
					l := name("h")
					ls = append(ls, l)
					if i == m-1 {
						hs = append(hs, last(l))
					} else {
						hs = append(hs, mk(l))
					}
				}
				if r.Intn(2) == 0 {
					if step(fmt.Sprintf("AddHandler %d %v", id, ls), m == 0 || ids[id] != nil, func() { srv.AddHandler(id, hs...) }) {
						ids[id] = &route{now(), ls}
					}
				} else {
					if step(fmt.Sprintf("Any %s %v", url, ls), m == 0 || urls[url] != nil, func() { srv.Any(url, hs...) }) {
						urls[url] = &route{now(), ls}
					}
				}
			case 7:
				if hbOn {
					l := name("beat")
					if step(fmt.Sprintf("RewriteHeartBeatHandler %d", id), id != hb && ids[id] != nil, func() { srv.RewriteHeartBeatHandler(id, last(l)) }) {
						delete(ids, hb)
						hb = id
						ids[id] = &route{now(), []string{l}}
					}
				} else if ids[id] == nil {
					hbThrough = r.Intn(2) == 0
					if step(fmt.Sprintf("HeartBeatModeDetail through middleware %v, id %d", hbThrough, id), false, func() { srv.HeartBeatModeDetail(true, time.Hour, hbThrough, id) }) {
						hbOn, hb = true, id
						ids[id] = &route{now(), []string{""}}
					}
				}
			case 8:
				if !auOn && ids[id] == nil {
					l := name("auth")
					auThrough = r.Intn(2) == 0
					if step(fmt.Sprintf("WithAuthDetail through middleware %v, id %d", auThrough, id), false, func() { srv.WithAuthDetail(true, time.Hour, auThrough, id, last(l)) }) {
						auOn, au = true, id
						ids[id] = &route{now(), []string{l}}
					}
				}
			}
			if k%3 == 0 {
				ask()
			}
		}
		ask()
		srv.HandleRaw = last("raw")
		base := NewContext(&vConn{}, JsonMarshaller{})
		check(base, append(chain(nil), "raw"), "a raw connection", true)
		srv.OnMessage = last("all")
		hist = append(hist, "OnMessage")
		for id := int32(-1); id < 6; id++ {
			base.Stream = vBlock(id, []byte("{}"), nil)
			check(copyContext(*base), append(chain(nil), "all"), fmt.Sprintf("message %d", id), false)
		}
	}
}
