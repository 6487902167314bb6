package tcpx

import (
	"bytes"
	"fmt"
	"testing"
)

func TestReplayC09(t *testing.T) {
	type msg struct {
		hdr  string
		id   int32
		want string // handler expected: "id N", "url P" or ""
	}
	var msgs []msg
	for _, id := range []int32{0, 1, 2} {
		ids := fmt.Sprintf("id %d", id)
		msgs = append(msgs, msg{"", id, ids}, msg{"null", id, ids}, msg{"{}", id, ids}, msg{`{"x":1}`, id, ids}, msg{`{"Router-Type":"MESSAGE_ID"}`, id, ids}, msg{`{"Router-Type":"MESSAGE_ID","Router-Pattern-Value":"/a"}`, id, ids},
			msg{`{"Router-Type":5,"Router-Pattern-Value":"/a"}`, id, ids}, msg{`{"Router-Type":null,"Router-Pattern-Value":"/a"}`, id, ids}, msg{`{"Router-Pattern-Value":"/a"}`, id, ids}, msg{`not json`, id, ids},
			msg{`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/a"}`, id, "url /a"}, msg{`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/b"}`, id, "url /b"}, msg{`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/none"}`, id, ""}, msg{`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":7}`, id, ""},
			msg{`{"Router-Type":"URL_PATTERN"}`, id, "url "})
	}
	var ran string
	var reply []byte
	var first string
	srv := NewTcpX(JsonMarshaller{})
	h := func(what string, url string) func(c *Context) {
		return func(c *Context) {
			ran += what
			// what a handler asks for is the message's own
			u, e := c.GetURLPattern()
			if e == nil {
				first = u
			} else {
				first = "error"
			}
			if url != "-" {
				c.JSONURLPattern("r")
			}
		}
	}
	for _, id := range []int32{0, 1, 2} {
		srv.AddHandler(id, h(fmt.Sprintf("id %d", id), "-"))
	}
	for _, u := range []string{"", "/a", "/b"} {
		srv.Any(u, h("url "+u, u))
	}
	r := vRand()
	for round := 0; round < 60; round++ {
		conn := &vConn{}
		ctx := NewContext(conn, JsonMarshaller{})
		var hist []string
		for k := 0; k < 30; k++ {
			m := msgs[r.Intn(len(msgs))]
			ctx.Stream = vBlock(m.id, []byte(m.hdr), []byte("1"))
			hist = append(hist, fmt.Sprintf("%d %s", m.id, m.hdr))
			tmp := copyContext(*ctx)
			ran, first, reply = "", "", nil
			conn.writes = nil
			handleMiddleware(tmp, srv)
			if ran != m.want {
				vFail(t, "message id %d header %s after %q: ran %q, want %q", m.id, m.hdr, hist[:len(hist)-1], ran, m.want)
			}
			if len(m.want) > 4 && m.want[:4] == "url " {
				u := m.want[4:]
				if first != u {
					vFail(t, "message id %d header %s after %q: url pattern %q", m.id, m.hdr, hist[:len(hist)-1], first)
				}
				reply = conn.all()
				want := vBlock(0, vJSON(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": u}), []byte(`"r"`))
				if !bytes.Equal(reply, want) {
					vFail(t, "reply to header %s after %q: %q", m.hdr, hist[:len(hist)-1], reply)
				}
			}
			if u, e := URLPatternOf(ctx.Stream); m.want == "url "+u && e != nil {
				vFail(t, "URLPatternOf header %s: %v", m.hdr, e)
			}
		}
	}
	for _, m := range msgs {
		s := vBlock(m.id, []byte(m.hdr), nil)
		pt := PackType(s)
		a, e1 := URLPatternOf(s)
		b, e2 := pt.URLPattern()
		if a != b || (e1 == nil) != (e2 == nil) {
			vFail(t, "URLPatternOf and PackType.URLPattern differ on header %s", m.hdr)
		}
		if len(m.want) > 4 && m.want[:4] == "url " {
			if a != m.want[4:] || e1 != nil {
				vFail(t, "URLPatternOf header %s: %q %v", m.hdr, a, e1)
			}
			if rt, e := RouteTypeOf(s); rt != URLPATTERN || e != nil {
				vFail(t, "RouteTypeOf header %s: %q %v", m.hdr, rt, e)
			}
		}
	}
}
