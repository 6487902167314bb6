package tcpx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"testing"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"
)

type vNamed struct {
	JsonMarshaller
	name string
}

func (m vNamed) MarshalName() string { return m.name }
func (m vNamed) Marshal(v interface{}) ([]byte, error) {
	b, e := json.Marshal(v)
	return append([]byte("~"+m.name+"~"), b...), e
}

func TestReplayC16(t *testing.T) {
	type hs = []map[string]interface{}
	headers := []hs{nil, {nil}, {{"a": "1"}}, {{"a": "1", "b": "2"}, {"a": "3"}}, {{}, {"x": "y"}, nil}}
	defaults := []Marshaller{JsonMarshaller{}, XmlMarshaller{}, TomlMarshaller{}, YamlMarshaller{}, ProtobufMarshaller{}, vNamed{name: "json"}, vNamed{name: "mine"}}
	ids := []int32{0, 1, -1, 1 << 30, -1 << 31}
	type val struct {
		name string
		v    interface{}
	}
	vals := []val{{"struct", struct{ A string }{"x"}}, {"map", map[string]interface{}{"k": "v"}}, {"nil", nil}, {"unencodable", make(chan int)}, {"proto", &wrapperspb.StringValue{Value: "u"}}, {"big", struct{ A string }{string(bytes.Repeat([]byte("z"), 70000))}}}
	ops := []struct {
		name string
		m    func(c *Context) Marshaller
		f    func(c *Context, id int32, v interface{}, h ...map[string]interface{}) error
	}{
		{"Reply", func(c *Context) Marshaller { return c.Packx.Marshaller }, (*Context).Reply},
		{"JSON", func(c *Context) Marshaller { return vPick(c, "json", JsonMarshaller{}) }, (*Context).JSON},
		{"XML", func(c *Context) Marshaller { return vPick(c, "xml", XmlMarshaller{}) }, (*Context).XML},
		{"TOML", func(c *Context) Marshaller { return vPick(c, "toml", TomlMarshaller{}) }, (*Context).TOML},
		{"YAML", func(c *Context) Marshaller { return vPick(c, "yaml", YamlMarshaller{}) }, (*Context).YAML},
		{"ProtoBuf", func(c *Context) Marshaller { return vPick(c, "protobuf", ProtobufMarshaller{}) }, (*Context).ProtoBuf},
		{"ReplyWithMarshaller(xml)", func(c *Context) Marshaller { return XmlMarshaller{} }, func(c *Context, id int32, v interface{}, h ...map[string]interface{}) error {
			return c.ReplyWithMarshaller(XmlMarshaller{}, id, v, h...)
		}},
		{"ReplyWithMarshaller(nil)", func(c *Context) Marshaller { return JsonMarshaller{} }, func(c *Context, id int32, v interface{}, h ...map[string]interface{}) error {
			return c.ReplyWithMarshaller(nil, id, v, h...)
		}},
		{"SendToConn", func(c *Context) Marshaller { return c.Packx.Marshaller }, func(c *Context, id int32, v interface{}, h ...map[string]interface{}) error {
			return NewContext(&vConn{}, TomlMarshaller{}).SendToConn(c, id, v, h...)
		}},
		{"SendToUsername", func(c *Context) Marshaller { return c.Packx.Marshaller }, func(c *Context, id int32, v interface{}, h ...map[string]interface{}) error {
			me := NewContext(&vConn{}, TomlMarshaller{})
			me.poolRef = NewClientPool()
			c.poolRef = me.poolRef
			me.poolRef.SetClientPool("tom", c)
			me.poolRef.SetClientPool("me", me)
			return me.SendToUsername("tom", id, v, h...)
		}},
	}
	enc := func(m Marshaller, v interface{}) (b []byte, e error) {
		defer func() {
			if p := recover(); p != nil {
				e = fmt.Errorf("%v", p)
			}
		}()
		if v == nil {
			return nil, nil
		}
		return m.Marshal(v)
	}
	for _, op := range ops {
		for di, d := range defaults {
			for hi, h := range headers {
				for vi, v := range vals {
					for _, udp := range []bool{false, true} {
						for fi := 0; fi < 6; fi++ {
							failing, state := fi%2 == 1, fi/2
							if state > 0 && vi > 0 || state == 2 && op.name == "SendToUsername" {
								continue
							}
							id := ids[(di+hi+vi)%len(ids)]
							conn := &vConn{}
							pc := &vPacketConn{}
							var ctx *Context
							if udp {
								ctx = NewUDPContext(pc, vAddr("10.0.0.7:9"), d)
								if failing {
									pc.failAt, pc.failN = 1, 3
								}
							} else {
								ctx = NewContext(conn, d)
								if failing {
									conn.failAt, conn.failN = 1, 3
								}
							}
							if state == 1 {
								ctx.poolRef = NewClientPool()
								ctx.Online("tom")
							}
							if state == 2 {
								*ctx.userState = CONTEXT_OFFLINE
							}
							what := fmt.Sprintf("%s with default %T, id %d, value %s, headers %v, datagram %v, failing transport %v, user %s", op.name, d, id, v.name, h, udp, failing, []string{"unnamed", "online", "offline"}[state])
							body, be := enc(op.m(ctx), v.v)
							before := vJSON(h)
							var e error
							if p := vPanics(func() { e = op.f(ctx, id, v.v, h...) }); p != nil {
								if be != nil {
									continue
								}
								vFail(t, "%s: panic %v", what, p)
							}
							if !bytes.Equal(before, vJSON(h)) {
								vFail(t, "%s: the given headers were changed", what)
							}
							writes := conn.writes
							if udp {
								writes = pc.writes
								for _, a := range pc.to {
									if a.String() != "10.0.0.7:9" {
										vFail(t, "%s: sent to %v", what, a)
									}
								}
							}
							if be != nil {
								if e == nil || len(writes) > 0 {
									vFail(t, "%s: the value cannot be encoded, error %v, %d writes", what, e, len(writes))
								}
								continue
							}
							if (e != nil) != failing {
								vFail(t, "%s: error %v", what, e)
							}
							if len(writes) != 1 {
								vFail(t, "%s: %d writes", what, len(writes))
							}
							if failing {
								continue
							}
							merged := map[string]interface{}{}
							for _, x := range h {
								for k, y := range x {
									merged[k] = y
								}
							}
							if want := vBlock(id, vJSON(merged), body); !bytes.Equal(writes[0], want) && v.name != "map" {
								vFail(t, "%s: wrote %.80q, want %.80q", what, writes[0], want)
							}
						}
					}
				}
			}
		}
	}
	// url replies
	for _, d := range defaults {
		for _, proto := range []bool{false, true} {
			conn := &vConn{}
			ctx := NewContext(conn, d)
			req, _ := NewURLPatternMessage("/x/y/", nil).Pack(JsonMarshaller{})
			ctx.Stream = req
			var e error
			v := &wrapperspb.StringValue{Value: "u"}
			var m Marshaller = JsonMarshaller{}
			if proto {
				m = ProtobufMarshaller{}
				e = ctx.ProtobufURLPattern(v)
			} else {
				e = ctx.JSONURLPattern(v)
			}
			body, _ := m.Marshal(v)
			want := vBlock(0, vJSON(map[string]interface{}{HEADER_ROUTER_KEY: "URL_PATTERN", HEADER_ROUTER_VALUE: "/x/y/"}), body)
			if e != nil || len(conn.writes) != 1 || !bytes.Equal(conn.writes[0], want) {
				vFail(t, "url reply (protobuf %v, default %T): error %v, wrote %.100q, want %.100q", proto, d, e, conn.all(), want)
			}
			ctx.Stream = nil
			ctx.PerRequestContext = NewContext(conn, d).PerRequestContext
			if e := ctx.JSONURLPattern(v); e == nil || len(conn.writes) != 1 {
				vFail(t, "url reply to a message without url: error %v", e)
			}
		}
	}
	// users
	me := NewContext(&vConn{}, JsonMarshaller{})
	if e := me.SendToUsername("tom", 1, "x"); e == nil {
		vFail(t, "SendToUsername without a pool succeeds")
	}
	me.poolRef = NewClientPool()
	if e := me.SendToUsername("tom", 1, "x"); e == nil {
		vFail(t, "SendToUsername to an unknown user succeeds")
	}
	off := &vConn{}
	tom := NewContext(off, JsonMarshaller{})
	me.poolRef.SetClientPool("tom", tom)
	*tom.userState = CONTEXT_OFFLINE
	if e := me.SendToUsername("tom", 1, "x"); e == nil || len(off.writes) > 0 {
		vFail(t, "SendToUsername to an offline user: error %v, %d writes", e, len(off.writes))
	}
	// clients
	for _, v := range vals[:4] {
		body, be := enc(JsonMarshaller{}, v.v)
		conn := &vConn{}
		e := WriteJSON(conn, 7, v.v)
		if (e != nil) != (be != nil) || e == nil && (len(conn.writes) != 1 || v.name != "map" && !bytes.Equal(conn.all(), vBlock(7, []byte("null"), body)) && !bytes.Equal(conn.all(), vBlock(7, []byte("{}"), body))) {
			vFail(t, "WriteJSON of %s: error %v, wrote %.100q", v.name, e, conn.all())
		}
		bad := &vConn{failAt: 1}
		if e := WriteJSON(bad, 7, v.v); e == nil {
			vFail(t, "WriteJSON on a failing connection succeeds")
		}
	}
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		return
	}
	defer l.Close()
	got := make(chan []byte, 1)
	go func() {
		c, e := l.Accept()
		if e != nil {
			return
		}
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		b := new(bytes.Buffer)
		b.ReadFrom(c)
		got <- b.Bytes()
	}()
	if e := TCPCallOnceJSON("tcp", l.Addr().String(), 1<<32+9, "x"); e != nil {
		vFail(t, "TCPCallOnceJSON: %v", e)
	}
	if b := <-got; !bytes.Equal(b, vBlock(9, []byte("null"), []byte(`"x"`))) && !bytes.Equal(b, vBlock(9, []byte("{}"), []byte(`"x"`))) {
		vFail(t, "TCPCallOnceJSON sent %q", b)
	}
	l.Close()
	if e := TCPCallOnceJSON("tcp", l.Addr().String(), 9, "x"); e == nil {
		vFail(t, "TCPCallOnceJSON without a server succeeds")
	}
}

func vPick(c *Context, name string, m Marshaller) Marshaller {
	if c.Packx.Marshaller.MarshalName() == name {
		return c.Packx.Marshaller
	}
	return m
}
