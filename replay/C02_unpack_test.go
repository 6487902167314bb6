package tcpx

import (
	"bytes"
	"reflect"
	"strings"
	"testing"

	"google.golang.org/protobuf/types/known/wrapperspb"
)

type vDec struct {
	got *[][]byte
}

func (m vDec) Marshal(v interface{}) ([]byte, error) { return v.([]byte), nil }
func (m vDec) Unmarshal(b []byte, d interface{}) error {
	*m.got = append(*m.got, append([]byte{}, b...))
	*(d.(*string)) = string(b)
	return nil
}
func (m vDec) MarshalName() string { return "v" }

func TestReplayC02(t *testing.T) {
	headers := []map[string]interface{}{nil, {}, {"a": "b"}, {"n": 1.5, "z": nil, "l": []interface{}{1.0, "x"}}, {"k": strings.Repeat("h", 300)}, {"k": strings.Repeat("h", 70000)}}
	var bodies [][]byte
	for _, n := range []int{0, 1, 4, 16, 255, 256, 1000, 65536} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*5 + 1)
		}
		bodies = append(bodies, b)
	}
	bodies = append(bodies, []byte(" \n\t x \r\n "), []byte{0}, []byte{0, 0, 0, 4, 0}, []byte("{}"), []byte("null"))
	for _, id := range []int32{0, 1, -1, 77, 256, 1 << 24, 1<<31 - 1, -1 << 31} {
		for _, h := range headers {
			for _, body := range bodies {
				buf, e := PackWithMarshallerAndBody(Message{MessageID: id, Header: h}, body)
				if e != nil {
					t.Fatal(e)
				}
				hb := vJSON(h)
				if !bytes.Equal(buf, vBlock(id, hb, body)) {
					t.Skip("packing differs")
				}
				for _, tail := range [][]byte{nil, {0}, bytes.Repeat([]byte{0xff}, 40), buf} {
					s := append(append([]byte{}, buf...), tail...)
					in := append([]byte{}, s...)
					bad := func(what string, got interface{}, e error) {
						t.Helper()
						vFail(t, "%s of packed id %d header %v body %d bytes followed by %d bytes: %v, %v", what, id, h, len(body), len(tail), got, e)
					}
					p := *packx
					for _, w := range []int{0, 1} {
						fs := map[string]func([]byte) (int32, error){"MessageIDOf": MessageIDOf, "LengthOf": LengthOf, "HeaderLengthOf": HeaderLengthOf, "BodyLengthOf": BodyLengthOf}
						bs := map[string]func([]byte) ([]byte, error){"HeaderBytesOf": HeaderBytesOf, "BodyBytesOf": BodyBytesOf, "FirstBlockOfBytes": FirstBlockOfBytes}
						if w == 1 {
							fs = map[string]func([]byte) (int32, error){"MessageIDOf": p.MessageIDOf, "LengthOf": p.LengthOf, "HeaderLengthOf": p.HeaderLengthOf, "BodyLengthOf": p.BodyLengthOf}
							bs = map[string]func([]byte) ([]byte, error){"HeaderBytesOf": p.HeaderBytesOf, "BodyBytesOf": p.BodyBytesOf, "FirstBlockOfBytes": p.FirstBlockOfBytes}
						}
						want := map[string]int32{"MessageIDOf": id, "LengthOf": int32(len(buf) - 4), "HeaderLengthOf": int32(len(hb)), "BodyLengthOf": int32(len(body))}
						wantb := map[string][]byte{"HeaderBytesOf": hb, "BodyBytesOf": body, "FirstBlockOfBytes": buf}
						for n, f := range fs {
							if v, e := f(s); e != nil || v != want[n] {
								bad(n, v, e)
							}
						}
						for n, f := range bs {
							if v, e := f(s); e != nil || !bytes.Equal(v, wantb[n]) {
								bad(n, len(v), e)
							}
						}
					}
					for _, f := range []func([]byte) (map[string]interface{}, error){HeaderOf, p.HeaderOf} {
						if v, e := f(s); e != nil || len(v) != len(h) || len(h) > 0 && !reflect.DeepEqual(v, h) {
							bad("HeaderOf", v, e)
						}
					}
					pt := PackType(s)
					if v, e := pt.MessageID(); e != nil || v != id {
						bad("PackType.MessageID", v, e)
					}
					var got [][]byte
					m := vDec{&got}
					ctx := NewContext(&vConn{}, m)
					ctx.Stream = s
					us := map[string]func(d *string) (Message, error){
						"UnpackWithMarshaller": func(d *string) (Message, error) { return UnpackWithMarshaller(s, d, m) },
						"Packx.Unpack":         func(d *string) (Message, error) { return NewPackx(m).Unpack(s, d) },
						"Bind":                 func(d *string) (Message, error) { return ctx.Bind(d) },
						"BindWithMarshaller":   func(d *string) (Message, error) { return ctx.BindWithMarshaller(d, m) },
					}
					for n, f := range us {
						got = nil
						d := "unset"
						msg, e := f(&d)
						if e != nil || msg.MessageID != id || len(msg.Header) != len(h) || len(h) > 0 && !reflect.DeepEqual(msg.Header, h) {
							bad(n, msg, e)
						}
						if len(body) == 0 && len(got) != 0 || len(body) > 0 && (len(got) != 1 || !bytes.Equal(got[0], body)) {
							bad(n+" body handed to the marshaller", len(got), e)
						}
						if msg.Body != d {
							bad(n+" message body", msg.Body, e)
						}
					}
					if v, e := ctx.RawStream(); e != nil || !bytes.Equal(v, body) {
						bad("RawStream", len(v), e)
					}
					if !bytes.Equal(s, in) {
						vFail(t, "decoding altered the packed bytes of id %d", id)
					}
					gid, gh, gb, e := UnPackFromReader(bytes.NewReader(s))
					if e != nil || gid != id || len(gh) != len(h) || !bytes.Equal(gb, body) {
						bad("UnPackFromReader", gid, e)
					}
				}
			}
		}
	}
	type S struct{ A, B string }
	src := S{"x", "y"}
	for _, name := range []string{"json", "xml", "toml", "tml", "yaml", "yml"} {
		b, e := PackWithMarshallerName(Message{MessageID: 3, Body: src}, name)
		if e != nil {
			t.Skip(e)
		}
		for _, s := range [][]byte{b, append(append([]byte{}, b...), "trailing"...)} {
			var d S
			m, e := UnpackWithMarshallerName(s, &d, name)
			if e != nil || m.MessageID != 3 || d != src || m.Body != src {
				vFail(t, "UnpackWithMarshallerName %s: %v %v %v", name, m, d, e)
			}
			var d2 S
			pt := PackType(s)
			f := map[string]func(interface{}) error{"json": pt.BindJSON, "xml": pt.BindXML, "toml": pt.BindTOML, "tml": pt.BindTOML, "yaml": pt.BindYAML, "yml": pt.BindYAML}[name]
			if e := f(&d2); e != nil || d2 != src {
				vFail(t, "PackType.Bind %s: %v %v", name, d2, e)
			}
		}
	}
	for _, v := range []string{"q", "", "line\n", " x ", "\x00", strings.Repeat("long", 500)} {
		b, e := PackProtobuf.Pack(3, &wrapperspb.StringValue{Value: v})
		if e != nil {
			t.Skip(e)
		}
		for _, s := range [][]byte{b, append(append([]byte{}, b...), "trailing"...)} {
			pt := PackType(s)
			d := &wrapperspb.StringValue{Value: v}
			if v != "" {
				d.Value = "old"
			}
			if e := pt.BindProtobuf(d); e != nil || d.Value != v {
				vFail(t, "PackType.BindProtobuf of %q: %q %v", v, d.Value, e)
			}
			for _, n := range []string{"protobuf", "proto"} {
				d := &wrapperspb.StringValue{}
				if m, e := UnpackWithMarshallerName(s, d, n); e != nil || d.Value != v || m.MessageID != 3 {
					vFail(t, "UnpackWithMarshallerName %s of %q: %q %v", n, v, d.Value, e)
				}
			}
			js := vBlock(3, []byte("{}"), vJSON(v))
			pt = PackType(js)
			var out string
			if e := pt.BindJSON(&out); e != nil || out != v {
				vFail(t, "PackType.BindJSON of %q: %q %v", v, out, e)
			}
		}
	}
}
