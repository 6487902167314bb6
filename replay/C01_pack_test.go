package tcpx

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"google.golang.org/protobuf/types/known/wrapperspb"
)

type vMarsh struct {
	out []byte
	err error
	got *[]interface{}
}

func (m vMarsh) Marshal(v interface{}) ([]byte, error) {
	if m.got != nil {
		*m.got = append(*m.got, v)
	}
	return m.out, m.err
}
func (m vMarsh) Unmarshal(b []byte, d interface{}) error { return m.err }
func (m vMarsh) MarshalName() string                     { return "v" }

func vIDs() []int32 {
	return []int32{0, 1, 2, -1, 255, 256, 65535, 65536, 1392, 1 << 24, 1<<31 - 1, -1 << 31}
}
func vBodies() [][]byte {
	var r [][]byte
	for _, n := range []int{0, 1, 2, 15, 255, 256, 990, 991, 992, 1000, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1020, 1024, 1025, 4096, 65535, 65536, 70000} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		r = append(r, b)
	}
	return r
}
func vHeaders() []map[string]interface{} {
	big := map[string]interface{}{}
	for i := 0; i < 200; i++ {
		big[fmt.Sprintf("key-%d", i)] = i
	}
	return []map[string]interface{}{nil, {}, {"a": "b"}, {"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/x/"}, {"n": 1.5, "z": nil, "l": []interface{}{1.0, "x"}, "m": map[string]interface{}{"q": true}}, big}
}
func vCheckPacked(t *testing.T, what string, id int32, header map[string]interface{}, body []byte, buf []byte, e error) {
	t.Helper()
	want := vBlock(id, vJSON(header), body)
	if e != nil {
		vFail(t, "%s: id %d header %v body of %d bytes: error %v", what, id, header, len(body), e)
	}
	if !bytes.Equal(buf, want) {
		vFail(t, "%s: id %d header %.80v body of %d bytes: wrong bytes (%d bytes %v..., want %d bytes %v...)", what, id, header, len(body), len(buf), buf[:vmin(len(buf), 40)], len(want), want[:vmin(len(want), 40)])
	}
}
func vmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func vcopy(m map[string]interface{}) map[string]interface{} {
	if m == nil {
		return nil
	}
	r := map[string]interface{}{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func TestReplayC01(t *testing.T) {
	bodies := vBodies()
	for _, id := range vIDs() {
		for _, h := range vHeaders() {
			keep := vcopy(h)
			for bi, body := range bodies {
				if bi > 3 && id != 1 && id != -1 {
					continue
				}
				kb := append([]byte{}, body...)
				var got []interface{}
				m := vMarsh{out: body, got: &got}
				b, e := PackWithMarshaller(Message{MessageID: id, Header: h, Body: "src"}, m)
				vCheckPacked(t, "PackWithMarshaller", id, h, body, b, e)
				if len(got) != 1 || got[0] != "src" {
					vFail(t, "PackWithMarshaller: marshaller called with %v", got)
				}
				b, e = Pack(id, h, "src", m)
				vCheckPacked(t, "Pack", id, h, body, b, e)
				b, e = Message{MessageID: id, Header: h, Body: "src"}.Pack(m)
				vCheckPacked(t, "Message.Pack", id, h, body, b, e)
				b, e = PackWithMarshallerAndBody(Message{MessageID: id, Header: h, Body: "ignored"}, body)
				vCheckPacked(t, "PackWithMarshallerAndBody", id, h, body, b, e)
				var h2 = h
				if h2 == nil {
					h2 = map[string]interface{}{}
				}
				b, e = NewPackx(m).Pack(id, "src", h)
				vCheckPacked(t, "Packx.Pack", id, h2, body, b, e)
				b, e = NewPackx(m).PackWithBody(id, body, h)
				vCheckPacked(t, "Packx.PackWithBody", id, h2, body, b, e)
				b, e = NewPackx(m).Pack(id, "src")
				vCheckPacked(t, "Packx.Pack without header", id, map[string]interface{}{}, body, b, e)
				b, e = NewPackx(m).PackWithBody(id, body)
				vCheckPacked(t, "Packx.PackWithBody without header", id, map[string]interface{}{}, body, b, e)
				if !bytes.Equal(kb, body) || !reflect.DeepEqual(h, keep) {
					vFail(t, "packing id %d header %v altered the caller's data", id, keep)
				}
				// results are independent of each other and of the given body
				b1, _ := PackWithMarshallerAndBody(Message{MessageID: id, Header: h}, body)
				b2, _ := PackWithMarshallerAndBody(Message{MessageID: id + 1, Header: h}, body)
				for i := range b2 {
					b2[i] ^= 0xff
				}
				vCheckPacked(t, "PackWithMarshallerAndBody then packing another", id, h, kb, b1, nil)
			}
		}
		b := PackStuff(id)
		vCheckPacked(t, "PackStuff", id, nil, nil, b, nil)
		for _, name := range []string{"json", "xml", "toml", "tml", "yaml", "yml", "protobuf", "proto"} {
			m, e := GetMarshallerByMarshalName(name)
			if e != nil {
				vFail(t, "GetMarshallerByMarshalName(%q): %v", name, e)
			}
			type S struct{ A string }
			var src interface{} = S{"x"}
			if name[0] == 'p' {
				src = &wrapperspb.StringValue{Value: "hello"}
			}
			body, e := m.Marshal(src)
			if e != nil {
				t.Fatal(e)
			}
			b, e := PackWithMarshallerName(Message{MessageID: id, Header: map[string]interface{}{"k": "v"}, Body: src}, name)
			vCheckPacked(t, "PackWithMarshallerName "+name, id, map[string]interface{}{"k": "v"}, body, b, e)
			b, e = PackWithMarshallerName(Message{MessageID: id, Header: map[string]interface{}{"k": "v"}}, name)
			vCheckPacked(t, "PackWithMarshallerName nil body "+name, id, map[string]interface{}{"k": "v"}, nil, b, e)
		}
		b, e := PackWithMarshaller(Message{MessageID: id, Body: "x"}, nil)
		vCheckPacked(t, "PackWithMarshaller nil marshaller", id, nil, []byte(`"x"`), b, e)
	}
	vCheckPacked(t, "PackHeartbeat", DEFAULT_HEARTBEAT_MESSAGEID, nil, nil, PackHeartbeat(), nil)
	// long headers and bodies
	for _, hl := range []int{1, 250, 300, 980, 1000, 1020, 4000, 65500, 65536, 70000, 1 << 20} {
		for _, bl := range []int{0, 3, 1100, 66000} {
			h := map[string]interface{}{"k": strings.Repeat("x", hl)}
			body := bytes.Repeat([]byte{9}, bl)
			b, e := PackWithMarshallerAndBody(Message{MessageID: 8, Header: h}, body)
			vCheckPacked(t, fmt.Sprintf("PackWithMarshallerAndBody, header value of %d bytes", hl), 8, h, body, b, e)
			b, e = NewPackx(vMarsh{out: body}).Pack(8, "x", h)
			vCheckPacked(t, fmt.Sprintf("Packx.Pack, header value of %d bytes", hl), 8, h, body, b, e)
			b, e = PackJSON.PackWithBody(8, body, h)
			vCheckPacked(t, fmt.Sprintf("Packx.PackWithBody, header value of %d bytes", hl), 8, h, body, b, e)
		}
	}
	big := make([]byte, 1<<24+5)
	b, e := PackWithMarshallerAndBody(Message{MessageID: 8}, big)
	vCheckPacked(t, "PackWithMarshallerAndBody 16 MB", 8, nil, big, b, e)
	b, e = NewPackx(vMarsh{out: big}).Pack(8, "x")
	vCheckPacked(t, "Packx.Pack 16 MB", 8, map[string]interface{}{}, big, b, e)
	// falsy values are values
	for _, src := range []interface{}{0, "", false, []int{}, map[string]string{}, struct{}{}, (*int)(nil)} {
		b, e := PackJSON.Pack(7, src)
		vCheckPacked(t, fmt.Sprintf("PackJSON.Pack(%#v)", src), 7, map[string]interface{}{}, vJSON(src), b, e)
	}
	// merged headers: later ones win, the caller's maps stay
	r := vRand()
	for n := 0; n < 400; n++ {
		var hs, keep []map[string]interface{}
		want := map[string]interface{}{}
		for k := r.Intn(5); k >= 0; k-- {
			h := map[string]interface{}{}
			for j := r.Intn(4); j > 0; j-- {
				h[string(rune('a'+r.Intn(4)))] = r.Intn(100)
			}
			if r.Intn(6) == 0 {
				h = nil
			}
			hs = append(hs, h)
			keep = append(keep, vcopy(h))
			for a, b := range h {
				want[a] = b
			}
		}
		b, e := PackJSON.Pack(5, "x", hs...)
		vCheckPacked(t, fmt.Sprintf("Packx.Pack headers %v", keep), 5, want, []byte(`"x"`), b, e)
		if !reflect.DeepEqual(hs, keep) {
			vFail(t, "Packx.Pack altered the caller's headers %v: now %v", keep, hs)
		}
		b, e = PackJSON.PackWithBody(5, []byte("y"), hs...)
		vCheckPacked(t, fmt.Sprintf("Packx.PackWithBody headers %v", keep), 5, want, []byte("y"), b, e)
		if !reflect.DeepEqual(hs, keep) {
			vFail(t, "Packx.PackWithBody altered the caller's headers %v: now %v", keep, hs)
		}
	}
	// encoder failures
	bad := map[string]interface{}{"c": make(chan int)}
	boom := errors.New("boom")
	for what, f := range map[string]func() ([]byte, error){
		"PackWithMarshaller header":        func() ([]byte, error) { return PackWithMarshaller(Message{Header: bad, Body: "x"}, JsonMarshaller{}) },
		"PackWithMarshaller body":          func() ([]byte, error) { return PackWithMarshaller(Message{Body: 1}, vMarsh{err: boom}) },
		"PackWithMarshaller body, output":  func() ([]byte, error) { return PackWithMarshaller(Message{Body: 1}, vMarsh{out: []byte("partial"), err: boom}) },
		"PackWithMarshallerAndBody header": func() ([]byte, error) { return PackWithMarshallerAndBody(Message{Header: bad}, nil) },
		"Packx.Pack header":                func() ([]byte, error) { return PackJSON.Pack(1, "x", bad) },
		"Packx.Pack header 2":              func() ([]byte, error) { return PackJSON.Pack(1, "x", map[string]interface{}{"a": 1}, bad) },
		"Packx.PackWithBody header":        func() ([]byte, error) { return PackJSON.PackWithBody(1, nil, bad) },
		"Packx.Pack body":                  func() ([]byte, error) { return NewPackx(vMarsh{err: boom}).Pack(1, "x") },
		"Pack":                             func() ([]byte, error) { return Pack(1, bad, nil, nil) },
		"Name":                             func() ([]byte, error) { return PackWithMarshallerName(Message{Body: make(chan int)}, "json") },
		"Name2":                            func() ([]byte, error) { return PackWithMarshallerName(Message{Body: "not a proto"}, "protobuf") },
	} {
		if b, e := f(); e == nil {
			vFail(t, "%s: encoder failure not reported, got %d bytes", what, len(b))
		}
	}
	// several packers do not share state
	pa, pb := NewPackx(vMarsh{out: []byte("A")}), NewPackx(vMarsh{out: []byte("B")})
	x, _ := pa.Pack(1, 1)
	y, _ := pb.Pack(1, 1)
	vCheckPacked(t, "packer A", 1, map[string]interface{}{}, []byte("A"), x, nil)
	vCheckPacked(t, "packer B", 1, map[string]interface{}{}, []byte("B"), y, nil)
	m := NewURLPatternMessage("/p", "x")
	bb, e := m.Pack(JsonMarshaller{})
	vCheckPacked(t, "NewURLPatternMessage", 0, map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/p"}, []byte(`"x"`), bb, e)
	m = NewMessage(9, "x")
	bb, e = m.Pack(JsonMarshaller{})
	vCheckPacked(t, "NewMessage", 9, map[string]interface{}{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": 9}, []byte(`"x"`), bb, e)
}
