package tcpx

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"testing"
)

func TestReplayC03(t *testing.T) {
	r := vRand()
	var inputs [][]byte
	for n := 0; n <= 40; n++ {
		inputs = append(inputs, make([]byte, n), bytes.Repeat([]byte{0xff}, n), bytes.Repeat([]byte{0x7f}, n), bytes.Repeat([]byte{1}, n))
	}
	hs := []string{"", "null", "{}", "[]", "1", "\"x\"", "{", `{"a":1}`, `{"Router-Type":1}`, `{"Router-Type":null,"Router-Pattern-Value":null}`, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":7}`, `{"Router-Type":{"a":1},"Router-Pattern-Value":[1]}`,
		`{"` + PIPED + `":null}`, `{"` + PIPED + `":1}`, `{"` + PIPED + `":[1]}`, `{"` + PIPED + `":""}`, `{"` + PIPED + `":";"}`, `{"` + PIPED + `":"enable"}`, `{"` + PIPED + `":"enable;"}`, `{"` + PIPED + `":"enable;x"}`, `{"` + PIPED + `":"enable;0"}`, `{"` + PIPED + `":"enable;-1"}`, `{"` + PIPED + `":"enable;-9223372036854775808"}`, `{"` + PIPED + `":"enable;99999999999999999999"}`, `{"` + PIPED + `":"enable;3;4"}`, `{"` + PIPED + `":"enable;2"}`, `{"` + PIPED + `":"x;2"}`, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/a"}`, "\xff\xfe"}
	lens := []uint32{0, 1, 2, 3, 4, 11, 12, 13, 15, 16, 17, 100, 0x7ffffff0, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, 0xfffffff4}
	for _, h := range hs {
		for _, body := range []string{"", "x", `{"A":"q"}`} {
			b := vBlock(int32(r.Uint32()), []byte(h), []byte(body))
			inputs = append(inputs, b)
			for n := 0; n < len(b); n += 1 + len(b)/24 {
				inputs = append(inputs, b[:n:n])
			}
			for f := 0; f < 4; f++ {
				for _, l := range lens {
					for _, d := range []uint32{0, uint32(len(b)), uint32(len(h))} {
						c := append([]byte{}, b...)
						binary.BigEndian.PutUint32(c[4*f:], l+d)
						inputs = append(inputs, c)
					}
				}
			}
		}
	}
	for n := 0; n < 3000; n++ {
		b := make([]byte, r.Intn(60))
		r.Read(b)
		if len(b) > 16 && r.Intn(2) == 0 {
			for f := 0; f < 4; f++ {
				binary.BigEndian.PutUint32(b[4*f:], uint32(r.Intn(70)))
			}
		}
		inputs = append(inputs, b)
	}
	for _, in := range inputs {
		in = in[:len(in):len(in)]
		s := append(make([]byte, 0, len(in)+64), in...)[:len(in)]
		try := func(what string, f func() ([]byte, error)) {
			t.Helper()
			var out []byte
			if p := vPanics(func() { out, _ = f() }); p != nil {
				vFail(t, "%s on %v panics: %v", what, in, p)
			}
			if len(out) > 0 && !vInside(out, s) {
				vFail(t, "%s on %v returns data outside the given bytes", what, in)
			}
		}
		i32 := func(f func([]byte) (int32, error)) func() ([]byte, error) {
			return func() ([]byte, error) { _, e := f(s); return nil, e }
		}
		by := func(f func([]byte) ([]byte, error)) func() ([]byte, error) {
			return func() ([]byte, error) { return f(s) }
		}
		p := *packx
		try("MessageIDOf", i32(MessageIDOf))
		try("LengthOf", i32(LengthOf))
		try("HeaderLengthOf", i32(HeaderLengthOf))
		try("BodyLengthOf", i32(BodyLengthOf))
		try("HeaderBytesOf", by(HeaderBytesOf))
		try("BodyBytesOf", by(BodyBytesOf))
		try("FirstBlockOfBytes", by(FirstBlockOfBytes))
		try("Packx.FirstBlockOfBytes", by(p.FirstBlockOfBytes))
		try("HeaderOf", func() ([]byte, error) { _, e := HeaderOf(s); return nil, e })
		try("Unpack", func() ([]byte, error) {
			var got [][]byte
			var d string
			_, e := NewPackx(vDec3{&got}).Unpack(s, &d)
			if len(got) > 0 {
				return got[0], e
			}
			return nil, e
		})
		for _, n := range []string{"json", "xml", "toml", "yaml", "protobuf", "other"} {
			try("UnpackWithMarshallerName "+n, func() ([]byte, error) {
				var d struct{ A string }
				_, e := UnpackWithMarshallerName(s, &d, n)
				return nil, e
			})
		}
		try("URLPatternOf", func() ([]byte, error) { _, e := URLPatternOf(s); return nil, e })
		try("RouteTypeOf", func() ([]byte, error) { _, e := RouteTypeOf(s); return nil, e })
		try("isPipe", func() ([]byte, error) {
			ok, n, e := isPipe(s)
			if ok && (e != nil || n < 0) {
				return nil, fmt.Errorf("pipe of %d", n)
			}
			return nil, e
		})
		pt := PackType(s)
		try("PackType.BindJSON", func() ([]byte, error) { var d struct{ A string }; return nil, pt.BindJSON(&d) })
		try("PackType.BindXML", func() ([]byte, error) { var d struct{ A string }; return nil, pt.BindXML(&d) })
		try("PackType.BindTOML", func() ([]byte, error) { var d struct{ A string }; return nil, pt.BindTOML(&d) })
		try("PackType.BindYAML", func() ([]byte, error) { var d struct{ A string }; return nil, pt.BindYAML(&d) })
		try("PackType.URLPattern", func() ([]byte, error) { _, e := pt.URLPattern(); return nil, e })
		try("PackType.MessageID", func() ([]byte, error) { _, e := pt.MessageID(); return nil, e })
		ctx := NewContext(&vConn{}, JsonMarshaller{})
		ctx.Stream = s
		try("Bind", func() ([]byte, error) { var d struct{ A string }; _, e := ctx.Bind(&d); return nil, e })
		try("RawStream", func() ([]byte, error) { return ctx.RawStream() })
		try("RouterType", func() ([]byte, error) { ctx.RouterType(); return nil, nil })
		try("GetURLPattern", func() ([]byte, error) { _, e := ctx.GetURLPattern(); return nil, e })
		try("JSONURLPattern", func() ([]byte, error) { return nil, ctx.JSONURLPattern("x") })
		srv := NewTcpX(nil)
		srv.AddHandler(1, func(c *Context) {})
		srv.Any("/a", func(c *Context) {})
		c2 := NewContext(&vConn{}, JsonMarshaller{})
		c2.Stream = s
		try("handleMiddleware", func() ([]byte, error) { handleMiddleware(c2, srv); return nil, nil })
		// readers: announced lengths are kept small or invalid, the content would have to be allocated
		if len(s) >= 4 {
			l := binary.BigEndian.Uint32(s)
			if l > 1<<20 && l < 1<<31 {
				continue
			}
		}
		try("FirstBlockOf", func() ([]byte, error) { b, e := FirstBlockOf(bytes.NewReader(s)); return vChk(t, "FirstBlockOf", in, b, e), e })
		try("FirstBlockOfLimitMaxByte", func() ([]byte, error) {
			b, e := FirstBlockOfLimitMaxByte(bytes.NewReader(s), 20)
			return vChk(t, "FirstBlockOfLimitMaxByte", in, b, e), e
		})
		try("UnPackFromReader", func() ([]byte, error) { _, _, _, e := UnPackFromReader(bytes.NewReader(s)); return nil, e })
	}
	if _, e := UnpackToBlockFromReader(nil); e == nil {
		vFail(t, "reading from a nil reader succeeds")
	}
}

func vChk(t *testing.T, what string, in, b []byte, e error) []byte {
	if e == nil && !strings.HasPrefix(string(in), string(b)) {
		vFail(t, "%s on %v returns other bytes", what, in)
	}
	return nil
}

func vInside(out, s []byte) bool {
	if len(s) == 0 {
		return false
	}
	for i := range s {
		if &s[i] == &out[0] {
			return i+len(out) <= len(s)
		}
	}
	return false
}

type vDec3 struct{ got *[][]byte }

func (m vDec3) Marshal(v interface{}) ([]byte, error)    { return nil, nil }
func (m vDec3) Unmarshal(b []byte, d interface{}) error { *m.got = append(*m.got, b); return nil }
func (m vDec3) MarshalName() string                     { return "v" }
