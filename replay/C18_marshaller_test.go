package tcpx

import (
	"bytes"
	"testing"

	"google.golang.org/protobuf/types/known/wrapperspb"
)

func TestReplayC18(t *testing.T) {
	type S struct{ A string }
	fmtOf := map[string]string{"json": "json", "xml": "xml", "toml": "toml", "tml": "toml", "yaml": "yaml", "yml": "yaml", "protobuf": "protobuf", "proto": "protobuf"}
	byFmt := map[string]Marshaller{"json": JsonMarshaller{}, "xml": XmlMarshaller{}, "toml": TomlMarshaller{}, "yaml": YamlMarshaller{}, "protobuf": ProtobufMarshaller{}}
	names := []string{"", "JSON", "Json", " json", "json ", "j", "jso", "jsonx", "x", "XML", "tom", "tomls", "yam", "ym", "yamls", "pb", "prot", "protobuf3", "protobuff", "msgpack", "html", "bson", "csv", "gob", "default", "nil", "proto3", "Protobuf", "jsonp", "yaml2"}
	for n := range fmtOf {
		names = append(names, n)
	}
	// bytes that start the text of a format
	text := map[string]string{"json": `{"A":"q"}`, "xml": `<S><A>q</A></S>`, "toml": "A = \"q\"\n", "yaml": "a: q\n"}
	for f, m := range byFmt {
		if m.MarshalName() != f {
			vFail(t, "marshaller of %s reports the name %q", f, m.MarshalName())
		}
	}
	for f, s := range text {
		b, e := byFmt[f].Marshal(S{"q"})
		if e != nil || string(b) != s {
			vFail(t, "%s marshaller: %q %v", f, b, e)
		}
		var d S
		if e := byFmt[f].Unmarshal([]byte(s), &d); e != nil || d.A != "q" {
			vFail(t, "%s marshaller: unmarshalled %v %v", f, d, e)
		}
	}
	for _, n := range names {
		f, ok := fmtOf[n]
		m, e := GetMarshallerByMarshalName(n)
		if (e == nil) != ok || ok && m != byFmt[f] || !ok && m != nil {
			vFail(t, "GetMarshallerByMarshalName(%q): %#v %v", n, m, e)
		}
		if ok && m.MarshalName() != f {
			vFail(t, "GetMarshallerByMarshalName(%q) reports %q", n, m.MarshalName())
		}
		var src interface{} = S{"q"}
		if f == "protobuf" {
			src = &wrapperspb.StringValue{Value: "q"}
		}
		b, e := PackWithMarshallerName(Message{MessageID: 4, Body: src}, n)
		if (e == nil) != ok || !ok && b != nil {
			vFail(t, "PackWithMarshallerName(%q): %d bytes, %v", n, len(b), e)
		}
		if ok {
			body, _ := byFmt[f].Marshal(src)
			if !bytes.Equal(b, vBlock(4, []byte("null"), body)) {
				vFail(t, "PackWithMarshallerName(%q): %q", n, b)
			}
		}
		for _, of := range []string{"json", "xml", "toml", "yaml", "protobuf"} {
			var body []byte
			if of == "protobuf" {
				body, _ = ProtobufMarshaller{}.Marshal(&wrapperspb.StringValue{Value: "q"})
			} else {
				body = []byte(text[of])
			}
			s := vBlock(4, []byte("null"), body)
			if of == "protobuf" && f == "protobuf" {
				d := &wrapperspb.StringValue{}
				if _, e := UnpackWithMarshallerName(s, d, n); e != nil || d.Value != "q" {
					vFail(t, "UnpackWithMarshallerName(%q): %v %v", n, d, e)
				}
				continue
			}
			d := S{"untouched"}
			_, e := UnpackWithMarshallerName(s, &d, n)
			if ok && of == f && (e != nil || d.A != "q") {
				vFail(t, "UnpackWithMarshallerName(%q) of %s: %v %v", n, of, d, e)
			}
			if !ok && (e == nil || d.A != "untouched") {
				vFail(t, "UnpackWithMarshallerName(%q): %v %v", n, d, e)
			}
			if ok && of != f && f != "yaml" && of != "yaml" && e == nil && d.A == "q" {
				vFail(t, "UnpackWithMarshallerName(%q) decodes %s", n, of)
			}
		}
	}
	// json is the default everywhere
	js := []byte(`{"A":"q"}`)
	def := map[string]func() ([]byte, error){
		"PackWithMarshaller(nil)": func() ([]byte, error) { return PackWithMarshaller(Message{Body: S{"q"}}, nil) },
		"Pack(nil)":               func() ([]byte, error) { return Pack(0, nil, S{"q"}, nil) },
		"Message.Pack(nil)":       func() ([]byte, error) { return Message{Body: S{"q"}}.Pack(nil) },
		"NewPackx(nil)":           func() ([]byte, error) { return NewPackx(nil).Pack(0, S{"q"}) },
		"NewTcpX(nil)":            func() ([]byte, error) { return NewTcpX(nil).Packx.Pack(0, S{"q"}) },
		"NewContext(nil)":         func() ([]byte, error) { return NewContext(&vConn{}, nil).Packx.Pack(0, S{"q"}) },
		"NewUDPContext(nil)":      func() ([]byte, error) { return NewUDPContext(&vPacketConn{}, vAddr("x"), nil).Packx.Pack(0, S{"q"}) },
	}
	for n, f := range def {
		b, e := f()
		if e != nil || !bytes.HasSuffix(b, js) {
			vFail(t, "%s: %q %v", n, b, e)
		}
	}
	var d S
	if _, e := UnpackWithMarshaller(vBlock(1, []byte("{}"), js), &d, nil); e != nil || d.A != "q" {
		vFail(t, "UnpackWithMarshaller(nil): %v %v", d, e)
	}
	for p, f := range map[*Packx]string{PackJSON: "json", PackXML: "xml", PackTOML: "toml", PackYAML: "yaml", PackProtobuf: "protobuf", packx: "json"} {
		if p.Marshaller != byFmt[f] {
			vFail(t, "the packer of %s has marshaller %#v", f, p.Marshaller)
		}
	}
}
