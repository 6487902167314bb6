// Names select formats; each format is encoded and decoded by its own library.
use "common.spec";
ufunc xmlenc(v) : str;   ufunc xmlok(v) : bool;
ufunc yamlenc(v) : str;  ufunc yamlok(v) : bool;
ufunc tomlenc(v) : str;  ufunc tomlok(v) : bool;
ufunc protoenc(v) : str; ufunc protook(v) : bool;
// definition of the encodings of the five formats
axiom forall v :: menc(boxzero("XmlMarshaller"), v) == xmlenc(v);
axiom forall v :: mencok(boxzero("XmlMarshaller"), v) <==> xmlok(v);
axiom forall v :: menc(boxzero("YamlMarshaller"), v) == yamlenc(v);
axiom forall v :: mencok(boxzero("YamlMarshaller"), v) <==> yamlok(v);
axiom forall v :: menc(boxzero("TomlMarshaller"), v) == tomlenc(v);
axiom forall v :: mencok(boxzero("TomlMarshaller"), v) <==> tomlok(v);
axiom forall v :: menc(boxzero("ProtobufMarshaller"), v) == protoenc(v);
axiom forall v :: mencok(boxzero("ProtobufMarshaller"), v) <==> ((v is "github.com/golang/protobuf/proto.Message") && protook(v));

// which library was used last on the way out and in
ghost encn() : nat; ghost encl() : str;
ghost lcount() : nat; ghost lfn() : str; ghost lb() : str; ghost ld() : any; ghost lok() : bool;
extern "encoding/json.Marshal"(v) -> (buf, err) {
  fresh buf;
  sets encn() = encn() + 1; sets encl() = "json";
  ensures (err == nil) <==> jsonok(v);
  ensures err == nil ==> bytes(buf) == jsonenc(v);
}
extern "encoding/xml.Marshal"(v) -> (buf, err) {
  fresh buf;
  sets encn() = encn() + 1; sets encl() = "xml";
  ensures (err == nil) <==> xmlok(v);
  ensures err == nil ==> bytes(buf) == xmlenc(v);
}
extern "gopkg.in/yaml.v2.Marshal"(v) -> (buf, err) {
  fresh buf;
  sets encn() = encn() + 1; sets encl() = "yaml";
  ensures (err == nil) <==> yamlok(v);
  ensures err == nil ==> bytes(buf) == yamlenc(v);
}
extern "google.golang.org/protobuf/proto.Marshal"(v) -> (buf, err) {
  fresh buf;
  sets encn() = encn() + 1; sets encl() = "protobuf";
  ensures (err == nil) <==> protook(v);
  ensures err == nil ==> bytes(buf) == protoenc(v);
}
extern "github.com/golang/protobuf/proto.Marshal"(v) -> (buf, err) {
  fresh buf;
  sets encn() = encn() + 1; sets encl() = "protobuf";
  ensures (err == nil) <==> protook(v);
  ensures err == nil ==> bytes(buf) == protoenc(v);
}
ghost encw(e) : any;
// the unread contents of a bytes.Buffer are a function of its state
ufunc bufstr(o) : str;
extern "github.com/BurntSushi/toml.NewEncoder"(w) -> (e) {
  fresh e;
  sets encw(e) = w;
}
extern "(*github.com/BurntSushi/toml.Encoder).Encode"(e, v) -> (err) {
  modifies pointee(encw(e));
  sets encn() = encn() + 1; sets encl() = "toml";
  ensures (err == nil) <==> tomlok(v);
  ensures (err == nil && (encw(e) is "*bytes.Buffer") && old(*(encw(e) as "*bytes.Buffer")) == zero("bytes.Buffer")) ==>
     bufstr(*(encw(e) as "*bytes.Buffer")) == tomlenc(v);
}
extern "(*bytes.Buffer).Bytes"(b) -> (s) {
  ensures bytes(s) == bufstr(*b);
}
extern "encoding/json.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1; sets lfn() = "json"; sets lb() = bytes(data); sets ld() = v; sets lok() = (err == nil);
}
extern "encoding/xml.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1; sets lfn() = "xml"; sets lb() = bytes(data); sets ld() = v; sets lok() = (err == nil);
}
extern "gopkg.in/yaml.v2.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1; sets lfn() = "yaml"; sets lb() = bytes(data); sets ld() = v; sets lok() = (err == nil);
}
extern "github.com/BurntSushi/toml.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1; sets lfn() = "toml"; sets lb() = bytes(data); sets ld() = v; sets lok() = (err == nil);
}
extern "google.golang.org/protobuf/proto.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1; sets lfn() = "protobuf"; sets lb() = bytes(data); sets ld() = v; sets lok() = (err == nil);
}
extern "github.com/golang/protobuf/proto.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1; sets lfn() = "protobuf"; sets lb() = bytes(data); sets ld() = v; sets lok() = (err == nil);
}

func "(JsonMarshaller).MarshalName"(m) -> (s) { ensures [name] s == "json"; }
func "(JsonMarshaller).Marshal"(m, v) -> (buf, err) {
  modifies encn(), encl();
  ensures [succeeds exactly when the library does] (err == nil) <==> mencok(boxzero("JsonMarshaller"), v);
  ensures [encoded by the library of the format] err == nil ==> (bytes(buf) == menc(boxzero("JsonMarshaller"), v) && encn() == old(encn()) + 1 && encl() == "json");
}
func "(JsonMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [decoded once by the library of the format] err == nil ==> (lcount() == old(lcount()) + 1 && lfn() == "json" && lb() == bytes(data) && ld() == dest && lok());
  ensures [fails only when the library does] err != nil ==> ((lcount() == old(lcount()) + 1 && lfn() == "json" && !lok()));
}

func "(XmlMarshaller).MarshalName"(m) -> (s) { ensures [name] s == "xml"; }
func "(XmlMarshaller).Marshal"(m, v) -> (buf, err) {
  modifies encn(), encl();
  ensures [succeeds exactly when the library does] (err == nil) <==> mencok(boxzero("XmlMarshaller"), v);
  ensures [encoded by the library of the format] err == nil ==> (bytes(buf) == menc(boxzero("XmlMarshaller"), v) && encn() == old(encn()) + 1 && encl() == "xml");
}
func "(XmlMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [decoded once by the library of the format] err == nil ==> (lcount() == old(lcount()) + 1 && lfn() == "xml" && lb() == bytes(data) && ld() == dest && lok());
  ensures [fails only when the library does] err != nil ==> ((lcount() == old(lcount()) + 1 && lfn() == "xml" && !lok()));
}

func "(TomlMarshaller).MarshalName"(m) -> (s) { ensures [name] s == "toml"; }
func "(TomlMarshaller).Marshal"(m, v) -> (buf, err) {
  modifies encn(), encl();
  ensures [succeeds exactly when the library does] (err == nil) <==> mencok(boxzero("TomlMarshaller"), v);
  ensures [encoded by the library of the format] err == nil ==> (bytes(buf) == menc(boxzero("TomlMarshaller"), v) && encn() == old(encn()) + 1 && encl() == "toml");
}
func "(TomlMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [decoded once by the library of the format] err == nil ==> (lcount() == old(lcount()) + 1 && lfn() == "toml" && lb() == bytes(data) && ld() == dest && lok());
  ensures [fails only when the library does] err != nil ==> ((lcount() == old(lcount()) + 1 && lfn() == "toml" && !lok()));
}

func "(YamlMarshaller).MarshalName"(m) -> (s) { ensures [name] s == "yaml"; }
func "(YamlMarshaller).Marshal"(m, v) -> (buf, err) {
  modifies encn(), encl();
  ensures [succeeds exactly when the library does] (err == nil) <==> mencok(boxzero("YamlMarshaller"), v);
  ensures [encoded by the library of the format] err == nil ==> (bytes(buf) == menc(boxzero("YamlMarshaller"), v) && encn() == old(encn()) + 1 && encl() == "yaml");
}
func "(YamlMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [decoded once by the library of the format] err == nil ==> (lcount() == old(lcount()) + 1 && lfn() == "yaml" && lb() == bytes(data) && ld() == dest && lok());
  ensures [fails only when the library does] err != nil ==> ((lcount() == old(lcount()) + 1 && lfn() == "yaml" && !lok()));
}

func "(ProtobufMarshaller).MarshalName"(m) -> (s) { ensures [name] s == "protobuf"; }
func "(ProtobufMarshaller).Marshal"(m, v) -> (buf, err) {
  modifies encn(), encl();
  ensures [succeeds exactly when the library does] (err == nil) <==> mencok(boxzero("ProtobufMarshaller"), v);
  ensures [encoded by the library of the format] err == nil ==> (bytes(buf) == menc(boxzero("ProtobufMarshaller"), v) && encn() == old(encn()) + 1 && encl() == "protobuf");
}
func "(ProtobufMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [decoded once by the library of the format] err == nil ==> (lcount() == old(lcount()) + 1 && lfn() == "protobuf" && lb() == bytes(data) && ld() == dest && lok());
  ensures [fails only when the library does] err != nil ==> ((lcount() == old(lcount()) + 1 && lfn() == "protobuf" && !lok()) || (lcount() == old(lcount()) && !(dest is "github.com/golang/protobuf/proto.Message")));
}

func "GetMarshallerByMarshalName"(name) -> (m, err) {
  ensures [exactly the documented names] (err == nil) <==> fmtname(name);
  ensures [the marshaller of the format] err == nil ==> isfmt(m, name);
  ensures [nothing for an unknown name] err != nil ==> m == nil;
}
func "NewPackx"(m) -> (p) {
  fresh p;
  ensures [JSON unless told otherwise] p != nil && p.Marshaller == eff(m);
}
