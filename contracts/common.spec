// Shared vocabulary: byte strings, JSON and user marshallers, readers.

assumption "the buffer a marshaller returns is not modified by the marshaller afterwards";
assumption "values handed to an encoder are not changed concurrently while they are being encoded";
// --- JSON (assumption: deterministic function of the value; the empty string is not JSON)
ufunc jsonenc(c) : str;
ufunc jsonok(c) : bool;
ufunc jsondec(s) : int;
ufunc jsondecok(s) : bool;

axiom forall H :: mnil(H) ==> (jsonok(H) && jsonenc(H) == "null");
extern "encoding/json.Marshal"(v) -> (buf, err) {
  fresh buf;
  ensures (err == nil) <==> jsonok(content(v));
  ensures err == nil ==> bytes(buf) == jsonenc(content(v));
}
extern "encoding/json.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  ensures (v is "*map[string]any") ==> ((err == nil) <==> jsondecok(bytes(data)));
  ensures (err == nil && (v is "*map[string]any")) ==> content(*(v as "*map[string]any")) == jsondec(bytes(data));
}

// --- marshallers: what they produce is a function of the marshaller and the value
ufunc menc(m, v) : str;
ufunc mencok(m, v) : bool;
extern "(Marshaller).Marshal"(m, v) -> (buf, err) {
  fresh buf;
  ensures (err == nil) <==> mencok(m, v);
  ensures err == nil ==> bytes(buf) == menc(m, v);
}
// what was last handed to an unmarshaller: marshaller, bytes, destination; how often
ghost ucount() : nat;
ghost um() : any;
ghost ub() : str;
ghost ud() : any;
ghost uok() : bool;
extern "(Marshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest);
  sets ucount() = ucount() + 1;
  sets um() = m;
  sets ub() = bytes(data);
  sets ud() = dest;
  sets uok() = (err == nil);
}
ufunc mname(m) : str;
extern "(Marshaller).MarshalName"(m) -> (name) { ensures name == mname(m); }

// the five formats of the library (proved in C18.spec)
def isfmt(m, f) = (f == "json" && m == boxzero("JsonMarshaller")) || (f == "xml" && m == boxzero("XmlMarshaller"))
   || ((f == "toml" || f == "tml") && m == boxzero("TomlMarshaller")) || ((f == "yaml" || f == "yml") && m == boxzero("YamlMarshaller"))
   || ((f == "protobuf" || f == "proto") && m == boxzero("ProtobufMarshaller"));
def fmtname(f) = f == "json" || f == "xml" || f == "toml" || f == "tml" || f == "yaml" || f == "yml" || f == "protobuf" || f == "proto";
axiom forall v :: menc(boxzero("JsonMarshaller"), v) == jsonenc(v);
axiom forall v :: mencok(boxzero("JsonMarshaller"), v) <==> jsonok(v);
from C18 "(JsonMarshaller).Marshal"(m, v) -> (buf, err) {
  fresh buf;
  ensures (err == nil) <==> mencok(boxzero("JsonMarshaller"), v);
  ensures err == nil ==> bytes(buf) == menc(boxzero("JsonMarshaller"), v);
}
from C18 "(JsonMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest);
  sets ucount() = ucount() + 1;
  sets um() = boxzero("JsonMarshaller");
  sets ub() = bytes(data);
  sets ud() = dest;
  sets uok() = (err == nil);
}
from C18 "(XmlMarshaller).Marshal"(m, v) -> (buf, err) {
  fresh buf;
  ensures (err == nil) <==> mencok(boxzero("XmlMarshaller"), v);
  ensures err == nil ==> bytes(buf) == menc(boxzero("XmlMarshaller"), v);
}
from C18 "(XmlMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest);
  sets ucount() = ucount() + 1;
  sets um() = boxzero("XmlMarshaller");
  sets ub() = bytes(data);
  sets ud() = dest;
  sets uok() = (err == nil);
}
from C18 "(TomlMarshaller).Marshal"(m, v) -> (buf, err) {
  fresh buf;
  ensures (err == nil) <==> mencok(boxzero("TomlMarshaller"), v);
  ensures err == nil ==> bytes(buf) == menc(boxzero("TomlMarshaller"), v);
}
from C18 "(TomlMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest);
  sets ucount() = ucount() + 1;
  sets um() = boxzero("TomlMarshaller");
  sets ub() = bytes(data);
  sets ud() = dest;
  sets uok() = (err == nil);
}
from C18 "(YamlMarshaller).Marshal"(m, v) -> (buf, err) {
  fresh buf;
  ensures (err == nil) <==> mencok(boxzero("YamlMarshaller"), v);
  ensures err == nil ==> bytes(buf) == menc(boxzero("YamlMarshaller"), v);
}
from C18 "(YamlMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest);
  sets ucount() = ucount() + 1;
  sets um() = boxzero("YamlMarshaller");
  sets ub() = bytes(data);
  sets ud() = dest;
  sets uok() = (err == nil);
}
from C18 "(ProtobufMarshaller).Marshal"(m, v) -> (buf, err) {
  fresh buf;
  ensures (err == nil) <==> mencok(boxzero("ProtobufMarshaller"), v);
  ensures err == nil ==> bytes(buf) == menc(boxzero("ProtobufMarshaller"), v);
}
from C18 "(ProtobufMarshaller).Unmarshal"(m, data, dest) -> (err) {
  modifies pointee(dest);
  sets ucount() = ucount() + 1;
  sets um() = boxzero("ProtobufMarshaller");
  sets ub() = bytes(data);
  sets ud() = dest;
  sets uok() = (err == nil);
}
def eff(m) = m == nil ? boxzero("JsonMarshaller") : m;

def be32(s, i) = s[i]*16777216 + s[i+1]*65536 + s[i+2]*256 + s[i+3];
def str32(s, i) = bat(s,i)*16777216 + bat(s,i+1)*65536 + bat(s,i+2)*256 + bat(s,i+3);

globalinv packx != nil;
