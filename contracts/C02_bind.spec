use "common.spec";
use "packed.spec";
// the typed binders hand exactly the packed body to the decoder of their format
ghost lcount() : nat;
ghost lfn() : str;
ghost lb() : str;
ghost ld() : any;
ghost lok() : bool;
extern "encoding/json.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1;
  sets lfn() = "json";
  sets lb() = bytes(data);
  sets ld() = v;
  sets lok() = (err == nil);
}
extern "encoding/xml.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1;
  sets lfn() = "xml";
  sets lb() = bytes(data);
  sets ld() = v;
  sets lok() = (err == nil);
}
extern "gopkg.in/yaml.v2.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1;
  sets lfn() = "yaml";
  sets lb() = bytes(data);
  sets ld() = v;
  sets lok() = (err == nil);
}
extern "github.com/BurntSushi/toml.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1;
  sets lfn() = "toml";
  sets lb() = bytes(data);
  sets ld() = v;
  sets lok() = (err == nil);
}
extern "google.golang.org/protobuf/proto.Unmarshal"(data, v) -> (err) {
  modifies pointee(v);
  sets lcount() = lcount() + 1;
  sets lfn() = "protobuf";
  sets lb() = bytes(data);
  sets ld() = v;
  sets lok() = (err == nil);
}
from C02 "BodyBytesOf"(stream) -> (b, err) {
  ensures (err == nil) <==> (len(stream) >= 16 && be32(stream, 8) < 2147483648 && be32(stream, 12) < 2147483648 && 16 + be32(stream, 8) + be32(stream, 12) <= len(stream));
  ensures err == nil ==> (len(b) == be32(stream, 12) && (forall i :: 0 <= i && i < len(b) ==> b[i] == stream[16 + be32(stream, 8) + i]));
}
func "(*PackType).BindJSON"(pt, dest) -> (err) {
  ghost id : int; ghost H : str; ghost B : str;
  requires pt != nil && packed(*pt, id, H, B);
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [body handed over once] lcount() == old(lcount()) + 1 && lfn() == "json" && lb() == B && ld() == dest;
  ensures [fails exactly when the decoder fails] (err == nil) <==> lok();
}
func "(*PackType).BindXML"(pt, dest) -> (err) {
  ghost id : int; ghost H : str; ghost B : str;
  requires pt != nil && packed(*pt, id, H, B);
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [body handed over once] lcount() == old(lcount()) + 1 && lfn() == "xml" && lb() == B && ld() == dest;
  ensures [fails exactly when the decoder fails] (err == nil) <==> lok();
}
func "(*PackType).BindYAML"(pt, dest) -> (err) {
  ghost id : int; ghost H : str; ghost B : str;
  requires pt != nil && packed(*pt, id, H, B);
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [body handed over once] lcount() == old(lcount()) + 1 && lfn() == "yaml" && lb() == B && ld() == dest;
  ensures [fails exactly when the decoder fails] (err == nil) <==> lok();
}
func "(*PackType).BindTOML"(pt, dest) -> (err) {
  ghost id : int; ghost H : str; ghost B : str;
  requires pt != nil && packed(*pt, id, H, B);
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [body handed over once] lcount() == old(lcount()) + 1 && lfn() == "toml" && lb() == B && ld() == dest;
  ensures [fails exactly when the decoder fails] (err == nil) <==> lok();
}
func "(*PackType).BindProtobuf"(pt, dest) -> (err) {
  ghost id : int; ghost H : str; ghost B : str;
  requires pt != nil && packed(*pt, id, H, B);
  modifies pointee(dest), lcount(), lfn(), lb(), ld(), lok();
  ensures [body handed over once] lcount() == old(lcount()) + 1 && lfn() == "protobuf" && lb() == B && ld() == dest;
  ensures [fails exactly when the decoder fails] (err == nil) <==> lok();
}
