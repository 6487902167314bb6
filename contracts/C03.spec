// Every decoding entry point returns normally for every byte sequence: proving a
// function here includes proving that no panic can leave it.
use "wire.spec";
use "reader.spec";
use "syncmap.spec";
assumption "the destination handed to an unpacking function is a non-nil pointer (or any value an encoder accepts); reflect.Indirect(reflect.ValueOf(dest)).Interface() panics on a nil destination";
assumption "decoders (JSON, marshallers, io.Reader implementations) return errors instead of panicking";
extern "reflect.ValueOf"(v) -> (r) { }
extern "reflect.Indirect"(v) -> (r) { }
extern "(reflect.Value).Interface"(v) -> (r) { }
def inside(b, s) = len(b) == 0 || (arr(b) == arr(s) && off(s) <= off(b) && off(b) + len(b) <= off(s) + len(s));

def whole(s) = len(s) >= 16 && 16 + hlen(s) + bodylen(s) <= 4 + be32(s, 0) && 4 + be32(s, 0) <= len(s);
func "UnpackWithMarshaller"(stream, dest, m) -> (msg, err) {
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [a refused message leaves the destination alone] !whole(stream) ==> (err != nil && ucount() == old(ucount()));
}
func "UnpackWithMarshallerName"(stream, dest, name) -> (msg, err) {
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [a refused message leaves the destination alone] !whole(stream) ==> (err != nil && ucount() == old(ucount()));
}
func "(Packx).Unpack"(p, stream, dest) -> (msg, err) {
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [a refused message leaves the destination alone] !whole(stream) ==> (err != nil && ucount() == old(ucount()));
}
func "(*Context).Bind"(c, dest) -> (msg, err) {
  requires c != nil && c.Packx != nil;
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
}
func "(*Context).BindWithMarshaller"(c, dest, m) -> (msg, err) {
  requires c != nil;
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
}
func "(*Context).RawStream"(c) -> (b, err) {
  requires c != nil && c.Packx != nil;
  ensures (err == nil) <==> bodyok(c.Stream);
  ensures [inside the message] err == nil ==> (len(b) == bodylen(c.Stream) && (forall i :: 0 <= i && i < len(b) ==> b[i] == c.Stream[16 + hlen(c.Stream) + i]));
}
func "(Packx).LengthOf"(p, stream) -> (n, err) { verifyonly; ensures (err == nil) <==> len(stream) >= 4; }
func "(Packx).MessageIDOf"(p, stream) -> (n, err) { verifyonly; ensures (err == nil) <==> len(stream) >= 8; }
func "(Packx).HeaderLengthOf"(p, stream) -> (n, err) { verifyonly; ensures (err == nil) <==> len(stream) >= 12; }
func "(Packx).BodyLengthOf"(p, stream) -> (n, err) { verifyonly; ensures (err == nil) <==> len(stream) >= 16; }
func "(Packx).HeaderBytesOf"(p, stream) -> (n, err) { verifyonly; ensures (err == nil) <==> hdrok(stream); }
func "(Packx).BodyBytesOf"(p, stream) -> (n, err) { verifyonly; ensures (err == nil) <==> bodyok(stream); }
func "(Packx).HeaderOf"(p, stream) -> (n, err) { verifyonly; fresh n; ensures err == nil ==> hdrok(stream); }
func "(Packx).FirstBlockOfBytes"(p, stream) -> (n, err) { verifyonly; ensures err == nil ==> len(stream) >= 16; }
func "headerGetString"(header, key) -> (s, ok, err) {
  optional;
  ensures err == nil ==> ((ok && (header[key] is "string") && s == (header[key] as "string")) || (!ok && s == ""));
}
func "URLPatternOf"(stream) -> (s, err) {
  ensures [no header, no pattern] !hdrok(stream) ==> (err != nil && s == "");
}
func "RouteTypeOf"(stream) -> (s, err) {
  ensures [no header, no type] !hdrok(stream) ==> (err != nil && s == "");
}
func "(*PackType).URLPattern"(pt) -> (s, err) { requires pt != nil; }
func "(*PackType).MessageID"(pt) -> (s, err) { requires pt != nil; ensures (err == nil) <==> len(*pt) >= 8; }
func "(*PackType).BindJSON"(pt, dest) -> (err) { requires pt != nil; modifies pointee(dest), ucount(), um(), ub(), ud(), uok(); }
func "(*PackType).BindTOML"(pt, dest) -> (err) { requires pt != nil; modifies pointee(dest), ucount(), um(), ub(), ud(), uok(); }
func "(*PackType).BindYAML"(pt, dest) -> (err) { requires pt != nil; modifies pointee(dest), ucount(), um(), ub(), ud(), uok(); }
func "(*PackType).BindXML"(pt, dest) -> (err) { requires pt != nil; modifies pointee(dest), ucount(), um(), ub(), ud(), uok(); }
func "(*PackType).BindProtobuf"(pt, dest) -> (err) { requires pt != nil; modifies pointee(dest), ucount(), um(), ub(), ud(), uok(); }
extern "encoding/xml.Unmarshal"(data, v) -> (err) { modifies pointee(v); }
extern "gopkg.in/yaml.v2.Unmarshal"(data, v) -> (err) { modifies pointee(v); }
extern "github.com/BurntSushi/toml.Unmarshal"(data, v) -> (err) { modifies pointee(v); }
extern "google.golang.org/protobuf/proto.Unmarshal"(data, v) -> (err) { modifies pointee(v); }

// block extraction from a reader: any behaviour of the peer
func "UnpackToBlockFromReader"(r) -> (buf, err) { fresh buf; modifies pos(r); ensures err != nil ==> buf == nil; }
func "FirstBlockOf"(r) -> (buf, err) { fresh buf; modifies pos(r); ensures err != nil ==> buf == nil; }
func "(Packx).FirstBlockOf"(p, r) -> (buf, err) { fresh buf; modifies pos(r); ensures err != nil ==> buf == nil; }
func "Recv"(r) -> (buf, err) { fresh buf; modifies pos(r); ensures err != nil ==> buf == nil; }
func "UnpackToBlockFromReaderLimitMaxLengthOfByte"(r, max) -> (buf, err) { fresh buf; modifies pos(r); ensures err != nil ==> buf == nil; }
func "FirstBlockOfLimitMaxByte"(r, max) -> (buf, err) { fresh buf; modifies pos(r); ensures err != nil ==> buf == nil; }
func "(Packx).FirstBlockOfLimitMaxByte"(p, r, max) -> (buf, err) { fresh buf; modifies pos(r); ensures err != nil ==> buf == nil; }
func "UnPackFromReader"(r) -> (id, header, body, err) { fresh header, body; modifies pos(r); }

// routing decisions taken from received bytes
func "isPipe"(block) -> (yes, rest, err) {
  ensures [a pipe announces a sensible number] (yes && err == nil) ==> rest >= 0;
  ensures [no header, no pipe] !hdrok(block) ==> (err != nil && !yes);
}
func "(*Context).routerType"(c) -> (s, cached) {
  optional;
  requires c != nil && c.PerRequestContext != nil;
}
func "(Context).RouterType"(c) -> (s) {
  requires c.PerRequestContext != nil;
  modifies smdom(c.PerRequestContext, boxed("string", "router_type")), smv(c.PerRequestContext, boxed("string", "router_type"));
}
func "(*Context).GetURLPattern"(c) -> (s, err) {
  requires c != nil && c.PerRequestContext != nil;
  modifies smdom(c.PerRequestContext, boxed("string", "url_pattern")), smv(c.PerRequestContext, boxed("string", "url_pattern"));
}
