use "wire.spec";
use "packed.spec";
assumption "the destination handed to an unpacking function is a non-nil pointer (or any value an encoder accepts); reflect.Indirect(reflect.ValueOf(dest)).Interface() panics on a nil destination";
extern "reflect.ValueOf"(v) -> (r) { }
extern "reflect.Indirect"(v) -> (r) { }
extern "(reflect.Value).Interface"(v) -> (r) { }

func "UnpackWithMarshaller"(stream, dest, m) -> (msg, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [id] err == nil ==> msg.MessageID == id;
  ensures [header] (err == nil && blen(H) > 0) ==> (jsondecok(H) && content(msg.Header) == jsondec(H));
  ensures [body handed over once] (err == nil && blen(B) > 0) ==> (ucount() == old(ucount()) + 1 && um() == eff(m) && ub() == B && ud() == dest);
  ensures [nothing handed over for an empty body] blen(B) == 0 ==> ucount() == old(ucount());
  ensures [fails only when a decoder fails] err != nil ==> ((blen(H) > 0 && !jsondecok(H)) || (ucount() == old(ucount()) + 1 && !uok()));
  ensures [fails when a decoder fails] err == nil ==> (ucount() == old(ucount()) || uok());
}
func "(Packx).Unpack"(p, stream, dest) -> (msg, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [id] err == nil ==> msg.MessageID == id;
  ensures [header] (err == nil && blen(H) > 0) ==> (jsondecok(H) && content(msg.Header) == jsondec(H));
  ensures [body handed over once] (err == nil && blen(B) > 0) ==> (ucount() == old(ucount()) + 1 && um() == eff(p.Marshaller) && ub() == B && ud() == dest);
  ensures [nothing handed over for an empty body] blen(B) == 0 ==> ucount() == old(ucount());
  ensures [fails only when a decoder fails] err != nil ==> ((blen(H) > 0 && !jsondecok(H)) || (ucount() == old(ucount()) + 1 && !uok()));
  ensures [fails when a decoder fails] err == nil ==> (ucount() == old(ucount()) || uok());
}
func "UnpackWithMarshallerName"(stream, dest, name) -> (msg, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str; ghost m : any;
  requires isfmt(m, name);
  requires packed(stream, id, H, B);
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [id] err == nil ==> msg.MessageID == id;
  ensures [header] (err == nil && blen(H) > 0) ==> (jsondecok(H) && content(msg.Header) == jsondec(H));
  ensures [body handed over once] (err == nil && blen(B) > 0) ==> (ucount() == old(ucount()) + 1 && um() == m && ub() == B && ud() == dest);
  ensures [nothing handed over for an empty body] blen(B) == 0 ==> ucount() == old(ucount());
  ensures [fails only when a decoder fails] err != nil ==> ((blen(H) > 0 && !jsondecok(H)) || (ucount() == old(ucount()) + 1 && !uok()));
  ensures [fails when a decoder fails] err == nil ==> (ucount() == old(ucount()) || uok());
}
func "(*Context).Bind"(c, dest) -> (msg, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires c != nil && c.Packx != nil;
  requires packed(c.Stream, id, H, B);
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [id] err == nil ==> msg.MessageID == id;
  ensures [header] (err == nil && blen(H) > 0) ==> (jsondecok(H) && content(msg.Header) == jsondec(H));
  ensures [body handed over once] (err == nil && blen(B) > 0) ==> (ucount() == old(ucount()) + 1 && um() == eff(old(c.Packx.Marshaller)) && ub() == B && ud() == dest);
  ensures [nothing handed over for an empty body] blen(B) == 0 ==> ucount() == old(ucount());
  ensures [fails only when a decoder fails] err != nil ==> ((blen(H) > 0 && !jsondecok(H)) || (ucount() == old(ucount()) + 1 && !uok()));
  ensures [fails when a decoder fails] err == nil ==> (ucount() == old(ucount()) || uok());
}
func "(*Context).BindWithMarshaller"(c, dest, m) -> (msg, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires c != nil;
  requires packed(c.Stream, id, H, B);
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [id] err == nil ==> msg.MessageID == id;
  ensures [header] (err == nil && blen(H) > 0) ==> (jsondecok(H) && content(msg.Header) == jsondec(H));
  ensures [body handed over once] (err == nil && blen(B) > 0) ==> (ucount() == old(ucount()) + 1 && um() == eff(m) && ub() == B && ud() == dest);
  ensures [nothing handed over for an empty body] blen(B) == 0 ==> ucount() == old(ucount());
  ensures [fails only when a decoder fails] err != nil ==> ((blen(H) > 0 && !jsondecok(H)) || (ucount() == old(ucount()) + 1 && !uok()));
  ensures [fails when a decoder fails] err == nil ==> (ucount() == old(ucount()) || uok());
}
// unknown names are refused without touching the data
// accessors by value and by packer return what was packed
func "(Packx).MessageIDOf"(p, stream) -> (n, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  ensures err == nil && n == id;
}
func "(Packx).LengthOf"(p, stream) -> (n, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  ensures err == nil && n == 12 + blen(H) + blen(B);
}
func "(Packx).HeaderLengthOf"(p, stream) -> (n, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  ensures err == nil && n == blen(H);
}
func "(Packx).BodyLengthOf"(p, stream) -> (n, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  ensures err == nil && n == blen(B);
}
func "(Packx).HeaderBytesOf"(p, stream) -> (n, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  ensures err == nil && bytes(n) == H;
}
func "(Packx).BodyBytesOf"(p, stream) -> (n, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  ensures err == nil && bytes(n) == B;
}
func "(Packx).FirstBlockOfBytes"(p, stream) -> (n, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  ensures err == nil && len(n) == 16 + blen(H) + blen(B) && packed(n, id, H, B);
}
func "(Packx).HeaderOf"(p, stream) -> (h, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires packed(stream, id, H, B);
  ensures (err == nil) <==> jsondecok(H);
  ensures err == nil ==> content(h) == jsondec(H);
}
func "(*PackType).MessageID"(pt) -> (n, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires pt != nil && packed(*pt, id, H, B);
  ensures err == nil && n == id;
}
func "(*Context).RawStream"(c) -> (n, err) {
  verifyonly;
  ghost id : int; ghost H : str; ghost B : str;
  requires c != nil && c.Packx != nil && packed(c.Stream, id, H, B);
  ensures err == nil && bytes(n) == B;
}
