// packing and unpacking by name; without a marshaller JSON is used
use "common.spec";
use "wire.spec";
assumption "the destination handed to an unpacking function is a non-nil pointer (or any value an encoder accepts); reflect.Indirect(reflect.ValueOf(dest)).Interface() panics on a nil destination";
extern "reflect.ValueOf"(v) -> (r) { }
extern "reflect.Indirect"(v) -> (r) { }
extern "(reflect.Value).Interface"(v) -> (r) { }
def whole(s) = len(s) >= 16 && 16 + hlen(s) + bodylen(s) <= 4 + be32(s, 0) && 4 + be32(s, 0) <= len(s);
def hdrdec(s) = hlen(s) == 0 || jsondecok(bytes(s[16:16 + hlen(s)]));
def enc(m, v) = v == nil ? "" : menc(eff(m), v);
def encok(m, v) = v == nil || mencok(eff(m), v);

func "PackWithMarshaller"(message, m) -> (buf, err) {
  fresh buf;
  ensures [nil means JSON] (err == nil) <==> (jsonok(content(message.Header)) && encok(m, message.Body));
  ensures [body by the given marshaller] err == nil ==> (len(buf) == 16 + blen(jsonenc(content(message.Header))) + blen(enc(m, message.Body))
     && (forall i :: 0 <= i && i < blen(enc(m, message.Body)) ==> buf[16 + blen(jsonenc(content(message.Header))) + i] == bat(enc(m, message.Body), i)));
}
func "PackWithMarshallerName"(message, name) -> (buf, err) {
  fresh buf;
  ensures [unknown names are refused] !fmtname(name) ==> (err != nil && buf == nil);
  ensures [known names are accepted] forall m :: isfmt(m, name) ==> ((err == nil) <==> (jsonok(content(message.Header)) && encok(m, message.Body)));
  ensures [body by the named format] forall m :: (err == nil && isfmt(m, name)) ==> (len(buf) == 16 + blen(jsonenc(content(message.Header))) + blen(enc(m, message.Body))
     && (forall i :: 0 <= i && i < blen(enc(m, message.Body)) ==> buf[16 + blen(jsonenc(content(message.Header))) + i] == bat(enc(m, message.Body), i)));
}
func "UnpackWithMarshaller"(stream, dest, m) -> (msg, err) {
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [at most one decoding] ucount() == old(ucount()) || ucount() == old(ucount()) + 1;
  ensures [nil means JSON] ucount() > old(ucount()) ==> (um() == eff(m) && ud() == dest);
  ensures [a decodable message is decoded] (whole(stream) && hdrdec(stream) && bodylen(stream) > 0) ==> ucount() == old(ucount()) + 1;
  ensures [success means decoded] (err == nil && bodylen(stream) > 0) ==> ucount() == old(ucount()) + 1;
}
func "UnpackWithMarshallerName"(stream, dest, name) -> (msg, err) {
  ghost m : any;
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [unknown names are refused without touching the data] !fmtname(name) ==> (err != nil && ucount() == old(ucount()));
  ensures [decoded by the named format] (isfmt(m, name) && ucount() > old(ucount())) ==> (um() == m && ud() == dest);
  ensures [known names are accepted] (fmtname(name) && whole(stream) && hdrdec(stream) && bodylen(stream) > 0) ==> ucount() == old(ucount()) + 1;
}
func "(Packx).Unpack"(p, stream, dest) -> (msg, err) {
  modifies pointee(dest), ucount(), um(), ub(), ud(), uok();
  ensures [nil means JSON] ucount() > old(ucount()) ==> (um() == eff(p.Marshaller) && ud() == dest);
}
func "NewPackx"(m) -> (p) {
  fresh p;
  ensures [JSON unless told otherwise] p != nil && p.Marshaller == eff(m);
}
func "NewTcpX"(m) -> (s) {
  ensures [JSON unless told otherwise] s != nil && s.Packx != nil && s.Packx.Marshaller == eff(m);
}
