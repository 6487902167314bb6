// --- replies: what was packed last, and what is written where
use "common.spec";
use "syncmap.spec";
use "lock.spec";
assumption "a Write that reports no error has written everything (contract of io.Writer and net.PacketConn)";
stable "o:Context.Conn", "o:Context.L", "o:Context.PacketConn", "o:Context.Addr", "o:Context.Packx", "o:Packx.Marshaller", "o:Context.userState", "o:Context.poolRef";
axiom mname(boxzero("JsonMarshaller")) == "json" && mname(boxzero("XmlMarshaller")) == "xml" && mname(boxzero("TomlMarshaller")) == "toml" && mname(boxzero("YamlMarshaller")) == "yaml" && mname(boxzero("ProtobufMarshaller")) == "protobuf";
// the message packed last: marshaller, id, value, headers (a list, or one map)
ghost packs() : nat; ghost perr() : bool; ghost pbuf() : str; ghost pm() : any; ghost pid() : int; ghost psrc() : any; ghost plist() : bool; ghost pha() : int; ghost pho() : int; ghost phl() : int; ghost pmap() : "map[string]any";
// what is asked for: id, value, headers, format (a name, "" any) or marshaller; the url of an url reply
ghost wid() : int; ghost wsrc() : any; ghost wha() : int; ghost who() : int; ghost whl() : int; ghost wfmt() : str; ghost wm() : any; ghost isurl() : bool; ghost url() : str; ghost urlok() : bool;
// the addressed connection; what was written
ghost target() : "*Context"; ghost tconn() : any; ghost writes() : nat; ghost werr() : bool; ghost dials() : bool; ghost nclosed() : nat;
def isudp(c) = c.Conn == nil && c.Addr != nil && c.PacketConn != nil;
def ready(c) = c != nil && (c.Conn != nil || isudp(c)) && c.Packx != nil && c.Packx.Marshaller != nil;
def fresh0() = packs() == 0 && !perr() && writes() == 0 && !werr() && !urlok();
def want(id, src, headers) = wid() == id && wsrc() == src && wha() == arr(headers) && who() == off(headers) && whl() == len(headers) && !isurl();
extern "(net.Conn).Write"(c, p) -> (n, err) { ensures 0 <= n && n <= len(p) && (err == nil ==> n == len(p)); }
extern "(net.PacketConn).WriteTo"(c, p, a) -> (n, err) { ensures 0 <= n && n <= len(p) && (err == nil ==> n == len(p)); }
extern "(net.Conn).Close"(c) -> (err) { ensures true; }
from C01 "(Packx).Pack"(p, id, src, headers) -> (buf, err) { fresh buf; }
from C01 "PackWithMarshaller"(message, m) -> (buf, err) { fresh buf; }
from C01 "PackWithMarshallerName"(message, name) -> (buf, err) { fresh buf; }
from C01 "(Message).Pack"(msg, m) -> (buf, err) { fresh buf; }
from C01 "Pack"(id, header, src, m) -> (buf, err) { fresh buf; }
from C01 "NewPackx"(m) -> (p) { fresh p; ensures p != nil && p.Marshaller == eff(m); }
from C01 "NewURLPatternMessage"(url, src) -> (msg) {
  ensures msg.MessageID == 0 && msg.Body == src && msg.Header != nil;
  ensures forall k :: (k in msg.Header) <==> (k == HEADER_ROUTER_KEY || k == HEADER_ROUTER_VALUE);
  ensures HEADER_ROUTER_KEY != HEADER_ROUTER_VALUE ==> (msg.Header[HEADER_ROUTER_KEY] == boxed("string", "URL_PATTERN") && msg.Header[HEADER_ROUTER_VALUE] == boxed("string", url));
}
from C18 "GetMarshallerByMarshalName"(name) -> (m, err) {
  ensures (err == nil) <==> fmtname(name);
  ensures err == nil ==> isfmt(m, name);
}
from C18 "(JsonMarshaller).MarshalName"(m) -> (s) { ensures s == "json"; }
from C18 "(ProtobufMarshaller).MarshalName"(m) -> (s) { ensures s == "protobuf"; }
from C09 "(*Context).GetURLPattern"(c) -> (s, err) { requires c != nil; modifies smdom(c.PerRequestContext, boxed("string", "url_pattern")), smv(c.PerRequestContext, boxed("string", "url_pattern")); }
on "ret:(*Context).GetURLPattern"(c, s, err) {
  if err == nil && c == target() { set urlok() = true; set url() = s; }
  if err != nil { set perr() = true; }
}
on "ret:(Packx).Pack"(p, id, src, headers, buf, err) {
  set packs() = packs() + 1; set perr() = perr() || err != nil; set pbuf() = bytes(buf); set pm() = eff(p.Marshaller); set pid() = id; set psrc() = src;
  set plist() = true; set pha() = arr(headers); set pho() = off(headers); set phl() = len(headers);
}
on "ret:PackWithMarshaller"(msg, m, buf, err), "ret:(Message).Pack"(msg, m, buf, err) {
  set packs() = packs() + 1; set perr() = perr() || err != nil; set pbuf() = bytes(buf); set pm() = eff(m); set pid() = msg.MessageID; set psrc() = msg.Body;
  set plist() = false; set pmap() = msg.Header;
}
on "ret:Pack"(id, header, src, m, buf, err) {
  set packs() = packs() + 1; set perr() = perr() || err != nil; set pbuf() = bytes(buf); set pm() = eff(m); set pid() = id; set psrc() = src;
  set plist() = false; set pmap() = header;
}
def empty(m) = forall k "string" :: !(k in m);
def headersok() = isurl() ? (!plist() && urlok() && (forall k "string" :: (k in pmap()) <==> (k == HEADER_ROUTER_KEY || k == HEADER_ROUTER_VALUE))
      && (HEADER_ROUTER_KEY != HEADER_ROUTER_VALUE ==> (pmap()[HEADER_ROUTER_KEY] == boxed("string", "URL_PATTERN") && pmap()[HEADER_ROUTER_VALUE] == boxed("string", url()))))
  : (plist() ? (phl() == whl() && (whl() == 0 || (pha() == wha() && pho() == who()))) : (whl() == 0 && empty(pmap())));
def formatok() = wfmt() == "" ? pm() == eff(wm()) : (isfmt(pm(), wfmt()) || (target() != nil && pm() == target().Packx.Marshaller && mname(pm()) == wfmt()));
on "call:(net.Conn).Write"(c, p) {
  assert [on the addressed connection] target() == nil ? c == tconn() : (!isudp(target()) && c == target().Conn);
  assert [in a single write] writes() == 0;
  assert [exactly the packed message] packs() == 1 && !perr() && bytes(p) == pbuf();
  assert [the given id and value] pid() == wid() && psrc() == wsrc();
  assert [the given headers] headersok();
  assert [in the requested format] formatok();
  set writes() = writes() + 1;
}
on "ret:(net.Conn).Write"(c, p, n, err) { if err != nil { set werr() = true; } }
on "call:(net.PacketConn).WriteTo"(c, p, a) {
  assert [to the peer the request came from] target() != nil && isudp(target()) && c == target().PacketConn && a == target().Addr;
  assert [in a single write] writes() == 0;
  assert [exactly the packed message] packs() == 1 && !perr() && bytes(p) == pbuf();
  assert [the given id and value] pid() == wid() && psrc() == wsrc();
  assert [the given headers] headersok();
  assert [in the requested format] formatok();
  set writes() = writes() + 1;
}
on "ret:(net.PacketConn).WriteTo"(c, p, a, n, err) { if err != nil { set werr() = true; } }
def reported(err) = (err == nil) <==> (writes() == 1 && !werr());
