use "common.spec";
assumption "JSON and marshaller output is a function of the value encoded";

def layout(s, id, H, B) = blen(s) == 16 + blen(H) + blen(B)
  && str32(s, 0) == u32(12 + blen(H) + blen(B)) && str32(s, 4) == u32(id)
  && str32(s, 8) == u32(blen(H)) && str32(s, 12) == u32(blen(B))
  && (forall i :: 0 <= i && i < blen(H) ==> bat(s, 16 + i) == bat(H, i))
  && (forall i :: 0 <= i && i < blen(B) ==> bat(s, 16 + blen(H) + i) == bat(B, i));
def enc(m, v) = v == nil ? "" : menc(eff(m), v);
def encok(m, v) = v == nil || mencok(eff(m), v);

func "PackWithMarshaller"(message, m) -> (buf, err) {
  fresh buf;
  ensures [fails exactly when an encoder fails] (err == nil) <==> (jsonok(content(message.Header)) && encok(m, message.Body));
  ensures [layout] err == nil ==> layout(bytes(buf), message.MessageID, jsonenc(content(message.Header)), enc(m, message.Body));
}
func "PackWithMarshallerAndBody"(message, body) -> (buf, err) {
  fresh buf;
  ensures [fails exactly when an encoder fails] (err == nil) <==> jsonok(content(message.Header));
  ensures [layout] err == nil ==> layout(bytes(buf), message.MessageID, jsonenc(content(message.Header)), bytes(body));
}

// several headers are merged, later ones winning: md(n,k), mv(n,k) is the merge of the first n
func "(Packx).Pack"(p, id, src, headers) -> (buf, err) {
  fresh buf;
  local md(n, k) : bool;
  local mv(n, k) : any;
  define forall k :: !md(0, k);
  define forall n, k :: (0 <= n && n < len(headers)) ==> (md(n + 1, k) <==> (md(n, k) || (k in headers[n])));
  define forall n, k :: (0 <= n && n < len(headers)) ==> (mv(n + 1, k) == ((k in headers[n]) ? headers[n][k] : mv(n, k)));
  loopinv forall k :: (k in $m) <==> md($i + 1, k);
  loopinv forall k :: (k in $m) ==> $m[k] == mv($i + 1, k);
  loopinv forall k :: (k in $m) <==> md($i, k);
  loopinv forall k :: (k in $m) ==> $m[k] == mv($i, k);
  loopinv forall k :: (k in $m) <==> (md($i + 1, k) || visited($it, k));
  loopinv forall k :: (k in $m) ==> $m[k] == (visited($it, k) ? itmap($it)[k] : mv($i + 1, k));
  loopinv forall k :: (k in $m) <==> (md($i, k) || visited($it, k));
  loopinv forall k :: (k in $m) ==> $m[k] == (visited($it, k) ? itmap($it)[k] : mv($i, k));
  ensures [layout] err == nil ==> (exists H :: !mnil(H) && (forall k :: (mdom(H, k) <==> md(len(headers), k)) && (mdom(H, k) ==> mval(H, k) == mv(len(headers), k)))
     && layout(bytes(buf), id, jsonenc(H), enc(p.Marshaller, src)));
  ensures [fails only when an encoder fails] err != nil ==> (exists H :: !mnil(H) && (forall k :: (mdom(H, k) <==> md(len(headers), k)) && (mdom(H, k) ==> mval(H, k) == mv(len(headers), k)))
     && (!jsonok(H) || !encok(p.Marshaller, src)));
}
func "(Packx).PackWithBody"(p, id, body, headers) -> (buf, err) {
  fresh buf;
  local md(n, k) : bool;
  local mv(n, k) : any;
  define forall k :: !md(0, k);
  define forall n, k :: (0 <= n && n < len(headers)) ==> (md(n + 1, k) <==> (md(n, k) || (k in headers[n])));
  define forall n, k :: (0 <= n && n < len(headers)) ==> (mv(n + 1, k) == ((k in headers[n]) ? headers[n][k] : mv(n, k)));
  loopinv forall k :: (k in $m) <==> md($i + 1, k);
  loopinv forall k :: (k in $m) ==> $m[k] == mv($i + 1, k);
  loopinv forall k :: (k in $m) <==> md($i, k);
  loopinv forall k :: (k in $m) ==> $m[k] == mv($i, k);
  loopinv forall k :: (k in $m) <==> (md($i + 1, k) || visited($it, k));
  loopinv forall k :: (k in $m) ==> $m[k] == (visited($it, k) ? itmap($it)[k] : mv($i + 1, k));
  loopinv forall k :: (k in $m) <==> (md($i, k) || visited($it, k));
  loopinv forall k :: (k in $m) ==> $m[k] == (visited($it, k) ? itmap($it)[k] : mv($i, k));
  ensures [layout] err == nil ==> (exists H :: !mnil(H) && (forall k :: (mdom(H, k) <==> md(len(headers), k)) && (mdom(H, k) ==> mval(H, k) == mv(len(headers), k)))
     && layout(bytes(buf), id, jsonenc(H), bytes(body)));
  ensures [fails only when an encoder fails] err != nil ==> (exists H :: !mnil(H) && (forall k :: (mdom(H, k) <==> md(len(headers), k)) && (mdom(H, k) ==> mval(H, k) == mv(len(headers), k)))
     && !jsonok(H));
}
func "Pack"(id, header, src, m) -> (buf, err) {
  fresh buf;
  ensures [fails exactly when an encoder fails] (err == nil) <==> (jsonok(content(header)) && encok(m, src));
  ensures [layout] err == nil ==> layout(bytes(buf), id, jsonenc(content(header)), enc(m, src));
}
func "(Message).Pack"(msg, m) -> (buf, err) {
  fresh buf;
  ensures [fails exactly when an encoder fails] (err == nil) <==> (jsonok(content(msg.Header)) && encok(m, msg.Body));
  ensures [layout] err == nil ==> layout(bytes(buf), msg.MessageID, jsonenc(content(msg.Header)), enc(m, msg.Body));
}
func "PackWithMarshallerName"(message, name) -> (buf, err) {
  fresh buf;
  ensures [unknown names are refused] !fmtname(name) ==> err != nil;
  ensures [fails exactly when an encoder fails] forall m :: isfmt(m, name) ==> ((err == nil) <==> (jsonok(content(message.Header)) && encok(m, message.Body)));
  ensures [layout] forall m :: (err == nil && isfmt(m, name)) ==> layout(bytes(buf), message.MessageID, jsonenc(content(message.Header)), enc(m, message.Body));
}
func "PackHeartbeat"() -> (buf) {
  fresh buf;
  ensures [layout] layout(bytes(buf), 1392, "null", "");
}
func "PackStuff"(id) -> (buf) {
  fresh buf;
  ensures [layout] layout(bytes(buf), id, "null", "");
}
func "NewPackx"(m) -> (p) {
  fresh p;
  ensures p != nil && p.Marshaller == eff(m);
}
func "NewMessage"(id, src) -> (msg) {
  ensures msg.MessageID == id && msg.Body == src && msg.Header != nil;
  ensures [header] forall k :: (k in msg.Header) <==> (k == HEADER_ROUTER_KEY || k == HEADER_ROUTER_VALUE);
  ensures [header values] HEADER_ROUTER_KEY != HEADER_ROUTER_VALUE ==> (msg.Header[HEADER_ROUTER_KEY] == boxed("string", "MESSAGE_ID") && msg.Header[HEADER_ROUTER_VALUE] == boxed("int32", id));
}
func "NewURLPatternMessage"(url, src) -> (msg) {
  ensures msg.MessageID == 0 && msg.Body == src && msg.Header != nil;
  ensures [header] forall k :: (k in msg.Header) <==> (k == HEADER_ROUTER_KEY || k == HEADER_ROUTER_VALUE);
  ensures [header values] HEADER_ROUTER_KEY != HEADER_ROUTER_VALUE ==> (msg.Header[HEADER_ROUTER_KEY] == boxed("string", "URL_PATTERN") && msg.Header[HEADER_ROUTER_VALUE] == boxed("string", url));
}
