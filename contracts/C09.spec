use "route.spec";
use "syncmap.spec";
assumption "handlers do not store their own values under the keys router_type and url_pattern of the request scope, and do not replace ctx.Stream";
func "URLPatternOf"(stream) -> (s, err) {
  ensures [readable or not] (err == nil) <==> haspattern(stream);
  ensures [the pattern of this message] err == nil ==> s == pattern(stream);
}
func "RouteTypeOf"(stream) -> (s, err) {
  ensures [the type of this message] (err == nil && hstr(stream, HEADER_ROUTER_KEY)) ==> s == rtype(stream);
}
func "(*PackType).URLPattern"(pt) -> (s, err) {
  requires pt != nil;
  ensures [readable or not] (err == nil) <==> haspattern(*pt);
  ensures [the pattern of this message] err == nil ==> s == pattern(*pt);
}
func "(Context).RouterType"(c) -> (s) {
  requires remembered(c);
  modifies smdom(c.PerRequestContext, boxed("string", "router_type")), smv(c.PerRequestContext, boxed("string", "router_type"));
  ensures [the type this message names] s == rtype(c.Stream);
  ensures [what is remembered is true] remembered(c);
}
func "(*Context).GetURLPattern"(c) -> (s, err) {
  requires c != nil && remembered(c);
  modifies smdom(c.PerRequestContext, boxed("string", "url_pattern")), smv(c.PerRequestContext, boxed("string", "url_pattern"));
  ensures [readable or not] (err == nil) <==> haspattern(c.Stream);
  ensures [the pattern of this message] err == nil ==> s == pattern(c.Stream);
  ensures [what is remembered is true] remembered(c);
}
func "copyContext"(c) -> (r) {
  loopinv true;
  ensures [a new request remembers nothing] r != nil && r.Stream == c.Stream && remembered(*r) && (forall k :: !smdom(r.PerRequestContext, k));
}
func "NewContext"(conn, m) -> (c) { ensures [a new request remembers nothing] c != nil && (forall k :: !smdom(c.PerRequestContext, k)); }
func "NewUDPContext"(conn, addr, m) -> (c) { ensures [a new request remembers nothing] c != nil && (forall k :: !smdom(c.PerRequestContext, k)); }
func "(*Context).Reset"(c) {
  requires c != nil;
  modifies c.PerRequestContext, c.offset, c.handlers;
  ensures [a new request remembers nothing] forall k :: !smdom(c.PerRequestContext, k);
}
