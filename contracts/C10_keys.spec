use "common.spec";
use "syncmap.spec";
use "strings.spec";
def isudp(c) = c.Conn == nil && c.Addr != nil && c.PacketConn != nil;
def connkeys(c) = isudp(c) ? c.PerRequestContext : c.PerConnectionContext;
def ctxok(c) = c != nil && c.PerRequestContext != nil && (isudp(c) || c.PerConnectionContext != nil);
assumption "the user name is only stored through SetUsername (keys starting with tcpx- are refused by SetCtxPerConn; on udp a handler does not store under tcpx-username itself)";
def ukey() = boxed("string", "tcpx-username");
def unameok(c) = smdom(connkeys(c), ukey()) ==> (smv(connkeys(c), ukey()) is "string");
func "(*Context).SetCtxPerConn"(c, k, v) {
  requires ctxok(c);
  maypanic;
  modifies smdom(connkeys(c), k), smv(connkeys(c), k);
  ensures [stored in the connection's space] smdom(connkeys(c), k) && smv(connkeys(c), k) == v;
  ensures [the reserved key is refused] !((k is "string") && (k as "string") == "tcpx-username");
}
func "(*Context).GetCtxPerConn"(c, k) -> (v, ok) {
  requires ctxok(c);
  ensures [read from the connection's space] (ok <==> smdom(connkeys(c), k)) && (ok ==> v == smv(connkeys(c), k)) && (!ok ==> v == nil);
}
func "(*Context).SetCtxPerRequest"(c, k, v) {
  requires ctxok(c);
  modifies smdom(c.PerRequestContext, k), smv(c.PerRequestContext, k);
  ensures [stored in the request's space] smdom(c.PerRequestContext, k) && smv(c.PerRequestContext, k) == v;
}
func "(*Context).GetCtxPerRequest"(c, k) -> (v, ok) {
  requires ctxok(c);
  ensures [read from the request's space] (ok <==> smdom(c.PerRequestContext, k)) && (ok ==> v == smv(c.PerRequestContext, k)) && (!ok ==> v == nil);
}
func "(*Context).SetUsername"(c, name) {
  requires ctxok(c);
  modifies smdom(connkeys(c), ukey()), smv(connkeys(c), ukey());
  ensures [the name is known on the whole connection] smdom(connkeys(c), ukey()) && smv(connkeys(c), ukey()) == boxed("string", name);
}
func "(*Context).Username"(c) -> (name, ok) {
  requires ctxok(c) && unameok(c);
  ensures [the connection's name] (ok <==> smdom(connkeys(c), ukey())) && (ok ==> smv(connkeys(c), ukey()) == boxed("string", name)) && (!ok ==> name == "");
}
func "(*Context).GetUsername"(c) -> (name) {
  requires ctxok(c) && unameok(c);
  ensures [the connection's name] smdom(connkeys(c), ukey()) ? smv(connkeys(c), ukey()) == boxed("string", name) : name == "";
}
extern "(*sync.RWMutex).Lock"(m) { requires m != nil; }
extern "(*sync.RWMutex).Unlock"(m) { requires m != nil; }
extern "(*sync.RWMutex).RLock"(m) { requires m != nil; }
extern "(*sync.RWMutex).RUnlock"(m) { requires m != nil; }
func "(*Context).IsOffline"(c) -> (r) {
  requires c != nil && c.L != nil && c.userState != nil;
  ensures [the connection's state] r <==> *c.userState == 2;
}
func "(*Context).IsOnline"(c) -> (r) {
  requires c != nil ==> (c.L != nil && c.userState != nil);
  ensures [the connection's state] r <==> (c != nil && *c.userState == 1);
}
