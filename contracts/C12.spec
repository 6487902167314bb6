use "pool.spec";
assumption "the exported connection fields of a context (Conn, PacketConn, Addr, L) are not replaced";
assumption "closing a transport does not panic";
ghost tclosed(c) : bool;
extern "(net.Conn).Close"(c) -> (err) { sets tclosed(c) = true; }
extern "(net.PacketConn).Close"(c) -> (err) { sets tclosed(c) = true; }
ghost pool() : "*ClientPool"; ghost target() : str; ghost me() : "*Context";
ghost gone() : bool; // whether the name did not lead to this connection when the pool was left
ghost pick() : str; ghost pd() : bool; ghost pv() : "*Context";
on "ret:(*sync.RWMutex).Lock"(m), "ret:(*sync.RWMutex).RLock"(m) {
  if pool() != nil { set pd() = (pick() in pool().Clients); set pv() = pool().Clients[pick()]; }
}
on "call:(*sync.RWMutex).Unlock"(m), "call:(*sync.RWMutex).RUnlock"(m) {
  if pool() != nil {
    assert [entries of other connections are not affected] (pd() && pv() != nil && pv().userState != me().userState) ==> ((pick() in pool().Clients) && pool().Clients[pick()] == pv());
    if m == pool().m { set gone() = (pool().Clients[target()] == nil || pool().Clients[target()].userState != me().userState); }
  }
}
on "write:int"(p) { assert [the connection state is written under its lock] (me() != nil && p == me().userState) ==> held(me().L) == 2; }
on "read:int"(p) { assert [the connection state is read under its lock] (me() != nil && p == me().userState) ==> held(me().L) >= 1; }
on "end"() { assert [every lock is released] forall m :: held(m) == 0; }
def wired(c) = ctxok(c) && c.L != nil && c.userState != nil && (c.Conn != nil || isudp(c));
def nolocks() = forall m :: held(m) == 0;
func "(*Context).CloseConn"(c) -> (err) {
  verifyonly;
  requires wired(c) && unameok(c) && (c.poolRef != nil ==> poolok(c.poolRef)) && pool() == c.poolRef && me() == c && nolocks() && !gone() && (pool() != nil ==> c.L != pool().m);
  requires smdom(connkeys(c), ukey()) ==> smv(connkeys(c), ukey()) == boxed("string", target());
  modifies *;
  ensures [the transport is closed] tclosed(c.Conn != nil ? c.Conn : c.PacketConn);
  ensures [the connection is offline] *c.userState == 2;
  ensures [the watchers are told to end] c.recvEnd != nil ==> closed(c.recvEnd);
  ensures [its user is no longer in the pool] (pool() != nil && smdom(connkeys(c), ukey())) ==> gone();
  ensures [the state stays shared] c.userState == old(c.userState) && c.recvEnd == old(c.recvEnd) && c.L == old(c.L);
}
func "CloseChanel"(f) {
  optional; verifyonly;
  requires me() == nil && pool() == nil && f != nil && nolocks();
  modifies *;
}
func "(*Context).IsOffline"(c) -> (r) {
  verifyonly; requires wired(c) && me() == c && pool() == nil && nolocks(); modifies *;
  ensures [the connection's state] r <==> *c.userState == 2;
}
func "(*Context).IsOnline"(c) -> (r) {
  verifyonly; requires (c != nil ==> wired(c)) && me() == c && pool() == nil && nolocks(); modifies *;
  ensures [the connection's state] r <==> (c != nil && *c.userState == 1);
}
func "(*Context).Online"(c, name) -> (err) {
  verifyonly; requires wired(c) && (c.poolRef != nil ==> poolok(c.poolRef)) && me() == c && pool() == nil && nolocks(); modifies *;
  ensures [a closed connection is not revived] *c.userState == old(*c.userState) && c.userState == old(c.userState);
}
func "(*Context).Offline"(c) -> (err) {
  verifyonly; requires wired(c) && unameok(c) && (c.poolRef != nil ==> poolok(c.poolRef)) && me() == c && pool() == nil && nolocks(); modifies *;
  ensures [a closed connection is not revived] *c.userState == old(*c.userState) && c.userState == old(c.userState);
}
// a connection starts online, with what closing it needs
func "NewContext"(conn, m) -> (c) {
  verifyonly; requires me() == nil && pool() == nil && nolocks();
  ensures [a new connection is online] c != nil && c.Conn == conn && c.L != nil && c.userState != nil && *c.userState == 1 && c.recvEnd != nil && !closed(c.recvEnd) && c.recvAuth != nil && c.PerConnectionContext != nil && c.PerRequestContext != nil;
}
func "NewUDPContext"(conn, addr, m) -> (c) {
  verifyonly; requires me() == nil && pool() == nil && nolocks();
  ensures [a new connection is online] c != nil && c.PacketConn == conn && c.Addr == addr && c.L != nil && c.userState != nil && *c.userState == 1 && c.recvEnd != nil && !closed(c.recvEnd) && c.recvAuth != nil && c.PerRequestContext != nil;
}
func "copyContext"(c) -> (r) {
  verifyonly; requires me() == nil && pool() == nil && nolocks();
  loopinv true;
  ensures [every context of a connection shares its transport, state, signal and pool] r != nil && r.Conn == c.Conn && r.PacketConn == c.PacketConn && r.Addr == c.Addr && r.L == c.L && r.userState == c.userState && r.recvEnd == c.recvEnd && r.poolRef == c.poolRef && r.PerConnectionContext == c.PerConnectionContext;
}
