use "pool.spec";
accesses "ClientPool.Clients";
assumption "the pool keeps its map and its lock (ClientPool.Clients is an exported field, but only the library replaces it, see C13)";
// pick: an arbitrary name; pd, pv: whether it was in the pool, and its context, when the lock was taken
ghost pool() : "*ClientPool"; ghost target() : str; ghost me() : "*Context"; ghost changes() : nat;
ghost pick() : str; ghost pd() : bool; ghost pv() : "*Context"; ghost ownonly() : bool;
stable ghost pool, ghost target, ghost me, ghost pick, ghost ownonly, ghost pd, ghost pv, ghost changes, "o:ClientPool.m";
// a map taken out of the pool, under the lock, belongs to who took it
ghost taken(m) : bool; stable ghost taken;
on "write:ClientPool.m"(p) { assert [the lock of a pool is never replaced] p != pool(); }
on "ret:(*sync.RWMutex).Lock"(m), "ret:(*sync.RWMutex).RLock"(m) {
  if pool() != nil { set pd() = (pick() in pool().Clients); set pv() = pool().Clients[pick()]; }
}
on "call:(*sync.RWMutex).Unlock"(m), "call:(*sync.RWMutex).RUnlock"(m) {
  if pool() != nil {
    assert [other names are not affected] pick() != target() ==> (((pick() in pool().Clients) <==> pd()) && pool().Clients[pick()] == pv());
    assert [entries of other connections are not affected] (ownonly() && pd() && pv() != nil && me() != nil && pv().userState != me().userState) ==> ((pick() in pool().Clients) && pool().Clients[pick()] == pv());
  }
}
on "maplookup"(m, k) { assert [read under the lock] (pool() != nil && m == pool().Clients && !taken(m)) ==> held(pool().m) >= 1; }
on "maplen"(m) { assert [read under the lock] (pool() != nil && m == pool().Clients && !taken(m)) ==> held(pool().m) >= 1; }
on "mapset"(m, k, v) { assert [written under the lock] (pool() != nil && m == pool().Clients && !taken(m)) ==> held(pool().m) == 2; set changes() = changes() + 1; }
on "mapdelete"(m, k) { assert [written under the lock] (pool() != nil && m == pool().Clients && !taken(m)) ==> held(pool().m) == 2; set changes() = changes() + 1; }
on "write:ClientPool.Clients"(p) { assert [written under the lock] p == pool() ==> held(p.m) == 2; if p == pool() { set taken(p.Clients) = true; } }
on "end"(), "goend"() { assert [the lock is released] pool() != nil ==> held(pool().m) == 0; }
func "NewClientPool"() -> (p) { verifyonly; requires pool() == nil; fresh p; ensures [a new pool is empty] p != nil && p.m != nil && p.Clients != nil && (forall k "string" :: !(k in p.Clients)); }
func "(*ClientPool).SetClientPool"(p, name, c) {
  verifyonly;
  requires poolok(p) && pool() == p && target() == name && !ownonly();
  modifies *;
  ensures [the name leads to the context] (name in p.Clients) && p.Clients[name] == c;
}
func "(*ClientPool).Online"(p, name, c) {
  verifyonly;
  requires poolok(p) && pool() == p && target() == name && !ownonly();
  modifies *;
  ensures [the name leads to the context] (name in p.Clients) && p.Clients[name] == c;
}
func "(*ClientPool).GetClientPool"(p, name) -> (c) {
  verifyonly;
  requires poolok(p) && pool() == p && target() == name && !ownonly();
  modifies *;
  ensures [the context brought online under the name] c == p.Clients[name];
  ensures [a lookup changes nothing] changes() == old(changes()) && ((pick() in p.Clients) <==> pd()) && p.Clients[pick()] == pv();
}
func "(*ClientPool).isOnline"(p, name) -> (r) {
  verifyonly;
  optional;
  requires poolok(p) && pool() == p && target() == name && !ownonly();
  modifies *;
  ensures [whether the name is in the pool] r <==> (name in p.Clients);
  ensures [a lookup changes nothing] changes() == old(changes());
}
func "(*ClientPool).DeleteFromClientPool"(p, name) {
  verifyonly;
  requires poolok(p) && pool() == p && target() == name && !ownonly();
  modifies *;
  ensures [the name is gone] !(name in p.Clients);
}
func "(*ClientPool).Offline"(p, name) {
  verifyonly;
  requires poolok(p) && pool() == p && target() == name && !ownonly();
  modifies *;
  ensures [the name is gone] p.Clients[name] == nil;
}
func "(*Context).Online"(c, name) -> (err) {
  verifyonly;
  requires ctxok(c) && (c.poolRef != nil ==> poolok(c.poolRef)) && pool() == c.poolRef && target() == name && !ownonly();
  modifies *;
  ensures [refused exactly without a name or without a pool] (err != nil) <==> (name == "" || old(c.poolRef) == nil);
  ensures [the name leads to the context] err == nil ==> ((name in pool().Clients) && pool().Clients[name] == c);
  ensures [the connection knows its name] err == nil ==> (smdom(connkeys(c), ukey()) && smv(connkeys(c), ukey()) == boxed("string", name));
  ensures [a refusal leaves the pool alone] err != nil ==> changes() == old(changes());
}
func "(*Context).Offline"(c) -> (err) {
  verifyonly;
  requires ctxok(c) && unameok(c) && c.userState != nil && (c.poolRef != nil ==> poolok(c.poolRef)) && pool() == c.poolRef && me() == c && ownonly();
  requires smdom(connkeys(c), ukey()) ==> smv(connkeys(c), ukey()) == boxed("string", target());
  modifies *;
  ensures [refused exactly without a name or without a pool] (err != nil) <==> (old(c.poolRef) == nil || !smdom(connkeys(c), ukey()));
  ensures [its own entry is removed] (err == nil && (target() in pool().Clients) && pool().Clients[target()] != nil) ==> pool().Clients[target()].userState != c.userState;
  ensures [a refusal leaves the pool alone] err != nil ==> changes() == old(changes());
}
// closing all connections: the pool is emptied under its lock, and no lock is held while closing
from C12 "(*Context).CloseConn"(c) -> (err) { requires [no lock is held while closing] forall m :: held(m) == 0; modifies *; }
func "(*TcpX).closeAllConnection"(srv) {
  goroutines;
  requires srv != nil && (srv.pool != nil ==> poolok(srv.pool)) && pool() == srv.pool && target() == pick() && !ownonly() && (forall m :: held(m) == 0) && (forall m :: !taken(m));
  modifies *;
  loopinv forall m :: held(m) == 0;
}
