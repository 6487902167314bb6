use "pool.spec";
assumption "the server's lock, pool and signal are only replaced by the library itself; one Stop or Start runs at a time";
stable "o:TcpX.pLock", "o:TcpX.withSignals", "o:ClientPool.m";
// nclose(l): how often the listener was closed
ghost nclose(l) : nat;
ghost i1() : int;                  // an arbitrary index, never assigned
ghost gos() : nat; ghost ingo() : bool; // goroutines started; whether one is being executed
ghost served() : nat;              // ListenAndServe calls of the goroutine at hand
// pick: an arbitrary user name; pv: its context when the pool was locked; did: whether that was closed
ghost pick() : str; ghost pd() : bool; ghost pv() : "*Context"; ghost did() : bool; ghost pool() : "*ClientPool"; ghost began() : bool; ghost starting() : bool;
stable ghost nclose, ghost i1, ghost gos, ghost ingo, ghost served, ghost pick, ghost pd, ghost pv, ghost did, ghost pool, ghost began, ghost starting;
on "go"(f) { set gos() = gos() + 1; }
on "gostart"(f) { set ingo() = true; set served() = 0; }
on "ret:(*sync.RWMutex).Lock"(m), "ret:(*sync.RWMutex).RLock"(m) {
  if pool() != nil && m == pool().m {
    assume forall k "string" :: (k in pool().Clients) ==> pool().Clients[k] != nil;
    set pd() = (pick() in pool().Clients); set pv() = pool().Clients[pick()]; set began() = true;
  }
}
on "call:(*Context).CloseConn"(c) { if began() && c == pv() { set did() = true; } }
from C12 "(*Context).CloseConn"(c) -> (err) { requires c != nil; requires [no lock is held while closing] forall m :: held(m) == 0; modifies *; }
extern "(net.Listener).Close"(l) -> (err) { sets nclose(l) = nclose(l) + 1; }
extern "(net.PacketConn).Close"(l) -> (err) { sets nclose(l) = nclose(l) + 1; }
def nolocks() = forall m :: held(m) == 0;
on "end"() { assert [every lock is released] nolocks(); }
// --- the state
func "(*TcpX).openState"(srv) { verifyonly; requires srv != nil && srv.pLock != nil && nolocks() && pool() == nil; modifies srv.state, held(_), allmaps("map[string]*Context"); ensures [running] srv.state == 1; }
func "(*TcpX).stopState"(srv) { optional; verifyonly; requires srv != nil && srv.pLock != nil && nolocks() && pool() == nil; modifies srv.state, held(_), allmaps("map[string]*Context"); ensures [stopped] srv.state == 2; }
func "(*TcpX).State"(srv) -> (s) { verifyonly; requires srv != nil && srv.pLock != nil && nolocks() && pool() == nil; modifies held(_), allmaps("map[string]*Context"); ensures [the state] s == srv.state; }
// --- the listeners
def same(p, n, a) = p.Network == n && p.Port == a;
def propwf(srv) = (forall i :: 0 <= i && i < len(srv.properties) ==> srv.properties[i] != nil)
  && (forall i, j :: 0 <= i && i < j && j < len(srv.properties) ==> srv.properties[i] != srv.properties[j])
  && (forall i, j :: 0 <= i && i < j && j < len(srv.properties) ==> !(srv.properties[i].Network == srv.properties[j].Network && srv.properties[i].Port == srv.properties[j].Port));
func "(*TcpX).fillProperty"(srv, network, addr, listener) {
  native;
  verifyonly;
  requires srv != nil && srv.pLock != nil && nolocks() && propwf(srv);
  modifies *;
  loopinv srv.properties == old(srv.properties);
  loopinv forall j :: 0 <= j && j < $i ==> !same(srv.properties[j], network, addr);
  loopinv forall j :: 0 <= j && j <= $i ==> !same(srv.properties[j], network, addr);
  ensures [the listener is recorded] exists i :: 0 <= i && i < len(srv.properties) && same(srv.properties[i], network, addr) && srv.properties[i].Listener == listener;
  ensures [each address once] propwf(srv);
  ensures [what was recorded stays] len(srv.properties) >= old(len(srv.properties)) && (forall i :: 0 <= i && i < old(len(srv.properties)) ==> (srv.properties[i] == old(srv.properties[i]) && srv.properties[i].Network == old(srv.properties[i].Network) && srv.properties[i].Port == old(srv.properties[i].Port)
     && (!same(srv.properties[i], network, addr) ==> srv.properties[i].Listener == old(srv.properties[i].Listener))));
}

assumption "every context in the pool is a context (nobody brings nil online)";
def lst(srv, i) = srv.properties[i].Listener;
def islst(l) = l != nil && ((l is "net.Listener") || (l is "net.PacketConn"));
func "(*TcpX).Stop"(srv, all) -> (err) {
  verifyonly; goroutines; merge;
  requires srv != nil && srv.pLock != nil && nolocks() && propwf(srv) && !starting() && gos() == 0 && !ingo() && !began() && !did();
  requires srv.pool != nil ==> poolok(srv.pool);
  requires pool() == srv.pool && (pool() != nil ==> pool().m != srv.pLock) && srv.closeAllSignal != nil;
  requires 0 <= i1() && i1() < len(srv.properties) ==> (forall i :: 0 <= i && i < len(srv.properties) && i != i1() ==> lst(srv, i) != lst(srv, i1()));
  modifies *;
  loopinv forall m :: held(m) == (m == srv.pLock ? 2 : 0);
  loopinv forall m :: held(m) == 0;
  loopinv 0 <= i1() && i1() < $i && islst(lst(srv, i1())) ==> nclose(lst(srv, i1())) == old(nclose(lst(srv, i1()))) + 1;
  loopinv 0 <= i1() && i1() <= $i && islst(lst(srv, i1())) ==> nclose(lst(srv, i1())) == old(nclose(lst(srv, i1()))) + 1;
  loopinv $i <= i1() && i1() < len(srv.properties) ==> nclose(lst(srv, i1())) == old(nclose(lst(srv, i1())));
  loopinv $i < i1() && i1() < len(srv.properties) ==> nclose(lst(srv, i1())) == old(nclose(lst(srv, i1())));
  loopinv visited($it, pick()) ==> did();
  ensures [refused exactly when stopped] (err != nil) <==> old(srv.state) == 2;
  ensures [a refusal changes nothing] err != nil ==> (srv.state == 2 && srv.properties == old(srv.properties) && srv.pool == old(srv.pool) && (closed(srv.closeAllSignal) <==> old(closed(srv.closeAllSignal))) && gos() == 0 && (0 <= i1() && i1() < len(srv.properties) ==> nclose(lst(srv, i1())) == old(nclose(lst(srv, i1())))));
  ensures [the server is stopped] srv.state == 2;
  ensures [every listener is closed once] (err == nil && 0 <= i1() && i1() < old(len(srv.properties)) && islst(old(lst(srv, i1())))) ==> nclose(old(lst(srv, i1()))) == old(nclose(lst(srv, i1()))) + 1;
  ensures [what to serve again is kept] srv.properties == old(srv.properties) && (forall i :: 0 <= i && i < len(srv.properties) ==> (srv.properties[i] == old(srv.properties[i]) && srv.properties[i].Network == old(srv.properties[i].Network) && srv.properties[i].Port == old(srv.properties[i].Port)));
  ensures [the close signal is broadcast] (err == nil && all && srv.withSignals) ==> closed(old(srv.closeAllSignal));
  ensures [the pooled connections are closed] (err == nil && all && !srv.withSignals && pool() != nil) ==> (gos() == 1 || (gos() == 0 && began() && (pd() ==> did())));
  ensures [the pool is emptied] (err == nil && all && !srv.withSignals && pool() != nil) ==> (srv.pool != nil && (forall k "string" :: !(k in srv.pool.Clients)));
  ensures [otherwise connections are kept] !all ==> (gos() == 0 && !began() && srv.pool == old(srv.pool) && (closed(srv.closeAllSignal) <==> old(closed(srv.closeAllSignal))));
}
on "goend"() {
  assert [the pooled connections are closed] !starting() ==> (began() && (pd() ==> did()));
  assert [every lock is released] nolocks();
  assert [the server on that address is started once] starting() ==> served() == 1;
}
assumption "the recorded networks and addresses do not change (proved for fillProperty)";
assumption "closing a connection does not touch a map that was taken out of the pool (C11: such maps are only reached through the pool, under its lock)";
stable "md:string,*Context", "mv:string,*Context", "ml:string,*Context", "o:TcpX.properties", "e:*PropertyCache", "o:PropertyCache.Network", "o:PropertyCache.Port";
from C24 "(*TcpX).ListenAndServe"(srv, network, addr) -> (err) { requires srv != nil; modifies *; maypanic; }
on "call:(*TcpX).ListenAndServe"(s, network, addr) {
  assert [serves the recorded address] ingo() && s == me() && gos() >= 1 && network == s.properties[gos() - 1].Network && addr == s.properties[gos() - 1].Port;
  set served() = served() + 1;
}
ghost me() : "*TcpX"; stable ghost me;
func "(*TcpX).Start"(srv) -> (err) {
  verifyonly; goroutines;
  requires srv != nil && srv.pLock != nil && nolocks() && propwf(srv) && starting() && me() == srv && gos() == 0 && !ingo() && pool() == nil;
  modifies *;
  loopinv gos() == $i;
  loopinv gos() == $i + 1;
  loopinv forall m :: held(m) == 0;
  ensures [refused exactly when running] (err != nil) <==> old(srv.state) == 1;
  ensures [a refusal changes nothing] err != nil ==> (gos() == 0 && srv.closeAllSignal == old(srv.closeAllSignal));
  ensures [every recorded address is served again] err == nil ==> (gos() == old(len(srv.properties)) && srv.properties == old(srv.properties));
  ensures [with a signal that was not given yet] (err == nil && srv.withSignals) ==> (srv.closeAllSignal != nil && !closed(srv.closeAllSignal));
}
