// the heartbeat handler signals the channel that the watch listens on
use "watch.spec";
use "conn.spec";
stable "o:TcpX.ThroughMiddleware", "o:TcpX.HeartBeatMessageID";
ghost c0() : "*Context"; ghost sends() : nat; ghost regs() : nat; ghost running() : bool;
stable ghost c0, ghost sends, ghost regs, ghost running;
on "send"(c, v) {
  assert [the heartbeat channel of this connection] smdom(connkeys(c0()), hkey()) && c == hbc(c0());
  assert [one signal] sends() == 0;
  set sends() = sends() + 1;
}
on "close"(c) { assert [no channel is closed] false; }
from C19 "(*TcpX).AddHandler"(srv, id, hs) { requires srv != nil; modifies *; maypanic; }
on "call:(*TcpX).AddHandler"(s, id, hs) {
  assert [the heartbeat handler is registered, for the heartbeat id] regs() == 0 && s == csrv() && id == s.HeartBeatMessageID && len(hs) >= 1;
  set regs() = regs() + 1;
  run hs[len(hs)-1], c0();
}
on "runstart"(c) { assume c != nil && hbok(c) && (c.Conn != nil || isudp(c)); set running() = true; }
on "runend"() { assert [a heartbeat is signalled, once] sends() == 1; }
func "(*Context).HeartBeatChan"(c) -> (ch) {
  verifyonly;
  requires c != nil && hbok(c);
  modifies *;
  ensures [the channel of this connection] smdom(connkeys(c), hkey()) && hbok(c) && ch == hbc(c) && ch != nil;
  ensures [the same channel as before] old(smdom(connkeys(c), hkey())) ==> ch == old(hbc(c));
}
func "(*Context).RecvHeartBeat"(c) {
  verifyonly;
  requires c != nil && hbok(c) && c == c0() && sends() == 0;
  modifies *;
  ensures [a heartbeat is signalled, once] sends() == 1;
}
func "(*TcpX).HeartBeatMode"(srv, on, d) -> (r) {
  requires srv != nil && srv == csrv() && sends() == 0 && regs() == 0 && !running();
  modifies *;
  maypanic;
  ensures [as configured] r == srv && srv.HeartBeatOn == on && srv.HeatBeatInterval == d && srv.HeartBeatMessageID == 1392 && !srv.ThroughMiddleware;
  ensures [the handler is registered exactly when enabled] regs() == (on ? 1 : 0);
}
func "(*TcpX).HeartBeatModeDetail"(srv, on, d, through, id) -> (r) {
  requires srv != nil && srv == csrv() && sends() == 0 && regs() == 0 && !running();
  modifies *;
  maypanic;
  ensures [as configured] r == srv && srv.HeartBeatOn == on && srv.HeatBeatInterval == d && srv.HeartBeatMessageID == id && srv.ThroughMiddleware == through;
  ensures [the handler is registered exactly when enabled] regs() == (on ? 1 : 0);
}
