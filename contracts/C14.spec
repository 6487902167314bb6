use "watch.spec";
assumption "the heartbeat-loss callback returns (it does not panic)";
assumption "a timer made by time.After delivers once, after its duration";
from C13 "(*TcpX).State"(srv) -> (s) { requires srv != nil; }
on "ret:(*TcpX).State"(s, v) { if s == csrv() && v == 2 { set shutdown() = true; } }
on "go"(f) { assert [only watched when enabled] csrv().HeartBeatOn; set gos() = gos() + 1; }
on "gostart"(f) { set ingo() = true; }
on "select"() {
  assert [waits for the interval, counted from the last event] !bcast() ==> lt();
  assert [waits for heartbeats] !bcast() ==> lh();
  assert [waits for shutdown] ls() || csrv().closeAllSignal == nil;
  assert [waits for the end of the connection] le();
  assert [closes at once after three missed intervals] missed() < 3;
  assert [closes at once on shutdown] !shutdown();
  assert [ends with the connection] !ended() && nclosed() == 0;
  set lt() = false; set lh() = false; set la() = false; set ls() = false; set le() = false;
}
on "default"() { assert [waits, and does not spin] false; }
on "recv"(c, v) {
  if istimer(c) {
    assert [the configured interval] tdur(c) == csrv().HeatBeatInterval && !bcast();
    set missed() = missed() + 1;
  }
  if smdom(connkeys(cctx()), hkey()) && c == hbc(cctx()) { set missed() = 0; }
  if c == csrv().closeAllSignal { set shutdown() = true; }
  if c == cctx().recvEnd { set ended() = true; }
  set gen() = gen() + 1;
}
extern "callback:func(*Context)"(f, c) { modifies *; }
on "call:callback:func(*Context)"(f, c) {
  assert [only the heartbeat-loss callback, for this connection] f == csrv().OnHeartbeatLoss && c != nil && c.Conn == cctx().Conn && c.userState == cctx().userState;
  assert [only after three missed intervals] missed() == 3 && !shutdown() && !ended();
  assert [once, before closing] nloss() == 0 && nclosed() == 0;
  set nloss() = nloss() + 1;
}
on "call:(*Context).CloseConn"(c) {
  assert [this connection] c != nil && c.userState == cctx().userState;
  assert [only after three missed intervals or on shutdown] missed() == 3 || shutdown();
  assert [not when the connection has ended by itself] !ended();
  assert [after the heartbeat-loss callback] (missed() == 3 && !shutdown() && csrv().OnHeartbeatLoss != nil) ==> nloss() == 1;
  set nclosed() = nclosed() + 1;
}
on "goend"() {
  assert [ends only with the connection] missed() == 3 || shutdown() || ended();
  assert [closes after three missed intervals and on shutdown] (missed() == 3 || shutdown()) ==> nclosed() >= 1;
}
on "end"() {
  assert [the watch is running] (!bcast() && csrv() != nil && csrv().HeartBeatOn) ==> gos() == 1;
  assert [a disabled watch does nothing] (!bcast() && csrv() != nil && !csrv().HeartBeatOn) ==> (gos() == 0 && nclosed() == 0 && nloss() == 0);
  assert [ends only with the connection] (bcast() && csrv().withSignals) ==> (shutdown() || ended());
  assert [closes on shutdown] (bcast() && shutdown()) ==> nclosed() >= 1;
  assert [a disabled watch does nothing] (bcast() && !csrv().withSignals) ==> nclosed() == 0;
}
ghost bcast() : bool; stable ghost bcast;
func "heartBeatWatch"(c, srv) {
  goroutines;
  requires apart(c, srv) && hbok(c) && start(c, srv) && !bcast() && srv.pLock != nil;
  modifies *;
  loopinv missed() < 3;
  loopinv !shutdown();
  loopinv !ended();
  loopinv nclosed() == 0;
  loopinv nloss() == 0;
  loopinv $i == missed();
  loopinv $i + missed() == 3;
  loopinv istimer(tim().C);
  loopinv tdur(tim().C) == csrv().HeatBeatInterval;
  loopinv tgen(tim().C) == gen();
  loopinv hbok(cctx());
  loopinv apart(cctx(), csrv());
  loopinv !lt();
  loopinv !lh();
  loopinv !la();
  loopinv !ls();
  loopinv !le();
}
func "broadcastSignalWatch"(c, srv) {
  goroutines;
  requires apart(c, srv) && start(c, srv) && bcast();
  modifies *;
  loopinv !shutdown() && !ended() && nclosed() == 0;
  loopinv !lt() && !lh() && !la() && !ls() && !le();
}
