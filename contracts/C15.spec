// the authentication watch of a connection
use "watch.spec";
use "conn.spec";
assumption "a timer made by time.After delivers once, after its duration";
assumption "the channels of a connection and of the server are only closed to signal its end (recvEnd) or shutdown; no verdict is received from a closed channel";
on "go"(f) { assert [the watch itself waits] false; }
on "select"() {
  assert [waits for the deadline] lt();
  assert [waits for the verdict] la();
  assert [waits for shutdown] ls() || csrv().closeAllSignal == nil;
  assert [waits for the end of the connection] le();
  assert [waits only while nothing is decided] !decided() && !timeout() && !shutdown() && !ended() && nclosed() == 0;
  set lt() = false; set lh() = false; set la() = false; set ls() = false; set le() = false;
}
on "default"() { assert [waits, and does not spin] false; }
on "recv"(c, v) {
  if istimer(c) {
    assert [the configured deadline] tdur(c) == csrv().authDeadline && csrv().auth && tgen(c) == 0;
    set timeout() = true;
  }
  if c == cctx().recvAuth { set decided() = true; set verdict() = v; }
  if c == csrv().closeAllSignal { set shutdown() = true; }
  if c == cctx().recvEnd { set ended() = true; }
  set gen() = gen() + 1;
}
on "call:(*Context).CloseConn"(c) {
  assert [this connection] c != nil && c.userState == cctx().userState;
  assert [only on a denial, after the deadline or on shutdown] (decided() && verdict() < 0) || timeout() || shutdown();
  assert [not when the connection has ended by itself] !ended();
  set nclosed() = nclosed() + 1;
}
on "end"() {
  assert [a disabled watch does nothing] !csrv().auth ==> nclosed() == 0;
  assert [ends only when decided] csrv().auth ==> (decided() || timeout() || shutdown() || ended());
  assert [a denied connection is closed] (decided() && verdict() < 0) ==> nclosed() >= 1;
  assert [a connection without verdict is closed at the deadline] timeout() ==> nclosed() >= 1;
  assert [closes on shutdown] shutdown() ==> nclosed() >= 1;
  assert [an accepted connection is left open] (decided() && verdict() >= 0) ==> nclosed() == 0;
}
func "authWatch"(c, srv) {
  goroutines;
  requires apart(c, srv) && start(c, srv) && gen() == 0;
  modifies *;
  loopinv !shutdown(); loopinv !ended(); loopinv nclosed() == 0; loopinv !decided(); loopinv !timeout();
  loopinv !lt(); loopinv !lh(); loopinv !la(); loopinv !ls(); loopinv !le();
  loopinv apart(cctx(), csrv());
}
