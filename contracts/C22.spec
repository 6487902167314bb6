use "server.spec";
stable "o:Context.poolRef";
assumption "a connect callback that panics ends the server (it is not a way reading ends)";
ghost acc() : any;      // the connection accepted last
ghost cctx() : "*Context"; // its context
ghost ncon() : nat;     // connect callbacks run for it
ghost nclose() : nat;   // close callbacks run for it
ghost ndone() : nat;    // CloseConn calls for it
ghost gos() : nat; ghost hb() : nat; ghost bs() : nat; ghost au() : nat;
ghost ingo() : bool; ghost incb() : bool;
stable ghost acc, ghost cctx, ghost ncon, ghost nclose, ghost ndone, ghost gos, ghost hb, ghost bs, ghost au, ghost ingo, ghost incb;
on "ret:(net.Listener).Accept"(l, c, err) {
  if err == nil {
    set acc() = c; set ncon() = 0; set nclose() = 0; set ndone() = 0; set gos() = 0; set hb() = 0; set bs() = 0; set au() = 0;
  }
}
on "ret:NewContext"(conn, m, c) {
  assert [one context per accepted connection] conn == acc();
  set cctx() = c;
}
on "call:callback:func(*Context)"(f, c) {
  assert [callbacks get the context of the connection] c == cctx() && c.Conn == acc();
  if !ingo() {
    assert [only the connect callback runs before serving] f == srv.OnConnect;
    assert [the connect callback runs once] ncon() == 0;
    assert [before the connection is served] gos() == 0;
    assert [the context knows the pool exactly when enabled] srv.builtInPool ? c.poolRef == srv.pool : c.poolRef == nil;
    set ncon() = ncon() + 1;
    set incb() = true;
  } else {
    assert [only the close callback runs while serving] f == srv.OnClose;
    assert [the close callback runs once] nclose() == 0;
    assert [before the connection is closed] ndone() == 0;
    set nclose() = nclose() + 1;
  }
}
on "ret:callback:func(*Context)"(f, c) { set incb() = false; }
on "go"(f) {
  assert [the context knows the pool exactly when enabled] (!ingo() && ncon() == 0 && gos() == 0) ==> (srv.builtInPool ? cctx().poolRef == srv.pool : cctx().poolRef == nil);
  set gos() = gos() + 1;
}
on "go:heartBeatWatch"(c, s) { assert [watches this connection] ingo() || (c == cctx() && s == srv); set hb() = hb() + 1; }
on "call:heartBeatWatch"(c, s) { assert [watches this connection] c == cctx() && s == srv; set hb() = hb() + 1; set gos() = gos() + 1; }
on "go:broadcastSignalWatch"(c, s) { assert [watches this connection] ingo() || (c == cctx() && s == srv); set bs() = bs() + 1; }
on "go:authWatch"(c, s) { assert [watches this connection] ingo() || (c == cctx() && s == srv); set au() = au() + 1; }
on "gostart"(f) {
  set ingo() = true;
  assert [the connect callback has run] srv.OnConnect != nil ==> ncon() == 1;
}
on "call:(Packx).FirstBlockOfLimitMaxByte"(p, r, max), "call:(Packx).FirstBlockOf"(p, r), "call:FirstBlockOfLimitMaxByte"(r, max), "call:FirstBlockOf"(r),
   "call:UnpackToBlockFromReader"(r), "call:UnpackToBlockFromReaderLimitMaxLengthOfByte"(r, max), "call:(io.Reader).Read"(r, p), "call:io.ReadFull"(r, p), "call:(net.Conn).Read"(r, p) {
  assert [reads the accepted connection] r == acc();
  assert [the connect callback has run before anything is read] srv.OnConnect != nil ==> ncon() == 1;
  assert [nothing is read after the close callback] nclose() == 0 && ndone() == 0;
}
on "call:handleRaw"(c, s) {
  assert [reads the accepted connection] c.Conn == acc();
  assert [the connect callback has run before anything is read] srv.OnConnect != nil ==> ncon() == 1;
  assert [nothing is read after the close callback] nclose() == 0 && ndone() == 0;
}
on "call:(*Context).CloseConn"(c) {
  assert [closes the accepted connection] c.Conn == acc() && ingo();
  set ndone() = ndone() + 1;
}
on "goend"() {
  assert [the close callback has run] srv.OnClose != nil ==> nclose() == 1;
  assert [the connection is closed] ndone() >= 1;
}
// the connection accepted last, if any, has been taken care of
on "call:(net.Listener).Accept"(l) {
  assert [the connect callback ran once] (acc() != nil && srv.OnConnect != nil) ==> ncon() == 1;
  assert [the connection is served once] acc() != nil ==> gos() == hb() + bs() + au() + 1;
  assert [the heartbeat watch is started] (acc() != nil && srv.HeartBeatOn) ==> hb() == 1;
  assert [the shutdown watch is started] (acc() != nil && srv.withSignals) ==> bs() == 1;
  assert [the authentication watch is started] (acc() != nil && srv.auth && !raw()) ==> au() == 1;
}
on "end"() {
  assert [the connection is served once] (acc() != nil && !incb()) ==> gos() == hb() + bs() + au() + 1;
}
ghost raw() : bool;
stable ghost raw;
func "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  requires srvok(srv) && acc() == nil && !ingo() && !incb() && !raw();
  modifies *; merge; goroutines;
  loopinv !ingo() && !incb();
  loopinv (acc() != nil && srv.OnConnect != nil) ==> ncon() == 1;
  loopinv acc() != nil ==> gos() == hb() + bs() + au() + 1;
  loopinv (acc() != nil && srv.HeartBeatOn) ==> hb() == 1;
  loopinv (acc() != nil && srv.withSignals) ==> bs() == 1;
  loopinv (acc() != nil && srv.auth) ==> au() == 1;
  loopinv nclose() == 0;
  loopinv ndone() == 0;
}
func "(*TcpX).ListenAndServeRaw"(srv, network, addr) -> (err) {
  requires srvok(srv) && acc() == nil && !ingo() && !incb() && raw();
  modifies *; merge; goroutines;
  loopinv !ingo() && !incb();
  loopinv (acc() != nil && srv.OnConnect != nil) ==> ncon() == 1;
  loopinv acc() != nil ==> gos() == hb() + bs() + au() + 1;
  loopinv (acc() != nil && srv.HeartBeatOn) ==> hb() == 1;
  loopinv (acc() != nil && srv.withSignals) ==> bs() == 1;
}
