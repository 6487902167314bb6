use "watched.spec";
on "go:heartBeatWatch"(c, s) { assert [watches this connection] ingo() || (s == srv && own(c, s)); set hb() = hb() + 1; }
on "call:heartBeatWatch"(c, s) { assert [watches this connection] ingo() || (s == srv && own(c, s)); set hb() = hb() + 1; }
on "go:broadcastSignalWatch"(c, s) { assert [watches this connection] ingo() || (s == srv && own(c, s)); set bs() = bs() + 1; }
on "call:(net.Listener).Accept"(l) {
  assert [the heartbeat watch is started] (acc() != nil && srv.HeartBeatOn) ==> hb() == 1;
  assert [the shutdown watch is started] (acc() != nil && srv.withSignals) ==> bs() == 1;
}
func "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  requires srvok(srv) && acc() == nil && !ingo();
  modifies *; merge; goroutines;
  loopinv !ingo();
  loopinv (acc() != nil && srv.HeartBeatOn) ==> hb() == 1;
  loopinv (acc() != nil && srv.withSignals) ==> bs() == 1;
}
func "(*TcpX).ListenAndServeRaw"(srv, network, addr) -> (err) {
  requires srvok(srv) && acc() == nil && !ingo();
  modifies *; merge; goroutines;
  loopinv !ingo();
  loopinv (acc() != nil && srv.HeartBeatOn) ==> hb() == 1;
  loopinv (acc() != nil && srv.withSignals) ==> bs() == 1;
}
