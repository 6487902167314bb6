use "watched.spec";
on "go:authWatch"(c, s) { assert [watches this connection] ingo() || (s == srv && own(c, s)); set au() = au() + 1; }
on "call:(net.Listener).Accept"(l) { assert [the authentication watch is started] (acc() != nil && srv.auth) ==> au() == 1; }
func "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  requires srvok(srv) && acc() == nil && !ingo();
  modifies *; merge; goroutines;
  loopinv !ingo();
  loopinv (acc() != nil && srv.auth) ==> au() == 1;
}
