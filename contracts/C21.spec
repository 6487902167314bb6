use "server.spec";
on "call:(net.Listener).Accept"(l) {
  assert [served on the listener the configuration asks for] srv.TLSConfig != nil ? (lkind(l) == 2 && lcfg(l) == srv.TLSConfig) : lkind(l) == 1;
  assert [nothing is served after a failure to listen] !lfailed();
}
on "call:(*TcpX).fillProperty"(s, network, addr, l) {
  assert [recorded listener is the one the configuration asks for] srv.TLSConfig != nil ? (lkind(l) == 2 && lcfg(l) == srv.TLSConfig) : lkind(l) == 1;
}
func "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  requires srvok(srv) && !lfailed();
  modifies *; merge;
  goroutines;
  loopinv !lfailed();
  ensures [failure to listen is returned] lfailed() ==> err != nil;
}
func "(*TcpX).ListenAndServeRaw"(srv, network, addr) -> (err) {
  requires srvok(srv) && !lfailed();
  modifies *; merge;
  loopinv !lfailed();
  ensures [failure to listen is returned] lfailed() ==> err != nil;
}
extern "crypto/tls.LoadX509KeyPair"(cert, key) -> (c, err) { ensures true; }
func "(*TcpX).LoadTLSFile"(srv, cert, key) -> (err) {
  requires srv != nil;
  modifies srv.TLSConfig;
  ensures [loaded certificates are configured] err == nil ==> (srv.TLSConfig != nil && fresh(srv.TLSConfig));
  ensures [a failure changes nothing] err != nil ==> srv.TLSConfig == old(srv.TLSConfig);
}
