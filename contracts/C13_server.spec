use "server.spec";
// every listener opened is recorded under the network and address it was opened for, and the server
// is marked running, before anything is accepted or received
ghost rec(l) : bool; ghost running() : bool;
stable ghost rec, ghost running;
on "call:(*TcpX).fillProperty"(s, n, a, l) {
  assert [recorded under its own network and address] s == srv && n == network && a == addr;
  set rec(l) = true;
}
on "call:(*TcpX).openState"(s) { assert [this server] s == srv; set running() = true; }
on "call:(net.Listener).Accept"(l) { assert [the listener is recorded] rec(l); assert [the server is marked running] running(); }
on "call:ReadAllUDP"(c, n) { assert [the socket is recorded] rec(c); assert [the server is marked running] running(); }
on "call:(net.PacketConn).ReadFrom"(c, b) { assert [the socket is recorded] rec(c); assert [the server is marked running] running(); }
func "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  requires srvok(srv) && (forall l :: !rec(l)) && !running();
  modifies *; merge;
  loopinv running();
}
func "(*TcpX).ListenAndServeRaw"(srv, network, addr) -> (err) {
  requires srvok(srv) && (forall l :: !rec(l)) && !running();
  modifies *; merge;
  loopinv running();
}
func "(*TcpX).ListenAndServeUDP"(srv, network, addr, max) -> (err) {
  requires srvok(srv) && (forall l :: !rec(l)) && !running();
  modifies *; merge; goroutines; maypanic; noreturn;
  loopinv running();
}
