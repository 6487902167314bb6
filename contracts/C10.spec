use "server.spec";
assumption "connect callbacks do not run the handler chain functions (Next, Abort, Reset) on the connection's context";
stable "o:Context.poolRef", "o:Context.PerRequestContext", "o:Context.handlers", "o:Context.offset", "o:Context.Stream", "e:*Context";
// --- handing messages over
ghost cctx() : "*Context";  // the connection's own context
ghost mark() : int;         // everything handed over is older
ghost pick() : int;         // two arbitrary messages of a pipe, never assigned
ghost pick2() : int;
ghost udp() : bool;
stable ghost cctx, ghost mark, ghost pick, ghost pick2, ghost udp;
on "ret:(net.Listener).Accept"(l, c, err) { set mark() = now(); }
on "ret:net.ListenPacket"(network, addr, c, err) { set mark() = now(); set udp() = true; }
on "call:(net.PacketConn).ReadFrom"(c, b) { assert [datagrams are read into memory of their own] newer(arr(b), mark()); }
on "ret:NewContext"(conn, m, c) { if newer(c, mark()) { set cctx() = c; } }
def own(c) = newer(c, mark()) && c != cctx();
def ownbytes(c) = newer(arr(c.Stream), mark());
def ownspace(c) = newer(c.PerRequestContext, mark()) && (forall k :: !smdom(c.PerRequestContext, k));
def ownchain(c) = c.offset == -1 && len(c.handlers) == 0 && (cap(c.handlers) == 0 || newer(arr(c.handlers), mark()));
def shared(c) = c.Conn == cctx().Conn && c.PerConnectionContext == cctx().PerConnectionContext && c.userState == cctx().userState && c.L == cctx().L
  && c.poolRef == cctx().poolRef && c.recvEnd == cctx().recvEnd && c.recvAuth == cctx().recvAuth && c.Packx == cctx().Packx;
on "go:handleMiddleware"(c, s), "call:handleMiddleware"(c, s) {
  assert [a context of its own] own(c);
  assert [bytes of its own] ownbytes(c);
  assert [an empty key/value space of its own] ownspace(c);
  assert [an unstarted handler chain of its own] ownchain(c);
  assert [connection state is shared] !udp() ==> shared(c);
  set mark() = now();
}
on "go:handlePipe"(cs, s), "call:handlePipe"(cs, s) {
  if 0 <= pick() && pick() < len(cs) {
    assert [a context of its own] own(cs[pick()]);
    assert [bytes of its own] ownbytes(cs[pick()]);
    assert [an empty key/value space of its own] ownspace(cs[pick()]);
    assert [an unstarted handler chain of its own] ownchain(cs[pick()]);
    assert [connection state is shared] shared(cs[pick()]);
    if pick() < pick2() && pick2() < len(cs) {
      assert [the messages of a pipe are apart] cs[pick()] != cs[pick2()] && arr(cs[pick()].Stream) != arr(cs[pick2()].Stream)
        && cs[pick()].PerRequestContext != cs[pick2()].PerRequestContext && (cap(cs[pick()].handlers) == 0 || arr(cs[pick()].handlers) != arr(cs[pick2()].handlers));
    }
  }
  set mark() = now();
}
on "write:Context"(c), "write:Context.Conn"(c), "write:Context.L"(c), "write:Context.PacketConn"(c), "write:Context.Addr"(c), "write:Context.PerConnectionContext"(c),
   "write:Context.PerRequestContext"(c), "write:Context.Packx"(c), "write:Context.poolRef"(c), "write:Context.recvEnd"(c), "write:Context.recvAuth"(c), "write:Context.userState"(c),
   "write:Context.ConnReader"(c), "write:Context.ConnWriter"(c), "write:Context.Stream"(c), "write:Context.offset"(c), "write:Context.handlers"(c) {
  assert [nothing handed over is modified afterwards] c == cctx() || newer(c, mark());
}
func "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  requires srvok(srv) && !udp();
  modifies *; merge; goroutines;
  loopinv pick() < len($s) && 0 <= pick() ==> ($s[pick()] != nil && own($s[pick()]) && ownbytes($s[pick()]));
  loopinv pick() < len($s) && 0 <= pick() ==> (newer($s[pick()].PerRequestContext, mark()) && ownchain($s[pick()]) && shared($s[pick()]));
  loopinv pick() < len($s) && 0 <= pick() ==> (forall k :: !smdom($s[pick()].PerRequestContext, k));
  loopinv 0 <= pick() && pick() < pick2() && pick2() < len($s) ==> ($s[pick()] != $s[pick2()] && arr($s[pick()].Stream) != arr($s[pick2()].Stream) && $s[pick()].PerRequestContext != $s[pick2()].PerRequestContext);
  loopinv 0 <= pick() && pick() < pick2() && pick2() < len($s) ==> (cap($s[pick()].handlers) == 0 || arr($s[pick()].handlers) != arr($s[pick2()].handlers));
  loopinv mark() < now();
  loopinv cctx() != nil && cctx().offset == -1 && len(cctx().handlers) == 0;
}
func "(*TcpX).ListenAndServeUDP"(srv, network, addr, max) -> (err) {
  requires srvok(srv);
  modifies *; merge; goroutines; maypanic; noreturn;
  loopinv mark() < now();
}
