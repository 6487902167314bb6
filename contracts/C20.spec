use "server.spec";
// the deadlines the configuration asks for
def wantr(srv) = tzero(srv.readDeadLine) ? srv.deadLine : srv.readDeadLine;
def wantw(srv) = tzero(srv.writeDeadLine) ? srv.deadLine : srv.writeDeadLine;
def inforce(d, want) = d == want || (tzero(d) && tzero(want));
ghost cur() : any;
ghost served() : bool;
stable ghost cur, ghost served;
on "ret:(net.Listener).Accept"(l, c, err) { set cur() = c; }
on "ret:net.ListenPacket"(network, addr, c, err) { set cur() = c; }
on "call:(Packx).FirstBlockOfLimitMaxByte"(p, r, max), "call:(Packx).FirstBlockOf"(p, r), "call:FirstBlockOfLimitMaxByte"(r, max), "call:FirstBlockOf"(r),
   "call:UnpackToBlockFromReader"(r), "call:UnpackToBlockFromReaderLimitMaxLengthOfByte"(r, max), "call:(io.Reader).Read"(r, p), "call:io.ReadFull"(r, p) {
  assert [the served connection is the accepted one] r == cur();
  assert [read deadline in force] inforce(rdl(r), wantr(srv));
  assert [write deadline in force] inforce(wdl(r), wantw(srv));
}
on "call:handleRaw"(c, s) {
  assert [the served connection is the accepted one] c.Conn == cur();
  assert [read deadline in force] inforce(rdl(c.Conn), wantr(srv));
  assert [write deadline in force] inforce(wdl(c.Conn), wantw(srv));
}
on "call:(net.PacketConn).ReadFrom"(c, p) {
  assert [the served socket is the opened one] c == cur();
  assert [read deadline in force] inforce(rdl(c), wantr(srv));
  assert [write deadline in force] inforce(wdl(c), wantw(srv));
}
// in force already when the connect callback runs
on "call:callback:func(*Context)"(f, c) {
  if c.Conn == cur() {
    assert [read deadline in force] inforce(rdl(cur()), wantr(srv));
    assert [write deadline in force] inforce(wdl(cur()), wantw(srv));
  }
}
func "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  requires srvok(srv);
  modifies *; merge; goroutines;
}
func "(*TcpX).ListenAndServeRaw"(srv, network, addr) -> (err) {
  requires srvok(srv);
  modifies *; merge; goroutines;
}
func "(*TcpX).ListenAndServeUDP"(srv, network, addr, max) -> (err) {
  requires srvok(srv);
  modifies *; merge; goroutines; maypanic; noreturn;
}
func "(*TcpX).SetDeadline"(srv, t) { requires srv != nil; modifies srv.deadLine; ensures [the general deadline is the given one] srv.deadLine == t; }
func "(*TcpX).SetReadDeadline"(srv, t) { requires srv != nil; modifies srv.readDeadLine; ensures [the read deadline is the given one] srv.readDeadLine == t; }
func "(*TcpX).SetWriteDeadline"(srv, t) { requires srv != nil; modifies srv.writeDeadLine; ensures [the write deadline is the given one] srv.writeDeadLine == t; }
