// every accepted connection is watched as configured, by watches of its own context
use "server.spec";
stable "o:TcpX.closeAllSignal";
ghost acc() : any; ghost cctx() : "*Context"; ghost hb() : nat; ghost bs() : nat; ghost au() : nat; ghost ingo() : bool; ghost raw() : bool;
stable ghost acc, ghost cctx, ghost hb, ghost bs, ghost au, ghost ingo, ghost raw;
on "ret:(net.Listener).Accept"(l, c, err) { if err == nil { set acc() = c; set hb() = 0; set bs() = 0; set au() = 0; } }
on "ret:NewContext"(conn, m, c) { if conn == acc() { set cctx() = c; } }
// its channels are its own
def own(c, s) = c != nil && s != nil && c == cctx() && c.Conn == acc() && c.recvEnd != nil && c.recvAuth != nil && c.recvEnd != c.recvAuth && c.recvEnd != s.closeAllSignal && c.recvAuth != s.closeAllSignal && c.PerConnectionContext != nil;
on "gostart"(f) { set ingo() = true; }
