// verdicts reach the watch of the connection
use "watch.spec";
use "conn.spec";
stable "o:TcpX.AuthMessageID", "o:TcpX.AuthThroughMiddleware";
ghost pass() : bool; ghost sends() : nat; ghost regs() : nat; ghost hid() : int; ghost hf() : any;
stable ghost pass, ghost sends, ghost regs, ghost hid, ghost hf;
on "send"(ch, v) {
  assert [the verdict goes to this connection's watch] ch == cctx().recvAuth;
  assert [exactly that verdict] pass() ? v >= 0 : v < 0;
  assert [one verdict] sends() == 0;
  set sends() = sends() + 1;
}
on "close"(c) { assert [no channel is closed] false; }
on "default"() { assert [the verdict is not dropped] false; }
func "(*Context).RecvAuthPass"(c) {
  verifyonly;
  requires c != nil && c == cctx() && sends() == 0 && pass();
  modifies *;
  ensures [a pass is delivered] sends() == 1;
}
func "(*Context).RecvAuthDeny"(c) {
  verifyonly;
  requires c != nil && c == cctx() && sends() == 0 && !pass();
  modifies *;
  ensures [a denial is delivered] sends() == 1;
}
func "(*Context).AuthChan"(c) -> (ch) {
  verifyonly;
  requires c != nil;
  ensures [the channel verdicts are sent on] ch == c.recvAuth;
}
func "copyContext"(c) -> (r) {
  verifyonly; optional;
  modifies *;
  ensures [every context of a connection reports to the same watch] r != nil && r.recvAuth == old(c.recvAuth) && r.recvEnd == old(c.recvEnd);
}
from C19 "(*TcpX).AddHandler"(srv, id, hs) { requires srv != nil; modifies *; maypanic; }
on "call:(*TcpX).AddHandler"(s, id, hs) {
  assert [one handler, registered once] regs() == 0 && s == csrv() && len(hs) == 1;
  set regs() = regs() + 1; set hid() = id; set hf() = hs[0];
}
func "(*TcpX).WithAuthDetail"(srv, yes, d, through, id, f) -> (r) {
  requires srv != nil && srv == csrv() && regs() == 0;
  modifies *;
  maypanic;
  ensures [as configured] r == srv && srv.auth == yes && srv.authDeadline == d && srv.AuthMessageID == id && srv.AuthThroughMiddleware == through;
  ensures [the handler is registered exactly when enabled] regs() == (yes ? 1 : 0) && (yes ==> (hid() == id && hf() == f));
}
