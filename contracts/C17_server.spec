// the receive loop: blocks are handed over in the order they were received, pipes as a whole
use "server.spec";
ghost nread() : nat;              // complete blocks read from this connection
ghost ba(i) : int;                // the array of the i-th of them
ghost bo(i) : int;                // where it starts there
ghost bn(i) : int;                // and its length
ghost bb(i) : str;                // and its bytes
ghost handed() : nat;             // blocks handed to handlers so far
ghost rfail() : bool;             // a read failed
ghost ingo() : bool;
ghost start() : int;              // when the serving of this connection began
stable ghost start;
ghost want() : int;               // the number of messages announced by the pipe being read
ghost pick() : int;               // an arbitrary message, never assigned
stable ghost want, ghost pick, ghost nread, ghost ba, ghost bo, ghost bn, ghost bb, ghost handed, ghost rfail, ghost ingo;
def isblk(b, i) = arr(b) == ba(i) && off(b) == bo(i) && len(b) == bn(i);
stable "e:*Context";
on "gostart"(f) { set ingo() = true; set start() = now(); set nread() = 0; set handed() = 0; set rfail() = false; }
on "ret:(Packx).FirstBlockOfLimitMaxByte"(p, r, max, b, err), "ret:(Packx).FirstBlockOf"(p, r, b, err), "ret:FirstBlockOfLimitMaxByte"(r, max, b, err), "ret:FirstBlockOf"(r, b, err),
   "ret:UnpackToBlockFromReader"(r, b, err), "ret:UnpackToBlockFromReaderLimitMaxLengthOfByte"(r, max, b, err) {
  if err == nil {
    set ba(nread()) = arr(b); set bo(nread()) = off(b); set bn(nread()) = len(b); set bb(nread()) = bytes(b); set nread() = nread() + 1;
  } else { set rfail() = true; }
}
on "ret:isPipe"(b, pipe, rest, err) { set want() = pnum(bytes(b)); }
on "go:handleMiddleware"(c, s) {
  assert [every message is handled once, in receiving order] handed() + 1 == nread();
  assert [with the bytes received] c != nil && isblk(c.Stream, handed()) && bytes(c.Stream) == bb(handed());
  assert [the first message of a pipe is not handled on its own] pok(bb(handed())) && !pflag(bb(handed()));
  set handed() = nread();
}
on "go:handlePipe"(cs, s) {
  assert [the first message starts a pipe] handed() < nread() && pok(bb(handed())) && pflag(bb(handed()));
  assert [the pipe is everything received since] len(cs) == nread() - handed();
  assert [messages after the pipe are not part of it] len(cs) <= pnum(bb(handed()));
  assert [only a failure ends a pipe early] len(cs) < pnum(bb(handed())) ==> rfail();
  assert [in sending order, with the bytes received] forall i :: 0 <= i && i < len(cs) ==> (cs[i] != nil && isblk(cs[i].Stream, handed() + i));
  assert [bytes untouched] (handed() <= pick() && pick() < nread()) ==> bytes(cs[pick() - handed()].Stream) == bb(pick());
  set handed() = nread();
}
on "go"(f) { assert [handled by the message handlers] true; }
on "goend"() {
  assert [every received message is handled] ingo() ==> (handed() == nread() || (handed() + 1 == nread() && !pok(bb(handed()))));
}
func "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  requires srvok(srv) && !ingo();
  modifies *; merge; goroutines;
  loopinv handed() == nread();
  loopinv nread() == handed() + len($s);
  loopinv nread() == handed() + $i;
  loopinv nread() == handed() + $i + 1;
  loopinv handed() < nread() && pok(bb(handed())) && pflag(bb(handed()));
  loopinv want() == pnum(bb(handed()));
  loopinv !rfail();
  loopinv forall i :: 0 <= i && i < len($s) ==> newer($s[i], start());
  loopinv forall i :: 0 <= i && i < len($s) ==> $s[i] != nil;
  loopinv forall i :: 0 <= i && i < len($s) ==> isblk($s[i].Stream, handed() + i);
  loopinv (handed() <= pick() && pick() < nread() && pick() - handed() < len($s)) ==> bytes($s[pick() - handed()].Stream) == bb(pick());
}
