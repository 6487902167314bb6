use "common.spec";
ghost phase() : nat; ghost ncb() : nat; ghost sok() : bool; ghost nstart() : nat; ghost nstop() : nat;
stable ghost phase, ghost ncb, ghost sok, ghost nstart, ghost nstop, "e:func()";
from C13 "(*TcpX).Stop"(srv, all) -> (err) { requires srv != nil; modifies *; sets nstop() = nstop() + 1; sets sok() = err == nil; }
from C13 "(*TcpX).Start"(srv) -> (err) { requires srv != nil; modifies *; sets nstart() = nstart() + 1; }
on "call:(*TcpX).Stop"(s, all) { assert [stops this server, as asked, first] s == srv && all == closeAll && nstop() == 0 && nstart() == 0 && ncb() == 0; }
on "call:(*TcpX).Start"(s) { assert [starts this server, after it stopped and was prepared] s == srv && nstop() == 1 && sok() && nstart() == 0 && ncb() == len(fs); }
on "call:callback:func()"(f) { assert [prepares in order, while stopped] nstop() == 1 && sok() && nstart() == 0 && ncb() < len(fs) && f == fs[ncb()]; set ncb() = ncb() + 1; }
extern "callback:func()"(f) { modifies *; maypanic; }
func "(*TcpX).Restart"(srv, closeAll, fs) -> (err) {
  verifyonly;
  requires srv != nil && nstop() == 0 && nstart() == 0 && ncb() == 0 && (forall i :: 0 <= i && i < len(fs) ==> fs[i] != nil);
  modifies *; maypanic;
  loopinv nstop() == 1 && sok() && nstart() == 0;
  loopinv ncb() == $i;
  loopinv ncb() == $i + 1;
  ensures [refused when stopping is refused] !sok() ==> (err != nil && nstart() == 0);
  ensures [stopped once and started once] sok() ==> (nstop() == 1 && nstart() == 1);
}
