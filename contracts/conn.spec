// --- connections as writers: out(c,i) is the i-th byte ever written on c, wn(c) how many were
// written, wcalls(c) in how many Write calls, werr() whether a Write ever failed
ghost wn(c) : nat;
ghost wcalls(c) : nat;
ghost werr() : bool;
ufunc out(c, i) : int;
extern "(net.Conn).Write"(c, p) -> (n, err) {
  sets wn(c) = wn(c) + n;
  sets wcalls(c) = wcalls(c) + 1;
  sets werr() = werr() || err != nil;
  ensures 0 <= n && n <= len(p);
  ensures forall i :: 0 <= i && i < n ==> out(c, old(wn(c)) + i) == p[i];
}
