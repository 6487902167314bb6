// --- readers: in(r,i) is the i-th byte the peer ever sends on r, pos(r) how many were consumed
ghost pos(r) : nat;
ufunc in(r, i) : int;
def in32(r, i) = in(r,i)*16777216 + in(r,i+1)*65536 + in(r,i+2)*256 + in(r,i+3);
axiom forall r, i :: 0 <= in(r,i) && in(r,i) <= 255;

extern "(io.Reader).Read"(r, p) -> (n, err) {
  modifies elems(p);
  sets pos(r) = pos(r) + n;
  ensures 0 <= n && n <= len(p);
  ensures forall i :: 0 <= i && i < n ==> p[i] == in(r, old(pos(r)) + i);
}
extern "io.ReadFull"(r, p) -> (n, err) {
  modifies elems(p);
  sets pos(r) = pos(r) + n;
  ensures 0 <= n && n <= len(p);
  ensures (err == nil) <==> n == len(p);
  ensures forall i :: 0 <= i && i < n ==> p[i] == in(r, old(pos(r)) + i);
}
