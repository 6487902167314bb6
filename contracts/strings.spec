// --- string predicates, defined by their bytes where the wildcard is concerned
ufunc hp(s, t) : bool;
ufunc hs(s, t) : bool;
ufunc has(s, t) : bool;
axiom forall s :: hp(s, "%") <==> (blen(s) >= 1 && bat(s, 0) == 37);
axiom forall s :: hs(s, "%") <==> (blen(s) >= 1 && bat(s, blen(s) - 1) == 37);
axiom forall s :: hp(s, "%") ==> has(s, "%");
axiom forall s :: hs(s, "%") ==> has(s, "%");
axiom forall s :: s == "tcpx-username" ==> hp(s, "tcpx-");
axiom forall s :: hp(s, "ip") <==> (blen(s) >= 2 && bat(s, 0) == 105 && bat(s, 1) == 112);
extern "strings.HasPrefix"(s, t) -> (r) { ensures r <==> hp(s, t); }
extern "strings.HasSuffix"(s, t) -> (r) { ensures r <==> hs(s, t); }
extern "strings.Contains"(s, t) -> (r) { ensures r <==> has(s, t); }
extern "strings.Index"(s, t) -> (r) { ensures (r >= 0) <==> has(s, t); ensures 0 - 1 <= r && r + blen(t) <= blen(s); }
extern "strings.IndexByte"(s, c) -> (r) {
  ensures 0 - 1 <= r && r < blen(s);
  ensures r >= 0 ==> bat(s, r) == c;
  ensures c == 37 ==> ((r >= 0) <==> has(s, "%"));
}
extern "strings.TrimPrefix"(s, t) -> (r) { ensures r == (hp(s, t) ? s[blen(t):blen(s)] : s); }
extern "strings.TrimSuffix"(s, t) -> (r) { ensures r == (hs(s, t) ? s[0:blen(s) - blen(t)] : s); }
extern "strings.CutPrefix"(s, t) -> (r, ok) { ensures ok <==> hp(s, t); ensures r == (ok ? s[blen(t):blen(s)] : s); }
extern "strings.CutSuffix"(s, t) -> (r, ok) { ensures ok <==> hs(s, t); ensures r == (ok ? s[0:blen(s) - blen(t)] : s); }
