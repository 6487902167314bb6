// sync.Map: smdom(m,k) whether k is present, smv(m,k) its value.
// Between two operations other goroutines may change a shared map; operations are atomic.
ghost smdom(m, k) : bool;
ghost smv(m, k) : any;
extern "(*sync.Map).Load"(m, k) -> (v, ok) {
  requires m != nil;
  ensures ok <==> smdom(m, k);
  ensures ok ==> v == smv(m, k);
  ensures !ok ==> v == nil;
}
extern "(*sync.Map).Store"(m, k, v) {
  requires m != nil;
  sets smdom(m, k) = true;
  sets smv(m, k) = v;
}
extern "(*sync.Map).LoadOrStore"(m, k, v) -> (r, loaded) {
  requires m != nil;
  ensures loaded <==> old(smdom(m, k));
  ensures loaded ==> r == old(smv(m, k));
  ensures !loaded ==> r == v;
  sets smv(m, k) = smdom(m, k) ? smv(m, k) : v;
  sets smdom(m, k) = true;
}
extern "(*sync.Map).Delete"(m, k) {
  requires m != nil;
  sets smdom(m, k) = false;
}
