use "route.spec";
use "syncmap.spec";
from C02 "HeaderOf"(stream) -> (h, err) {
  fresh h;
  ensures (err == nil) <==> hasheader(stream);
  ensures err == nil ==> content(h) == header(stream);
}
ufunc splitn(s, sep) : int; ufunc splitat(s, sep, i) : str; ufunc atoi(s) : int; ufunc atoiok(s) : bool;
extern "strings.Split"(s, sep) -> (r) {
  fresh r;
  ensures len(r) == splitn(s, sep);
  ensures forall i :: 0 <= i && i < len(r) ==> r[i] == splitat(s, sep, i);
}
extern "strconv.Atoi"(s) -> (n, err) { ensures (err == nil) <==> atoiok(s); ensures err == nil ==> n == atoi(s); }
def parg(s) = (mval(header(s), PIPED) as "string");
def hasarg(s) = mdom(header(s), PIPED);
def goodarg(s) = hstr(s, PIPED) && splitn(parg(s), ";") == 2 && atoiok(splitat(parg(s), ";", 1)) && atoi(splitat(parg(s), ";", 1)) > 0;
func "isPipe"(block) -> (pipe, rest, err) {
  ensures [refused exactly when unreadable, malformed or not positive] (err == nil) <==> (hasheader(block) && (!hasarg(block) || goodarg(block)));
  ensures [a pipe exactly when enabled] err == nil ==> (pipe <==> (hasarg(block) && splitat(parg(block), ";", 0) == "enable"));
  ensures [the announced number includes the first message] (err == nil && pipe) ==> (rest >= 0 && rest < 9223372036854775807 && rest == atoi(splitat(parg(block), ";", 1)) - 1);
}
// the messages of a pipe are handled one after another, in order
assumption "handlers cannot reach the list of the contexts of a pipe (it is local to the receive loop)";
stable "e:*Context";
ghost done() : nat;
stable ghost done;
on "call:handleMiddleware"(c, s) {
  assert [in order, each once] done() < len(cs) && c == cs[done()] && s == srv;
  set done() = done() + 1;
}
on "go:handleMiddleware"(c, s) { assert [one after another] false; }
on "go"(f) { assert [one after another] false; }
from C06 "handleMiddleware"(c, srv) { requires c != nil && srv != nil; modifies *; maypanic; }
func "handlePipe"(cs, srv) {
  requires srv != nil && done() == 0;
  requires forall i :: 0 <= i && i < len(cs) ==> cs[i] != nil;
  modifies *; maypanic;
  loopinv done() == $i;
  loopinv done() == $i + 1;
  loopinv done() + len($s) == len(cs);
  ensures [all are handled] done() == len(cs);
}
