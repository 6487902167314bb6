use "chain.spec";
use "syncmap.spec";
// a handler: starts as the next one of the chain; may call Next and Abort, any number of times
on "call:callback:func(*Context)"(f, c) {
  assert [handlers run with the context of the message] c == ctx;
  assert [no handler starts after Abort] !aborted(ctx);
  assert [handlers start in order, each once] started(ctx) < len(ctx.handlers) && f == ctx.handlers[started(ctx)];
  set started(ctx) = started(ctx) + 1;
}
extern "callback:func(*Context)"(f, c) {
  requires [position agrees with the history] chainok(c);
  modifies *;
  maypanic;
  ensures chainok(c);
  ensures c.handlers == old(c.handlers) && (forall i :: 0 <= i && i < len(c.handlers) ==> c.handlers[i] == old(c.handlers[i]));
  ensures started(c) >= old(started(c));
  ensures old(aborted(c)) ==> (aborted(c) && started(c) == old(started(c)));
}
func "(*Context).Next"(ctx) {
  requires ctx != nil && chainok(ctx);
  modifies *;
  maypanic;
  loopinv len(ctx.handlers) <= 2019 && ctx.offset >= 0 && ctx.offset <= 4611686018427387904;
  loopinv ctx.handlers == old(ctx.handlers);
  loopinv aborted(ctx) ==> ctx.offset >= 2019;
  loopinv !aborted(ctx) ==> started(ctx) == (ctx.offset < len(ctx.handlers) ? ctx.offset : len(ctx.handlers));
  loopinv started(ctx) >= old(started(ctx));
  loopinv old(aborted(ctx)) ==> (aborted(ctx) && started(ctx) == old(started(ctx)));
  loopinv forall i :: 0 <= i && i < len(ctx.handlers) ==> ctx.handlers[i] != nil;
  loopinv forall i :: 0 <= i && i < len(ctx.handlers) ==> ctx.handlers[i] == old(ctx.handlers[i]);
  ensures [all handlers have run unless one aborted] !aborted(ctx) ==> started(ctx) == len(ctx.handlers);
  ensures [nothing runs after Abort] old(aborted(ctx)) ==> (aborted(ctx) && started(ctx) == old(started(ctx)));
  ensures [position agrees with the history] ctx.offset < 4611686018427387904 ==> chainok(ctx);
  ensures [the chain itself is unchanged] ctx.handlers == old(ctx.handlers) && (forall i :: 0 <= i && i < len(ctx.handlers) ==> ctx.handlers[i] == old(ctx.handlers[i]));
}
func "(*Context).Abort"(ctx) {
  requires ctx != nil && chainok(ctx);
  modifies ctx.offset;
  ensures [the chain is marked aborted] ctx.offset >= 2019 && ctx.offset < 4611686018427387904;
}
// a new chain starts at its beginning
func "NewContext"(conn, m) -> (c) { ensures [before the first handler] c != nil && c.offset == 0 - 1 && len(c.handlers) == 0; }
func "NewUDPContext"(conn, addr, m) -> (c) { ensures [before the first handler] c != nil && c.offset == 0 - 1 && len(c.handlers) == 0; }
func "copyContext"(c) -> (r) {
  loopinv forall i :: 0 <= i && i < $i ==> $s[i] == c.handlers[i];
  loopinv forall i :: 0 <= i && i <= $i ==> $s[i] == c.handlers[i];
  ensures [before the first handler] (c.offset == 0 - 1 && len(c.handlers) == 0) ==> (r.offset == 0 - 1 && len(r.handlers) == 0);
}
func "(*Context).Reset"(c) {
  requires c != nil;
  modifies c.PerRequestContext, c.offset, c.handlers;
  ensures [before the first handler] c.offset == 0 - 1 && len(c.handlers) == 0;
}
func "(*Context).ResetOffset"(c) {
  requires c != nil;
  modifies c.offset;
  ensures [before the first handler] c.offset == 0 - 1;
}
