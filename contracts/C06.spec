// which handlers a message runs
use "route.spec";
use "syncmap.spec";
use "mux.spec";
assumption "registered handlers and middlewares are not nil, and a message's chain has at most 2019 of them";
assumption "registration is finished before the server serves; every handler was registered with the registration functions of the server";
stable "o:TcpX.Mux", "o:TcpX.Packx", "o:TcpX.OnMessage", "o:TcpX.HandleRaw";
// whether a handler was registered while a middleware was in use: the windows that C08 is about (they are only read here)
ufunc cov(sa, so, sl, ea, eo, el, h) : bool;
def applies(a, h) = cov(arr(a.AnchorStartIndexRange), off(a.AnchorStartIndexRange), len(a.AnchorStartIndexRange), arr(a.AnchorEndIndexRange), off(a.AnchorEndIndexRange), len(a.AnchorEndIndexRange), h);
from C08 "(*MiddlewareAnchor).Contains"(a, h) -> (r) {
  requires a != nil && len(a.AnchorEndIndexRange) <= len(a.AnchorStartIndexRange) && len(a.AnchorStartIndexRange) <= len(a.AnchorEndIndexRange) + 1;
  ensures r <==> applies(*a, h);
}
from C09 "(Context).RouterType"(c) -> (s) {
  requires remembered(c);
  modifies smdom(c.PerRequestContext, boxed("string", "router_type")), smv(c.PerRequestContext, boxed("string", "router_type"));
  ensures s == rtype(c.Stream);
  ensures remembered(c);
}
from C09 "URLPatternOf"(stream) -> (s, err) {
  ensures (err == nil) <==> haspattern(stream);
  ensures err == nil ==> s == pattern(stream);
}
from C09 "(*Context).GetURLPattern"(c) -> (s, err) {
  requires c != nil && remembered(*c);
  modifies smdom(c.PerRequestContext, boxed("string", "url_pattern")), smv(c.PerRequestContext, boxed("string", "url_pattern"));
  ensures (err == nil) <==> haspattern(c.Stream);
  ensures err == nil ==> s == pattern(c.Stream);
  ensures remembered(*c);
}
from C07 "(*Context).Next"(c) { requires c != nil; modifies *; maypanic; }
from C07 "(*Context).Reset"(c) { requires c != nil; modifies c.PerRequestContext, c.offset, c.handlers; }
extern "callback:func(*Context)"(f, c) { modifies *; maypanic; }
// --- what should run
def mid(s) = i32(be32(s, 4));
def hasid(srv, s) = len(s) >= 8 && (mid(s) in srv.Mux.Handlers);
def hasurl(srv, s) = haspattern(s) && (pattern(s) in srv.Mux.urlMux.urlPatternMux);
def byid(srv, s) = srv.OnMessage == nil && rtype(s) == MESSAGEID;
def byurl(srv, s) = srv.OnMessage == nil && rtype(s) == URLPATTERN;
def bypass(srv, s) = (srv.HeartBeatOn && mid(s) == srv.HeartBeatMessageID && !srv.ThroughMiddleware) || (srv.auth && mid(s) == srv.AuthMessageID && !srv.AuthThroughMiddleware);
ghost raw() : bool; ghost runs() : nat; ghost direct() : nat;
// whether the j-th anchored middleware is in force for the handler of this message, and how many before it are
ghost force(j) : bool; ghost rank(j) : nat; ghost ix() : int;
stable ghost raw, ghost runs, ghost direct, ghost force, ghost rank, ghost ix;
def all(srv, s) = raw() || srv.OnMessage != nil;
def G(srv) = len(srv.Mux.GlobalMiddlewares);
def N(srv) = len(srv.Mux.MiddlewareAnchors);
def self(srv, s) = srv.Mux.MessageIDSelfMiddleware[mid(s)];
def S(srv, s) = (mid(s) in srv.Mux.MessageIDSelfMiddleware) ? len(self(srv, s)) : 0;
def urls(srv, s) = srv.Mux.urlMux.urlPatternMux[pattern(s)];
def defined(ctx, srv) = (all(srv, ctx.Stream) ==> (forall j :: force(j)))
  && ((!all(srv, ctx.Stream) && byid(srv, ctx.Stream)) ==> ix() == srv.Mux.MessageIDAnchorMap[mid(ctx.Stream)].AnchorIndex)
  && ((!all(srv, ctx.Stream) && byurl(srv, ctx.Stream)) ==> ix() == srv.Mux.urlMux.URLAnchorMap[pattern(ctx.Stream)].AnchorIndex)
  && (!all(srv, ctx.Stream) ==> (forall j :: (0 <= j && j < N(srv)) ==> (force(j) <==> applies(srv.Mux.MiddlewareAnchors[j], ix()))))
  && rank(0) == 0 && (forall j :: (0 <= j && j < N(srv)) ==> rank(j + 1) == rank(j) + (force(j) ? 1 : 0));
def ready(ctx, srv) = ctx != nil && srv != nil && srv.Mux != nil && srv.Mux.Mutex != nil && srv.Mux.urlMux != nil && srv.Packx != nil
  && (hasid(srv, ctx.Stream) ==> (mid(ctx.Stream) in srv.Mux.MessageIDAnchorMap))
  && (hasurl(srv, ctx.Stream) ==> (pattern(ctx.Stream) in srv.Mux.urlMux.URLAnchorMap))
  && (forall j :: (0 <= j && j < N(srv)) ==> (len(srv.Mux.MiddlewareAnchors[j].AnchorEndIndexRange) <= len(srv.Mux.MiddlewareAnchors[j].AnchorStartIndexRange) && len(srv.Mux.MiddlewareAnchors[j].AnchorStartIndexRange) <= len(srv.Mux.MiddlewareAnchors[j].AnchorEndIndexRange) + 1))
  && ctx.offset == 0 - 1 && len(ctx.handlers) == 0 && remembered(*ctx)
  && sep(ctx.handlers, srv.Mux.GlobalMiddlewares)
  && (len(ctx.Stream) >= 8 ==> sep(ctx.handlers, self(srv, ctx.Stream)))
  && (haspattern(ctx.Stream) ==> sep(ctx.handlers, urls(srv, ctx.Stream)));
on "call:(*Context).Next"(c) {
  assert [the chain of the message runs once, on its context] c == ctx && runs() == 0;
  assert [the chain starts at its beginning] c.offset == 0 - 1;
  assert [a message routed by id runs only a registered handler] (!old(all(srv, ctx.Stream)) && old(byid(srv, ctx.Stream))) ==> old(hasid(srv, ctx.Stream));
  assert [messages that bypass middleware do not run it] (!old(all(srv, ctx.Stream)) && old(byid(srv, ctx.Stream))) ==> !old(bypass(srv, ctx.Stream));
  assert [a message routed by url runs only registered handlers] (!old(all(srv, ctx.Stream)) && old(byurl(srv, ctx.Stream))) ==> old(hasurl(srv, ctx.Stream));
  assert [only routed messages run a chain] old(all(srv, ctx.Stream)) || old(byid(srv, ctx.Stream)) || old(byurl(srv, ctx.Stream));
  assert [global middlewares come first, in order] len(c.handlers) >= old(G(srv)) && (forall i :: (0 <= i && i < old(G(srv))) ==> c.handlers[i] == old(srv.Mux.GlobalMiddlewares[i]));
  assert [then the anchored middlewares in force, in order] len(c.handlers) >= old(G(srv)) + rank(old(N(srv))) && (forall j :: (0 <= j && j < old(N(srv)) && force(j)) ==> c.handlers[old(G(srv)) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  if (old(all(srv, ctx.Stream))) {
    assert [then the catch-all, and nothing else] len(c.handlers) == old(G(srv)) + rank(old(N(srv))) + 1 && c.handlers[len(c.handlers) - 1] == (raw() ? srv.HandleRaw : srv.OnMessage);
  }
  if (old(!all(srv, ctx.Stream) && byid(srv, ctx.Stream))) {
    assert [then the middlewares of the handler, in order] forall i :: (0 <= i && i < old(S(srv, ctx.Stream))) ==> c.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(self(srv, ctx.Stream)[i]);
    assert [then the handler, and nothing else] len(c.handlers) == old(G(srv)) + rank(old(N(srv))) + old(S(srv, ctx.Stream)) + 1 && c.handlers[len(c.handlers) - 1] == old(srv.Mux.Handlers[mid(ctx.Stream)]);
  }
  if (old(!all(srv, ctx.Stream) && byurl(srv, ctx.Stream))) {
    assert [then the handlers of the url, in order, and nothing else] len(c.handlers) == old(G(srv)) + rank(old(N(srv))) + old(len(urls(srv, ctx.Stream))) && (forall i :: (0 <= i && i < old(len(urls(srv, ctx.Stream)))) ==> c.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(urls(srv, ctx.Stream)[i]));
  }
  set runs() = runs() + 1;
}
on "call:callback:func(*Context)"(f, c) {
  assert [only messages that bypass middleware run a handler directly] !raw() && old(byid(srv, ctx.Stream) && hasid(srv, ctx.Stream) && bypass(srv, ctx.Stream));
  assert [its own handler, once, on its context] runs() == 0 && direct() == 0 && c == ctx && f == old(srv.Mux.Handlers[mid(ctx.Stream)]);
  set direct() = direct() + 1;
}
// registrations are only read
on "mapwrite"(m, k, v) { assert [no registration is changed] fresh(m); }
on "mapdelete"(m, k) { assert [no registration is changed] fresh(m); }
on "write:Mux.GlobalMiddlewares"(x) { assert [no registration is changed] fresh(x); }
on "write:Mux.MiddlewareAnchors"(x) { assert [no registration is changed] fresh(x); }
func "handleMiddleware"(ctx, srv) {
  native; merge;
  requires ready(ctx, srv) && !raw() && defined(ctx, srv) && runs() == 0 && direct() == 0;
  modifies *;
  maypanic;
  loopinv len(ctx.handlers) == G(srv) + rank($i + 1);
  loopinv len(ctx.handlers) == G(srv) + rank($i);
  loopinv runs() == 0 && direct() == 0;
  loopinv forall i :: 0 <= i && i < old(S(srv, ctx.Stream)) ==> self(srv, ctx.Stream)[i] == old(self(srv, ctx.Stream)[i]);
  loopinv forall i :: 0 <= i && i < old(len(urls(srv, ctx.Stream))) ==> urls(srv, ctx.Stream)[i] == old(urls(srv, ctx.Stream)[i]);
  loopinv sep(ctx.handlers, old(self(srv, ctx.Stream)));
  loopinv sep(ctx.handlers, old(urls(srv, ctx.Stream)));
  loopinv fresh(arr(ctx.handlers)) || arr(ctx.handlers) == old(arr(ctx.handlers));
  loopinv ctx.offset == 0 - 1;
  loopinv forall k :: 0 <= k && k < G(srv) ==> ctx.handlers[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv forall j :: 0 <= j && j <= $i && force(j) ==> (G(srv) + rank(j) < len(ctx.handlers) && ctx.handlers[G(srv) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv forall j :: 0 <= j && j < $i && force(j) ==> (G(srv) + rank(j) < len(ctx.handlers) && ctx.handlers[G(srv) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv2 len(ctx.handlers) == $i;
  loopinv2 forall k :: 0 <= k && k < $i ==> ctx.handlers[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall i :: 0 <= i && i < $i && i < old(S(srv, ctx.Stream)) ==> ctx.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(self(srv, ctx.Stream)[i]);
  loopinv2 forall i :: 0 <= i && i < $i && i < old(len(urls(srv, ctx.Stream))) ==> ctx.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(urls(srv, ctx.Stream)[i]);
  loopinv2 len(ctx.handlers) == old(G(srv)) + rank(old(N(srv))) + $i;
  loopinv2 len(ctx.handlers) == $i + 1;
  loopinv2 forall k :: 0 <= k && k <= $i ==> ctx.handlers[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall i :: 0 <= i && i <= $i && i < old(S(srv, ctx.Stream)) ==> ctx.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(self(srv, ctx.Stream)[i]);
  loopinv2 forall i :: 0 <= i && i <= $i && i < old(len(urls(srv, ctx.Stream))) ==> ctx.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(urls(srv, ctx.Stream)[i]);
  loopinv2 len(ctx.handlers) == old(G(srv)) + rank(old(N(srv))) + $i + 1;
  loopinv2 forall j :: 0 <= j && j < old(N(srv)) && force(j) ==> (old(G(srv)) + rank(j) < len(ctx.handlers) && ctx.handlers[old(G(srv)) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv2 sep(ctx.handlers, old(srv.Mux.GlobalMiddlewares));
  loopinv2 forall k :: 0 <= k && k < old(G(srv)) ==> srv.Mux.GlobalMiddlewares[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 len($s) == $i;
  loopinv2 forall k :: 0 <= k && k < $i ==> $s[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall i :: 0 <= i && i < $i && i < old(S(srv, ctx.Stream)) ==> $s[old(G(srv)) + rank(old(N(srv))) + i] == old(self(srv, ctx.Stream)[i]);
  loopinv2 forall i :: 0 <= i && i < $i && i < old(len(urls(srv, ctx.Stream))) ==> $s[old(G(srv)) + rank(old(N(srv))) + i] == old(urls(srv, ctx.Stream)[i]);
  loopinv2 len($s) == old(G(srv)) + rank(old(N(srv))) + $i;
  loopinv2 len($s) == $i + 1;
  loopinv2 forall k :: 0 <= k && k <= $i ==> $s[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall i :: 0 <= i && i <= $i && i < old(S(srv, ctx.Stream)) ==> $s[old(G(srv)) + rank(old(N(srv))) + i] == old(self(srv, ctx.Stream)[i]);
  loopinv2 forall i :: 0 <= i && i <= $i && i < old(len(urls(srv, ctx.Stream))) ==> $s[old(G(srv)) + rank(old(N(srv))) + i] == old(urls(srv, ctx.Stream)[i]);
  loopinv2 len($s) == old(G(srv)) + rank(old(N(srv))) + $i + 1;
  loopinv2 forall j :: 0 <= j && j < old(N(srv)) && force(j) ==> (old(G(srv)) + rank(j) < len($s) && $s[old(G(srv)) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv2 len($s) == old(G(srv)) + rank($i + 1);
  loopinv2 len($s) == old(G(srv)) + rank($i);
  loopinv2 sep($s, old(self(srv, ctx.Stream)));
  loopinv2 sep($s, old(urls(srv, ctx.Stream)));
  loopinv2 sep($s, old(srv.Mux.GlobalMiddlewares));
  loopinv2 fresh(arr($s)) || arr($s) == old(arr(ctx.handlers));
  loopinv2 forall k :: 0 <= k && k < old(G(srv)) ==> $s[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall j :: 0 <= j && j <= $i && force(j) ==> (old(G(srv)) + rank(j) < len($s) && $s[old(G(srv)) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv2 forall j :: 0 <= j && j < $i && force(j) ==> (old(G(srv)) + rank(j) < len($s) && $s[old(G(srv)) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  ensures [a message routed by url runs its chain] old(byurl(srv, ctx.Stream) && hasurl(srv, ctx.Stream)) ==> (runs() == 1 || old(G(srv)) + rank(old(N(srv))) + old(len(urls(srv, ctx.Stream))) == 0);
  ensures [any other routed message runs its chain, nothing else does] old(!(byurl(srv, ctx.Stream) && hasurl(srv, ctx.Stream))) ==> (runs() == (old(srv.OnMessage != nil || (byid(srv, ctx.Stream) && hasid(srv, ctx.Stream) && !bypass(srv, ctx.Stream))) ? 1 : 0));
  ensures [a message that bypasses middleware runs its handler] direct() == (old(byid(srv, ctx.Stream) && hasid(srv, ctx.Stream) && bypass(srv, ctx.Stream)) ? 1 : 0);
}
func "handleRaw"(ctx, srv) {
  native; merge;
  requires ready(ctx, srv) && raw() && defined(ctx, srv) && runs() == 0 && direct() == 0;
  modifies *;
  maypanic;
  loopinv len(ctx.handlers) == G(srv) + rank($i + 1);
  loopinv len(ctx.handlers) == G(srv) + rank($i);
  loopinv runs() == 0 && direct() == 0;
  loopinv forall i :: 0 <= i && i < old(S(srv, ctx.Stream)) ==> self(srv, ctx.Stream)[i] == old(self(srv, ctx.Stream)[i]);
  loopinv forall i :: 0 <= i && i < old(len(urls(srv, ctx.Stream))) ==> urls(srv, ctx.Stream)[i] == old(urls(srv, ctx.Stream)[i]);
  loopinv sep(ctx.handlers, old(self(srv, ctx.Stream)));
  loopinv sep(ctx.handlers, old(urls(srv, ctx.Stream)));
  loopinv fresh(arr(ctx.handlers)) || arr(ctx.handlers) == old(arr(ctx.handlers));
  loopinv ctx.offset == 0 - 1;
  loopinv forall k :: 0 <= k && k < G(srv) ==> ctx.handlers[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv forall j :: 0 <= j && j <= $i && force(j) ==> (G(srv) + rank(j) < len(ctx.handlers) && ctx.handlers[G(srv) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv forall j :: 0 <= j && j < $i && force(j) ==> (G(srv) + rank(j) < len(ctx.handlers) && ctx.handlers[G(srv) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv2 len(ctx.handlers) == $i;
  loopinv2 forall k :: 0 <= k && k < $i ==> ctx.handlers[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall i :: 0 <= i && i < $i && i < old(S(srv, ctx.Stream)) ==> ctx.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(self(srv, ctx.Stream)[i]);
  loopinv2 forall i :: 0 <= i && i < $i && i < old(len(urls(srv, ctx.Stream))) ==> ctx.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(urls(srv, ctx.Stream)[i]);
  loopinv2 len(ctx.handlers) == old(G(srv)) + rank(old(N(srv))) + $i;
  loopinv2 len(ctx.handlers) == $i + 1;
  loopinv2 forall k :: 0 <= k && k <= $i ==> ctx.handlers[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall i :: 0 <= i && i <= $i && i < old(S(srv, ctx.Stream)) ==> ctx.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(self(srv, ctx.Stream)[i]);
  loopinv2 forall i :: 0 <= i && i <= $i && i < old(len(urls(srv, ctx.Stream))) ==> ctx.handlers[old(G(srv)) + rank(old(N(srv))) + i] == old(urls(srv, ctx.Stream)[i]);
  loopinv2 len(ctx.handlers) == old(G(srv)) + rank(old(N(srv))) + $i + 1;
  loopinv2 forall j :: 0 <= j && j < old(N(srv)) && force(j) ==> (old(G(srv)) + rank(j) < len(ctx.handlers) && ctx.handlers[old(G(srv)) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv2 sep(ctx.handlers, old(srv.Mux.GlobalMiddlewares));
  loopinv2 forall k :: 0 <= k && k < old(G(srv)) ==> srv.Mux.GlobalMiddlewares[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 len($s) == $i;
  loopinv2 forall k :: 0 <= k && k < $i ==> $s[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall i :: 0 <= i && i < $i && i < old(S(srv, ctx.Stream)) ==> $s[old(G(srv)) + rank(old(N(srv))) + i] == old(self(srv, ctx.Stream)[i]);
  loopinv2 forall i :: 0 <= i && i < $i && i < old(len(urls(srv, ctx.Stream))) ==> $s[old(G(srv)) + rank(old(N(srv))) + i] == old(urls(srv, ctx.Stream)[i]);
  loopinv2 len($s) == old(G(srv)) + rank(old(N(srv))) + $i;
  loopinv2 len($s) == $i + 1;
  loopinv2 forall k :: 0 <= k && k <= $i ==> $s[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall i :: 0 <= i && i <= $i && i < old(S(srv, ctx.Stream)) ==> $s[old(G(srv)) + rank(old(N(srv))) + i] == old(self(srv, ctx.Stream)[i]);
  loopinv2 forall i :: 0 <= i && i <= $i && i < old(len(urls(srv, ctx.Stream))) ==> $s[old(G(srv)) + rank(old(N(srv))) + i] == old(urls(srv, ctx.Stream)[i]);
  loopinv2 len($s) == old(G(srv)) + rank(old(N(srv))) + $i + 1;
  loopinv2 forall j :: 0 <= j && j < old(N(srv)) && force(j) ==> (old(G(srv)) + rank(j) < len($s) && $s[old(G(srv)) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv2 len($s) == old(G(srv)) + rank($i + 1);
  loopinv2 len($s) == old(G(srv)) + rank($i);
  loopinv2 sep($s, old(self(srv, ctx.Stream)));
  loopinv2 sep($s, old(urls(srv, ctx.Stream)));
  loopinv2 sep($s, old(srv.Mux.GlobalMiddlewares));
  loopinv2 fresh(arr($s)) || arr($s) == old(arr(ctx.handlers));
  loopinv2 forall k :: 0 <= k && k < old(G(srv)) ==> $s[k] == old(srv.Mux.GlobalMiddlewares[k]);
  loopinv2 forall j :: 0 <= j && j <= $i && force(j) ==> (old(G(srv)) + rank(j) < len($s) && $s[old(G(srv)) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  loopinv2 forall j :: 0 <= j && j < $i && force(j) ==> (old(G(srv)) + rank(j) < len($s) && $s[old(G(srv)) + rank(j)] == old(srv.Mux.MiddlewareAnchors[j].Middleware));
  ensures [the chain runs] runs() == 1 && direct() == 0;
}
