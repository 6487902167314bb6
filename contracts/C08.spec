use "mux.spec";
func "(*MiddlewareAnchor).Contains"(a, h) -> (r) {
  requires a != nil && len(a.AnchorEndIndexRange) <= len(a.AnchorStartIndexRange) && len(a.AnchorStartIndexRange) <= len(a.AnchorEndIndexRange) + 1;
  loopinv forall j :: 0 <= j && j < $i ==> !win(a, h, j);
  loopinv forall j :: 0 <= j && j <= $i ==> !win(a, h, j);
  loopinv forall j :: $i < j && j < len(a.AnchorStartIndexRange) ==> !win(a, h, j);
  ensures [applies only inside a Use..UnUse window] r ==> covers(*a, h);
  ensures [applies to everything inside a window] !r ==> (forall i :: 0 <= i && i < len(a.AnchorStartIndexRange) ==> !win(a, h, i));
}
func "NewMux"() -> (mux) {
  fresh mux;
  ensures muxwf(mux) && mux.indexSeed == 1 && len(mux.MiddlewareAnchors) == 0 && mux.AllowAdd;
  ensures (forall k "string" :: !(k in mux.MiddlewareAnchorMap)) && (forall id "int32" :: !(id in mux.MessageIDAnchorMap) && !(id in mux.Handlers) && !(id in mux.MessageIDSelfMiddleware)) && (forall u "string" :: !(u in mux.urlMux.URLAnchorMap));
}
func "(*MiddlewareAnchor).callUse"(a, index) {
  optional;
  requires a != nil;
  modifies a.AnchorStartIndexRange, a.info, next(a.AnchorStartIndexRange), next(a.info.WhereUse);
  panics inuse(*a);
  ensures [a window opens now] len(a.AnchorStartIndexRange) == old(len(a.AnchorStartIndexRange)) + 1 && a.AnchorStartIndexRange[old(len(a.AnchorStartIndexRange))] == index;
  ensures [earlier windows are kept] forall i :: 0 <= i && i < old(len(a.AnchorStartIndexRange)) ==> a.AnchorStartIndexRange[i] == old(a.AnchorStartIndexRange[i]);
  ensures fresh(arr(a.AnchorStartIndexRange)) || (arr(a.AnchorStartIndexRange) == old(arr(a.AnchorStartIndexRange)) && off(a.AnchorStartIndexRange) == old(off(a.AnchorStartIndexRange)) && cap(a.AnchorStartIndexRange) == old(cap(a.AnchorStartIndexRange)));
}
func "(*MiddlewareAnchor).callUnUse"(a, index) {
  optional;
  requires a != nil;
  modifies a.AnchorEndIndexRange, a.info, next(a.AnchorEndIndexRange), next(a.info.WhereUnUse);
  panics !inuse(*a);
  ensures [the window closes now] len(a.AnchorEndIndexRange) == old(len(a.AnchorEndIndexRange)) + 1 && a.AnchorEndIndexRange[old(len(a.AnchorEndIndexRange))] == index;
  ensures [earlier windows are kept] forall i :: 0 <= i && i < old(len(a.AnchorEndIndexRange)) ==> a.AnchorEndIndexRange[i] == old(a.AnchorEndIndexRange[i]);
  ensures fresh(arr(a.AnchorEndIndexRange)) || (arr(a.AnchorEndIndexRange) == old(arr(a.AnchorEndIndexRange)) && off(a.AnchorEndIndexRange) == old(off(a.AnchorEndIndexRange)) && cap(a.AnchorEndIndexRange) == old(cap(a.AnchorEndIndexRange)));
  ensures fresh(arr(a.info.WhereUnUse)) || (arr(a.info.WhereUnUse) == old(arr(a.info.WhereUnUse)) && cap(a.info.WhereUnUse) == old(cap(a.info.WhereUnUse)));
}
func "(*Mux).ReplaceMiddlewareAnchor"(mux, anchor) {
  optional;
  requires mux != nil && mux.Mutex != nil && wfunique(mux) && (anchor.MiddlewareKey in mux.MiddlewareAnchorMap) && len(mux.MiddlewareAnchors) > 0;
  modifies map(mux.MiddlewareAnchorMap), elems(mux.MiddlewareAnchors);
  loopinv forall j :: 0 <= j && j < $i ==> mux.MiddlewareAnchors[j].MiddlewareKey != anchor.MiddlewareKey;
  loopinv forall j :: 0 <= j && j <= $i ==> mux.MiddlewareAnchors[j].MiddlewareKey != anchor.MiddlewareKey;
  ensures [the map entry is replaced] (anchor.MiddlewareKey in mux.MiddlewareAnchorMap) && mux.MiddlewareAnchorMap[anchor.MiddlewareKey] == anchor;
  ensures [the other map entries are kept] forall k "string" :: k != anchor.MiddlewareKey ==> (((k in mux.MiddlewareAnchorMap) <==> old(k in mux.MiddlewareAnchorMap)) && mux.MiddlewareAnchorMap[k] == old(mux.MiddlewareAnchorMap[k]));
  ensures [every key stays listed] old(wflisted(mux)) ==> wflisted(mux);
  ensures [the list entry is replaced] forall i :: 0 <= i && i < len(mux.MiddlewareAnchors) ==> (mux.MiddlewareAnchors[i] == (old(mux.MiddlewareAnchors[i].MiddlewareKey) == anchor.MiddlewareKey ? anchor : old(mux.MiddlewareAnchors[i])));
}
func "(*Mux).AddMiddlewareAnchor"(mux, anchor) {
  optional; native;
  requires mux != nil && mux.Mutex != nil && mux.MiddlewareAnchorMap != nil && !(anchor.MiddlewareKey in mux.MiddlewareAnchorMap);
  modifies mux.MiddlewareAnchors, map(mux.MiddlewareAnchorMap), next(mux.MiddlewareAnchors);
  ensures [a new key is recorded] (anchor.MiddlewareKey in mux.MiddlewareAnchorMap) && mux.MiddlewareAnchorMap[anchor.MiddlewareKey] == anchor
     && len(mux.MiddlewareAnchors) == old(len(mux.MiddlewareAnchors)) + 1 && mux.MiddlewareAnchors[old(len(mux.MiddlewareAnchors))] == anchor;
  ensures [the other map entries are kept] forall k "string" :: k != anchor.MiddlewareKey ==> (((k in mux.MiddlewareAnchorMap) <==> old(k in mux.MiddlewareAnchorMap)) && mux.MiddlewareAnchorMap[k] == old(mux.MiddlewareAnchorMap[k]));
  ensures [every key is listed] old(wflisted(mux)) ==> wflisted(mux);
  ensures [the list is kept in order] forall i :: 0 <= i && i < old(len(mux.MiddlewareAnchors)) ==> mux.MiddlewareAnchors[i] == old(mux.MiddlewareAnchors[i]);
}
// to every index handed out before, the windows of every middleware look as they did
def keepsold(mux, seed) = forall k "string", i :: (old(k in mux.MiddlewareAnchorMap) && 0 <= i && i < old(len(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange))) ==>
   ((k in mux.MiddlewareAnchorMap) && i < len(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange) && mux.MiddlewareAnchorMap[k].AnchorStartIndexRange[i] == old(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange[i])
    && (i < old(len(mux.MiddlewareAnchorMap[k].AnchorEndIndexRange)) ==> (i < len(mux.MiddlewareAnchorMap[k].AnchorEndIndexRange) && mux.MiddlewareAnchorMap[k].AnchorEndIndexRange[i] == old(mux.MiddlewareAnchorMap[k].AnchorEndIndexRange[i])))
    && ((i >= old(len(mux.MiddlewareAnchorMap[k].AnchorEndIndexRange)) && i < len(mux.MiddlewareAnchorMap[k].AnchorEndIndexRange)) ==> mux.MiddlewareAnchorMap[k].AnchorEndIndexRange[i] >= seed));
def addsnew(mux, seed) = forall k "string", i :: ((k in mux.MiddlewareAnchorMap) && 0 <= i && i < len(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange) && (!old(k in mux.MiddlewareAnchorMap) || i >= old(len(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange)))) ==> mux.MiddlewareAnchorMap[k].AnchorStartIndexRange[i] > seed;
def handlerskept(mux) = mux.Handlers == old(mux.Handlers) && (forall id "int32" :: ((id in mux.Handlers) <==> old(id in mux.Handlers)) && mux.Handlers[id] == old(mux.Handlers[id]))
  && mux.MessageIDAnchorMap == old(mux.MessageIDAnchorMap) && (forall id "int32" :: ((id in mux.MessageIDAnchorMap) <==> old(id in mux.MessageIDAnchorMap)) && mux.MessageIDAnchorMap[id].AnchorIndex == old(mux.MessageIDAnchorMap[id].AnchorIndex))
  && mux.urlMux == old(mux.urlMux) && mux.urlMux.URLAnchorMap == old(mux.urlMux.URLAnchorMap) && (forall u "string" :: ((u in mux.urlMux.URLAnchorMap) <==> old(u in mux.urlMux.URLAnchorMap)) && mux.urlMux.URLAnchorMap[u].AnchorIndex == old(mux.urlMux.URLAnchorMap[u].AnchorIndex));
// the positions noted for error messages are not kept in an array of the caller
def notesapart(mux, s) = forall k "string" :: (k in mux.MiddlewareAnchorMap) ==> sep(mux.MiddlewareAnchorMap[k].info.WhereUnUse, s);
def keepsinuse(mux) = forall k "string" :: old(keyinuse(mux, k)) ==> keyinuse(mux, k);
def keepsidle(mux) = forall k "string" :: keyinuse(mux, k) ==> old(keyinuse(mux, k));
def newinuse(mux) = forall k "string" :: ((k in mux.MiddlewareAnchorMap) && !old(k in mux.MiddlewareAnchorMap)) ==> keyinuse(mux, k);
def keepsmid(mux) = forall k "string" :: old(k in mux.MiddlewareAnchorMap) ==> ((k in mux.MiddlewareAnchorMap) && mux.MiddlewareAnchorMap[k].Middleware == old(mux.MiddlewareAnchorMap[k].Middleware));
func "(*TcpX).Use"(srv, mids) {
  native;
  requires srv != nil && srv.Mux != nil && muxwf(srv.Mux) && srv.Mux.indexSeed + len(mids) < 2147483646;
  modifies *;
  loopinv muxbase(srv.Mux) && srv.Mux == old(srv.Mux) && srv.Mux.indexSeed >= old(srv.Mux.indexSeed);
  loopinv wflens(srv.Mux);
  loopinv wfstarts(srv.Mux, srv.Mux.indexSeed);
  loopinv wfends(srv.Mux, srv.Mux.indexSeed);
  loopinv wfkeys(srv.Mux);
  loopinv wflist(srv.Mux);
  loopinv wfunique(srv.Mux);
  loopinv wflisted(srv.Mux);
  loopinv wfsep1(srv.Mux);
  loopinv wfsep2(srv.Mux);
  loopinv indexwf(srv.Mux, srv.Mux.indexSeed);
  loopinv srv.Mux.indexSeed - old(srv.Mux.indexSeed) <= $i;
  loopinv keepsold(srv.Mux, old(srv.Mux.indexSeed));
  loopinv addsnew(srv.Mux, old(srv.Mux.indexSeed));
  loopinv handlerskept(srv.Mux);
  loopinv 2 * ($i / 2) == $i;
  loopinv forall j :: 0 <= j && j < $i && (mids[j] is "string") ==> keyinuse(srv.Mux, mids[j] as "string");
  ensures [the mux stays consistent] muxwf(srv.Mux) && srv.Mux == old(srv.Mux);
  ensures [a key put in use is in use] forall j :: 0 <= j && j < len(mids) && (mids[j] is "string") ==> keyinuse(srv.Mux, mids[j] as "string");
  loopinv keepsinuse(srv.Mux);
  loopinv newinuse(srv.Mux);
  loopinv keepsmid(srv.Mux);
  loopinv forall j :: 0 <= j && j < $i && (mids[j] is "string") ==> !old(keyinuse(srv.Mux, mids[j] as "string"));
  loopinv forall j :: 0 <= j && j < $i && (mids[j] is "string") && !old((mids[j] as "string") in srv.Mux.MiddlewareAnchorMap) ==> ((mids[j+1] is "func(*Context)") && srv.Mux.MiddlewareAnchorMap[mids[j] as "string"].Middleware == (mids[j+1] as "func(*Context)"));
  ensures [a key already in use is refused] forall j :: 0 <= j && j < len(mids) && (mids[j] is "string") ==> !old(keyinuse(srv.Mux, mids[j] as "string"));
  ensures [a new key stands for the middleware given with it] keepsmid(srv.Mux) && (forall j :: 0 <= j && j < len(mids) && (mids[j] is "string") && !old((mids[j] as "string") in srv.Mux.MiddlewareAnchorMap) ==> ((mids[j+1] is "func(*Context)") && srv.Mux.MiddlewareAnchorMap[mids[j] as "string"].Middleware == (mids[j+1] as "func(*Context)")));
  ensures [registered handlers keep their place] handlerskept(srv.Mux);
  ensures [windows of registered handlers are kept] keepsold(srv.Mux, old(srv.Mux.indexSeed));
  ensures [new windows do not cover registered handlers] addsnew(srv.Mux, old(srv.Mux.indexSeed));
  maypanic;
}
func "(*TcpX).UnUse"(srv, keys) {
  native;
  requires srv != nil && srv.Mux != nil && muxwf(srv.Mux) && srv.Mux.indexSeed + len(keys) < 2147483646 && notesapart(srv.Mux, keys);
  modifies *;
  loopinv muxbase(srv.Mux) && srv.Mux == old(srv.Mux) && srv.Mux.indexSeed >= old(srv.Mux.indexSeed);
  loopinv wflens(srv.Mux);
  loopinv wfstarts(srv.Mux, srv.Mux.indexSeed);
  loopinv wfends(srv.Mux, srv.Mux.indexSeed);
  loopinv wfkeys(srv.Mux);
  loopinv wflist(srv.Mux);
  loopinv wfunique(srv.Mux);
  loopinv wflisted(srv.Mux);
  loopinv wfsep1(srv.Mux);
  loopinv wfsep2(srv.Mux);
  loopinv indexwf(srv.Mux, srv.Mux.indexSeed);
  loopinv srv.Mux.indexSeed - old(srv.Mux.indexSeed) <= $i;
  loopinv srv.Mux.indexSeed - old(srv.Mux.indexSeed) <= $i + 1;
  loopinv keepsold(srv.Mux, old(srv.Mux.indexSeed));
  loopinv addsnew(srv.Mux, old(srv.Mux.indexSeed));
  loopinv handlerskept(srv.Mux);
  loopinv notesapart(srv.Mux, keys);
  loopinv forall j :: 0 <= j && j < len(keys) ==> keys[j] == old(keys[j]);
  loopinv keepsidle(srv.Mux);
  loopinv keepsmid(srv.Mux);
  loopinv forall j :: 0 <= j && j < $i ==> ((keys[j] in srv.Mux.MiddlewareAnchorMap) && !keyinuse(srv.Mux, keys[j]));
  loopinv forall j :: 0 <= j && j <= $i ==> ((keys[j] in srv.Mux.MiddlewareAnchorMap) && !keyinuse(srv.Mux, keys[j]));
  loopinv forall j :: 0 <= j && j < $i ==> old(keyinuse(srv.Mux, keys[j]));
  loopinv forall j :: 0 <= j && j <= $i ==> old(keyinuse(srv.Mux, keys[j]));
  ensures [the mux stays consistent] muxwf(srv.Mux) && srv.Mux == old(srv.Mux);
  ensures [a key taken out of use is not in use] forall j :: 0 <= j && j < len(keys) ==> !keyinuse(srv.Mux, keys[j]);
  ensures [a key not in use is refused] forall j :: 0 <= j && j < len(keys) ==> old(keyinuse(srv.Mux, keys[j]));
  ensures [keys stand for the same middleware] keepsmid(srv.Mux);
  ensures [registered handlers keep their place] handlerskept(srv.Mux);
  ensures [windows of registered handlers are kept] keepsold(srv.Mux, old(srv.Mux.indexSeed));
  ensures [new windows do not cover registered handlers] addsnew(srv.Mux, old(srv.Mux.indexSeed));
  maypanic;
}
