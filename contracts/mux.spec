// --- the registration state of a mux
assumption "fewer than 2^31 - 2 registrations, Use and UnUse calls are made on a server";
extern "sync/atomic.AddInt32"(p, d) -> (r) {
  modifies *p;
  ensures r == i32(old(*p) + d) && *p == r;
}
// a middleware was put in use at Start[i] and taken out of use at End[i]
def anchorwf(a, seed) = len(a.AnchorEndIndexRange) <= len(a.AnchorStartIndexRange) && len(a.AnchorStartIndexRange) <= len(a.AnchorEndIndexRange) + 1
  && (forall i :: 0 <= i && i < len(a.AnchorStartIndexRange) ==> a.AnchorStartIndexRange[i] <= seed)
  && (forall i :: 0 <= i && i < len(a.AnchorEndIndexRange) ==> a.AnchorEndIndexRange[i] <= seed);
def inuse(a) = len(a.AnchorStartIndexRange) > len(a.AnchorEndIndexRange);
// the handler with index h was registered while the middleware was in use
def win(a, h, i) = a.AnchorStartIndexRange[i] <= h && (i < len(a.AnchorEndIndexRange) ==> h <= a.AnchorEndIndexRange[i]);
def covers(a, h) = exists i :: 0 <= i && i < len(a.AnchorStartIndexRange) && win(a, h, i);
def keyinuse(mux, k) = (k in mux.MiddlewareAnchorMap) && inuse(mux.MiddlewareAnchorMap[k]);
def sep(x, y) = cap(x) == 0 || cap(y) == 0 || arr(x) != arr(y);
def sameanchor(x, y) = x.MiddlewareKey == y.MiddlewareKey && x.Middleware == y.Middleware && x.AnchorStartIndexRange == y.AnchorStartIndexRange && x.AnchorEndIndexRange == y.AnchorEndIndexRange;
def wflens(mux) = forall k "string" :: (k in mux.MiddlewareAnchorMap) ==> (len(mux.MiddlewareAnchorMap[k].AnchorEndIndexRange) <= len(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange) && len(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange) <= len(mux.MiddlewareAnchorMap[k].AnchorEndIndexRange) + 1);
def wfstarts(mux, seed) = forall k "string", i :: ((k in mux.MiddlewareAnchorMap) && 0 <= i && i < len(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange)) ==> mux.MiddlewareAnchorMap[k].AnchorStartIndexRange[i] <= seed;
def wfends(mux, seed) = forall k "string", i :: ((k in mux.MiddlewareAnchorMap) && 0 <= i && i < len(mux.MiddlewareAnchorMap[k].AnchorEndIndexRange)) ==> mux.MiddlewareAnchorMap[k].AnchorEndIndexRange[i] <= seed;
def wfranges(mux, seed) = wflens(mux) && wfstarts(mux, seed) && wfends(mux, seed);
def wfkeys(mux) = forall k "string" :: (k in mux.MiddlewareAnchorMap) ==> mux.MiddlewareAnchorMap[k].MiddlewareKey == k;
def wflist(mux) = forall i :: 0 <= i && i < len(mux.MiddlewareAnchors) ==> ((mux.MiddlewareAnchors[i].MiddlewareKey in mux.MiddlewareAnchorMap) && sameanchor(mux.MiddlewareAnchors[i], mux.MiddlewareAnchorMap[mux.MiddlewareAnchors[i].MiddlewareKey]));
def wfunique(mux) = forall i, j :: 0 <= i && i < j && j < len(mux.MiddlewareAnchors) ==> mux.MiddlewareAnchors[i].MiddlewareKey != mux.MiddlewareAnchors[j].MiddlewareKey;
def wflisted(mux) = forall k "string" :: (k in mux.MiddlewareAnchorMap) ==> (exists i :: 0 <= i && i < len(mux.MiddlewareAnchors) && mux.MiddlewareAnchors[i].MiddlewareKey == k);
def wfsep1(mux) = forall k "string", l "string" :: ((k in mux.MiddlewareAnchorMap) && (l in mux.MiddlewareAnchorMap)) ==> sep(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange, mux.MiddlewareAnchorMap[l].AnchorEndIndexRange);
def wfsep2(mux) = forall k "string", l "string" :: ((k in mux.MiddlewareAnchorMap) && (l in mux.MiddlewareAnchorMap) && k != l) ==> (sep(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange, mux.MiddlewareAnchorMap[l].AnchorStartIndexRange) && sep(mux.MiddlewareAnchorMap[k].AnchorEndIndexRange, mux.MiddlewareAnchorMap[l].AnchorEndIndexRange));
// no index was handed out yet that is larger than seed
def indexwf(mux, seed) = (forall id "int32" :: (id in mux.MessageIDAnchorMap) ==> mux.MessageIDAnchorMap[id].AnchorIndex <= seed)
  && (forall u "string" :: (u in mux.urlMux.URLAnchorMap) ==> mux.urlMux.URLAnchorMap[u].AnchorIndex <= seed);
def muxbase(mux) = mux != nil && mux.Mutex != nil && mux.urlMux != nil && mux.Handlers != nil && mux.MessageIDSelfMiddleware != nil && mux.indexSeed >= 1
  && mux.MiddlewareAnchorMap != nil;
def muxwf(mux) = muxbase(mux)
  && wfranges(mux, mux.indexSeed) && wfkeys(mux) && wflist(mux) && wfunique(mux) && wflisted(mux) && wfsep1(mux) && wfsep2(mux) && indexwf(mux, mux.indexSeed);
