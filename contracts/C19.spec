// registrations: what is refused changes nothing, what succeeds changes only its own id or url
use "mux.spec";
assumption "handlers are registered from one goroutine, before the server serves (as documented)";
def regbase(mux) = mux != nil && mux.Mutex != nil && mux.urlMux != nil && mux.Handlers != nil && mux.MessageIDSelfMiddleware != nil
  && mux.urlMux.urlPatternMux != nil && mux.urlMux.urlRouteInfo != nil && mux.AllowAdd && !mux.urlMux.readOnly
  && (forall id "int32" :: (id in mux.Handlers) <==> (id in mux.MessageIDAnchorMap))
  && (forall id "int32" :: (id in mux.MessageIDSelfMiddleware) ==> (id in mux.Handlers))
  && (forall u "string" :: (u in mux.urlMux.urlPatternMux) <==> (u in mux.urlMux.URLAnchorMap));
def sameid(mux, j) = ((j in mux.Handlers) <==> old(j in mux.Handlers)) && mux.Handlers[j] == old(mux.Handlers[j])
  && ((j in mux.MessageIDAnchorMap) <==> old(j in mux.MessageIDAnchorMap)) && mux.MessageIDAnchorMap[j].AnchorIndex == old(mux.MessageIDAnchorMap[j].AnchorIndex)
  && ((j in mux.MessageIDSelfMiddleware) <==> old(j in mux.MessageIDSelfMiddleware)) && mux.MessageIDSelfMiddleware[j] == old(mux.MessageIDSelfMiddleware[j]);
def sameurl(mux, u) = ((u in mux.urlMux.urlPatternMux) <==> old(u in mux.urlMux.urlPatternMux)) && mux.urlMux.urlPatternMux[u] == old(mux.urlMux.urlPatternMux[u])
  && ((u in mux.urlMux.URLAnchorMap) <==> old(u in mux.urlMux.URLAnchorMap)) && mux.urlMux.URLAnchorMap[u].AnchorIndex == old(mux.urlMux.URLAnchorMap[u].AnchorIndex);
def selfof(mux, id, hs) = (len(hs) > 1 ==> ((id in mux.MessageIDSelfMiddleware) && len(mux.MessageIDSelfMiddleware[id]) == len(hs) - 1 && (forall i :: 0 <= i && i < len(hs) - 1 ==> mux.MessageIDSelfMiddleware[id][i] == hs[i])))
  && ((len(hs) == 1 && (id in mux.MessageIDSelfMiddleware)) ==> len(mux.MessageIDSelfMiddleware[id]) == 0);
func "(*TcpX).AddHandler"(srv, id, hs) {
  verifyonly;
  requires srv != nil && regbase(srv.Mux);
  modifies srv.Mux.indexSeed, srv.Mux.MessageIDAnchorMap, map(srv.Mux.Handlers), map(srv.Mux.MessageIDAnchorMap), map(srv.Mux.MessageIDSelfMiddleware);
  panics len(hs) == 0 || (id in srv.Mux.Handlers);
  onpanic [a refused registration changes nothing] regbase(srv.Mux) && (forall j "int32" :: sameid(srv.Mux, j));
  ensures [the handler is registered] (id in srv.Mux.Handlers) && srv.Mux.Handlers[id] == hs[len(hs)-1] && selfof(srv.Mux, id, hs);
  ensures [nothing else is] forall j "int32" :: j != id ==> sameid(srv.Mux, j);
  ensures [registrations stay consistent] regbase(srv.Mux);
}
func "(*TcpX).Any"(srv, url, hs) {
  verifyonly;
  requires srv != nil && regbase(srv.Mux);
  modifies srv.Mux.indexSeed, srv.Mux.urlMux.URLAnchorMap, map(srv.Mux.urlMux.URLAnchorMap), map(srv.Mux.urlMux.urlPatternMux), map(srv.Mux.urlMux.urlRouteInfo), alle("string");
  panics len(hs) == 0 || (url in srv.Mux.urlMux.urlPatternMux);
  onpanic [a refused registration changes nothing] regbase(srv.Mux) && (forall u "string" :: sameurl(srv.Mux, u));
  ensures [the handlers are registered] (url in srv.Mux.urlMux.urlPatternMux) && len(srv.Mux.urlMux.urlPatternMux[url]) == len(hs) && (forall i :: 0 <= i && i < len(hs) ==> srv.Mux.urlMux.urlPatternMux[url][i] == hs[i]);
  ensures [nothing else is] forall u "string" :: u != url ==> sameurl(srv.Mux, u);
  ensures [registrations stay consistent] regbase(srv.Mux);
}
func "(*TcpX).RewriteHeartBeatHandler"(srv, id, f) -> (r) {
  verifyonly;
  requires srv != nil && regbase(srv.Mux) && srv.HeartBeatOn;
  modifies srv.HeartBeatMessageID, srv.Mux.indexSeed, srv.Mux.MessageIDAnchorMap, map(srv.Mux.Handlers), map(srv.Mux.MessageIDAnchorMap), map(srv.Mux.MessageIDSelfMiddleware);
  panics id != srv.HeartBeatMessageID && (id in srv.Mux.Handlers);
  onpanic [a refused registration changes nothing] regbase(srv.Mux) && (forall j "int32" :: sameid(srv.Mux, j)) && srv.HeartBeatMessageID == old(srv.HeartBeatMessageID);
  ensures [the new handler is registered, for the new id] r == srv && srv.HeartBeatMessageID == id && (id in srv.Mux.Handlers) && srv.Mux.Handlers[id] == f && ((id in srv.Mux.MessageIDSelfMiddleware) ==> len(srv.Mux.MessageIDSelfMiddleware[id]) == 0);
  ensures [the previous one is removed] old(srv.HeartBeatMessageID) != id ==> !(old(srv.HeartBeatMessageID) in srv.Mux.Handlers);
  ensures [nothing else is changed] forall j "int32" :: (j != id && j != old(srv.HeartBeatMessageID)) ==> sameid(srv.Mux, j);
  ensures [registrations stay consistent] regbase(srv.Mux);
}
func "NewMux"() -> (mux) {
  verifyonly;
  fresh mux;
  ensures [nothing is registered] regbase(mux) && (forall id "int32" :: !(id in mux.Handlers)) && (forall u "string" :: !(u in mux.urlMux.urlPatternMux));
}
