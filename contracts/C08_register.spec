// a handler is registered with an index that falls into the open windows and into no closed one
use "mux.spec";
def applies(mux, k, h) = (keyinuse(mux, k) ==> win(mux.MiddlewareAnchorMap[k], h, len(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange) - 1))
  && (((k in mux.MiddlewareAnchorMap) && !keyinuse(mux, k)) ==> (forall i :: 0 <= i && i < len(mux.MiddlewareAnchorMap[k].AnchorStartIndexRange) ==> !win(mux.MiddlewareAnchorMap[k], h, i)));
def windowskept(mux) = mux.MiddlewareAnchorMap == old(mux.MiddlewareAnchorMap) && mux.MiddlewareAnchors == old(mux.MiddlewareAnchors);
func "(*TcpX).AddHandler"(srv, id, hs) {
  verifyonly; native;
  requires srv != nil && muxwf(srv.Mux) && srv.Mux.indexSeed < 2147483646;
  modifies srv.Mux.indexSeed, srv.Mux.MessageIDAnchorMap, map(srv.Mux.Handlers), map(srv.Mux.MessageIDAnchorMap), map(srv.Mux.MessageIDSelfMiddleware);
  maypanic;
  ensures [the mux stays consistent] muxwf(srv.Mux) && windowskept(srv.Mux);
  ensures [the index falls into exactly the open windows] (id in srv.Mux.MessageIDAnchorMap) && (forall k "string" :: applies(srv.Mux, k, srv.Mux.MessageIDAnchorMap[id].AnchorIndex));
  ensures [other handlers keep their index] forall j "int32" :: j != id ==> (((j in srv.Mux.MessageIDAnchorMap) <==> old(j in srv.Mux.MessageIDAnchorMap)) && srv.Mux.MessageIDAnchorMap[j].AnchorIndex == old(srv.Mux.MessageIDAnchorMap[j].AnchorIndex));
}
func "(*TcpX).Any"(srv, url, hs) {
  verifyonly; native;
  requires srv != nil && muxwf(srv.Mux) && srv.Mux.indexSeed < 2147483646 && srv.Mux.urlMux.urlPatternMux != nil && srv.Mux.urlMux.urlRouteInfo != nil
     && (forall u "string" :: (u in srv.Mux.urlMux.urlPatternMux) <==> (u in srv.Mux.urlMux.URLAnchorMap));
  modifies srv.Mux.indexSeed, srv.Mux.urlMux.URLAnchorMap, map(srv.Mux.urlMux.URLAnchorMap), map(srv.Mux.urlMux.urlPatternMux), map(srv.Mux.urlMux.urlRouteInfo), alle("string");
  maypanic;
  ensures [the mux stays consistent] muxwf(srv.Mux) && windowskept(srv.Mux);
  ensures [the index falls into exactly the open windows] (url in srv.Mux.urlMux.URLAnchorMap) && (forall k "string" :: applies(srv.Mux, k, srv.Mux.urlMux.URLAnchorMap[url].AnchorIndex));
  ensures [other urls keep their index] forall u "string" :: u != url ==> (((u in srv.Mux.urlMux.URLAnchorMap) <==> old(u in srv.Mux.urlMux.URLAnchorMap)) && srv.Mux.urlMux.URLAnchorMap[u].AnchorIndex == old(srv.Mux.urlMux.URLAnchorMap[u].AnchorIndex));
}
