// --- serving: listeners, accepted connections, deadlines
use "common.spec";
use "reader.spec";
use "syncmap.spec";
assumption "the configuration of a server (callbacks, deadlines, size limit, features, TLS) is set before it serves and is not changed while it serves (as documented)";
stable "o:TcpX.OnConnect", "o:TcpX.OnMessage", "o:TcpX.OnClose", "o:TcpX.Mux", "o:TcpX.Packx", "o:Packx.Marshaller", "o:TcpX.deadLine", "o:TcpX.writeDeadLine", "o:TcpX.readDeadLine",
  "o:TcpX.maxByte", "o:TcpX.HeartBeatOn", "o:TcpX.HeatBeatInterval", "o:TcpX.builtInPool", "o:TcpX.auth", "o:TcpX.authDeadline", "o:TcpX.pLock",
  "o:TcpX.withSignals", "o:TcpX.HandleRaw", "o:TcpX.TLSConfig", "o:TcpX.OnHeartbeatLoss";
assumption "callbacks do not replace the exported connection fields (Conn, PacketConn, Addr, L, Packx, PerConnectionContext) of a context";
stable "o:Context.Conn", "o:Context.L", "o:Context.PacketConn", "o:Context.Addr", "o:Context.PerConnectionContext", "o:Context.Packx", "o:Context.recvEnd", "o:Context.recvAuth", "o:Context.userState";
def srvok(srv) = srv != nil && srv.pLock != nil && srv.Packx != nil && srv.Mux != nil;
ufunc tzero(t) : bool;
axiom tzero(zero("time.Time"));
extern "(time.Time).IsZero"(t) -> (z) { ensures z <==> tzero(t); }
// rdl, wdl: the deadlines in force on a connection; a new connection has none
ghost rdl(c) : any;
ghost wdl(c) : any;
stable ghost rdl, ghost wdl;
// lkind: 1 a plain listener, 2 a TLS listener
ghost lkind(l) : int;
ghost lcfg(l) : any;
ghost lfailed() : bool;
ghost lopen(l) : bool;
stable ghost lkind, ghost lcfg, ghost lfailed;
extern "net.Listen"(network, addr) -> (l, err) {
  ensures (err == nil) <==> (l != nil);
  sets lkind(l) = 1 if err == nil;
  sets lfailed() = lfailed() || err != nil;
}
extern "crypto/tls.Listen"(network, addr, cfg) -> (l, err) {
  ensures (err == nil) <==> (l != nil);
  sets lkind(l) = 2 if err == nil;
  sets lcfg(l) = cfg if err == nil;
  sets lfailed() = lfailed() || err != nil;
}
extern "crypto/tls.NewListener"(inner, cfg) -> (l) {
  ensures l != nil;
  sets lkind(l) = 2;
  sets lcfg(l) = cfg;
}
extern "(net.Listener).Accept"(l) -> (c, err) {
  ensures err == nil ==> c != nil;
  sets rdl(c) = zero("time.Time") if err == nil;
  sets wdl(c) = zero("time.Time") if err == nil;
}
extern "(net.Listener).Close"(l) -> (err) { ensures true; }
extern "net.ListenPacket"(network, addr) -> (c, err) { 
  ensures (err == nil) <==> (c != nil);
  sets lfailed() = lfailed() || err != nil;
  sets rdl(c) = zero("time.Time") if err == nil;
  sets wdl(c) = zero("time.Time") if err == nil;
}
extern "(net.Conn).SetDeadline"(c, t) -> (err) { sets rdl(c) = t; sets wdl(c) = t; }
extern "(net.Conn).SetReadDeadline"(c, t) -> (err) { sets rdl(c) = t; }
extern "(net.Conn).SetWriteDeadline"(c, t) -> (err) { sets wdl(c) = t; }
extern "(net.PacketConn).SetDeadline"(c, t) -> (err) { sets rdl(c) = t; sets wdl(c) = t; }
extern "(net.PacketConn).SetReadDeadline"(c, t) -> (err) { sets rdl(c) = t; }
extern "(net.PacketConn).SetWriteDeadline"(c, t) -> (err) { sets wdl(c) = t; }
extern "(net.PacketConn).Close"(c) -> (err) { ensures true; }
extern "(net.PacketConn).ReadFrom"(c, p) -> (n, a, err) { modifies elems(p); ensures 0 <= n && n <= len(p); ensures err == nil ==> a != nil; }
extern "callback:func(*Context)"(f, c) { modifies *; maypanic; }
from C13 "(*TcpX).fillProperty"(srv, network, addr, listener) { requires srv != nil; modifies srv.properties; }
from C13 "(*TcpX).openState"(srv) { requires srv != nil && srv.pLock != nil; modifies srv.state; }
from C13 "(*TcpX).State"(srv) -> (s) { requires srv != nil && srv.pLock != nil; }
from C12 "(*Context).CloseConn"(c) -> (err) { requires c != nil; modifies *; }
from C14 "heartBeatWatch"(c, srv) { requires c != nil && srv != nil; }
from C14 "broadcastSignalWatch"(c, srv) { requires c != nil && srv != nil; modifies *; }
from C15 "authWatch"(c, srv) { requires c != nil && srv != nil; modifies *; }
from C06 "handleMiddleware"(c, srv) { requires c != nil && srvok(srv); modifies *; maypanic; }
from C06 "handleRaw"(c, srv) { requires c != nil && srvok(srv); modifies *; maypanic; }
from C17 "handlePipe"(cs, srv) { requires srvok(srv); modifies *; maypanic; }
// what the pipe argument of a message says (spelled out in C17.spec): readable, starts a pipe, of so many messages
ufunc pok(s) : bool; ufunc pflag(s) : bool; ufunc pnum(s) : int;
from C17 "isPipe"(block) -> (pipe, rest, err) {
  ensures (err == nil) <==> pok(bytes(block));
  ensures err == nil ==> (pipe <==> pflag(bytes(block)));
  ensures (err == nil && pipe) ==> (rest >= 0 && rest < 9223372036854775807 && rest == pnum(bytes(block)) - 1);
}
from C04 "(Packx).FirstBlockOfLimitMaxByte"(p, r, max) -> (buf, err) { fresh buf; modifies pos(r); }
from C04 "(Packx).FirstBlockOf"(p, r) -> (buf, err) { fresh buf; modifies pos(r); }
from C04 "FirstBlockOfLimitMaxByte"(r, max) -> (buf, err) { fresh buf; modifies pos(r); }
from C04 "FirstBlockOf"(r) -> (buf, err) { fresh buf; modifies pos(r); }
from C04 "UnpackToBlockFromReaderLimitMaxLengthOfByte"(r, max) -> (buf, err) { requires max > 0; fresh buf; modifies pos(r); }
from C04 "UnpackToBlockFromReader"(r) -> (buf, err) { fresh buf; modifies pos(r); }
from C04 "(Packx).FirstBlockOfBytes"(p, b) -> (buf, err) { ensures err == nil ==> (arr(buf) == arr(b) || fresh(arr(buf))); }
from C04 "FirstBlockOfBytes"(b) -> (buf, err) { ensures err == nil ==> (arr(buf) == arr(b) || fresh(arr(buf))); }
