// --- watchers: goroutines that wait for signals, timers and the end of a connection
use "common.spec";
use "syncmap.spec";
use "strings.spec";
assumption "the configuration of a server is set before it serves; the channels of a connection and the server's close signal are not replaced while the connection is watched";
stable "o:TcpX.pLock", "o:TcpX.HeartBeatOn", "o:TcpX.HeatBeatInterval", "o:TcpX.OnHeartbeatLoss", "o:TcpX.withSignals", "o:TcpX.auth", "o:TcpX.authDeadline", "o:TcpX.closeAllSignal";
stable "o:Context.Conn", "o:Context.L", "o:Context.PacketConn", "o:Context.Addr", "o:Context.PerConnectionContext", "o:Context.PerRequestContext", "o:Context.recvEnd", "o:Context.recvAuth", "o:Context.userState", "o:Context.poolRef", "o:Context.Packx", "o:Context.Stream";
def isudp(c) = c.Conn == nil && c.Addr != nil && c.PacketConn != nil;
def connkeys(c) = isudp(c) ? c.PerRequestContext : c.PerConnectionContext;
def hkey() = boxed("string", "tcpx-heart-beat-channel");
def hbc(c) = smv(connkeys(c), hkey()) as "chan int";
def hbok(c) = connkeys(c) != nil && (smdom(connkeys(c), hkey()) ==> ((smv(connkeys(c), hkey()) is "chan int") && hbc(c) != nil));
assumption "the heartbeat channel of a connection, once there, is not replaced (its key is reserved)";
stable ghost smdom, ghost smv;
// a timer counts from its creation: gen counts what was received, tgen says when a timer was made
ghost gen() : nat; ghost tgen(c) : nat; ghost tdur(c) : int; ghost istimer(c) : bool;
stable ghost gen, ghost tgen, ghost tdur, ghost istimer;
extern "time.After"(d) -> (c) { fresh c; ensures c != nil && !old(istimer(c)); sets istimer(c) = true; sets tdur(c) = d; sets tgen(c) = gen(); }
extern "time.NewTimer"(d) -> (t) { fresh t; ensures t.C != nil && fresh(t.C) && !istimer(t.C); }
extern "(*time.Timer).Reset"(t, d) -> (active) { requires t != nil; }
extern "(*time.Timer).Stop"(t) -> (active) { requires t != nil; }
stable "o:time.Timer.C";
ghost tim() : "*time.Timer"; stable ghost tim; // the timer made last
on "ret:time.NewTimer"(d, t) { set tim() = t; set istimer(t.C) = true; set tdur(t.C) = d; set tgen(t.C) = gen(); }
on "call:(*time.Timer).Reset"(t, d) { set tdur(t.C) = d; set tgen(t.C) = gen(); }
on "call:(*time.Timer).Stop"(t) { set tgen(t.C) = 1 + gen(); }
// cctx, csrv: the connection watched and its server
ghost cctx() : "*Context"; ghost csrv() : "*TcpX";
ghost missed() : nat;      // intervals that passed since the last heartbeat
ghost shutdown() : bool;   // the server was stopped or closed down
ghost ended() : bool;      // the connection ended by itself
ghost nclosed() : nat; ghost nloss() : nat; ghost ingo() : bool; ghost gos() : nat;
ghost lt() : bool; ghost lh() : bool; ghost la() : bool; ghost ls() : bool; ghost le() : bool; // what is waited for
ghost verdict() : int; ghost decided() : bool; ghost timeout() : bool;
stable ghost cctx, ghost csrv, ghost missed, ghost shutdown, ghost ended, ghost nclosed, ghost nloss, ghost ingo, ghost gos, ghost lt, ghost lh, ghost la, ghost ls, ghost le, ghost verdict, ghost decided, ghost timeout;
on "listen"(c) {
  if istimer(c) && tgen(c) == gen() { set lt() = true; }
  if smdom(connkeys(cctx()), hkey()) && c == hbc(cctx()) { set lh() = true; }
  if c == cctx().recvAuth { set la() = true; }
  if c == csrv().closeAllSignal { set ls() = true; }
  if c == cctx().recvEnd { set le() = true; }
}
def start(c, s) = cctx() == c && csrv() == s && missed() == 0 && !shutdown() && !ended() && nclosed() == 0 && nloss() == 0 && !ingo() && gos() == 0 && !lt() && !lh() && !la() && !ls() && !le() && !decided() && !timeout();
// the channels of a connection are different ones
def apart(c, s) = c != nil && s != nil && c.recvEnd != nil && c.recvAuth != nil && c.recvEnd != c.recvAuth && c.recvEnd != s.closeAllSignal && c.recvAuth != s.closeAllSignal
  && !istimer(c.recvEnd) && !istimer(c.recvAuth) && !istimer(s.closeAllSignal)
  && (smdom(connkeys(c), hkey()) ==> (hbc(c) != c.recvEnd && hbc(c) != c.recvAuth && hbc(c) != s.closeAllSignal && !istimer(hbc(c))));
from C12 "(*Context).CloseConn"(c) -> (err) { requires c != nil; modifies *; }
on "makechan"(c) { assume !istimer(c); }
