use "strings.spec";
def matches(s, v) = !has(v, "%") ? v == s :
   (blen(v) > 1 && hp(v, "%") && hs(v, "%")) ? has(s, v[1:blen(v) - 1]) :
   hp(v, "%") ? hs(s, v[1:blen(v)]) :
   hs(v, "%") && hp(s, v[0:blen(v) - 1]);
func "In"(s, list) -> (r) {
  loopinv forall i :: 0 <= i && i < $i ==> !matches(s, list[i]);
  loopinv forall i :: 0 <= i && i <= $i ==> !matches(s, list[i]);
  ensures [found only if an entry matches] r ==> (exists i :: 0 <= i && i < len(list) && matches(s, list[i]));
  ensures [not found only if no entry matches] !r ==> (forall i :: 0 <= i && i < len(list) ==> !matches(s, list[i]));
  ensures [one of the entries] (r && len(list) <= 8) ==> ((0 < len(list) && matches(s, list[0])) || (1 < len(list) && matches(s, list[1])) || (2 < len(list) && matches(s, list[2])) || (3 < len(list) && matches(s, list[3])) || (4 < len(list) && matches(s, list[4])) || (5 < len(list) && matches(s, list[5])) || (6 < len(list) && matches(s, list[6])) || (7 < len(list) && matches(s, list[7])));
  ensures [entry 0] (!r && 0 < len(list)) ==> !matches(s, list[0]);
  ensures [entry 1] (!r && 1 < len(list)) ==> !matches(s, list[1]);
  ensures [entry 2] (!r && 2 < len(list)) ==> !matches(s, list[2]);
  ensures [entry 3] (!r && 3 < len(list)) ==> !matches(s, list[3]);
  ensures [entry 4] (!r && 4 < len(list)) ==> !matches(s, list[4]);
  ensures [entry 5] (!r && 5 < len(list)) ==> !matches(s, list[5]);
  ensures [entry 6] (!r && 6 < len(list)) ==> !matches(s, list[6]);
  ensures [entry 7] (!r && 7 < len(list)) ==> !matches(s, list[7]);
}
ghost tcpn() : nat; ghost tn() : str; ghost ta() : str; ghost tres() : any;
ghost udpn() : nat; ghost un() : str; ghost ua() : str; ghost ures() : any;
from C22 "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  modifies *;
  sets tcpn() = tcpn() + 1; sets tn() = network; sets ta() = addr; sets tres() = err; sets udpn() = udpn();
}
from C22 "(*TcpX).ListenAndServeUDP"(srv, network, addr, max) -> (err) {
  modifies *; maypanic;
  sets udpn() = udpn() + 1; sets un() = network; sets ua() = addr; sets ures() = err; sets tcpn() = tcpn();
}
from C22 "(*TcpX).ListenAndServeRaw"(srv, network, addr) -> (err) {
  modifies *;
  sets tcpn() = tcpn() + 1000; sets udpn() = udpn();
}
from C08 "(*TcpX).checkPrepare"(srv) { maypanic; }
def streamname(n) = n == "tcp" || n == "tcp4" || n == "tcp6" || n == "unix" || n == "unixpacket";
def dgramname(n) = n == "udp" || n == "udp4" || n == "udp6" || n == "unixgram" || hp(n, "ip");
func "(*TcpX).ListenAndServe"(srv, network, addr) -> (err) {
  requires srv != nil;
  modifies *;
  maypanic;
  ensures [stream names start the stream server] streamname(network) ==> (tcpn() == old(tcpn()) + 1 && udpn() == old(udpn()) && tn() == network && ta() == addr && err == tres());
  ensures [datagram names start the datagram server] dgramname(network) ==> (udpn() == old(udpn()) + 1 && tcpn() == old(tcpn()) && un() == network && ua() == addr && err == ures());
  ensures [other names are refused and nothing is started] (!streamname(network) && !dgramname(network)) ==> (err != nil && tcpn() == old(tcpn()) && udpn() == old(udpn()));
}
