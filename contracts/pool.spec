use "common.spec";
use "syncmap.spec";
use "strings.spec";
use "lock.spec";
def isudp(c) = c.Conn == nil && c.Addr != nil && c.PacketConn != nil;
def connkeys(c) = isudp(c) ? c.PerRequestContext : c.PerConnectionContext;
def ctxok(c) = c != nil && c.PerRequestContext != nil && (isudp(c) || c.PerConnectionContext != nil);
def ukey() = boxed("string", "tcpx-username");
def unameok(c) = smdom(connkeys(c), ukey()) ==> (smv(connkeys(c), ukey()) is "string");
def poolok(p) = p != nil && p.m != nil && p.Clients != nil && held(p.m) == 0;
