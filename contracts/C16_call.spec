use "reply.spec";
extern "net.Dial"(network, addr) -> (c, err) { ensures err == nil ==> c != nil; }
on "ret:net.Dial"(network, addr, c, err) { if err == nil { set tconn() = c; } }
on "call:(net.Conn).Close"(c) { assert [closes only after writing] writes() == 1 || perr(); }
func "TCPCallOnceJSON"(network, url, id, data) -> (err) {
  verifyonly;
  requires fresh0() && target() == nil && whl() == 0 && !isurl() && wid() == i32(id) && wsrc() == data && wfmt() == "json";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
