use "reply.spec";
assumption "contexts in the pool are contexts of accepted connections (they have a lock, a state, a format and a transport)";
from C11 "(*ClientPool).GetClientPool"(p, name) -> (c) { requires p != nil; modifies allmaps("map[string]*Context"); }
ghost me() : "*Context"; ghost uname() : str; ghost looked() : bool;
on "ret:(*ClientPool).GetClientPool"(p, name, c) {
  assert [the named user of this pool] p == me().poolRef && name == uname();
  assume c != nil ==> (ready(c) && c.L != nil && c.userState != nil && held(c.L) == 0);
  set looked() = true; set target() = c;
  if c != nil { set wm() = c.Packx.Marshaller; }
}
on "call:(net.Conn).Write"(c, p), "call:(net.PacketConn).WriteTo"(c, p, a) {
  assert [only to a user found in the pool and not offline] looked() && target() != nil && *target().userState != 2;
}
func "(*Context).SendToUsername"(c, name, id, src, headers) -> (err) {
  verifyonly;
  requires fresh0() && c != nil && me() == c && uname() == name && target() == nil && tconn() == nil && !looked() && want(id, src, headers) && wfmt() == "";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
  ensures [fails when there is no such user] (target() == nil || !looked()) ==> (err != nil && writes() == 0);
}
