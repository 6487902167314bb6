use "conn.spec";
assumption "one goroutine at a time writes on the connection while a helper runs (the bytes of two concurrent writers may interleave between partial writes)";
def sent(c, w0, w1, buf) = w1 == w0 + len(buf) && (forall i :: 0 <= i && i < len(buf) ==> out(c, w0 + i) == buf[i]);
func "WriteConn"(buf, conn) -> (err) {
  requires conn != nil;
  modifies wn(conn), wcalls(conn), werr();
  loopinv wn(conn) == old(wn(conn)) + $i;
  loopinv 0 <= $i && $i <= len(buf);
  loopinv forall i :: 0 <= i && i < $i ==> out(conn, old(wn(conn)) + i) == buf[i];
  loopinv wn(conn) == old(wn(conn)) + len(buf) - len($s);
  loopinv forall i :: 0 <= i && i < len(buf) - len($s) ==> out(conn, old(wn(conn)) + i) == buf[i];
  loopinv forall i :: 0 <= i && i < len($s) ==> $s[i] == buf[len(buf) - len($s) + i];
  loopinv len($s) <= len(buf);
  loopinv werr() == old(werr());
  ensures [success means exactly the given bytes, once, in order] err == nil ==> sent(conn, old(wn(conn)), wn(conn), buf);
  ensures [a failed write is reported] (werr() && !old(werr())) ==> err != nil;
  ensures [only a failed write is an error] (err != nil && !old(werr())) ==> werr();
}
func "write"(conn, buf) -> (err) {
  optional;
  requires conn != nil;
  modifies wn(conn), wcalls(conn), werr();
  loopinv wn(conn) == old(wn(conn)) + $i;
  loopinv 0 <= $i && $i <= len(buf);
  loopinv forall i :: 0 <= i && i < $i ==> out(conn, old(wn(conn)) + i) == buf[i];
  loopinv wn(conn) == old(wn(conn)) + len(buf) - len($s);
  loopinv forall i :: 0 <= i && i < len(buf) - len($s) ==> out(conn, old(wn(conn)) + i) == buf[i];
  loopinv forall i :: 0 <= i && i < len($s) ==> $s[i] == buf[len(buf) - len($s) + i];
  loopinv len($s) <= len(buf);
  loopinv werr() == old(werr());
  ensures [success means exactly the given bytes, once, in order] err == nil ==> sent(conn, old(wn(conn)), wn(conn), buf);
  ensures [a failed write is reported] (werr() && !old(werr())) ==> err != nil;
  ensures [only a failed write is an error] (err != nil && !old(werr())) ==> werr();
}
