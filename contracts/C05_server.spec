// the message server reads every block, also those of a pipe, under the configured limit
use "server.spec";
on "call:(Packx).FirstBlockOfLimitMaxByte"(p, r, max), "call:FirstBlockOfLimitMaxByte"(r, max), "call:UnpackToBlockFromReaderLimitMaxLengthOfByte"(r, max) {
  assert [blocks are read under the configured limit] srv.maxByte > 0 ? max == srv.maxByte : max <= 0;
}
on "call:(Packx).FirstBlockOf"(p, r), "call:FirstBlockOf"(r), "call:UnpackToBlockFromReader"(r), "call:(io.Reader).Read"(r, p), "call:io.ReadFull"(r, p), "call:(net.Conn).Read"(r, p) {
  assert [blocks are read under the configured limit] srv.maxByte <= 0;
}
func "(*TcpX).ListenAndServeTCP"(srv, network, addr) -> (err) {
  requires srvok(srv);
  modifies *; merge; goroutines;
}
