use "reply.spec";
func "(*Context).Reply"(c, id, src, headers) -> (err) {
  verifyonly;
  requires fresh0() && ready(c) && target() == c && want(id, src, headers) && wfmt() == "" && wm() == c.Packx.Marshaller;
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "(*Context).ReplyWithMarshaller"(c, m, id, src, headers) -> (err) {
  verifyonly;
  requires fresh0() && ready(c) && target() == c && want(id, src, headers) && wfmt() == "" && wm() == m;
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "(*Context).JSON"(c, id, src, headers) -> (err) {
  verifyonly;
  requires fresh0() && ready(c) && target() == c && want(id, src, headers) && wfmt() == "json";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "(*Context).XML"(c, id, src, headers) -> (err) {
  verifyonly;
  requires fresh0() && ready(c) && target() == c && want(id, src, headers) && wfmt() == "xml";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "(*Context).TOML"(c, id, src, headers) -> (err) {
  verifyonly;
  requires fresh0() && ready(c) && target() == c && want(id, src, headers) && wfmt() == "toml";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "(*Context).YAML"(c, id, src, headers) -> (err) {
  verifyonly;
  requires fresh0() && ready(c) && target() == c && want(id, src, headers) && wfmt() == "yaml";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "(*Context).ProtoBuf"(c, id, src, headers) -> (err) {
  verifyonly;
  requires fresh0() && ready(c) && target() == c && want(id, src, headers) && wfmt() == "protobuf";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "(*Context).JSONURLPattern"(c, src) -> (err) {
  verifyonly;
  requires fresh0() && ready(c) && target() == c && isurl() && wid() == 0 && wsrc() == src && wfmt() == "json";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "(*Context).ProtobufURLPattern"(c, src) -> (err) {
  verifyonly;
  requires fresh0() && ready(c) && target() == c && isurl() && wid() == 0 && wsrc() == src && wfmt() == "protobuf";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "(*Context).SendToConn"(c, other, id, src, headers) -> (err) {
  verifyonly;
  requires fresh0() && c != nil && ready(other) && target() == other && want(id, src, headers) && wfmt() == "" && wm() == other.Packx.Marshaller;
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
func "WriteJSON"(conn, id, src) -> (err) {
  verifyonly;
  requires fresh0() && conn != nil && target() == nil && tconn() == conn && whl() == 0 && !isurl() && wid() == id && wsrc() == src && wfmt() == "json";
  modifies *;
  ensures [succeeds exactly when the message was written] reported(err);
}
