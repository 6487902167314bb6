// Field accessors: exact for every byte sequence.
use "common.spec";

def hlen(s) = be32(s, 8);
def bodylen(s) = be32(s, 12);
func "LengthOf"(stream) -> (n, err) {
  ensures [fails exactly when too short] (err == nil) <==> len(stream) >= 4;
  ensures [value] err == nil ==> u32(n) == be32(stream, 0);
}
func "MessageIDOf"(stream) -> (n, err) {
  ensures [fails exactly when too short] (err == nil) <==> len(stream) >= 8;
  ensures [value] err == nil ==> u32(n) == be32(stream, 4);
}
func "HeaderLengthOf"(stream) -> (n, err) {
  ensures [fails exactly when too short] (err == nil) <==> len(stream) >= 12;
  ensures [value] err == nil ==> u32(n) == be32(stream, 8);
}
func "BodyLengthOf"(stream) -> (n, err) {
  ensures [fails exactly when too short] (err == nil) <==> len(stream) >= 16;
  ensures [value] err == nil ==> u32(n) == be32(stream, 12);
}
def hdrok(s) = len(s) >= 16 && hlen(s) < 2147483648 && 16 + hlen(s) <= len(s);
def bodyok(s) = len(s) >= 16 && hlen(s) < 2147483648 && bodylen(s) < 2147483648 && 16 + hlen(s) + bodylen(s) <= len(s);
func "HeaderBytesOf"(stream) -> (h, err) {
  ensures [fails exactly when the header is not inside] (err == nil) <==> hdrok(stream);
  ensures [value] err == nil ==> (len(h) == hlen(stream) && (forall i :: 0 <= i && i < len(h) ==> h[i] == stream[16 + i]));
}
func "BodyBytesOf"(stream) -> (b, err) {
  ensures [fails exactly when the body is not inside] (err == nil) <==> bodyok(stream);
  ensures [value] err == nil ==> (len(b) == bodylen(stream) && (forall i :: 0 <= i && i < len(b) ==> b[i] == stream[16 + hlen(stream) + i]));
}
func "HeaderOf"(stream) -> (h, err) {
  fresh h;
  ensures [fails exactly when there is no JSON header] (err == nil) <==> (hdrok(stream) && jsondecok(bytes(stream[16:16 + hlen(stream)])));
  ensures [value] err == nil ==> content(h) == jsondec(bytes(stream[16:16 + hlen(stream)]));
}
func "FirstBlockOfBytes"(buf) -> (b, err) {
  ensures [fails exactly when incomplete] (err == nil) <==> (len(buf) >= 16 && len(buf) >= 4 + be32(buf, 0));
  ensures [value] err == nil ==> (len(b) == 4 + be32(buf, 0) && (forall i :: 0 <= i && i < len(b) ==> b[i] == buf[i]));
}
