// The limit is enforced on the announced length, before content is read or allocated for.
use "common.spec";
use "reader.spec";
// alloced(): bytes allocated with make so far
ghost alloced() : nat;
on "make"(n, size) { set alloced() = alloced() + n * size; }

func "LengthOf"(stream) -> (n, err) {
  modifies alloced();
  ensures alloced() <= old(alloced()) + 256;
  ensures (err == nil) <==> len(stream) >= 4;
  ensures err == nil ==> u32(n) == be32(stream, 0);
}
func "readUntil"(r, buf) -> (err) {
  optional;
  modifies elems(buf), pos(r), alloced();
  loopinv pos(r) == old(pos(r)) + $i;
  loopinv 0 <= $i && $i <= len(buf);
  loopinv forall i :: 0 <= i && i < $i ==> buf[i] == in(r, old(pos(r)) + i);
  loopinv pos(r) == old(pos(r)) + len(buf) - len($s);
  loopinv len($s) <= len(buf);
  loopinv forall i :: 0 <= i && i < len(buf) - len($s) ==> buf[i] == in(r, old(pos(r)) + i);
  requires r != nil;
  ensures alloced() <= old(alloced()) + 256;
  ensures [consumes exactly the bytes] err == nil ==> pos(r) == old(pos(r)) + len(buf);
  ensures [fails only before the end] err != nil ==> (pos(r) >= old(pos(r)) && pos(r) < old(pos(r)) + len(buf));
  ensures [bytes] err == nil ==> (forall i :: 0 <= i && i < len(buf) ==> buf[i] == in(r, old(pos(r)) + i));
}

def over(r, p0, max) = max > 0 && in32(r, p0) > max;
def refused(r, buf, err, p0, p1, a0, a1, max) = (r != nil && p1 >= p0 + 4 && over(r, p0, max)) ==> (err != nil && buf == nil && p1 == p0 + 4 && a1 <= a0 + 1024);
def reason(r, err, p0, p1, max) = err != nil ==> (r == nil || p1 < p0 + 4 || in32(r, p0) >= 2147483648 || p1 < p0 + 4 + in32(r, p0) || over(r, p0, max));
def delivered(r, buf, err, p0, p1, max) = err == nil ==> (!over(r, p0, max) && len(buf) == 4 + in32(r, p0) && p1 == p0 + len(buf));
func "UnpackToBlockFromReader"(r) -> (buf, err) {
  fresh buf;
  modifies pos(r), alloced();
  ensures [an oversized block is refused after its length alone] refused(r, buf, err, old(pos(r)), pos(r), old(alloced()), alloced(), 0);
  ensures [a block within the limit is not refused for its size] reason(r, err, old(pos(r)), pos(r), 0);
  ensures [what is delivered is within the limit] delivered(r, buf, err, old(pos(r)), pos(r), 0);
}
func "FirstBlockOf"(r) -> (buf, err) {
  fresh buf;
  modifies pos(r), alloced();
  ensures [an oversized block is refused after its length alone] refused(r, buf, err, old(pos(r)), pos(r), old(alloced()), alloced(), 0);
  ensures [a block within the limit is not refused for its size] reason(r, err, old(pos(r)), pos(r), 0);
  ensures [what is delivered is within the limit] delivered(r, buf, err, old(pos(r)), pos(r), 0);
}
func "(Packx).FirstBlockOf"(p, r) -> (buf, err) {
  fresh buf;
  modifies pos(r), alloced();
  ensures [an oversized block is refused after its length alone] refused(r, buf, err, old(pos(r)), pos(r), old(alloced()), alloced(), 0);
  ensures [a block within the limit is not refused for its size] reason(r, err, old(pos(r)), pos(r), 0);
  ensures [what is delivered is within the limit] delivered(r, buf, err, old(pos(r)), pos(r), 0);
}
func "UnpackToBlockFromReaderLimitMaxLengthOfByte"(r, max) -> (buf, err) {
  fresh buf;
  requires max > 0;
  modifies pos(r), alloced();
  ensures [an oversized block is refused after its length alone] refused(r, buf, err, old(pos(r)), pos(r), old(alloced()), alloced(), max);
  ensures [a block within the limit is not refused for its size] reason(r, err, old(pos(r)), pos(r), max);
  ensures [what is delivered is within the limit] delivered(r, buf, err, old(pos(r)), pos(r), max);
}
func "FirstBlockOfLimitMaxByte"(r, max) -> (buf, err) {
  fresh buf;
  modifies pos(r), alloced();
  ensures [an oversized block is refused after its length alone] refused(r, buf, err, old(pos(r)), pos(r), old(alloced()), alloced(), max);
  ensures [a block within the limit is not refused for its size] reason(r, err, old(pos(r)), pos(r), max);
  ensures [what is delivered is within the limit] delivered(r, buf, err, old(pos(r)), pos(r), max);
}
func "(Packx).FirstBlockOfLimitMaxByte"(p, r, max) -> (buf, err) {
  fresh buf;
  modifies pos(r), alloced();
  ensures [an oversized block is refused after its length alone] refused(r, buf, err, old(pos(r)), pos(r), old(alloced()), alloced(), max);
  ensures [a block within the limit is not refused for its size] reason(r, err, old(pos(r)), pos(r), max);
  ensures [what is delivered is within the limit] delivered(r, buf, err, old(pos(r)), pos(r), max);
}
func "(*TcpX).SetMaxBytePerMessage"(srv, max) {
  requires srv != nil;
  modifies srv.maxByte;
  ensures [the limit is the configured one] srv.maxByte == max;
}
