use "common.spec";
use "reader.spec";

func "LengthOf"(stream) -> (n, err) {
  ensures (err == nil) <==> len(stream) >= 4;
  ensures err == nil ==> u32(n) == be32(stream, 0);
}
func "readUntil"(r, buf) -> (err) {
  optional;
  modifies elems(buf), pos(r);
  loopinv pos(r) == old(pos(r)) + $i;
  loopinv 0 <= $i && $i <= len(buf);
  loopinv forall i :: 0 <= i && i < $i ==> buf[i] == in(r, old(pos(r)) + i);
  loopinv pos(r) == old(pos(r)) + len(buf) - len($s);
  loopinv len($s) <= len(buf);
  loopinv forall i :: 0 <= i && i < len(buf) - len($s) ==> buf[i] == in(r, old(pos(r)) + i);
  requires r != nil;
  ensures [consumes exactly the bytes] err == nil ==> pos(r) == old(pos(r)) + len(buf);
  ensures [fails only before the end] err != nil ==> (pos(r) >= old(pos(r)) && pos(r) < old(pos(r)) + len(buf));
  ensures [bytes] err == nil ==> (forall i :: 0 <= i && i < len(buf) ==> buf[i] == in(r, old(pos(r)) + i));
}
def blockpost(r, buf, err, p0, p1) =
     (err == nil ==> (r != nil && in32(r, p0) < 2147483648 && len(buf) == 4 + in32(r, p0) && p1 == p0 + len(buf)
        && (forall i :: 0 <= i && i < len(buf) ==> buf[i] == in(r, p0 + i))))
  && (err != nil ==> (buf == nil && (r == nil || (p1 >= p0 && (p1 < p0 + 4 || in32(r, p0) >= 2147483648 || p1 < p0 + 4 + in32(r, p0))))));
func "UnpackToBlockFromReader"(r) -> (buf, err) {
  fresh buf;
  modifies pos(r);
  ensures [exactly the next block, or an error] blockpost(r, buf, err, old(pos(r)), pos(r));
}
func "FirstBlockOf"(r) -> (buf, err) {
  fresh buf;
  modifies pos(r);
  ensures [exactly the next block, or an error] blockpost(r, buf, err, old(pos(r)), pos(r));
}
func "(Packx).FirstBlockOf"(p, r) -> (buf, err) {
  fresh buf;
  modifies pos(r);
  ensures [exactly the next block, or an error] blockpost(r, buf, err, old(pos(r)), pos(r));
}
func "Recv"(r) -> (buf, err) {
  fresh buf;
  modifies pos(r);
  ensures [exactly the next block, or an error] blockpost(r, buf, err, old(pos(r)), pos(r));
}
func "UnpackToBlockFromReaderLimitMaxLengthOfByte"(r, max) -> (buf, err) {
  fresh buf;
  modifies pos(r);
  ensures [exactly the next block] err == nil ==> blockpost(r, buf, err, old(pos(r)), pos(r));
  ensures [nothing is delivered with an error] err != nil ==> (buf == nil && pos(r) >= old(pos(r)));
  ensures [an error has a reason] err != nil ==> (r == nil || pos(r) < old(pos(r)) + 4 || in32(r, old(pos(r))) >= 2147483648 || pos(r) < old(pos(r)) + 4 + in32(r, old(pos(r))) || in32(r, old(pos(r))) > max);
}
func "FirstBlockOfLimitMaxByte"(r, max) -> (buf, err) {
  fresh buf;
  modifies pos(r);
  ensures [exactly the next block] err == nil ==> blockpost(r, buf, err, old(pos(r)), pos(r));
  ensures [nothing is delivered with an error] err != nil ==> (buf == nil && pos(r) >= old(pos(r)));
  ensures [an error has a reason] err != nil ==> (r == nil || pos(r) < old(pos(r)) + 4 || in32(r, old(pos(r))) >= 2147483648 || pos(r) < old(pos(r)) + 4 + in32(r, old(pos(r))) || (max > 0 && in32(r, old(pos(r))) > max));
}
func "(Packx).FirstBlockOfLimitMaxByte"(p, r, max) -> (buf, err) {
  fresh buf;
  modifies pos(r);
  ensures [exactly the next block] err == nil ==> blockpost(r, buf, err, old(pos(r)), pos(r));
  ensures [nothing is delivered with an error] err != nil ==> (buf == nil && pos(r) >= old(pos(r)));
  ensures [an error has a reason] err != nil ==> (r == nil || pos(r) < old(pos(r)) + 4 || in32(r, old(pos(r))) >= 2147483648 || pos(r) < old(pos(r)) + 4 + in32(r, old(pos(r))) || (max > 0 && in32(r, old(pos(r))) > max));
}
func "FirstBlockOfBytes"(buf) -> (b, err) {
  ensures [fails exactly when incomplete] (err == nil) <==> (len(buf) >= 16 && len(buf) >= 4 + be32(buf, 0));
  ensures [exactly the first block] err == nil ==> (len(b) == 4 + be32(buf, 0) && (forall i :: 0 <= i && i < len(b) ==> b[i] == buf[i]));
  ensures [nothing is delivered with an error] err != nil ==> b == nil;
  ensures [no memory but the given or new one] err == nil ==> (arr(b) == arr(buf) || fresh(arr(b)));
}
func "(Packx).FirstBlockOfBytes"(p, buf) -> (b, err) {
  ensures [fails exactly when incomplete] (err == nil) <==> (len(buf) >= 16 && len(buf) >= 4 + be32(buf, 0));
  ensures [exactly the first block] err == nil ==> (len(b) == 4 + be32(buf, 0) && (forall i :: 0 <= i && i < len(b) ==> b[i] == buf[i]));
  ensures [nothing is delivered with an error] err != nil ==> b == nil;
  ensures [no memory but the given or new one] err == nil ==> (arr(b) == arr(buf) || fresh(arr(b)));
}
func "UnPackFromReader"(r) -> (id, header, body, err) {
  fresh header, body;
  modifies pos(r);
  ensures [reads exactly one block] err == nil ==> (pos(r) == old(pos(r)) + 4 + in32(r, old(pos(r))) && u32(id) == in32(r, old(pos(r)) + 4));
  ensures [body] err == nil ==> (len(body) == in32(r, old(pos(r)) + 12)
     && 16 + in32(r, old(pos(r)) + 8) + len(body) <= 4 + in32(r, old(pos(r)))
     && (forall i :: 0 <= i && i < len(body) ==> body[i] == in(r, old(pos(r)) + 16 + in32(r, old(pos(r)) + 8) + i)));
  ensures [never more than one block] pos(r) <= old(pos(r)) + 4 + in32(r, old(pos(r)));
}
