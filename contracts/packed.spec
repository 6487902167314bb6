// a stream that begins with a packed message (layout of C01), followed by anything
assumption "packed messages are smaller than 2 GiB (larger ones cannot be described by the 4-byte fields; C01 states the layout modulo 2^32)";
def packed(s, id, H, B) = 12 + blen(H) + blen(B) < 2147483648 && len(s) >= 16 + blen(H) + blen(B)
  && 0 - 2147483648 <= id && id < 2147483648
  && be32(s, 0) == 12 + blen(H) + blen(B) && be32(s, 4) == u32(id) && be32(s, 8) == blen(H) && be32(s, 12) == blen(B)
  && (forall i :: 0 <= i && i < blen(H) ==> s[16 + i] == bat(H, i))
  && (forall i :: 0 <= i && i < blen(B) ==> s[16 + blen(H) + i] == bat(B, i));
