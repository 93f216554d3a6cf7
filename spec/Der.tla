--------------------------------- MODULE Der ---------------------------------
(* The subset of ASN.1 BER (definite lengths) that the library decodes.        *)
(* Values are flattened to integer sequences, which is also how a decoded       *)
(* value is reported:                                                         *)
(*   <<2, n>> \o n bytes    integer          <<4, n>> ... octet string         *)
(*   <<6, n>> ...           object identifier <<5>>       null                 *)
(*   <<3, unused, n>> ...   bit string                                        *)
(*   <<48, n>> \o the n elements             sequence                          *)
EXTENDS Words

\* the result of reading a header at position i: tag, content start, content length.
\* k: "ok", "err", or "wide" (a length field of more than 16 length bytes)
HeaderErr == [k |-> "err", tag |-> 0, start |-> 0, len |-> 0]
Header(b, i, end) ==
    IF i + 1 > end THEN HeaderErr
    ELSE IF b[i + 1] < 128 THEN [k |-> "ok", tag |-> b[i], start |-> i + 2, len |-> b[i + 1]]
    ELSE LET n == b[i + 1] - 128
             nz == SelectInSeq(SubSeq(b, i + 2, i + 1 + n), LAMBDA x : x # 0)   \* first significant byte
             sig == IF nz = 0 THEN 0 ELSE n - nz + 1
         IN  IF n = 0 \/ i + 1 + n > end THEN HeaderErr
             ELSE IF sig > 3 THEN HeaderErr        \* 2^24 bytes or more: longer than any text considered
             ELSE [k |-> IF n > 16 THEN "wide" ELSE "ok", tag |-> b[i], start |-> i + 2 + n,
                   len |-> FoldLeft(LAMBDA a, x : a * 256 + x, 0, SubSeq(b, i + 2 + n - sig, i + 1 + n))]

Failed == [ok |-> FALSE, flat |-> <<>>, next |-> 0, wide |-> FALSE, depth |-> 0]
\* decode one value in b[i..end]: flattened value and the position after it
RECURSIVE DecodeAt(_, _, _)
RECURSIVE DecodeAll(_, _, _)
DecodeAt(b, i, end) ==
    LET h == Header(b, i, end)
        last == h.start + h.len - 1
        w == h.k = "wide"
        bytes == SubSeq(b, h.start, last)
    IN  IF h.k = "err" \/ last > end THEN Failed
        ELSE CASE h.tag \in {2, 4, 6} ->
                     [ok |-> TRUE, flat |-> <<h.tag, h.len>> \o bytes, next |-> last + 1, wide |-> w, depth |-> 0]
               [] h.tag = 3 /\ h.len > 0 ->
                     [ok |-> TRUE, flat |-> <<3, bytes[1], h.len - 1>> \o Tail(bytes), next |-> last + 1, wide |-> w, depth |-> 0]
               [] h.tag = 5 /\ h.len = 0 ->
                     [ok |-> TRUE, flat |-> <<5>>, next |-> last + 1, wide |-> w, depth |-> 0]
               [] h.tag = 48 ->
                     LET r == DecodeAll(b, h.start, last)
                     IN  IF r.ok THEN [ok |-> TRUE, flat |-> <<48, r.count>> \o r.flat, next |-> last + 1,
                                       wide |-> w \/ r.wide, depth |-> r.depth + 1]
                         ELSE Failed
               [] OTHER -> Failed
\* all values in b[i..end]
DecodeAll(b, i, end) ==
    IF i > end THEN [ok |-> TRUE, flat |-> <<>>, count |-> 0, wide |-> FALSE, depth |-> 0]
    ELSE LET x == DecodeAt(b, i, end)
         IN  IF ~x.ok THEN [ok |-> FALSE, flat |-> <<>>, count |-> 0, wide |-> FALSE, depth |-> 0]
             ELSE LET y == DecodeAll(b, x.next, end)
                  IN  [ok |-> y.ok, flat |-> x.flat \o y.flat, count |-> y.count + 1, wide |-> x.wide \/ y.wide,
                       depth |-> IF x.depth > y.depth THEN x.depth ELSE y.depth]
\* decode a whole text
Decode(b) == LET r == DecodeAt(b, 1, Len(b))
             IN  IF r.ok /\ r.next = Len(b) + 1 THEN r ELSE Failed

------------------------------------------------------------------------------
\* DER encoding of a content of n bytes (n < 2^24)
LenField(n) == IF n < 128 THEN <<n>>
               ELSE IF n < 256 THEN <<129, n>>
               ELSE IF n < 65536 THEN <<130, n \div 256, n % 256>>
               ELSE <<131, n \div 65536, (n \div 256) % 256, n % 256>>
Tlv(tag, content) == <<tag>> \o LenField(Len(content)) \o content
\* DER encoding of a flattened value starting at position i: <<bytes, position after it>>
RECURSIVE EncodeAt(_, _)
EncodeAt(f, i) ==
    CASE f[i] \in {2, 4, 6} -> <<Tlv(f[i], SubSeq(f, i + 2, i + 1 + f[i + 1])), i + 2 + f[i + 1]>>
      [] f[i] = 3 -> <<Tlv(3, <<f[i + 1]>> \o SubSeq(f, i + 3, i + 2 + f[i + 2])), i + 3 + f[i + 2]>>
      [] f[i] = 5 -> <<Tlv(5, <<>>), i + 1>>
      [] f[i] = 48 -> LET r == FoldLeft(LAMBDA acc, k : LET x == EncodeAt(f, acc[2]) IN <<acc[1] \o x[1], x[2]>>,
                                        <<<<>>, i + 2>>, Iota(f[i + 1]))
                      IN  <<Tlv(48, r[1]), r[2]>>
Encode(f) == EncodeAt(f, 1)[1]
=============================================================================
