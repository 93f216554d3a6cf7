------------------------------- MODULE Words -------------------------------
(* Fixed-size machine words for TLC, whose integers are 32-bit and signed.    *)
(*   byte     : 0..255                                                        *)
(*   16-bit   : 0..65535                                                      *)
(*   32-bit   : <<hi, lo>>            two 16-bit limbs                        *)
(*   64-bit   : <<w3, w2, w1, w0>>    four 16-bit limbs                       *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Iota(n) == [i \in 1..n |-> i]
Repeat(x, n) == [i \in 1..n |-> x]
Pow2 == [i \in 0..16 |-> 2^i]

\* the i-th (from 0) chunk of n elements
Chunk(s, n, i) == SubSeq(s, n * i + 1, n * i + n)
Take(s, n) == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
XorSeq(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

------------------------------------------------------------------------------
\* 16-bit
Rotl16(a, n) == IF n = 0 THEN a ELSE ((a % Pow2[16 - n]) * Pow2[n]) + (a \div Pow2[16 - n])
Rotr16(a, n) == Rotl16(a, (16 - n) % 16)

------------------------------------------------------------------------------
\* 32-bit
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And32(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Or32(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
Not32(a)    == <<65535 - a[1], 65535 - a[2]>>
Add32(a, b) == LET lo == a[2] + b[2]
               IN <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
Neg32(a)    == Add32(Not32(a), <<0, 1>>)
Sub32(a, b) == Add32(a, Neg32(b))
Rotr32(a, n) ==
    LET s == n % 16
        h == IF (n \div 16) % 2 = 1 THEN a[2] ELSE a[1]
        l == IF (n \div 16) % 2 = 1 THEN a[1] ELSE a[2]
        p == Pow2[s]
        q == Pow2[16 - s]
    IN  IF s = 0 THEN <<h, l>>
        ELSE <<(h \div p) + (l % p) * q, (l \div p) + (h % p) * q>>
Rotl32(a, n) == Rotr32(a, (32 - (n % 32)) % 32)
\* shift right, 0 < n < 16
Shr32(a, n) == LET p == Pow2[n] IN <<a[1] \div p, (a[2] \div p) + (a[1] % p) * Pow2[16 - n]>>

BytesBE32(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
BytesLE32(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
WordBE32(b)  == <<b[1] * 256 + b[2], b[3] * 256 + b[4]>>
WordLE32(b)  == <<b[4] * 256 + b[3], b[2] * 256 + b[1]>>
WordsBE32(b) == [i \in 1..(Len(b) \div 4) |-> WordBE32(SubSeq(b, 4*i - 3, 4*i))]
WordsLE32(b) == [i \in 1..(Len(b) \div 4) |-> WordLE32(SubSeq(b, 4*i - 3, 4*i))]

------------------------------------------------------------------------------
\* 64-bit
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
And64(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
Not64(a)    == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Add64(a, b) == LET l4 == a[4] + b[4]
                   l3 == a[3] + b[3] + (l4 \div 65536)
                   l2 == a[2] + b[2] + (l3 \div 65536)
                   l1 == a[1] + b[1] + (l2 \div 65536)
               IN <<l1 % 65536, l2 % 65536, l3 % 65536, l4 % 65536>>
\* limb i (1..4) of a after rotating right by k whole limbs
RotLimb(a, i, k) == a[((i - 1 + 4 - k) % 4) + 1]
Rotr64(a, n) ==
    LET k == (n \div 16) % 4
        s == n % 16
        p == Pow2[s]
        q == Pow2[16 - s]
    IN  IF s = 0 THEN [i \in 1..4 |-> RotLimb(a, i, k)]
        ELSE [i \in 1..4 |-> (RotLimb(a, i, k) \div p) + (RotLimb(a, i, k + 1) % p) * q]
\* shift right, 0 < n < 16
Shr64(a, n) == LET p == Pow2[n]
                   q == Pow2[16 - n]
               IN <<a[1] \div p, (a[2] \div p) + (a[1] % p) * q,
                    (a[3] \div p) + (a[2] % p) * q, (a[4] \div p) + (a[3] % p) * q>>
BytesBE64(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256,
                  w[3] \div 256, w[3] % 256, w[4] \div 256, w[4] % 256>>
WordBE64(b)  == <<b[1] * 256 + b[2], b[3] * 256 + b[4], b[5] * 256 + b[6], b[7] * 256 + b[8]>>
WordsBE64(b) == [i \in 1..(Len(b) \div 8) |-> WordBE64(SubSeq(b, 8*i - 7, 8*i))]

\* all of a sequence of sequences, one after the other (halves, so that long ones are not copied again and again)
RECURSIVE JoinHalves(_, _, _)
JoinHalves(ss, a, b) ==
    IF b - a < 8 THEN FoldLeft(LAMBDA acc, i : acc \o ss[a + i], ss[a], Iota(b - a))
    ELSE LET m == (a + b) \div 2 IN JoinHalves(ss, a, m) \o JoinHalves(ss, m + 1, b)
Flatten(ss) ==
    LET t == TLCEval(ss) IN
    IF Len(t) < 17 THEN FoldLeft(LAMBDA acc, x : acc \o x, <<>>, t)
    ELSE LET u == t \o <<>> IN JoinHalves(u, 1, Len(u))
=============================================================================
