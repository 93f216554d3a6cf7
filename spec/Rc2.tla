-------------------------------- MODULE Rc2 --------------------------------
(* RFC 2268.                                                                  *)
EXTENDS Words, Tables

\* key: 1..128 bytes, bits: effective key length 1..1024; 64 words of 16 bits
Rc2Expand(key, bits) ==
    LET t   == Len(key)
        t8  == (bits + 7) \div 8
        tm  == 255 % Pow2[8 + bits - 8 * t8]
        l1  == FoldLeft(LAMBDA l, i : Append(l, Rc2Pi[((l[Len(l)] + l[Len(l) - t + 1]) % 256) + 1]),
                        key, Iota(128 - t))
        l2  == [l1 EXCEPT ![129 - t8] = Rc2Pi[(l1[129 - t8] & tm) + 1]]
        l3  == FoldLeft(LAMBDA l, k : LET i == 128 - t8 - k + 1   \* position (from 1), going down
                                      IN [l EXCEPT ![i] = Rc2Pi[(l[i + 1] ^^ l[i + t8]) + 1]],
                        l2, Iota(128 - t8))
    IN  [i \in 1..64 |-> l3[2*i - 1] + 256 * l3[2*i]]

Rc2S == <<1, 2, 3, 5>>
\* mixing of word i (0..3) of r with key word number j (0..63)
Rc2Mix(k, r, i, j) ==
    LET a == r[((i + 3) % 4) + 1]  b == r[((i + 2) % 4) + 1]  c == r[((i + 1) % 4) + 1]
    IN  [r EXCEPT ![i + 1] =
           Rotl16((r[i + 1] + k[j + 1] + (a & b) + ((65535 - a) & c)) % 65536, Rc2S[i + 1])]
Rc2MixInv(k, r, i, j) ==
    LET a == r[((i + 3) % 4) + 1]  b == r[((i + 2) % 4) + 1]  c == r[((i + 1) % 4) + 1]
    IN  [r EXCEPT ![i + 1] =
           (Rotr16(r[i + 1], Rc2S[i + 1]) - k[j + 1] - (a & b) - ((65535 - a) & c) + 3 * 65536) % 65536]
Rc2Mash(k, r, i)    == [r EXCEPT ![i + 1] = (r[i + 1] + k[(r[((i + 3) % 4) + 1] & 63) + 1]) % 65536]
Rc2MashInv(k, r, i) == [r EXCEPT ![i + 1] = (r[i + 1] - k[(r[((i + 3) % 4) + 1] & 63) + 1] + 65536) % 65536]

MixRound(k, r, n)  == FoldLeft(LAMBDA x, i : Rc2Mix(k, x, i - 1, 4 * n + i - 1), r, Iota(4))
MashRound(k, r)    == FoldLeft(LAMBDA x, i : Rc2Mash(k, x, i - 1), r, Iota(4))
MixRoundInv(k, r, n) == FoldLeft(LAMBDA x, i : Rc2MixInv(k, x, 4 - i, 4 * n + 4 - i), r, Iota(4))
MashRoundInv(k, r)   == FoldLeft(LAMBDA x, i : Rc2MashInv(k, x, 4 - i), r, Iota(4))

Rc2Load(b)  == [i \in 1..4 |-> b[2*i - 1] + 256 * b[2*i]]
Rc2Store(r) == [i \in 1..8 |-> LET w == r[(i + 1) \div 2] IN IF i % 2 = 1 THEN w % 256 ELSE w \div 256]

Rc2Encrypt(k, block) ==
    Rc2Store(FoldLeft(LAMBDA r, n : LET m == MixRound(k, r, n - 1)
                                    IN IF n \in {5, 11} THEN MashRound(k, m) ELSE m,
                      Rc2Load(block), Iota(16)))
Rc2Decrypt(k, block) ==
    Rc2Store(FoldLeft(LAMBDA r, i : LET n == 16 - i       \* mixing round to undo (from 0)
                                    IN MixRoundInv(k, IF n \in {4, 10} THEN MashRoundInv(k, r) ELSE r, n),
                      Rc2Load(block), Iota(16)))
=============================================================================
