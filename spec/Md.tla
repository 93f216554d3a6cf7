--------------------------------- MODULE Md ---------------------------------
(* MD2 (RFC 1319 with erratum 555), MD4 (RFC 1320), MD5 (RFC 1321).           *)
EXTENDS MdStrengthen, Tables

------------------------------------------------------------------------------
\* MD2: state is [x: 16 bytes, c: 16 checksum bytes, l: last checksum byte]
Md2Start == [x |-> Repeat(0, 16), c |-> Repeat(0, 16), l |-> 0]
Md2Checksum(c, l, block) ==
    FoldLeft(LAMBDA acc, j : LET v == acc[1][j] ^^ Md2S[(block[j] ^^ acc[2]) + 1]
                             IN <<[acc[1] EXCEPT ![j] = v], v>>, <<c, l>>, Iota(16))
Md2Mix(x, block) ==
    LET x0 == x \o block \o XorSeq(x, block)
        Pass(acc, j) ==
            LET r == FoldLeft(LAMBDA a, v : LET n == v ^^ Md2S[a[2] + 1] IN <<Append(a[1], n), n>>,
                              <<<<>>, acc[2]>>, acc[1])
            IN  <<r[1], (r[2] + j - 1) % 256>>
    IN  SubSeq(FoldLeft(Pass, <<x0, 0>>, Iota(18))[1], 1, 16)
Md2Block(st, block) ==
    LET cs == Md2Checksum(st.c, st.l, block)
    IN  [x |-> Md2Mix(st.x, block), c |-> cs[1], l |-> cs[2]]
Md2(msg) ==
    LET pad == 16 - (Len(msg) % 16)
        st  == FoldBlocks(Md2Block, Md2Start, msg \o Repeat(pad, pad), 16)
    IN  Md2Mix(st.x, st.c)

------------------------------------------------------------------------------
FF(x, y, z) == Or32(And32(x, y), And32(Not32(x), z))
Maj(x, y, z) == Or32(Or32(And32(x, y), And32(x, z)), And32(y, z))
Parity(x, y, z) == Xor32(Xor32(x, y), z)
Md128Init == SubSeq(MdInit, 1, 4)
Output128(h) == BytesLE32(h[1]) \o BytesLE32(h[2]) \o BytesLE32(h[3]) \o BytesLE32(h[4])

\* MD4. Step t (0..47) replaces the first register and rotates the four.
Md4Index(t) == IF t < 16 THEN t
               ELSE IF t < 32 THEN ((t - 16) % 4) * 4 + ((t - 16) \div 4)
               ELSE LET R == <<0, 2, 1, 3>>            \* two-bit reversal
                        u == t - 32
                    IN  4 * R[(u % 4) + 1] + R[(u \div 4) + 1]
Md4Shift == <<<<3, 7, 11, 19>>, <<3, 5, 9, 13>>, <<3, 9, 11, 15>>>>
Md4K == <<<<0, 0>>, Sha1K[1], Sha1K[2]>>   \* 0, sqrt 2, sqrt 3
Md4Compress(h, block) ==
    LET x == WordsLE32(block)
        Step(s, i) ==
            LET t == i - 1
                r == (t \div 16) + 1
                f == CASE r = 1 -> FF(s[2], s[3], s[4])
                       [] r = 2 -> Maj(s[2], s[3], s[4])
                       [] OTHER -> Parity(s[2], s[3], s[4])
                v == Rotl32(Add32(Add32(s[1], f), Add32(x[Md4Index(t) + 1], Md4K[r])),
                            Md4Shift[r][(t % 4) + 1])
            IN  <<s[4], v, s[2], s[3]>>
        r == FoldLeft(Step, h, Iota(48))
    IN  [i \in 1..4 |-> Add32(h[i], r[i])]
Md4(msg) == Output128(Absorb(Md4Compress, Md128Init, msg, 64, 8, FALSE))

------------------------------------------------------------------------------
\* MD5
Md5Index(t) == CASE t < 16 -> t
                 [] t >= 16 /\ t < 32 -> (5 * t + 1) % 16
                 [] t >= 32 /\ t < 48 -> (3 * t + 5) % 16
                 [] OTHER -> (7 * t) % 16
Md5Shift == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
Md5Compress(h, block) ==
    LET x == WordsLE32(block)
        Step(s, i) ==
            LET t == i - 1
                r == (t \div 16) + 1
                f == CASE r = 1 -> FF(s[2], s[3], s[4])
                       [] r = 2 -> FF(s[4], s[2], s[3])
                       [] r = 3 -> Parity(s[2], s[3], s[4])
                       [] OTHER -> Xor32(s[3], Or32(s[2], Not32(s[4])))
                v == Add32(s[2], Rotl32(Add32(Add32(s[1], f), Add32(x[Md5Index(t) + 1], Md5T[i])),
                                        Md5Shift[r][(t % 4) + 1]))
            IN  <<s[4], v, s[2], s[3]>>
        r == FoldLeft(Step, h, Iota(64))
    IN  [i \in 1..4 |-> Add32(h[i], r[i])]
Md5(msg) == Output128(Absorb(Md5Compress, Md128Init, msg, 64, 8, FALSE))
=============================================================================
