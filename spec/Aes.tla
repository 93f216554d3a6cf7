-------------------------------- MODULE Aes --------------------------------
(* The block cipher of FIPS-197, from the field arithmetic up.                *)
EXTENDS Words

\* multiplication in GF(2^8) modulo x^8 + x^4 + x^3 + x + 1
XTime(a) == IF a >= 128 THEN ((a * 2) % 256) ^^ 27 ELSE a * 2
GfMul(a, b) ==
    FoldLeft(LAMBDA s, i : <<IF s[3] % 2 = 1 THEN s[1] ^^ s[2] ELSE s[1], XTime(s[2]), s[3] \div 2>>,
             <<0, a, b>>, Iota(8))[1]
\* the inverse is the 254th power (and 0 for 0)
GfInv(a) == LET a2 == GfMul(a, a)      a4 == GfMul(a2, a2)   a8 == GfMul(a4, a4)
                a16 == GfMul(a8, a8)   a32 == GfMul(a16, a16)
                a64 == GfMul(a32, a32) a128 == GfMul(a64, a64)
            IN  GfMul(GfMul(GfMul(a128, a64), GfMul(a32, a16)), GfMul(GfMul(a8, a4), a2))
BXor(a, b) == a ^^ b
RotlByte(b, n) == ((b * Pow2[n]) % 256) + (b \div Pow2[8 - n])
Affine(b) == BXor(BXor(BXor(b, RotlByte(b, 1)), BXor(RotlByte(b, 2), RotlByte(b, 3))), BXor(RotlByte(b, 4), 99))

SBox    == [i \in 1..256 |-> Affine(GfInv(i - 1))]
InvSBox == [i \in 1..256 |-> (CHOOSE j \in 1..256 : SBox[j] = i - 1) - 1]
Mul2  == [i \in 1..256 |-> GfMul(i - 1, 2)]
Mul3  == [i \in 1..256 |-> GfMul(i - 1, 3)]
Mul9  == [i \in 1..256 |-> GfMul(i - 1, 9)]
Mul11 == [i \in 1..256 |-> GfMul(i - 1, 11)]
Mul13 == [i \in 1..256 |-> GfMul(i - 1, 13)]
Mul14 == [i \in 1..256 |-> GfMul(i - 1, 14)]

SubBytes(s)    == [i \in 1..16 |-> SBox[s[i] + 1]]
InvSubBytes(s) == [i \in 1..16 |-> InvSBox[s[i] + 1]]
\* byte i (from 0) is row i % 4, column i \div 4
ShiftRows(s)    == [i \in 1..16 |-> s[((i - 1 + 4 * ((i - 1) % 4)) % 16) + 1]]
InvShiftRows(s) == [i \in 1..16 |-> s[((i - 1 + 12 * ((i - 1) % 4)) % 16) + 1]]
MixColumns(s) ==
    [i \in 1..16 |-> LET c == 4 * ((i - 1) \div 4)
                         r == (i - 1) % 4
                         At(k) == s[c + ((r + k) % 4) + 1]
                     IN BXor(BXor(Mul2[At(0) + 1], Mul3[At(1) + 1]), BXor(At(2), At(3)))]
InvMixColumns(s) ==
    [i \in 1..16 |-> LET c == 4 * ((i - 1) \div 4)
                         r == (i - 1) % 4
                         At(k) == s[c + ((r + k) % 4) + 1] + 1
                     IN BXor(BXor(Mul14[At(0)], Mul11[At(1)]), BXor(Mul13[At(2)], Mul9[At(3)]))]

SubWord(w) == [i \in 1..4 |-> SBox[w[i] + 1]]
RotWord(w) == <<w[2], w[3], w[4], w[1]>>
Rcon == FoldLeft(LAMBDA acc, i : Append(acc, XTime(acc[i])), <<1>>, Iota(9))

Rounds(key) == Len(key) \div 4 + 6
\* sequence of 4 * (rounds + 1) words of four bytes
KeyWords(key) ==
    LET nk == Len(key) \div 4
        first == [i \in 1..nk |-> SubSeq(key, 4 * i - 3, 4 * i)]
        Next(w, i) ==      \* i is the FIPS-197 index (from 0) of the new word
            LET t == w[i]
                u == IF i % nk = 0
                     THEN LET v == SubWord(RotWord(t))
                          IN  <<v[1] ^^ Rcon[i \div nk], v[2], v[3], v[4]>>
                     ELSE IF nk > 6 /\ i % nk = 4 THEN SubWord(t) ELSE t
            IN  XorSeq(w[i - nk + 1], u)
    IN  FoldLeft(LAMBDA w, i : Append(w, Next(w, nk + i - 1)), first,
                 Iota(4 * (Rounds(key) + 1) - nk))
RoundKeys(key) ==
    LET w == KeyWords(key)
    IN  [r \in 1..(Rounds(key) + 1) |-> w[4*r - 3] \o w[4*r - 2] \o w[4*r - 1] \o w[4*r]]

AesEncrypt(rk, block) ==
    LET nr == Len(rk) - 1
        mid == FoldLeft(LAMBDA s, r : XorSeq(MixColumns(ShiftRows(SubBytes(s))), rk[r + 1]),
                        XorSeq(block, rk[1]), Iota(nr - 1))
    IN  XorSeq(ShiftRows(SubBytes(mid)), rk[nr + 1])
AesDecrypt(rk, block) ==
    LET nr == Len(rk) - 1
        mid == FoldLeft(LAMBDA s, i : InvMixColumns(XorSeq(InvSubBytes(InvShiftRows(s)), rk[nr + 1 - i])),
                        XorSeq(block, rk[nr + 1]), Iota(nr - 1))
    IN  XorSeq(InvSubBytes(InvShiftRows(mid)), rk[1])
=============================================================================
