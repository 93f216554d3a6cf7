-------------------------------- MODULE Sha --------------------------------
(* FIPS 180-4: SHA-1, SHA-224, SHA-256, SHA-384, SHA-512.                     *)
EXTENDS MdStrengthen, Tables

Ch32(x, y, z)  == Xor32(And32(x, y), And32(Not32(x), z))
Maj32(x, y, z) == Xor32(Xor32(And32(x, y), And32(x, z)), And32(y, z))
Par32(x, y, z) == Xor32(Xor32(x, y), z)
Ch64(x, y, z)  == Xor64(And64(x, y), And64(Not64(x), z))
Maj64(x, y, z) == Xor64(Xor64(And64(x, y), And64(x, z)), And64(y, z))
From17To(n) == [i \in 1..(n - 16) |-> i + 16]

Sha1Init == MdInit
Sha1Compress(h, block) ==
    LET w == FoldLeft(LAMBDA w, i : Append(w, Rotl32(Xor32(Xor32(w[i-3], w[i-8]), Xor32(w[i-14], w[i-16])), 1)),
                      WordsBE32(block), From17To(80))
        Step(s, i) ==
            LET q == (i - 1) \div 20 + 1
                f == CASE q = 1 -> Ch32(s[2], s[3], s[4])
                       [] q = 3 -> Maj32(s[2], s[3], s[4])
                       [] OTHER -> Par32(s[2], s[3], s[4])
                t == Add32(Add32(Rotl32(s[1], 5), f), Add32(Add32(s[5], Sha1K[q]), w[i]))
            IN  <<t, s[1], Rotl32(s[2], 30), s[3], s[4]>>
        r == FoldLeft(Step, h, Iota(80))
    IN  [i \in 1..5 |-> Add32(h[i], r[i])]
Sha1(msg) == LET h == Absorb(Sha1Compress, Sha1Init, msg, 64, 8, TRUE) IN Flatten([i \in 1..5 |-> BytesBE32(h[i])])

Sha256Compress(h, block) ==
    LET w == FoldLeft(LAMBDA w, i :
                 LET x == w[i - 15]  y == w[i - 2]
                 IN Append(w, Add32(Add32(w[i - 16], Par32(Rotr32(x, 7), Rotr32(x, 18), Shr32(x, 3))),
                                    Add32(w[i - 7], Par32(Rotr32(y, 17), Rotr32(y, 19), Shr32(y, 10))))),
                 WordsBE32(block), From17To(64))
        Step(s, i) ==
            LET a == s[1]  e == s[5]
                t1 == Add32(Add32(Add32(s[8], Par32(Rotr32(e, 6), Rotr32(e, 11), Rotr32(e, 25))),
                                  Ch32(e, s[6], s[7])), Add32(Sha256K[i], w[i]))
                t2 == Add32(Par32(Rotr32(a, 2), Rotr32(a, 13), Rotr32(a, 22)), Maj32(a, s[2], s[3]))
            IN  <<Add32(t1, t2), s[1], s[2], s[3], Add32(s[4], t1), s[5], s[6], s[7]>>
        r == FoldLeft(Step, h, Iota(64))
    IN  [i \in 1..8 |-> Add32(h[i], r[i])]

Par64(x, y, z) == Xor64(Xor64(x, y), z)
Sha512Compress(h, block) ==
    LET w == FoldLeft(LAMBDA w, i :
                 LET x == w[i - 15]  y == w[i - 2]
                 IN Append(w, Add64(Add64(w[i - 16], Par64(Rotr64(x, 1), Rotr64(x, 8), Shr64(x, 7))),
                                    Add64(w[i - 7], Par64(Rotr64(y, 19), Rotr64(y, 61), Shr64(y, 6))))),
                 WordsBE64(block), From17To(80))
        Step(s, i) ==
            LET a == s[1]  e == s[5]
                t1 == Add64(Add64(Add64(s[8], Par64(Rotr64(e, 14), Rotr64(e, 18), Rotr64(e, 41))),
                                  Ch64(e, s[6], s[7])), Add64(Sha512K[i], w[i]))
                t2 == Add64(Par64(Rotr64(a, 28), Rotr64(a, 34), Rotr64(a, 39)), Maj64(a, s[2], s[3]))
            IN  <<Add64(t1, t2), s[1], s[2], s[3], Add64(s[4], t1), s[5], s[6], s[7]>>
        r == FoldLeft(Step, h, Iota(80))
    IN  [i \in 1..8 |-> Add64(h[i], r[i])]

OutputBE32(h, n) == Flatten([i \in 1..n |-> BytesBE32(h[i])])
OutputBE64(h, n) == Flatten([i \in 1..n |-> BytesBE64(h[i])])
Sha224(msg) == OutputBE32(Absorb(Sha256Compress, Sha224Init, msg, 64, 8, TRUE), 7)
Sha256(msg) == OutputBE32(Absorb(Sha256Compress, Sha256Init, msg, 64, 8, TRUE), 8)
Sha384(msg) == OutputBE64(Absorb(Sha512Compress, Sha384Init, msg, 128, 16, TRUE), 6)
Sha512(msg) == OutputBE64(Absorb(Sha512Compress, Sha512Init, msg, 128, 16, TRUE), 8)
=============================================================================
