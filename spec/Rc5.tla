-------------------------------- MODULE Rc5 --------------------------------
(* RC5-32/r/b (RFC 2040), little-endian words.                                *)
EXTENDS Words, Tables

\* 2(r+1) words
Rc5Expand(key, rounds) ==
    LET b == Len(key)
        c == IF b = 0 THEN 1 ELSE (b + 3) \div 4
        kb == key \o Repeat(0, 4 * c - b)
        l0 == WordsLE32(kb)
        t == 2 * (rounds + 1)
        s0 == FoldLeft(LAMBDA s, i : Append(s, Add32(s[i], Rc5Q)), <<Rc5P>>, Iota(t - 1))
        n == 3 * (IF t > c THEN t ELSE c)
        Step(st, k) ==
            LET i == ((k - 1) % t) + 1
                j == ((k - 1) % c) + 1
                a == Rotl32(Add32(Add32(st.s[i], st.a), st.b), 3)
                ab == Add32(a, st.b)
                bb == Rotl32(Add32(st.l[j], ab), ab[2] % 32)
            IN  [s |-> [st.s EXCEPT ![i] = a], l |-> [st.l EXCEPT ![j] = bb], a |-> a, b |-> bb]
    IN  FoldLeft(Step, [s |-> s0, l |-> l0, a |-> <<0, 0>>, b |-> <<0, 0>>], Iota(n)).s

Rc5Encrypt(s, block) ==
    LET rounds == Len(s) \div 2 - 1
        x == FoldLeft(LAMBDA ab, i :
                 LET a == Add32(Rotl32(Xor32(ab[1], ab[2]), ab[2][2] % 32), s[2*i + 1])
                     b == Add32(Rotl32(Xor32(ab[2], a), a[2] % 32), s[2*i + 2])
                 IN <<a, b>>,
                 <<Add32(WordLE32(SubSeq(block, 1, 4)), s[1]), Add32(WordLE32(SubSeq(block, 5, 8)), s[2])>>,
                 Iota(rounds))
    IN  BytesLE32(x[1]) \o BytesLE32(x[2])
Rc5Decrypt(s, block) ==
    LET rounds == Len(s) \div 2 - 1
        x == FoldLeft(LAMBDA ab, k :
                 LET i == rounds + 1 - k
                     b == Xor32(Rotr32(Sub32(ab[2], s[2*i + 2]), ab[1][2] % 32), ab[1])
                     a == Xor32(Rotr32(Sub32(ab[1], s[2*i + 1]), b[2] % 32), b)
                 IN <<a, b>>,
                 <<WordLE32(SubSeq(block, 1, 4)), WordLE32(SubSeq(block, 5, 8))>>, Iota(rounds))
    IN  BytesLE32(Sub32(x[1], s[1])) \o BytesLE32(Sub32(x[2], s[2]))
=============================================================================
