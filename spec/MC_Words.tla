------------------------------ MODULE MC_Words ------------------------------
(* The machine words of the specification against their bits.                  *)
EXTENDS Words
CONSTANT Limbs
VARIABLES a, b, go     \* go: so that the cases are spread over the workers

Init == a \in (Limbs \X Limbs \X Limbs \X Limbs) /\ b \in {<<u, v, u, v>> : u, v \in Limbs} /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED <<a, b>>

\* bit i (from 0, least significant) of a word of any number of limbs
B(w, i) == (w[Len(w) - (i \div 16)] \div Pow2[i % 16]) % 2
OfBits(n, Bit(_)) == \* the word of n limbs with these bits
    [k \in 1..n |-> FoldLeft(LAMBDA s, j : s + Pow2[j - 1] * Bit(16 * (n - k) + j - 1), 0, Iota(16))]
Lo(w) == <<w[3], w[4]>>
x == Lo(a)
y == Lo(b)
Neg(bit) == 1 - bit

RotationsHold ==
             /\ \A n \in 0..31 : /\ Rotr32(x, n) = OfBits(2, LAMBDA i : B(x, (i + n) % 32))
                                 /\ Rotl32(x, n) = OfBits(2, LAMBDA i : B(x, (i + 32 - n) % 32))
             /\ \A n \in 1..63 : Rotr64(a, n) = OfBits(4, LAMBDA i : B(a, (i + n) % 64))
             /\ \A n \in 0..15 : Rotl16(a[1], n) = OfBits(1, LAMBDA i : B(<<a[1]>>, (i + 16 - n) % 16))[1]
             /\ \A n \in 0..15 : Rotr16(Rotl16(a[1], n), n) = a[1]
ShiftsHold ==
          /\ \A n \in 1..15 : Shr32(x, n) = OfBits(2, LAMBDA i : IF i + n < 32 THEN B(x, i + n) ELSE 0)
          /\ \A n \in 1..15 : Shr64(a, n) = OfBits(4, LAMBDA i : IF i + n < 64 THEN B(a, i + n) ELSE 0)
LogicHold ==
         /\ Xor32(x, y) = OfBits(2, LAMBDA i : (B(x, i) + B(y, i)) % 2)
         /\ And32(x, y) = OfBits(2, LAMBDA i : B(x, i) * B(y, i))
         /\ Or32(x, y) = OfBits(2, LAMBDA i : IF B(x, i) + B(y, i) > 0 THEN 1 ELSE 0)
         /\ Not32(x) = OfBits(2, LAMBDA i : 1 - B(x, i))
         /\ Xor64(a, b) = OfBits(4, LAMBDA i : (B(a, i) + B(b, i)) % 2)
         /\ And64(a, b) = OfBits(4, LAMBDA i : B(a, i) * B(b, i))
         /\ Not64(a) = OfBits(4, LAMBDA i : 1 - B(a, i))
\* sums with a ripple-carry adder
Ripple(u, v, n) ==
    LET r == FoldLeft(LAMBDA acc, i : LET s == B(u, i - 1) + B(v, i - 1) + acc[2]
                                      IN <<Append(acc[1], s % 2), s \div 2>>, <<<<>>, 0>>, Iota(16 * n))
    IN  OfBits(n, LAMBDA i : r[1][i + 1])
SumsHold ==
        /\ Add32(x, y) = Ripple(x, y, 2)
        /\ Add64(a, b) = Ripple(a, b, 4)
        /\ Add32(Sub32(x, y), y) = x
        /\ Add32(x, Neg32(x)) = <<0, 0>>
BytesHold ==
         /\ WordBE32(BytesBE32(x)) = x /\ WordLE32(BytesLE32(x)) = x
         /\ BytesBE32(x) = Reverse(BytesLE32(x))
         /\ WordBE64(BytesBE64(a)) = a
         /\ BytesBE64(a) = BytesBE32(<<a[1], a[2]>>) \o BytesBE32(Lo(a))

Rotations == go => RotationsHold
Shifts == go => ShiftsHold
Logic == go => LogicHold
Sums == go => SumsHold
Bytes == go => BytesHold
=============================================================================
