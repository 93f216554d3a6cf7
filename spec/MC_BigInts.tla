----------------------------- MODULE MC_BigInts -----------------------------
(* The big numbers of the specification against TLC's integers.                *)
EXTENDS BigNat
CONSTANTS Values, Small
VARIABLES a, b, go

Init == a \in Values /\ b \in Values /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED <<a, b>>
A == FromInt(a)
B == FromInt(b)
Lg(n) == CHOOSE k \in 0..31 : (k = 0 /\ n = 0) \/ (k > 0 /\ n >= 2^(k - 1) /\ (k = 31 \/ n < 2^k))
RECURSIVE IntGcd(_, _)
IntGcd(x, y) == IF y = 0 THEN x ELSE IntGcd(y, x % y)
RECURSIVE IntPow(_, _, _)
IntPow(x, e, m) == IF e = 0 THEN 1 % m ELSE (IntPow(x, e - 1, m) * (x % m)) % m

Canonical == go => /\ ToInt(A) = a /\ (A = Zero <=> a = 0)
                   /\ (A # Zero => A[Len(A)] # 0)
                   /\ FromBE(ToBE(A)) = A /\ FromLE(A) = A
                   /\ FromBE(<<0, 0>> \o ToBE(A)) = A /\ FromLE(A \o <<0, 0>>) = A
                   /\ ToFixedBE(A, 5) = Repeat(0, 5 - Len(A)) \o ToBE(A)
Sums == go => /\ Add(A, B) = FromInt(a + b)
              /\ (a >= b => Sub(A, B) = FromInt(a - b))
              /\ Cmp(A, B) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
Products == go => /\ (a = 0 \/ b <= 1000000000 \div a => Mul(A, B) = FromInt(a * b))
                  /\ (b # 0 => Mod(A, B) = FromInt(a % b) /\ Div(A, B) = FromInt(a \div b))
                  /\ (b # 0 => Add(Mul(Div(A, B), B), Mod(A, B)) = A)
                  /\ Gcd(A, B) = FromInt(IntGcd(a, b))
Bits == go => /\ BitLen(A) = Lg(a)
              /\ \A i \in 0..30 : Bit(A, i) = (IF i >= Lg(a) THEN 0 ELSE (a \div 2^i) % 2)
              /\ \A i \in 0..30 : i < 8 * Len(A) /\ i < 24 =>
                    /\ SetBit(A, i, 1) = FromInt(IF (a \div 2^i) % 2 = 1 THEN a ELSE a + 2^i)
                    /\ SetBit(A, i, 0) = FromInt(IF (a \div 2^i) % 2 = 1 THEN a - 2^i ELSE a)
Shifts == go => /\ \A n \in 0..30 : a * 1 < 2^(30 - n) => ShiftLeft(A, n) = FromInt(a * 2^n)
                /\ \A n \in 0..40 : n < BitLen(A) => ShiftRight(A, n) = FromInt(a \div 2^n)
                /\ \A n \in 0..40 : ShiftRight(ShiftLeft(A, n), n) = A
Powers == go => (b > 1 /\ b < 40000 => \A e \in Small : PowMod(A, FromInt(e), B) = FromInt(IntPow(a, e, b)))
=============================================================================
