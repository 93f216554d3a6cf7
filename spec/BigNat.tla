-------------------------------- MODULE BigNat ------------------------------
(* Natural numbers of any size as little-endian sequences of base-256 digits   *)
(* without a trailing zero digit, so equality of sequences is equality of      *)
(* numbers and zero is <<>>.                                                  *)
EXTENDS Words

Base == 256
Trim(d) == LET k == SelectLastInSeq(d, LAMBDA x : x # 0) IN SubSeq(d, 1, k)
Zero == <<>>
One == <<1>>
RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o FromInt(n \div Base)
\* only for numbers known to be small
ToInt(a) == FoldLeft(LAMBDA acc, d : acc * Base + d, 0, Reverse(a))
FromBE(b) == Trim(Reverse(b))
FromLE(b) == Trim(b)
ToBE(a) == Reverse(a)
\* exactly n bytes, big-endian; the number must fit
ToFixedBE(a, n) == Repeat(0, n - Len(a)) \o Reverse(a)

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxOf(x, y) == IF x > y THEN x ELSE y

\* propagate carries of non-negative digit sums
Carry(s) == LET r == FoldLeft(LAMBDA acc, x : <<Append(acc[1], (x + acc[2]) % Base), (x + acc[2]) \div Base>>,
                              <<<<>>, 0>>, s)
            IN  Trim(r[1] \o FromInt(r[2]))
Add(a, b) == Carry([i \in 1..MaxOf(Len(a), Len(b)) |-> Digit(a, i) + Digit(b, i)])

\* -1, 0 or 1
Cmp(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET k == SelectLastInSeq([i \in 1..Len(a) |-> a[i] - b[i]], LAMBDA x : x # 0)
         IN  IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE 1
Less(a, b) == Cmp(a, b) < 0
Leq(a, b) == Cmp(a, b) <= 0

\* a >= b
Sub(a, b) == LET r == FoldLeft(LAMBDA acc, i :
                          LET x == a[i] - Digit(b, i) - acc[2]
                          IN  IF x < 0 THEN <<Append(acc[1], x + Base), 1>> ELSE <<Append(acc[1], x), 0>>,
                          <<<<>>, 0>>, Iota(Len(a)))
             IN  Trim(r[1])

MulDigit(a, d) == Carry([i \in 1..Len(a) |-> a[i] * d])
Mul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |->
                  LET lo == IF k > Len(b) THEN k - Len(b) + 1 ELSE 1
                      hi == IF k > Len(a) THEN Len(a) ELSE k
                  IN  FoldLeft(LAMBDA s, i : s + a[lo + i - 1] * b[k - lo - i + 2], 0, Iota(hi - lo + 1))])

\* r (< m) times Base plus the digit d, reduced modulo m: <<quotient digit, remainder>>
RECURSIVE SubWhile(_, _, _)
SubWhile(r, m, q) == IF Less(r, m) THEN <<q, r>> ELSE SubWhile(Sub(r, m), m, q + 1)
DivStep(r, d, m) ==
    LET x == Trim(<<d>> \o r)
        n == Len(m)
        \* lower bound for the quotient digit from the leading digits
        mt == IF n >= 2 THEN m[n] * Base + m[n - 1] + 1 ELSE m[n]
        xt == IF n >= 2 THEN (Digit(x, n + 1) * Base + Digit(x, n)) * Base + Digit(x, n - 1)
              ELSE Digit(x, 2) * Base + Digit(x, 1)
        q  == xt \div mt
    IN  SubWhile(IF q = 0 THEN x ELSE Sub(x, MulDigit(m, q)), m, q)
DivMod(a, m) ==
    LET r == FoldLeft(LAMBDA acc, d : LET s == DivStep(acc[2], d, m) IN <<Append(acc[1], s[1]), s[2]>>,
                      <<<<>>, <<>>>>, Reverse(a))
    IN  <<FromBE(r[1]), r[2]>>
Mod(a, m) == IF Less(a, m) THEN a ELSE FoldLeft(LAMBDA acc, d : DivStep(acc, d, m)[2], <<>>, Reverse(a))
Div(a, m) == DivMod(a, m)[1]

BitLen(a) == IF a = <<>> THEN 0
             ELSE LET t == a[Len(a)]
                  IN 8 * (Len(a) - 1) + (CHOOSE k \in 1..8 : t >= Pow2[k - 1] /\ t < Pow2[k])
Bit(a, i) == (Digit(a, i \div 8 + 1) \div Pow2[i % 8]) % 2
\* i below 8 * Len(a)
SetBit(a, i, v) == LET k == i \div 8 + 1
                       p == Pow2[i % 8]
                       old == (a[k] \div p) % 2
                   IN  Trim([a EXCEPT ![k] = @ + (v - old) * p])
ShiftLeft(a, n) == IF a = <<>> THEN a ELSE Repeat(0, n \div 8) \o MulDigit(a, Pow2[n % 8])
ShiftRight(a, n) ==
    LET s == Drop(a, n \div 8)
        p == Pow2[n % 8]
    IN  Trim([i \in 1..Len(s) |-> (s[i] \div p) + ((Digit(s, i + 1) % p) * Pow2[8 - (n % 8)])])

\* b^e mod m for m > 1
PowMod(b, e, m) ==
    FoldLeft(LAMBDA acc, i : LET sq == Mod(Mul(acc, acc), m)
                             IN IF Bit(e, BitLen(e) - i) = 1 THEN Mod(Mul(sq, Mod(b, m)), m) ELSE sq,
             Mod(One, m), Iota(BitLen(e)))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = <<>> THEN a ELSE Gcd(b, Mod(a, b))
=============================================================================
