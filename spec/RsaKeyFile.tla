----------------------------- MODULE RsaKeyFile -----------------------------
(* PKCS#8 PrivateKeyInfo and X.509 SubjectPublicKeyInfo for RSA, on flattened    *)
(* ASN.1 values (module Der).                                                  *)
EXTENDS Der, BigNat

RsaOid == <<42, 134, 72, 134, 247, 13, 1, 1, 1>>
RsaAlgorithm == <<48, 2, 6, 9>> \o RsaOid \o <<5>>

\* split a flattened sequence into its flattened elements
RECURSIVE SkipValue(_, _)
SkipValue(f, i) == CASE f[i] \in {2, 4, 6} -> i + 2 + f[i + 1]
                     [] f[i] = 3 -> i + 3 + f[i + 2]
                     [] f[i] = 5 -> i + 1
                     [] f[i] = 48 -> FoldLeft(LAMBDA p, k : SkipValue(f, p), i + 2, Iota(f[i + 1]))
Elements(f) ==
    FoldLeft(LAMBDA acc, k : LET j == SkipValue(f, acc[2]) IN <<Append(acc[1], SubSeq(f, acc[2], j - 1)), j>>,
             <<<<>>, 3>>, Iota(f[2]))[1]
IsSeq(f) == f[1] = 48
IsInt(f) == f[1] = 2
IntBytes(f) == Drop(f, 2)
\* a non-negative DER integer
Plain(f) == Len(f) > 2 /\ f[3] < 128

\* An accepted file is left open (may also be refused) where its encoding is outside DER.
Weaken(f, open) == IF f.k = "yes" /\ open THEN [f EXCEPT !.k = "open"] ELSE f
IsZeroInt(f) == IsInt(f) /\ \A i \in 3..Len(f) : f[i] = 0
\* the public exponent is the inverse of the private one (p and q are taken to be primes)
Matching(n, e, d, p, q) ==
    /\ Less(One, p) /\ Less(One, q) /\ Mul(p, q) = n
    /\ (p = FromInt(2) \/ Mod(Mul(e, d), Sub(p, One)) = One)
    /\ (q = FromInt(2) \/ Mod(Mul(e, d), Sub(q, One)) = One)
    /\ p # q
Unknown == <<-1>>      \* no number looks like this
No == [k |-> "no", n |-> <<>>, x |-> Unknown, y |-> Unknown]
\* k: "yes" must be accepted, "no" must be rejected, "open" may be either; n modulus, x exponent,
\* y the exponent of the matching key if the file has it
PublicKeyOf(f) ==
    IF ~IsSeq(f) THEN No
    ELSE LET el == Elements(f)
         IN  IF Len(el) # 2 \/ ~(\A i \in 1..Len(el) : IsInt(el[i])) THEN No
             ELSE [k |-> IF Plain(el[1]) /\ Plain(el[2]) THEN "yes" ELSE "open",
                   n |-> FromBE(IntBytes(el[1])), x |-> FromBE(IntBytes(el[2])), y |-> Unknown]
PrivateKeyOf(f) ==
    IF ~IsSeq(f) THEN No
    ELSE LET el == Elements(f)
         IN  IF Len(el) # 9 \/ ~(\A i \in 1..Len(el) : IsInt(el[i])) THEN No
             ELSE [k |-> IF el[1] = <<2, 1, 0>> /\ (\A i \in 2..9 : Plain(el[i])) THEN "yes" ELSE "open",
                   n |-> FromBE(IntBytes(el[2])), x |-> FromBE(IntBytes(el[4])), y |-> LET v == [i \in 1..9 |-> FromBE(IntBytes(el[i]))]
                         IN  IF Matching(v[2], v[3], v[4], v[5], v[6]) THEN v[3] ELSE Unknown]

PublicFile(bytes) ==
    LET r == Decode(bytes)
    IN  IF ~r.ok THEN No
        ELSE IF ~IsSeq(r.flat) THEN No
        ELSE LET el == Elements(r.flat)
             IN  IF Len(el) # 2 THEN No
                 ELSE IF el[1] # RsaAlgorithm \/ el[2][1] # 3 THEN No
                 ELSE IF el[2][2] # 0 THEN No
                 ELSE LET inner == Decode(Drop(el[2], 3))
                      IN  IF inner.ok THEN Weaken(PublicKeyOf(inner.flat), r.wide \/ inner.wide) ELSE No
PrivateFile(bytes) ==
    LET r == Decode(bytes)
    IN  IF ~r.ok THEN No
        ELSE IF ~IsSeq(r.flat) THEN No
        ELSE LET el == Elements(r.flat)
             IN  IF Len(el) # 3 THEN No
                 ELSE IF ~IsZeroInt(el[1]) \/ el[2] # RsaAlgorithm \/ el[3][1] # 4 THEN No
                 ELSE LET inner == Decode(Drop(el[3], 2))
                      IN  IF inner.ok
                          THEN Weaken(PrivateKeyOf(inner.flat), r.wide \/ inner.wide \/ el[1] # <<2, 1, 0>>) ELSE No
=============================================================================
