------------------------------- MODULE MC_Pow -------------------------------
(* Modular exponentiation by squaring, one exponent bit per step, and modular      *)
(* multiplication by doubling inside it, for all small moduli, exponents and        *)
(* bases (also bases not below the modulus, and even moduli). Replayed through      *)
(* imported public keys.                                                        *)
EXTENDS RsaApi, TLC, Json
CONSTANTS MaxM, MaxE, MaxB
VARIABLES m, x, b, acc, sq, left, pc

vars == <<objs, reply, m, x, b, acc, sq, left, pc>>
RECURSIVE IntPow(_, _, _)
IntPow(y, k, n) == IF k = 0 THEN 1 % n ELSE (IntPow(y, k - 1, n) * (y % n)) % n
\* multiplication by doubling and adding
RECURSIVE MulLoop(_, _, _, _)
MulLoop(y, z, n, s) == IF z = 0 THEN s ELSE MulLoop((2 * y) % n, z \div 2, n, IF z % 2 = 1 THEN (s + y) % n ELSE s)
MulMod(y, z, n) == MulLoop(y % n, z, n, 0)

Init == /\ m \in 2..MaxM /\ x \in 0..MaxE /\ b \in 0..MaxB
        /\ acc = 1 /\ sq = b % m /\ left = x /\ pc = "run" /\ objs = <<>> /\ reply = NoReply
Step == /\ pc = "run"
        /\ IF left = 0 THEN pc' = "done" /\ UNCHANGED <<acc, sq, left>>
           ELSE /\ acc' = IF left % 2 = 1 THEN MulMod(acc, sq, m) ELSE acc
                /\ sq' = MulMod(sq, sq, m)
                /\ left' = left \div 2
                /\ UNCHANGED pc
        /\ UNCHANGED <<objs, reply, m, x, b>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
\* loop invariant
Invariant == (acc * IntPow(sq, left, m)) % m = IntPow(b, x, m)
Result == pc = "done" => /\ acc % m = IntPow(b, x, m)
                         /\ PowMod(FromInt(b), FromInt(x), FromInt(m)) = FromInt(IntPow(b, x, m))
Ends == <>(pc = "done")
\* a public key file for the modulus and the exponent
DerInt(n) == LET d == ToBE(FromInt(n)) IN IF d = <<>> THEN <<2, 1, 0>> ELSE IF d[1] >= 128 THEN <<2, Len(d) + 1, 0>> \o d ELSE <<2, Len(d)>> \o d
Key(n, k) == LET inner == Encode(<<48, 2>> \o DerInt(n) \o DerInt(k))
             IN  Encode(<<48, 2>> \o RsaAlgorithm \o <<3, 0, Len(inner)>> \o inner)
FileRight == pc = "done" => PublicFile(Key(m, x)) = [k |-> "yes", n |-> FromInt(m), x |-> FromInt(x), y |-> Unknown]
Bs(n) == ToBE(FromInt(n))
\* one script per key: all bases
RawCall(y) == [e |-> [op |-> "raw", obj |-> 1, data |-> Bs(y), dir |-> IF y % 2 = 0 THEN "enc" ELSE "dec"], r |-> Ok(<<Bs(IntPow(y, x, m))>>)]
Emit == (pc = "done" /\ b = 0) =>
    PrintT("@" \o ToJson(<<[e |-> [op |-> "pub", label |-> PublicLabel, data |-> Key(m, x)], r |-> Ok(<<>>)]>>
                         \o [y \in 1..(MaxB + 1) |-> RawCall(y - 1)]))
=============================================================================
