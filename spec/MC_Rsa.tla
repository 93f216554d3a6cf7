------------------------------- MODULE MC_Rsa -------------------------------
(* Key generation for all pairs of small primes and all small exponents: Euclid's  *)
(* algorithm for the least common multiple, the extended algorithm for the private  *)
(* exponent, then the two keys undo each other on every number below the modulus.   *)
(* Every case is replayed into the code.                                        *)
EXTENDS RsaApi, TLC, Json
CONSTANTS Primes, MaxE
VARIABLES p, q, e, pc, lam, r0, r1, s0, s1

vars == <<objs, reply, p, q, e, pc, lam, r0, r1, s0, s1>>
RECURSIVE IntGcd(_, _)
IntGcd(x, y) == IF y = 0 THEN x ELSE IntGcd(y, x % y)
RECURSIVE IntPow(_, _, _)
IntPow(x, k, m) == IF k = 0 THEN 1 % m ELSE LET h == IntPow(x, k \div 2, m) IN IF k % 2 = 0 THEN (h * h) % m ELSE (((h * h) % m) * x) % m

Init == /\ p \in Primes /\ q \in Primes /\ p # q /\ e \in 1..MaxE
        /\ pc = "lcm" /\ lam = 0 /\ r0 = p - 1 /\ r1 = q - 1 /\ s0 = 0 /\ s1 = 0
        /\ objs = <<>> /\ reply = NoReply
Lcm == /\ pc = "lcm"
       /\ IF r1 # 0 THEN r0' = r1 /\ r1' = r0 % r1 /\ UNCHANGED <<pc, lam, s0, s1>>
          ELSE /\ lam' = ((p - 1) \div r0) * (q - 1)
               /\ pc' = "inv" /\ r0' = lam' /\ r1' = e % lam' /\ s0' = 0 /\ s1' = 1 % lam'
       /\ UNCHANGED <<objs, reply, p, q, e>>
Inv == /\ pc = "inv"
       /\ IF r1 # 0
          THEN /\ r0' = r1 /\ r1' = r0 % r1
               /\ s0' = s1 /\ s1' = s0 - (r0 \div r1) * s1
               /\ UNCHANGED pc
          ELSE pc' = (IF r0 = 1 THEN "keys" ELSE "refused") /\ UNCHANGED <<r0, r1, s0, s1>>
       /\ UNCHANGED <<objs, reply, p, q, e, lam>>
Answer == /\ pc \in {"keys", "refused"} /\ reply = NoReply
          /\ CreateKeys(ToBE(FromInt(p)), ToBE(FromInt(q)), ToBE(FromInt(e)))
          /\ UNCHANGED <<p, q, e, pc, lam, r0, r1, s0, s1>>
Next == Lcm \/ Inv \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

D == ((s0 % lam) + lam) % lam
N == p * q
\* Bezout: the remainders are e times their coefficients, modulo the least common multiple
Bezout == pc = "inv" => /\ (r0 - s0 * e) % lam = 0
                        /\ (r1 - s1 * e) % lam = 0
Bounded == pc = "inv" => s0 <= lam /\ s0 >= -lam
\* the private exponent is the inverse; it exists exactly if e is coprime to p-1 and q-1
IsInverse == pc = "keys" => (D * e) % lam = 1 % lam
Exists == (pc = "refused" => IntGcd(e, (p - 1) * (q - 1)) # 1) /\ (pc = "keys" => IntGcd(e, (p - 1) * (q - 1)) = 1)
\* the keys undo each other on every number below the modulus
Undo == (pc = "keys" /\ reply = NoReply) => \A x \in 0..(N - 1) : IntPow(IntPow(x, e, N), D, N) = x
\* the specification of the call says the same
CallRight == reply # NoReply => (IF pc = "keys" THEN reply = Ok(<<>>) ELSE reply = Panic)
Ends == <>(reply # NoReply)

Bs(x) == ToBE(FromInt(x))
New == [op |-> "create", p |-> Bs(p), q |-> Bs(q), e |-> Bs(e)]
RawCall(o, x, k) == [e |-> [op |-> "raw", obj |-> o, data |-> Bs(x), dir |-> IF (x + o) % 2 = 0 THEN "enc" ELSE "dec"], r |-> Ok(<<Bs(IntPow(x, k, N))>>)]
Xs == {x \in {0, 1, 2, p, q, N - 1, N \div 2, (7 * e) % N, (p * e) % N, N - p} : x < N}
RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ListOf(S \ {x})
Uses == LET xs == ListOf(Xs) IN [i \in 1..Len(xs) |-> RawCall(2, xs[i], e)] \o [i \in 1..Len(xs) |-> RawCall(1, IntPow(xs[i], e, N), D)]
Emit == reply # NoReply => PrintT("@" \o ToJson(<<[e |-> New, r |-> reply]>> \o (IF pc = "keys" THEN Uses ELSE <<>>)))
=============================================================================
