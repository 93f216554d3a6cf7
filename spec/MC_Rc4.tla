------------------------------- MODULE MC_Rc4 -------------------------------
(* Design model of the RC4 machine with W values instead of 256: every key up    *)
(* to MaxKey values, run until the state repeats.                             *)
EXTENDS Rc4, FiniteSets
CONSTANTS W, MaxKey
VARIABLES key, st, outs

Init == \E n \in 1..MaxKey : /\ key \in [1..n -> 0..(W - 1)]
                             /\ st = Rc4Schedule(key, W) /\ outs = 0
Next == /\ st' = Rc4Step(st, W) /\ outs' = (outs + 1) % W /\ UNCHANGED key

\* the reverse of one step
Rc4Back(s) ==
    LET x == s[2]  y == s[3]
        t == [s[1] EXCEPT ![x + 1] = s[1][y + 1], ![y + 1] = s[1][x + 1]]
    IN  <<t, (x + W - 1) % W, (y + W - t[x + 1]) % W>>

\* the table stays a permutation, the indices stay in range
IsPermutation == {st[1][i] : i \in 1..W} = 0..(W - 1) /\ st[2] \in 0..(W - 1) /\ st[3] \in 0..(W - 1)
\* the first index counts positions, so it wraps every W steps and never loses count
Counts == st[2] = outs
OutputInRange == Rc4Out(st, W) \in 0..(W - 1)
\* stepping loses no information: the keystream is periodic from the start and position k is well defined
Reversible == Rc4Back(Rc4Step(st, W)) = st
\* reading a stretch in pieces is reading it at once
Splits == LET a == Rc4Run(st, 2, W)  b == Rc4Run(a[1], 3, W)  c == Rc4Run(st, 5, W)
          IN  c[1] = b[1] /\ c[2] = a[2] \o b[2] /\ Rc4Skip(st, 5, W) = c[1]
\* only the first W key values matter, and a repeated key schedules like the key
KeyPrefix == /\ Rc4Schedule(key \o key, W) = Rc4Schedule(key, W)
             /\ (Len(key) > W => Rc4Schedule(key, W) = Rc4Schedule(SubSeq(key, 1, W), W))
=============================================================================
