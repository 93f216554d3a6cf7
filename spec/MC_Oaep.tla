------------------------------- MODULE MC_Oaep -------------------------------
(* The OAEP construction with one-digit hashes over digits 0..3: every string of   *)
(* K digits as an encoding, every label, every message and every seed.           *)
EXTENDS Words
CONSTANTS K, Q
VARIABLES label, em, go

\* a toy hash: one digit that depends on every digit and its position
ToyHash(s) == <<FoldLeft(LAMBDA acc, i : (3 * acc + s[i] + i) % Q, 1, Iota(Len(s)))>>
S == INSTANCE OaepScheme WITH HLen <- 1, CtrLen <- 1, H <- ToyHash

Digits == 0..(Q - 1)
Labels == {<<>>, <<1>>, <<2, 3>>}
Msgs == UNION {[1..n -> Digits] : n \in 0..(K - 4)}
Init == label \in Labels /\ em \in UNION {[1..n -> Digits] : n \in (K - 1)..(K + 1)} /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED <<label, em>>

R == S!Decode(label, em, K)
\* accepted exactly if it is an encoding, with some seed, of exactly the returned message
Table == [l \in Labels |-> {<<S!Encode(l, m, K, <<s>>), m>> : m \in Msgs, s \in Digits}]
Origins == {t[2] : t \in {u \in Table[label] : u[1] = em}}
Exact == go => IF R.ok THEN Origins = {R.msg} ELSE Origins = {}
\* an encoding has K digits, starts with zero and decodes to its message
EncodingRight == (go /\ em = Repeat(0, K)) => \A m \in Msgs, s \in Digits :
    LET x == S!Encode(label, m, K, <<s>>) IN Len(x) = K /\ x[1] = 0 /\ S!Decode(label, x, K) = [ok |-> TRUE, msg |-> m]
\* the test of an encoding says the same as the decoder
TestRight == go => (R.ok => S!IsEncoding(label, R.msg, em, K)) /\ (~R.ok => \A m \in {<<>>, <<1>>} : ~S!IsEncoding(label, m, em, K))
WrongLength == go => (Len(em) # K => ~R.ok)
=============================================================================
