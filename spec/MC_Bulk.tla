------------------------------- MODULE MC_Bulk -------------------------------
(* Design model of bulk encryption, one block per step: the encryptor hands      *)
(* blocks to the mode in order and pads the remainder; the decryptor holds back   *)
(* one decrypted block until it knows whether it is the last. Checked against    *)
(* the declarative definition in BlockApi. Messages are over a small alphabet,    *)
(* ciphertexts are those of messages, of arbitrary block strings (no valid        *)
(* padding in general) and cut ones.                                           *)
EXTENDS BlockApi, TLC, Json
CONSTANTS Ns, MaxLen, Alphabet, Modes
VARIABLES c, mode, iv, src, kind, pc, at, st, held, wait, out, calls

vars == <<objs, reply, c, mode, iv, src, kind, pc, at, st, held, wait, out, calls>>
Strings(n) == [1..n -> Alphabet]
Ivs(m, n) == IF m = "ecb" THEN {<<>>} ELSE IF m = "cbc" THEN {[i \in 1..n |-> 3 * i]} ELSE {<<254>>}

Init ==
    \E n \in Ns, m \in Modes, l \in 0..MaxLen, k \in {"trip", "raw"} :
        /\ c = ToyObj(200, n)
        /\ mode = m
        /\ iv \in Ivs(m, n)
        /\ kind = k
        /\ src \in Strings(l)
        /\ objs = <<c>> /\ reply = NoReply
        /\ pc = IF k = "trip" THEN "enc" ELSE "craft"
        /\ at = 0 /\ st = iv /\ held = <<>> /\ wait = <<>> /\ out = <<>> /\ calls = <<>>

Rest == Drop(src, at * c.n)
\* encryptor: one step per block; the remainder (possibly empty) is padded and is the last block
EncStep ==
    /\ pc = "enc"
    /\ LET full == Len(Rest) >= c.n
           b == IF full THEN SubSeq(Rest, 1, c.n) ELSE PkcsPad(Rest, c.n)
           r == ModeEnc(c, mode, st, b)
       IN  /\ out' = out \o r[2]
           /\ st' = r[1]
           /\ calls' = Append(calls, b)
           /\ at' = at + 1
           /\ pc' = IF full THEN "enc" ELSE "encdone"
    /\ UNCHANGED <<objs, reply, c, mode, iv, src, kind, held, wait>>
\* turn round: decrypt what was produced
Turn ==
    /\ pc = "encdone"
    /\ pc' = "dec" /\ at' = 0 /\ st' = iv /\ calls' = <<>> /\ held' = out /\ out' = <<>>
    /\ UNCHANGED <<objs, reply, c, mode, iv, src, kind, wait>>
\* a ciphertext whose decryption is src as far as whole blocks go, followed by the raw remainder
Craft ==
    /\ pc = "craft"
    /\ LET whole == (Len(src) \div c.n) * c.n
       IN  held' = RunMode(c, mode, iv, Take(src, whole), "enc").out \o Drop(src, whole)
    /\ pc' = "dec" /\ at' = 0 /\ st' = iv /\ calls' = <<>> /\ out' = <<>>
    /\ UNCHANGED <<objs, reply, c, mode, iv, src, kind, wait>>
\* decryptor; held is the ciphertext, `at` counts blocks taken, the last decrypted block waits
DecStep ==
    /\ pc = "dec"
    /\ LET left == Drop(held, at * c.n)
       IN  IF Len(left) >= c.n
           THEN LET b == SubSeq(left, 1, c.n)
                    r == ModeDec(c, mode, st, b)
                IN  /\ out' = out \o wait     \* release the waiting block
                    /\ wait' = r[2]
                    /\ st' = r[1] /\ at' = at + 1 /\ calls' = Append(calls, b)
                    /\ pc' = "dec"
           ELSE /\ UNCHANGED <<st, at, calls>>
                /\ IF left # <<>> \/ wait = <<>> THEN pc' = "refused" /\ out' = out
                   ELSE IF PkcsValid(wait, c.n)
                   THEN pc' = "done" /\ out' = out \o Take(wait, PkcsDataLen(wait, c.n))
                   ELSE pc' = "refused" /\ out' = out
                /\ UNCHANGED wait
    /\ UNCHANGED <<objs, reply, c, mode, iv, src, kind, held>>
Next == EncStep \/ Turn \/ Craft \/ DecStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C01: what comes out of the round trip is the message
RoundTrip == (kind = "trip" /\ pc = "done") => out = src
NeverRefusesOwn == kind = "trip" => pc # "refused"
\* C02: the mode saw the padded message block by block, and its outputs were delivered in order
EncIsMode ==
    pc = "encdone" => /\ Flatten(calls) = PadMessage(src, c.n)
                      /\ Len(calls) = Len(src) \div c.n + 1
                      /\ out = BulkEnc(c, mode, iv, src).out
DecIsMode == pc \in {"done", "refused"} => Flatten(calls) = Take(held, (Len(held) \div c.n) * c.n)
\* C03: accepted exactly if well-formed with valid padding at the end, and then the plaintext is the declarative one
Plain == BulkDec(c, mode, iv, Take(held, (Len(held) \div c.n) * c.n)).out
Acceptable == WellFormed(c, held) /\ PkcsValid(LastBlock(Plain, c.n), c.n)
AcceptExact ==
    /\ (pc = "done" => Acceptable /\ out = Take(Plain, Len(Plain) - c.n + PkcsDataLen(LastBlock(Plain, c.n), c.n)))
    /\ (pc = "refused" => ~Acceptable)
\* at no time has more than the released part of the plaintext been delivered
NoEarlyRelease == pc = "dec" => Len(out) <= (IF at = 0 THEN 0 ELSE (at - 1) * c.n)
Ends == <>(pc \in {"done", "refused"})

NewCall == [op |-> "toy", key |-> <<200>>, n |-> c.n]
EncCall(m) == [op |-> "bulk", obj |-> 1, dir |-> "enc", mode |-> mode, iv |-> iv, data |-> m]
DecCall(d) == [op |-> "bulk", obj |-> 1, dir |-> "dec", mode |-> mode, iv |-> iv, data |-> d]
EncReply == LET r == BulkEnc(c, mode, iv, src) IN Ok(<<r.out, r.log>>)
DecReply == IF pc = "refused" THEN Panic ELSE Ok(<<out, BulkDec(c, mode, iv, held).log>>)
Emit == pc \in {"done", "refused"} =>
    PrintT("@" \o ToJson(<<[e |-> NewCall, r |-> Ok(<<>>)]>>
                         \o (IF kind = "trip" THEN <<[e |-> EncCall(src), r |-> EncReply]>> ELSE <<>>)
                         \o <<[e |-> DecCall(held), r |-> DecReply]>>))
=============================================================================
