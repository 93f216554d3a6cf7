----------------------------- MODULE MC_Threads -----------------------------
(* Three threads with objects of their own call the library in any interleaving:  *)
(* two work with block ciphers and paddings, one with digests. A call of one        *)
(* thread never shows in the replies of another: each thread gets the replies it     *)
(* would get alone, in every interleaving. Every schedule is replayed with real       *)
(* threads that take turns in that order.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Programs
VARIABLES objs1, reply1, objs2, reply2, objs3, reply3, prog, order, log

T1 == INSTANCE BlockApi WITH objs <- objs1, reply <- reply1
T2 == INSTANCE BlockApi WITH objs <- objs2, reply <- reply2
T3 == INSTANCE HashApi WITH objs <- objs3, reply <- reply3

Count(n, s) == [i \in 1..n |-> (s + 29 * i) % 256]
Aes(s) == [op |-> "aes", key |-> Count(16, s), words |-> 0]
Rc2(s) == [op |-> "rc2", key |-> Count(7, s), bits |-> 50]
Rc5(s) == [op |-> "rc5", key |-> Count(9, s), rounds |-> 5]
Refused == [op |-> "rc2", key |-> <<>>, bits |-> 64]
Blk(dir, n, s) == [op |-> "block", obj |-> 1, dir |-> dir, data |-> Count(n, s)]
Bulk(dir, n, s) == [op |-> "bulk", obj |-> 1, dir |-> dir, mode |-> "ecb", iv |-> <<>>, data |-> Count(n, s)]
PadCall(n, k) == [op |-> "pad", pad |-> "pkcs", n |-> n, data |-> Count(k, 3)]
Unpad(n, x) == [op |-> "unpad", pad |-> "bit", n |-> n, data |-> Append(Count(n - 1, 5), x)]
Hash(alg, n) == [op |-> "hash", alg |-> alg, data |-> Count(n, 7), via |-> 0]
Hex(n) == [op |-> "from_hex", bits |-> 160, text |-> [i \in 1..n |-> 48 + (i % 10)], via |-> 0]

\* the calls of the three threads, by program number
Calls == <<
    << <<Aes(1), Blk("enc", 16, 9), Blk("dec", 16, 9)>>, <<Aes(2), Blk("enc", 16, 9), Blk("dec", 16, 9)>>,
       <<Hash("md5", 3), Hash("sha1", 3), Hash("sha256", 3)>> >>,
    << <<Rc2(1), Blk("enc", 8, 9), Bulk("dec", 8, 9)>>, <<Rc2(2), Bulk("dec", 7, 9), Blk("enc", 8, 9)>>,
       <<Hex(40), Hex(39), Hash("md4", 56)>> >>,
    << <<Rc5(1), Bulk("enc", 11, 9), Blk("dec", 8, 9)>>, <<Rc5(2), Bulk("enc", 11, 9), Refused>>,
       <<Hash("md2", 15), Hash("md2", 16), Hash("sha224", 1)>> >>,
    << <<Refused, PadCall(8, 8), PadCall(8, 7)>>, <<PadCall(8, 7), Unpad(8, 1), Unpad(8, 128)>>,
       <<Hash("sha384", 2), Hash("sha512", 2), Hash("sha384", 2)>> >> >>

vars == <<objs1, reply1, objs2, reply2, objs3, reply3, prog, order, log>>
None == [k |-> "none", v |-> <<>>]
Init == /\ prog \in Programs /\ order = <<>> /\ log = << <<>>, <<>>, <<>> >>
        /\ objs1 = <<>> /\ objs2 = <<>> /\ objs3 = <<>>
        /\ reply1 = None /\ reply2 = None /\ reply3 = None
Ready(t) == Len(log[t]) < Len(Calls[prog][t])
Call(t) == Calls[prog][t][Len(log[t]) + 1]
Done(t, r) == /\ order' = Append(order, t)
              /\ log' = [log EXCEPT ![t] = Append(@, [e |-> Call(t), r |-> r])]
              /\ UNCHANGED prog
Step1 == Ready(1) /\ T1!BlockStep(Call(1)) /\ UNCHANGED <<objs2, reply2, objs3, reply3>> /\ Done(1, reply1')
Step2 == Ready(2) /\ T2!BlockStep(Call(2)) /\ UNCHANGED <<objs1, reply1, objs3, reply3>> /\ Done(2, reply2')
Step3 == Ready(3) /\ T3!HashStep(Call(3)) /\ UNCHANGED <<objs1, reply1, objs2, reply2>> /\ Done(3, reply3')
Next == Step1 \/ Step2 \/ Step3

Ends == ~Ready(1) /\ ~Ready(2) /\ ~Ready(3)
\* Independence, checked without the order (VIEW): whatever the others did, a thread that has made n calls has one log
\* only, so there is exactly one state for each triple of progress counters.
Unordered == <<objs1, reply1, objs2, reply2, objs3, reply3, prog, log>>
Independent == TLCGet("distinct") = Cardinality(Programs) * 64
Emit == Ends => PrintT("@" \o ToJson([order |-> order, threads |-> log]))
=============================================================================
