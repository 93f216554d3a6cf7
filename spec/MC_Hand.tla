------------------------------ MODULE MC_Hand -------------------------------
(* Objects handed from thread to thread: each call on them is made by the thread    *)
(* that made them, or by a new one that is handed all of them and hands them back.   *)
(* The machine knows no threads: a reply depends on the object and the arguments.     *)
(* Every way to hand the objects on is replayed with real threads.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES objs1, reply1, objs2, reply2,
          hands,    \* for each call: 1 if a new thread made it
          log

B == INSTANCE BlockApi WITH objs <- objs1, reply <- reply1
S == INSTANCE StreamApi WITH objs <- objs2, reply <- reply2

Count(n, s) == [i \in 1..n |-> (s + 29 * i) % 256]
Blk(o, dir, n) == [op |-> "block", obj |-> o, dir |-> dir, data |-> Count(n, 9)]
Piece(o, n, m) == [op |-> "piece", obj |-> o, data |-> Count(n, 3), n |-> m]
Calls == << <<[op |-> "aes", key |-> Count(16, 1), words |-> 0], [op |-> "rc2", key |-> Count(7, 2), bits |-> 50],
              [op |-> "rc5", key |-> Count(9, 3), rounds |-> 5], Blk(2, "enc", 8), Blk(1, "enc", 16), Blk(3, "dec", 8)>>,
            <<[op |-> "rc4", key |-> Count(5, 4)], [op |-> "rc4", key |-> Count(6, 5)], Piece(1, 9, 9), Piece(2, 7, 3), Piece(1, 4, 4)>> >>

None == [k |-> "none", v |-> <<>>]
Init == objs1 = <<>> /\ objs2 = <<>> /\ reply1 = None /\ reply2 = None /\ hands = <<>> /\ log = << <<>>, <<>> >>
Call(t) == Calls[t][Len(log[t]) + 1]
Done(t, h, r) == hands' = Append(hands, h) /\ log' = [log EXCEPT ![t] = Append(@, [e |-> Call(t), r |-> r])]
Step1(h) == Len(log[1]) < Len(Calls[1]) /\ B!BlockStep(Call(1)) /\ UNCHANGED <<objs2, reply2>> /\ Done(1, h, reply1')
Step2(h) == /\ Len(log[1]) = Len(Calls[1]) /\ Len(log[2]) < Len(Calls[2])
            /\ S!StreamStep(Call(2)) /\ UNCHANGED <<objs1, reply1>> /\ Done(2, h, reply2')
Next == \E h \in {0, 1} : Step1(h) \/ Step2(h)

\* Whoever makes the calls: checked without the hands (VIEW), there is one state for each number of calls made.
Handless == <<objs1, reply1, objs2, reply2, log>>
Blind == TLCGet("distinct") = Len(Calls[1]) + Len(Calls[2]) + 1
\* bit k of the number is set if call k is made by a new thread
RECURSIVE Bits(_)
Bits(k) == IF k = 0 THEN 0 ELSE Bits(k - 1) + hands[k] * 2 ^ k
Emit == (Len(log[2]) = Len(Calls[2]) /\ Bits(Len(hands)) > 0) => PrintT("@" \o ToJson([relay |-> Bits(Len(hands)), threads |-> log]))
=============================================================================
