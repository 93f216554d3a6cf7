------------------------------- MODULE MC_Der -------------------------------
(* Decoding of every short byte string over a small alphabet: an iterative parser  *)
(* with an explicit stack, one header per step, against the recursive definition   *)
(* in Der and against the set of all encodings built bottom-up from the grammar.   *)
(* Every string is replayed into the code.                                     *)
EXTENDS TextApi, TLC, Json
CONSTANTS MaxLen, Alphabet
VARIABLES b, pos, stack, pc

vars == <<objs, reply, b, pos, stack, pc>>
Strings(n) == [1..n -> Alphabet]
\* a frame: where the sequence ends, its elements so far, and their number
Frame(end) == [end |-> end, flat |-> <<>>, count |-> 0]
Init == /\ \E n \in 0..MaxLen : b \in Strings(n)
        /\ pos = 1 /\ stack = <<Frame(Len(b))>> /\ pc = "read" /\ objs = <<>> /\ reply = NoReply
Top == stack[Len(stack)]
AddTo(st, flat) == [st EXCEPT ![Len(st)].flat = @ \o flat, ![Len(st)].count = @ + 1]
Fail == pc' = "err" /\ UNCHANGED <<pos, stack>>
Step ==
    /\ pc = "read"
    /\ IF Len(stack) > 1 /\ pos > Top.end
       THEN \* the innermost sequence is complete
            /\ stack' = AddTo(SubSeq(stack, 1, Len(stack) - 1), <<48, Top.count>> \o Top.flat)
            /\ UNCHANGED <<pos, pc>>
       ELSE IF Len(stack) = 1 /\ Top.count = 1
       THEN pc' = (IF pos = Len(b) + 1 THEN "ok" ELSE "err") /\ UNCHANGED <<pos, stack>>
       ELSE LET h == Header(b, pos, Top.end)
                last == h.start + h.len - 1
                bytes == SubSeq(b, h.start, last)
            IN  IF h.k = "err" \/ last > Top.end THEN Fail
                ELSE CASE h.tag = 48 -> stack' = Append(stack, Frame(last)) /\ pos' = h.start /\ UNCHANGED pc
                       [] h.tag \in {2, 4, 6} -> stack' = AddTo(stack, <<h.tag, h.len>> \o bytes) /\ pos' = last + 1 /\ UNCHANGED pc
                       [] h.tag = 3 /\ h.len > 0 -> stack' = AddTo(stack, <<3, bytes[1], h.len - 1>> \o Tail(bytes)) /\ pos' = last + 1 /\ UNCHANGED pc
                       [] h.tag = 5 /\ h.len = 0 -> stack' = AddTo(stack, <<5>>) /\ pos' = last + 1 /\ UNCHANGED pc
                       [] OTHER -> Fail
    /\ UNCHANGED <<objs, reply, b>>
Answer == pc \in {"ok", "err"} /\ reply = NoReply /\ DecodeDer(b) /\ UNCHANGED <<b, pos, stack, pc>>
Next == Step \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the reading position never moves back and never leaves the innermost sequence
InBounds == pos <= Top.end + 1 /\ \A i \in 2..Len(stack) : stack[i].end <= stack[i - 1].end
Forward == [][pos' >= pos]_vars
MachineRight == reply # NoReply =>
    IF pc = "ok" THEN reply.k # "err" /\ reply.v = <<Top.flat>> ELSE reply.k = "err"
Ends == <>(reply # NoReply)

\* the grammar, bottom-up: Enc[n] is the set of <<bytes, flat>> of all encodings of exactly n bytes
LenFields(k) == \* all length fields for a content of k bytes that fit, over the alphabet
    (IF k < 128 THEN {<<k>>} ELSE {}) \cup {<<129, k>>, <<130, 0, k>>, <<131, 0, 0, k>>}
RECURSIVE SeqsOf(_, _), Enc(_)
\* contents of k bytes made of encodings: <<bytes, flat, count>>
SeqsOf(k, dummy) ==
    IF k = 0 THEN {<<<<>>, <<>>, 0>>}
    ELSE UNION {{<<x[1] \o r[1], x[2] \o r[2], r[3] + 1>> : x \in Enc(j), r \in SeqsOf(k - j, dummy)} : j \in 2..k}
Enc(n) ==
    UNION {UNION {
        {<<<<t>> \o lf \o c, <<t, k>> \o c>> : t \in {2, 4, 6}, c \in Strings(k)}
        \cup {<<<<3>> \o lf \o c, <<3, c[1], k - 1>> \o Tail(c)>> : c \in IF k > 0 THEN Strings(k) ELSE {}}
        \cup (IF k = 0 THEN {<<<<5>> \o lf, <<5>>>>} ELSE {})
        \cup {<<<<48>> \o lf \o s[1], <<48, s[3]>> \o s[2]>> : s \in SeqsOf(k, 0)}
        : lf \in {f \in LenFields(k) : Len(f) = n - 1 - k}} : k \in 0..(n - 2)}
EncUpTo == UNION {Enc(n) : n \in 2..MaxLen}
InAlphabet(x) == \A i \in 1..Len(x[1]) : x[1][i] \in Alphabet
Grammar == {x \in EncUpTo : InAlphabet(x)}
Encodings == {x[1] : x \in Grammar}
\* nothing outside the grammar is accepted, nothing in it is refused, and the value is the grammar's
GrammarExact == reply # NoReply =>
    /\ (reply.k = "ok" <=> b \in Encodings)
    /\ (reply.k = "ok" => <<b, reply.v[1]>> \in Grammar)
Unambiguous == reply # NoReply /\ reply.k = "ok" => \A x \in Grammar : x[1] = b => x[2] = reply.v[1]
Emit == reply # NoReply => PrintT("@" \o ToJson(<<[e |-> [op |-> "der", data |-> b], r |-> reply]>>))
=============================================================================
