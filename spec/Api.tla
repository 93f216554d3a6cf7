--------------------------------- MODULE Api ---------------------------------
(* The shape shared by all domain machines: a call sets the abstract objects    *)
(* and the reply the specification gives. A recorded reply is a record with     *)
(* fields k (ok, err, panic, hang, abort) and v (a sequence of integer           *)
(* sequences, empty unless k = "ok").                                          *)
EXTENDS Integers, Sequences

Ok(v)         == [k |-> "ok", v |-> v]
Err           == [k |-> "err", v |-> <<>>]
Panic         == [k |-> "panic", v |-> <<>>]
OkOrErr(v)    == [k |-> "ok or err", v |-> v]      \* acceptance is left open, the value is not
OkOrPanic(v)  == [k |-> "ok or panic", v |-> v]
Unspecified   == [k |-> "unspecified", v |-> <<>>] \* any normal reply or panic
Impossible    == [k |-> "impossible", v |-> <<>>]  \* the recorded reply violates a relation
BadWitness    == [k |-> "bad witness", v |-> <<>>] \* an auxiliary value recorded by the harness is wrong
NoReply       == [k |-> "none", v |-> <<>>]

\* what is printed of a reply in a counterexample
Brief(r) == [k |-> r.k, v |-> [i \in 1..Len(r.v) |-> SubSeq(r.v[i], 1, IF Len(r.v[i]) < 80 THEN Len(r.v[i]) ELSE 80)]]

\* the recorded reply e conforms to the specified reply r
Conforms(e, r) ==
    CASE r.k = "ok" -> e.k = "ok" /\ e.v = r.v
      [] r.k = "err" -> e.k = "err"
      [] r.k = "panic" -> e.k = "panic"
      [] r.k = "ok or err" -> e.k = "err" \/ (e.k = "ok" /\ e.v = r.v)
      [] r.k = "ok or panic" -> e.k = "panic" \/ (e.k = "ok" /\ e.v = r.v)
      [] r.k = "unspecified" -> e.k \in {"ok", "err", "panic"}
      [] OTHER -> FALSE
=============================================================================
