------------------------------- MODULE T_Hash -------------------------------
(* Trace validation: every recorded session must be a behaviour of HashApi.     *)
EXTENDS HashApi, Json, IOUtils
VARIABLES s, l

Trace == ndJsonDeserialize(IOEnv.TRACE)
Sessions == 1..Len(Trace)
Ev(x) == Trace[x].ev

Init == s \in Sessions /\ l = 0 /\ objs = <<>> /\ reply = NoReply
Next == /\ l < Len(Ev(s))
        /\ l' = l + 1
        /\ s' = s
        /\ HashStep(Ev(s)[l + 1])
Spec == Init /\ [][Next]_<<s, l, objs, reply>>

\* the recorded reply is the one the specification gives
Conformance == l > 0 => Conforms(Ev(s)[l], reply)
\* what a counterexample shows
Shown == [s |-> s, l |-> l, reply |-> Brief(reply)]
=============================================================================
