------------------------------ MODULE MC_Nest -------------------------------
(* The library calls code of its caller: data sources of digests, modes and output *)
(* functions of bulk encryption. That code may call the library again, and may      *)
(* leave the call by panicking. Three activities with objects of their own share     *)
(* one stack: while a call of one is calling back, the next one makes calls. The      *)
(* replies of each are those it would get alone, whatever the nesting. Every           *)
(* nesting is replayed in the real code.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Programs
VARIABLES objs1, reply1, objs2, reply2, objs3, reply3,
          prog,     \* which calls are made
          at,       \* at[i]: the call back at which the open call of activity i is held, -1: no call is open
          inner,    \* inner[i]: calls the next activity has made during the open call of i
          nest,     \* for each activity and call: the call back it was held at, the calls made then
          log

A1 == INSTANCE HashApi WITH objs <- objs1, reply <- reply1
A2 == INSTANCE BlockApi WITH objs <- objs2, reply <- reply2
A3 == INSTANCE HashApi WITH objs <- objs3, reply <- reply3

Count(n, s) == [i \in 1..n |-> (s + 29 * i) % 256]
Hash(alg, n) == [op |-> "hash", alg |-> alg, data |-> Count(n, 7), via |-> 0]
Left(alg, n, k) == [op |-> "dhash", alg |-> alg, data |-> Count(n, 9), via |-> 0, at |-> k]
Toy(s) == [op |-> "toy", key |-> <<s>>, n |-> 4]
Bulk(mode, iv, n) == [op |-> "bulk", obj |-> 1, dir |-> "enc", mode |-> mode, iv |-> iv, data |-> Count(n, 3)]
LeftBulk(n, k) == [op |-> "dbulk", obj |-> 1, dir |-> "enc", mode |-> "ecb", iv |-> <<>>, data |-> Count(n, 3), at |-> k]

Calls == <<
    << <<Hash("md5", 3), Hash("md5", 66)>>, <<Toy(5), Bulk("ecb", <<>>, 5)>>, <<Hash("md5", 2), Left("md5", 70, 69)>> >>,
    << <<Hash("md4", 65), Hash("md4", 3)>>, <<Toy(5), Bulk("cbc", <<1, 2, 3, 4>>, 4)>>, <<Left("md4", 4, 2), Hash("md4", 2)>> >>,
    << <<Left("md2", 17, 17), Hash("md2", 18)>>, <<Toy(5), LeftBulk(5, 6)>>, <<Hash("md2", 16), Hash("md2", 1)>> >>,
    << <<Hash("md5", 2), Left("md5", 5, 2)>>, <<Toy(5), Bulk("ctr", <<9>>, 0)>>, <<Hash("md4", 5), Hash("sha1", 1)>> >> >>

\* how often a call calls back
Backs(e) == CASE e.op = "hash" -> IF e.alg \in {"md2", "md4", "md5"} THEN Len(e.data) ELSE 0
              [] e.op = "dhash" -> e.at - 1
              [] e.op = "bulk" -> 5 * (Len(e.data) \div 4 + 1)
              [] e.op = "dbulk" -> e.at - 1
              [] OTHER -> 0
Points(e) == {k \in {1, 2, Backs(e)} : k > 0 /\ k <= Backs(e)} \cup {0}

vars == <<objs1, reply1, objs2, reply2, objs3, reply3, prog, at, inner, nest, log>>
None == [k |-> "none", v |-> <<>>]
Init == /\ prog \in Programs /\ log = << <<>>, <<>>, <<>> >> /\ nest = << <<>>, <<>>, <<>> >>
        /\ at = <<-1, -1, -1>> /\ inner = <<0, 0, 0>>
        /\ objs1 = <<>> /\ objs2 = <<>> /\ objs3 = <<>>
        /\ reply1 = None /\ reply2 = None /\ reply3 = None
More(i) == Len(log[i]) < Len(Calls[prog][i])
Call(i) == Calls[prog][i][Len(log[i]) + 1]
Open(i) == at[i] >= 0
\* the next call may begin inside the held call of the activity before, or at the end of all activities before
MayBegin(i) == /\ More(i) /\ ~Open(i)
               /\ IF i > 1 /\ Open(i - 1) THEN at[i - 1] > 0 ELSE \A j \in 1..(i - 1) : ~More(j) /\ ~Open(j)
Begin(i, k) == /\ MayBegin(i)
               /\ at' = [at EXCEPT ![i] = k]
               /\ inner' = [inner EXCEPT ![i] = 0]
               /\ UNCHANGED <<objs1, reply1, objs2, reply2, objs3, reply3, prog, nest, log>>
\* the call of i goes on and returns (or is left)
End(i, r) == /\ at' = [at EXCEPT ![i] = -1]
             /\ nest' = [nest EXCEPT ![i] = @ \o <<at[i], inner[i]>>]
             /\ inner' = IF i > 1 /\ Open(i - 1) THEN [inner EXCEPT ![i - 1] = @ + 1] ELSE inner
             /\ log' = [log EXCEPT ![i] = Append(@, [e |-> Call(i), r |-> r])]
             /\ UNCHANGED prog
MayEnd(i) == Open(i) /\ (i < 3 => ~Open(i + 1))
End1 == MayEnd(1) /\ A1!HashStep(Call(1)) /\ UNCHANGED <<objs2, reply2, objs3, reply3>> /\ End(1, reply1')
End2 == MayEnd(2) /\ A2!BlockStep(Call(2)) /\ UNCHANGED <<objs1, reply1, objs3, reply3>> /\ End(2, reply2')
End3 == MayEnd(3) /\ A3!HashStep(Call(3)) /\ UNCHANGED <<objs1, reply1, objs2, reply2>> /\ End(3, reply3')
Next == \/ \E i \in 1..3 : \E k \in (IF MayBegin(i) THEN (IF i = 3 THEN {0} ELSE Points(Call(i))) ELSE {}) : Begin(i, k)
        \/ End1 \/ End2 \/ End3

Ends == \A i \in 1..3 : ~More(i) /\ ~Open(i)
\* a call that is left has no result, every other one here has one, whatever happened inside
Replies == \A i \in 1..3 : \A j \in 1..Len(log[i]) :
               log[i][j].r.k = IF log[i][j].e.op \in {"dhash", "dbulk"} THEN "panic" ELSE "ok"
\* the same call has the same reply wherever it is made
Alike == \A i, m \in {1, 3} : \A j \in 1..Len(log[i]) : \A n \in 1..Len(log[m]) :
             log[i][j].e = log[m][n].e => log[i][j].r = log[m][n].r
\* activities nest: what is open inside a call is over before the call is
Stacked == \A i \in 2..3 : (Open(i) /\ \E j \in 1..(i - 1) : More(j) \/ Open(j)) => at[i - 1] > 0
Emit == Ends => PrintT("@" \o ToJson([nests |-> nest, threads |-> log]))
=============================================================================
