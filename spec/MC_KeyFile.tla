----------------------------- MODULE MC_KeyFile -----------------------------
(* Key files for a small key with every single change to one of their element      *)
(* lists (drop, insert, replace, swap), and with every label from a menu: which of   *)
(* them are key files, and what key they hold. Every file is replayed.            *)
EXTENDS RsaApi, TLC, Json
CONSTANTS Twice      \* also apply a second change
VARIABLES kind, label, outer, alg, inner, changes, hist

vars == <<objs, reply, kind, label, outer, alg, inner, changes, hist>>
\* leaves, flattened
I(n) == LET d == ToBE(FromInt(n)) IN IF d = <<>> THEN <<2, 1, 0>> ELSE IF d[1] >= 128 THEN <<2, Len(d) + 1, 0>> \o d ELSE <<2, Len(d)>> \o d
Oid == <<6, 9>> \o RsaOid
Menu == {I(0), I(1), I(7), I(200), <<5>>, <<4, 1, 9>>, <<48, 0>>, <<3, 0, 0>>, Oid, <<6, 9>> \o [RsaOid EXCEPT ![9] = 2], <<48, 1, 2, 1, 0>>, <<4, 0>>}
\* 1081 = 23 * 47, e = 3, d = 675
Numbers == <<1081, 3, 675, 23, 47, 15, 31, 45>>
\* the content slot in the outer list is filled from `inner`; it is marked by <<0>>
Slot == <<0>>
StartOuter(k) == IF k = "priv" THEN <<I(0), <<48>>, Slot>> ELSE <<<<48>>, Slot>>
StartInner(k) == IF k = "priv" THEN <<I(0)>> \o [i \in 1..8 |-> I(Numbers[i])] ELSE <<I(1081), I(3)>>
Labels == {PrivateLabel, PublicLabel, <<>>, Append(PrivateLabel, 32), <<82, 83, 65, 32>> \o PrivateLabel, Tail(PublicLabel), [PublicLabel EXCEPT ![1] = 112]}

Init == /\ kind \in {"priv", "pub"} /\ label \in Labels
        /\ outer = StartOuter(kind) /\ alg = <<Oid, <<5>>>> /\ inner = StartInner(kind)
        /\ changes = 0 /\ objs = <<>> /\ reply = NoReply /\ hist = <<>>
RightLabel == label = (IF kind = "priv" THEN PrivateLabel ELSE PublicLabel)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Changed(s) == {Without(s, i) : i \in 1..Len(s)} \cup {Put(s, i, x) : i \in 1..(Len(s) + 1), x \in Menu}
              \cup {[s EXCEPT ![i] = x] : i \in 1..Len(s), x \in Menu}
              \cup {[s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]] : i \in 1..(Len(s) - 1)}
Change ==
    /\ hist = <<>> /\ RightLabel /\ changes < (IF Twice THEN 2 ELSE 1) /\ changes' = changes + 1
    /\ \/ outer' \in Changed(outer) /\ UNCHANGED <<alg, inner>>
       \/ alg' \in Changed(alg) /\ UNCHANGED <<outer, inner>>
       \/ inner' \in Changed(inner) /\ UNCHANGED <<outer, alg>>
    /\ UNCHANGED <<objs, reply, kind, label, hist>>

SeqVal(els) == <<48, Len(els)>> \o Flatten(els)
Content == LET d == Encode(SeqVal(inner)) IN IF kind = "priv" THEN <<4, Len(d)>> \o d ELSE <<3, 0, Len(d)>> \o d
\* marks: <<48>> stands for the algorithm identifier, <<0>> for the key
Fill(x) == IF x = <<48>> THEN SeqVal(alg) ELSE IF x = Slot THEN Content ELSE x
File == Encode(SeqVal([i \in 1..Len(outer) |-> Fill(outer[i])]))
Offer ==
    /\ hist = <<>>
    /\ IF kind = "priv" THEN ImportPrivate(label, File, TRUE) ELSE ImportPublic(label, File, TRUE)
    /\ hist' = <<[e |-> [op |-> kind, label |-> label, data |-> File, via |-> 0], r |-> reply'],
                 [e |-> [op |-> kind, label |-> label, data |-> File, via |-> 1], r |-> reply']>>
    /\ UNCHANGED <<kind, label, outer, alg, inner, changes>>
Next == Change \/ Offer

\* declaratively: the lists have exactly the required elements
ZeroInt(x) == x[1] = 2 /\ \A i \in 3..Len(x) : x[i] = 0
RightOuter == IF kind = "priv" THEN /\ Len(outer) = 3 /\ ZeroInt(Fill(outer[1]))
                                    /\ outer[2] = <<48>> /\ outer[3] = Slot
              ELSE outer = <<<<48>>, Slot>>
RightAlg == alg = <<Oid, <<5>>>>
RightInner == Len(inner) = (IF kind = "priv" THEN 9 ELSE 2) /\ \A i \in 1..Len(inner) : inner[i][1] = 2
IsKeyFile == RightLabel /\ RightOuter /\ RightAlg /\ RightInner
Number(x) == FromBE(Drop(x, 2))
Exact == hist # <<>> =>
    /\ (reply.k = "err" <=> ~IsKeyFile)
    /\ (IsKeyFile => /\ Len(objs) = 1
                     /\ objs[1].n = Number(inner[IF kind = "priv" THEN 2 ELSE 1])
                     /\ objs[1].x = Number(inner[IF kind = "priv" THEN 4 ELSE 2]))
Unchanged == (hist # <<>> /\ changes = 0 /\ RightLabel) => reply.k = "ok"
Emit == hist # <<>> => PrintT("@" \o ToJson(hist))
=============================================================================
