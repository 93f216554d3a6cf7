------------------------------- MODULE MC_Keys -------------------------------
(* Keys as values: every history of imports (with the numbers written in several   *)
(* ways), key generations and clones over a small menu, after which every pair of    *)
(* keys of a kind is compared. Comparing is an equivalence that cloning respects,    *)
(* and equal keys compute the same. Every history is replayed into the code.      *)
EXTENDS RsaApi, TLC, Json
CONSTANTS MaxKeys
VARIABLES hist, made

vars == <<objs, reply, hist, made>>
\* an integer with k needless zero bytes in front
I(x, k) == LET d == Repeat(0, k) \o ToBE(FromInt(x))
               c == IF d = <<>> THEN <<0>> ELSE IF d[1] >= 128 THEN <<0>> \o d ELSE d
           IN  <<2, Len(c)>> \o c
SeqVal(els) == <<48, Len(els)>> \o Flatten(els)
\* a key file with modulus n and exponent x; s: what else is in a private file; k: needless zero bytes
File(t, n, x, s, k) ==
    LET inner == IF t = "priv" THEN <<I(0, 0), I(n, k), I(s, 0), I(x, k)>> \o [i \in 1..5 |-> I(s + i, 0)] ELSE <<I(n, k), I(x, k)>>
        d == Encode(SeqVal(inner))
        body == IF t = "priv" THEN <<4, Len(d)>> \o d ELSE <<3, 0, Len(d)>> \o d
    IN  Encode(SeqVal((IF t = "priv" THEN <<I(0, 0)>> ELSE <<>>) \o <<RsaAlgorithm, body>>))
Menu == {<<253, 3>>, <<253, 13>>, <<35, 13>>, <<65021, 3>>}

Init == objs = <<>> /\ reply = NoReply /\ hist = <<>> /\ made = FALSE
Do(e) == RsaStep(e) /\ hist' = Append(hist, [e |-> [f \in DOMAIN e \ {"k"} |-> e[f]], r |-> reply'])
Make ==
    /\ ~made /\ Len(objs) < MaxKeys /\ UNCHANGED made
    /\ \/ \E t \in {"priv", "pub"}, m \in Menu, w \in {0, 1} :
            Do([op |-> t, label |-> IF t = "priv" THEN PrivateLabel ELSE PublicLabel,
                data |-> File(t, m[1], m[2], 3 + 4 * w, w), via |-> w, k |-> "ok"])
       \/ \E e \in {5, 13} : Do([op |-> "create", p |-> <<5>>, q |-> <<7>>, e |-> <<e>>])
       \/ \E i \in 1..Len(objs) : Do([op |-> "kclone", obj |-> i])
\* then all comparisons within a kind, in order
Pairs == {p \in (1..Len(objs)) \X (1..Len(objs)) : objs[p[1]].t = objs[p[2]].t}
Asked == Len(SelectSeq(hist, LAMBDA h : h.e.op = "keq"))
Order == SetToSortSeq(Pairs, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Ask == /\ Len(objs) > 0 /\ made' = TRUE /\ Asked < Len(Order)
       /\ LET p == Order[Asked + 1] IN Do([op |-> "keq", obj |-> p[1], other |-> p[2]])
Next == Make \/ Ask

Same(i, j) == KeysAgree(objs[i], objs[j])
Differ(i, j) == KeysDiffer(objs[i], objs[j])
N == 1..Len(objs)
\* sameness is an equivalence, never contradicts difference, and is decided for all keys with known exponents
Equivalence == made \/
               /\ \A i \in N : Same(i, i)
               /\ \A i, j \in N : (Same(i, j) <=> Same(j, i)) /\ ~(Same(i, j) /\ Differ(i, j))
               /\ \A i, j, l \in N : Same(i, j) /\ Same(j, l) => Same(i, l)
               /\ \A i, j \in N : objs[i].x # Unknown /\ objs[j].x # Unknown => (Same(i, j) \/ Differ(i, j))
\* keys that are the same compute the same: there is no operand on which they could differ
Congruent == made \/ \A i, j \in N : Same(i, j) /\ objs[i].x # Unknown =>
                \A m \in {2, 3, 100} : PowMod(FromInt(m), objs[i].x, objs[i].n) = PowMod(FromInt(m), objs[j].x, objs[j].n)
\* reading a comparison does not change a key; making one leaves the others
Kept == [][\A i \in 1..Len(objs) : objs'[i] = objs[i]]_vars
\* a generated public key is the one in a file with the same numbers
FromFile == made \/ \A i, j \in N : (objs[i].t = "pub" /\ objs[j].t = "pub" /\ objs[i].n = objs[j].n /\ objs[i].x = objs[j].x) => Same(i, j)
\* comparisons that the specification leaves open are not replayed
Decided == \A i \in 1..Len(hist) : hist[i].r.k # "unspecified"
Emit == (made /\ Asked = Len(Order) /\ Decided) => PrintT("@" \o ToJson(hist))
=============================================================================
