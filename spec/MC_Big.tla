------------------------------- MODULE MC_Big -------------------------------
(* Histories of calls on big numbers: every sequence of MaxCalls calls from a     *)
(* fixed menu on numbers made from two given byte strings. A ghost integer says   *)
(* what each number denotes; every history is replayed into the code.          *)
EXTENDS BigApi, TLC, Json
CONSTANTS Amounts, MaxCalls, Ops
VARIABLES ghost, hist

vars == <<objs, reply, ghost, hist>>
Starts == {<<>>, <<0, 1>>, <<255>>, <<1, 0>>, <<128, 0>>}
Limit == 2^28
IntOfBE(d) == FoldLeft(LAMBDA s, x : s * 256 + x, 0, d)
New(how, d) == IF how = "be" THEN [op |-> "be", data |-> d] ELSE [op |-> "le", data |-> Reverse(d)]
Am(n) == <<n \div 65536, n % 65536>>

Init == \E d1, d2 \in Starts :
          /\ objs = <<FromBE(d1), FromBE(d2)>>
          /\ ghost = <<IntOfBE(d1), IntOfBE(d2)>>
          /\ reply = Ok(<<ToBE(FromBE(d2))>>)
          /\ hist = <<[e |-> New("be", d1), r |-> Ok(<<ToBE(FromBE(d1))>>)],
                      [e |-> New("le", d2), r |-> Ok(<<ToBE(FromBE(d2))>>)]>>
Do(e, g) == BigStep(e) /\ ghost' = g /\ hist' = Append(hist, [e |-> e, r |-> reply'])
Set(i, x) == [ghost EXCEPT ![i] = x]
Pairs == {<<1, 2>>, <<2, 1>>}
BitAt(x, n) == IF n > 28 THEN 0 ELSE (x \div 2^n) % 2
Next ==
  /\ Len(hist) < MaxCalls + 2
  /\ \/ \E p \in Pairs :
          \/ "add" \in Ops /\ Do([op |-> "add", obj |-> p[1], other |-> p[2]], Set(p[1], ghost[p[1]] + ghost[p[2]]))
          \/ "sub" \in Ops /\ ghost[p[1]] >= ghost[p[2]] /\ Do([op |-> "sub", obj |-> p[1], other |-> p[2]], Set(p[1], ghost[p[1]] - ghost[p[2]]))
          \/ "rem" \in Ops /\ ghost[p[2]] # 0 /\ Do([op |-> "rem", obj |-> p[1], other |-> p[2]], Set(p[1], ghost[p[1]] % ghost[p[2]]))
     \/ \E n \in Amounts :
          \/ "addb" \in Ops /\ Do([op |-> "addb", obj |-> 1, n |-> <<0, (n * 37 + 255) % 256>>], Set(1, ghost[1] + ((n * 37 + 255) % 256)))
          \/ "shl" \in Ops /\ ghost[1] * 1 < 2^(28 - n) /\ Do([op |-> "shl", obj |-> 1, n |-> Am(n)], Set(1, ghost[1] * 2^n))
          \/ "shr" \in Ops /\ Do([op |-> "shr", obj |-> 1, n |-> Am(n)], Set(1, ghost[1] \div 2^n))
          \/ /\ "set" \in Ops /\ n < 8 * Len(objs[1])
             /\ Do([op |-> "set", obj |-> 1, n |-> Am(n)], Set(1, IF BitAt(ghost[1], n) = 1 THEN ghost[1] ELSE ghost[1] + 2^n))
          \/ /\ "clear" \in Ops /\ n < 8 * Len(objs[1])
             /\ Do([op |-> "clear", obj |-> 1, n |-> Am(n)], Set(1, IF BitAt(ghost[1], n) = 1 THEN ghost[1] - 2^n ELSE ghost[1]))
          \/ "bit" \in Ops /\ Do([op |-> "bit", obj |-> 1, n |-> Am(n)], ghost)
     \/ "query" \in Ops /\ Do([op |-> "bits", obj |-> 1], ghost)
     \/ "query" \in Ops /\ Do([op |-> "cmp", obj |-> 1, other |-> 2], ghost)
     \/ "query" \in Ops /\ Do([op |-> "as_u128", obj |-> 1], ghost)
Bounded == \A i \in 1..2 : ghost[i] < Limit

\* each number denotes the ghost integer and is in its one canonical form
Denotes == \A i \in 1..2 : objs[i] = FromInt(ghost[i])
\* what the queries say is what the integer says
Latest == hist[Len(hist)].e
QueriesAgree ==
    CASE Latest.op = "bit" -> reply.v[1][1] = BitAt(ghost[1], Amount(Latest.n))
      [] Latest.op = "cmp" -> reply.v[1] = <<IF ghost[1] < ghost[2] THEN 0 ELSE IF ghost[1] = ghost[2] THEN 1 ELSE 2, B2I(ghost[1] = ghost[2]), B2I(ghost[1] < ghost[2]),
                                          B2I(ghost[1] <= ghost[2]), B2I(ghost[1] > ghost[2]), B2I(ghost[1] >= ghost[2])>>
      [] Latest.op = "bits" -> ghost[1] = 0 \/ (ghost[1] >= 2^(ToInt(reply.v[1]) - 1) /\ ghost[1] < 2^ToInt(reply.v[1]))
      [] OTHER -> reply.k = "ok"
NeverRefused == reply.k = "ok"
Emit == Len(hist) = MaxCalls + 2 => PrintT("@" \o ToJson(hist))
=============================================================================
