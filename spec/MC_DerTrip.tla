----------------------------- MODULE MC_DerTrip -----------------------------
(* Every value tree up to a size: decoding its DER encoding gives the tree, and   *)
(* so does decoding the encodings with longer length fields. Replayed.          *)
EXTENDS TextApi, TLC, Json, FiniteSets
CONSTANTS Depth, MaxElems
VARIABLES flat, wide, hist

\* leaves, flattened
Leaves == {<<2, 1, 0>>, <<2, 2, 0, 255>>, <<2, 0>>, <<4, 0>>, <<4, 2, 48, 0>>, <<6, 1, 42>>, <<5>>, <<3, 0, 0>>, <<3, 7, 1, 128>>}
RECURSIVE Trees(_), Rows(_, _)
\* rows of exactly n trees: their concatenation
Rows(S, n) == IF n = 0 THEN {<<>>} ELSE {a \o r : a \in S, r \in Rows(S, n - 1)}
Trees(d) == IF d = 0 THEN Leaves
            ELSE Leaves \cup UNION {{<<48, n>> \o r : r \in Rows(Trees(d - 1), n)} : n \in 0..MaxElems}

\* an encoding with every length field widened to `w` length bytes (0: DER)
WideLen(n, w) == IF w = 0 THEN LenField(n) ELSE <<128 + w>> \o Repeat(0, w - 2) \o <<n \div 256, n % 256>>
RECURSIVE WideAt(_, _, _)
WideAt(f, i, w) ==
    LET T(tag, c) == <<tag>> \o WideLen(Len(c), w) \o c
    IN  CASE f[i] \in {2, 4, 6} -> <<T(f[i], SubSeq(f, i + 2, i + 1 + f[i + 1])), i + 2 + f[i + 1]>>
          [] f[i] = 3 -> <<T(3, <<f[i + 1]>> \o SubSeq(f, i + 3, i + 2 + f[i + 2])), i + 3 + f[i + 2]>>
          [] f[i] = 5 -> <<T(5, <<>>), i + 1>>
          [] f[i] = 48 -> LET r == FoldLeft(LAMBDA acc, k : LET x == WideAt(f, acc[2], w) IN <<acc[1] \o x[1], x[2]>>,
                                            <<<<>>, i + 2>>, Iota(f[i + 1]))
                          IN  <<T(48, r[1]), r[2]>>
Bytes == WideAt(flat, 1, wide)[1]

Init == flat \in Trees(Depth) /\ wide \in {0, 2, 4, 16} /\ objs = <<>> /\ reply = NoReply /\ hist = <<>>
Next == /\ hist = <<>>
        /\ LET e == [op |-> "der", data |-> Bytes]
           IN  TextStep(e) /\ hist' = <<[e |-> e, r |-> reply']>>
        /\ UNCHANGED <<flat, wide>>
Trip == hist # <<>> => reply = Ok(<<flat>>)
IsDer == wide = 0 => Bytes = Encode(flat)
\* every proper prefix and every extension by a byte is refused
Exact == hist # <<>> => /\ \A n \in 0..(Len(Bytes) - 1) : ~Decode(SubSeq(Bytes, 1, n)).ok
                        /\ \A x \in {0, 5, 48, 255} : ~Decode(Append(Bytes, x)).ok
Emit == hist # <<>> => PrintT("@" \o ToJson(hist))
=============================================================================
