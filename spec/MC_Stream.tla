------------------------------ MODULE MC_Stream ------------------------------
(* Design model of stream encryption: every short keystream, every history of    *)
(* pieces, each with any part of its results consumed, in order or with some     *)
(* passed over. The invariant is the position law; every maximal history is      *)
(* replayed into the code.                                                      *)
EXTENDS StreamApi, TLC, Json
CONSTANTS MaxKeys, MaxPiece, MaxCalls, MaxPicks
VARIABLES ks, used, got, hist

vars == <<objs, reply, ks, used, got, hist>>
\* distinctive keystream and data bytes
KeyByte(i) == 16 * i + 1
DataByte(i) == (101 * i + 7) % 256

Init == \E n \in 0..MaxKeys :
            LET first == [i \in 1..n |-> KeyByte(i)]
                e == [op |-> "fin", key |-> first, via |-> n % 3]
            IN  /\ ks = first /\ objs = <<FiniteObj(first)>> /\ reply = Ok(<<>>)
                /\ used = 0 /\ got = <<>>
                /\ hist = <<[e |-> e, r |-> Ok(<<>>)]>>
Running == reply.k # "panic" /\ Len(hist) <= MaxCalls
DataFrom(len) == [i \in 1..len |-> DataByte(used + i)]
\* a call that consumes the results at the offsets in spots (and passes over those before the last of them)
Call(e, n, spots) ==
    /\ StreamStep(e)
    /\ hist' = Append(hist, [e |-> e, r |-> reply'])
    /\ used' = IF reply'.k = "ok" THEN used + n ELSE used
    /\ got' = IF reply'.k = "ok"
              THEN got \o [j \in 1..Len(reply'.v[1]) |-> <<used + spots[j], reply'.v[1][j]>>] ELSE got
    /\ UNCHANGED ks
Piece(len, n, how) ==
    Call([op |-> "piece", obj |-> 1, data |-> DataFrom(len), n |-> n, how |-> how], n, Iota(n))
Look(len, gaps, how) ==
    LET s == Spots(gaps) IN
    Call([op |-> "picks", obj |-> 1, data |-> DataFrom(len), gaps |-> gaps, how |-> how],
         IF s[Len(s)] < len THEN s[Len(s)] ELSE len, s)
Next == /\ Running
        /\ \/ \E len \in 0..MaxPiece : \E n \in 0..len : Piece(len, n, (len + n) % 4)
           \/ \E len \in 0..MaxPiece : \E m \in 1..MaxPicks : \E gaps \in [1..m -> 0..len] :
                 /\ Spots(gaps)[m] <= len + 1
                 /\ Look(len, gaps, (3 * len + gaps[1] + 2 * gaps[m]) % 8)

\* a byte delivered for position p is the data byte of position p XOR the p-th keystream byte, and nothing is
\* delivered for a position twice or without its keystream byte having been used
PositionLaw == \A k \in 1..Len(got) :
                  \/ got[k][2] = -1
                  \/ /\ got[k][1] <= used
                     /\ got[k][2] = DataByte(got[k][1]) ^^ ks[got[k][1]]
                     /\ \A j \in 1..(k - 1) : got[j][2] = -1 \/ got[j][1] < got[k][1]
\* the keystream object holds exactly what has not been used
Remaining == reply.k = "ok" => objs[1].st = Drop(ks, used)
\* refusal happens exactly when more is consumed than is left
Wanted(e) == IF e.op = "piece" THEN e.n
             ELSE LET s == Spots(e.gaps) IN IF s[Len(s)] < Len(e.data) THEN s[Len(s)] ELSE Len(e.data)
RunOut == Len(hist) > 1 =>
    LET last == hist[Len(hist)]
    IN  (reply.k = "panic") <=> (used + (IF reply.k = "panic" THEN Wanted(last.e) ELSE 0) > Len(ks))
\* encrypting a delivered byte again with its keystream byte restores the data
Restores == \A k \in 1..Len(got) : got[k][2] # -1 => (got[k][2] ^^ ks[got[k][1]]) = DataByte(got[k][1])

Emit == (Len(hist) > 1 /\ (reply.k = "panic" \/ Len(hist) = MaxCalls + 1)) => PrintT("@" \o ToJson(hist))
=============================================================================
