------------------------------- MODULE MC_Objs -------------------------------
(* Several live cipher objects and every interleaving of MaxCalls calls on them:    *)
(* a reply depends on the object's key and the block only. Replayed.               *)
EXTENDS BlockApi, TLC, Json
CONSTANTS MaxCalls, Patterns
VARIABLES hist

K(n, s) == [i \in 1..n |-> (i * 29 + s * 71) % 256]
\* two keys per cipher; what is created, in this order
News == <<[op |-> "aes", key |-> K(16, 1), via |-> 0], [op |-> "aes", key |-> K(32, 2), via |-> 1],
          [op |-> "rc2", key |-> K(9, 3), bits |-> 63], [op |-> "rc5", key |-> K(16, 4), rounds |-> 12],
          [op |-> "rc2", key |-> K(9, 5), bits |-> 1024], [op |-> "rc5", key |-> K(5, 6), rounds |-> 1]>>
Objs == <<AesObj(News[1].key), AesObj(News[2].key), Rc2Obj(News[3].key, 63), Rc5Obj(News[4].key, 12), Rc2Obj(News[5].key, 1024), Rc5Obj(News[6].key, 1)>>
Init == objs = Objs /\ reply = NoReply /\ hist = [i \in 1..Len(News) |-> [e |-> News[i], r |-> Ok(<<>>)]]
Blk(n, b) == [i \in 1..n |-> (b * i * 41 + b) % 256]
Next == /\ Len(hist) < Len(News) + MaxCalls
        /\ \E o \in 1..Len(Objs), d \in {"enc", "dec"}, b \in Patterns :
             LET e == [op |-> "block", obj |-> o, dir |-> d, data |-> Blk(Objs[o].n, b)]
             IN  BlockStep(e) /\ hist' = Append(hist, [e |-> e, r |-> reply'])
Stable == objs = Objs
NoHistory == \A i, j \in (Len(News) + 1)..Len(hist) : hist[i].e = hist[j].e => hist[i].r = hist[j].r
Undone == \A i, j \in (Len(News) + 1)..Len(hist) :
    LET x == hist[i]  y == hist[j]
    IN  (x.e.obj = y.e.obj /\ x.e.dir # y.e.dir /\ y.e.data = x.r.v[1]) => y.r.v[1] = x.e.data
Emit == Len(hist) = Len(News) + MaxCalls => PrintT("@" \o ToJson(hist))
=============================================================================
