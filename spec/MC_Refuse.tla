------------------------------ MODULE MC_Refuse ------------------------------
(* Constructors with parameters on both sides of every limit: a refused call       *)
(* leaves no object behind, an accepted one an object that works. Replayed.        *)
EXTENDS BlockApi, TLC, Json
CONSTANTS Lengths, BitCounts, RoundCounts
VARIABLES call, hist

K(n) == [i \in 1..n |-> (i * 29 + 5 + i \div 128) % 256]
Calls == {[op |-> "rc2", key |-> K(l), bits |-> b] : l \in Lengths, b \in BitCounts}
         \cup {[op |-> "rc5", key |-> K(l), rounds |-> r] : l \in Lengths, r \in RoundCounts}
Init == call \in Calls /\ objs = <<>> /\ reply = NoReply /\ hist = <<>>
Use(d) == [op |-> "block", obj |-> 1, dir |-> d, data |-> <<1, 2, 3, 4, 5, 6, 7, 255>>]
Next == /\ \/ hist = <<>> /\ BlockStep(call) /\ hist' = <<[e |-> call, r |-> reply']>>
           \/ Len(hist) = 1 /\ objs # <<>> /\ BlockStep(Use("enc")) /\ hist' = Append(hist, [e |-> Use("enc"), r |-> reply'])
           \/ Len(hist) = 2 /\ BlockStep(Use("dec")) /\ hist' = Append(hist, [e |-> Use("dec"), r |-> reply'])
        /\ UNCHANGED call
Supported == IF call.op = "rc2" THEN Len(call.key) >= 1 /\ Len(call.key) <= 128 /\ call.bits >= 1 /\ call.bits <= 1024
             ELSE Len(call.key) < 256
RefusedExactly == Len(hist) = 1 => (reply.k = "panic" <=> ~Supported)
NothingLeft == (Len(hist) = 1 /\ reply.k = "panic") => objs = <<>>
Emit == (Len(hist) = 3 \/ (Len(hist) = 1 /\ objs = <<>>)) => PrintT("@" \o ToJson(hist))
=============================================================================
