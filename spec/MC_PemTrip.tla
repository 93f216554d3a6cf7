----------------------------- MODULE MC_PemTrip -----------------------------
(* Writing PEM text and reading it back, for all data lengths up to MaxLen and a  *)
(* set of awkward labels; shape of the text. Every case is replayed.            *)
EXTENDS TextApi, TLC, Json
CONSTANTS MaxLen
VARIABLES label, data, hist

Labels == {<<>>, <<65>>, <<32>>, <<45>>, Dashes, <<65>> \o Dashes, <<69, 78, 68, 32>>, BeginMark, <<65, 32, 66>>, <<233, 8364, 128512>>, <<9, 65, 9>>}
Fill(n, s) == [i \in 1..n |-> (s * (i * i + 3 * i + 1)) % 256]
Init == /\ label \in Labels /\ \E n \in 0..MaxLen : data = Fill(n, 2 * n + 1)
        /\ objs = <<>> /\ reply = NoReply /\ hist = <<>>
Next == /\ hist = <<>>
        /\ WritePem(label, data)
        /\ hist' = <<[e |-> [op |-> "pem_write", label |-> label, data |-> data], r |-> reply'],
                     [e |-> [op |-> "pem_trip", label |-> label, data |-> data], r |-> Ok(<<label, data>>)]>>
        /\ UNCHANGED <<label, data>>
Trip == hist # <<>> => PemParse(reply.v[1]) = [ok |-> TRUE, label |-> label, data |-> data]
Shape == hist # <<>> =>
    LET ls == Lines(reply.v[1])
        n == (4 * ((Len(data) + 2) \div 3) + 63) \div 64
    IN  /\ Len(ls) = 2 + (IF n = 0 THEN 1 ELSE n)
        /\ \A i \in 2..(Len(ls) - 2) : Len(ls[i]) = 64
        /\ (data # <<>> => Len(ls[Len(ls) - 1]) \in 1..64)
        /\ B64Valid(Flatten(SubSeq(ls, 2, Len(ls) - 1)))
Base64Trip == hist # <<>> => B64Decode(B64Encode(data)) = data /\ B64Valid(B64Encode(data))
Emit == hist # <<>> => PrintT("@" \o ToJson(hist))
=============================================================================
