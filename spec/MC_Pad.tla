------------------------------- MODULE MC_Pad -------------------------------
(* Design model of the two paddings: every block and every partial block over   *)
(* a small alphabet, every call. Each behaviour is one call and is replayed     *)
(* into the code.                                                             *)
EXTENDS BlockApi, TLC, Json
CONSTANTS MaxN, Alphabet
VARIABLES call, hist

Strings(n) == [1..n -> Alphabet]
PadCalls == UNION {{[op |-> "pad", pad |-> kind, n |-> n, data |-> d] : kind \in {"pkcs", "bit"}, d \in Strings(l)}
                   : <<n, l>> \in {<<n, l>> \in (1..MaxN) \X (0..MaxN) : l <= n + 1}}
UnpadCalls == UNION {{[op |-> "unpad", pad |-> kind, n |-> n, data |-> d] : kind \in {"pkcs", "bit"}, d \in Strings(n)}
                     : n \in 1..MaxN}

Init == /\ objs = <<>> /\ reply = NoReply /\ hist = <<>>
        /\ call \in PadCalls \cup UnpadCalls
Next == /\ hist = <<>>
        /\ BlockStep(call)
        /\ hist' = <<[e |-> call, r |-> reply']>>
        /\ UNCHANGED call

Kind(c) == c.pad
Padded(kind, part, n) == IF kind = "pkcs" THEN PkcsPad(part, n) ELSE BitPad(part, n)
Accepts(kind, b, n) == IF kind = "pkcs" THEN PkcsValid(b, n) ELSE BitValid(b, n)
DataLen(kind, b, n) == IF kind = "pkcs" THEN PkcsDataLen(b, n) ELSE BitDataLen(b, n)
\* all partial blocks of which b is the padding
Origins(kind, b, n) == {k \in 0..(n - 1) : Padded(kind, SubSeq(b, 1, k), n) = b}

\* padding is inverted by unpadding and keeps the data
PadInverted ==
    (hist # <<>> /\ call.op = "pad" /\ Len(call.data) < call.n) =>
        LET b == reply.v[1]
        IN  /\ Len(b) = call.n
            /\ SubSeq(b, 1, Len(call.data)) = call.data
            /\ Accepts(call.pad, b, call.n)
            /\ DataLen(call.pad, b, call.n) = Len(call.data)
\* a block is accepted exactly if it is the padding of some partial block, and of only one
UnpadExact ==
    (hist # <<>> /\ call.op = "unpad") =>
        LET o == Origins(call.pad, call.data, call.n)
        IN  IF reply.k = "ok" THEN o = {reply.v[1][1]} ELSE o = {} /\ reply.k = "panic"
TooLongRefused == (hist # <<>> /\ call.op = "pad" /\ Len(call.data) >= call.n) => reply.k = "panic"

Emit == hist # <<>> => PrintT("@" \o ToJson(hist))
=============================================================================
