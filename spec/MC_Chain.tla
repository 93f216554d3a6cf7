------------------------------ MODULE MC_Chain ------------------------------
(* Design model of the iterated digests: a buffer that takes one byte at a time,  *)
(* compresses whenever it is full and is finished at any point, for small block   *)
(* and length-field sizes. The compression function is free (the chaining value   *)
(* is the list of blocks), so equal chaining values mean equal padded messages.   *)
EXTENDS MdStrengthen
CONSTANTS BlockBytes, LenBytes, MaxLen, Alphabet
VARIABLES msg, buf, count, chain, big, pc

vars == <<msg, buf, count, chain, big, pc>>
Free(h, b) == Append(h, b)
Init == msg = <<>> /\ buf = <<>> /\ count = 0 /\ chain = <<>> /\ pc = "open" /\ big \in BOOLEAN
Push == /\ pc = "open" /\ Len(msg) < MaxLen
        /\ \E b \in Alphabet :
              /\ msg' = Append(msg, b)
              /\ count' = count + 1
              /\ IF Len(buf) + 1 = BlockBytes
                 THEN chain' = Free(chain, Append(buf, b)) /\ buf' = <<>>
                 ELSE chain' = chain /\ buf' = Append(buf, b)
        /\ UNCHANGED <<pc, big>>
\* finishing, step by step: marker, zeros until the length fits, length
Field == LET d == DigitsLE(8 * count, LenBytes) IN IF big THEN Reverse(d) ELSE d
Add(b) == IF Len(buf) + 1 = BlockBytes THEN chain' = Free(chain, Append(buf, b)) /\ buf' = <<>>
          ELSE chain' = chain /\ buf' = Append(buf, b)
Marker == pc = "open" /\ Add(128) /\ pc' = "zeros" /\ UNCHANGED <<msg, count, big>>
Zeros == /\ pc = "zeros" /\ Len(buf) # BlockBytes - LenBytes
         /\ Add(0) /\ UNCHANGED <<msg, count, big, pc>>
Length == /\ pc = "zeros" /\ Len(buf) = BlockBytes - LenBytes
          /\ chain' = Free(chain, buf \o Field) /\ buf' = <<>> /\ pc' = "done"
          /\ UNCHANGED <<msg, count, big>>
Next == Push \/ Marker \/ Zeros \/ Length
Spec == Init /\ [][Next]_vars

\* while open, the buffer is the part of the message after the whole blocks
BufferRight == pc = "open" => /\ count = Len(msg)
                              /\ Flatten(chain) \o buf = msg
                              /\ Len(buf) < BlockBytes
\* the machine computes the declarative definition
IsAbsorb == pc = "done" => chain = Absorb(Free, <<>>, msg, BlockBytes, LenBytes, big)
\* and the definition used for very long messages agrees with it
IsFromMid ==
    pc = "done" => LET whole == (Len(msg) \div BlockBytes) * BlockBytes
                       mid == FoldBlocks(Free, <<>>, SubSeq(msg, 1, whole), BlockBytes)
                   IN  chain = FoldBlocks(Free, mid, PadTail(Drop(msg, whole), DigitsLE(Len(msg), 8), BlockBytes, LenBytes, big), BlockBytes)
\* as few blocks as possible
Minimal == pc = "done" => Len(chain) = (Len(msg) + 1 + LenBytes + BlockBytes - 1) \div BlockBytes
\* the message can be read off the padded blocks (no two messages share them)
Recover(bytes) == LET d == SubSeq(bytes, 1, Len(bytes) - LenBytes)
                  IN  SubSeq(d, 1, SelectLastInSeq(d, LAMBDA x : x # 0) - 1)
Injective == pc = "done" => Recover(Flatten(chain)) = msg
=============================================================================
