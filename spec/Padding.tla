------------------------------- MODULE Padding -------------------------------
(* The two block paddings, for blocks of N bytes.                             *)
EXTENDS Words

PkcsPad(part, N) == part \o Repeat(N - Len(part), N - Len(part))
\* the block is the padding of some partial block
PkcsValid(block, N) ==
    LET p == block[N]
    IN  p >= 1 /\ p <= N /\ \A i \in (N - p + 1)..N : block[i] = p
PkcsDataLen(block, N) == N - block[N]

BitPad(part, N) == part \o <<128>> \o Repeat(0, N - Len(part) - 1)
BitMarker(block) == SelectLastInSeq(block, LAMBDA b : b # 0)
BitValid(block, N) == BitMarker(block) > 0 /\ block[BitMarker(block)] = 128
BitDataLen(block, N) == BitMarker(block) - 1
BitData(block, N) == [i \in 1..N |-> IF i <= BitDataLen(block, N) THEN block[i] ELSE 0]
=============================================================================
