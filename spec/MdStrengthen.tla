---------------------------- MODULE MdStrengthen ----------------------------
(* Merkle-Damgard padding shared by MD4, MD5, SHA-1 and SHA-2: the marker     *)
(* byte, zeros, and the message length in bits in the last LenBytes bytes of  *)
(* a block of BlockBytes bytes. The length is a Nat (little-endian base 256)  *)
(* so that messages of 2^32 bytes and more can be talked about.               *)
EXTENDS Words

\* little-endian base-256 digits of a TLC integer, exactly n digits
RECURSIVE DigitsLE(_, _)
DigitsLE(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o DigitsLE(x \div 256, n - 1)
\* little-endian digits times eight, same number of digits (overflow dropped)
TimesEight(d) ==
    [i \in 1..Len(d) |-> ((d[i] * 8) % 256) + (IF i > 1 THEN d[i - 1] \div 32 ELSE 0)]

\* tail: the bytes after the last whole block; len: digits of the message length in bytes
PadTail(tail, len, blockBytes, lenBytes, bigEndian) ==
    LET digits == TimesEight([i \in 1..lenBytes |-> IF i <= Len(len) THEN len[i] ELSE 0])
        field  == IF bigEndian THEN Reverse(digits) ELSE digits
        room   == blockBytes - lenBytes - 1 - Len(tail)
        zeros  == IF room >= 0 THEN room ELSE room + blockBytes
    IN  tail \o <<128>> \o Repeat(0, zeros) \o field

\* fold a compression function over the whole blocks of bytes
FoldBlocks(Compress(_, _), h, bytes, blockBytes) ==
    FoldLeft(LAMBDA acc, i : Compress(acc, Chunk(bytes, blockBytes, i - 1)), h,
             Iota(Len(bytes) \div blockBytes))

\* the chaining value after a message
Absorb(Compress(_, _), h, msg, blockBytes, lenBytes, bigEndian) ==
    LET whole == (Len(msg) \div blockBytes) * blockBytes
        mid   == FoldBlocks(Compress, h, SubSeq(msg, 1, whole), blockBytes)
        last  == PadTail(Drop(msg, whole), DigitsLE(Len(msg), 4), blockBytes, lenBytes, bigEndian)
    IN  FoldBlocks(Compress, mid, last, blockBytes)
=============================================================================
