------------------------------ MODULE MC_Digest ------------------------------
(* The digest functions as machines that take one byte at a time: a buffer, the   *)
(* real compression functions (for MD2 the checksum byte by byte, and the two      *)
(* finishing blocks), finished after any number of bytes. Checked against the       *)
(* declarative definitions; every message is replayed into the code.              *)
EXTENDS HashApi, TLC, Json
CONSTANTS Algs, Patterns, Blocks
VARIABLES alg, pat, count, buf, st, out, evt

vars == <<objs, reply, alg, pat, count, buf, st, out, evt>>
Byte(p, k) == CASE p = 0 -> 0
                [] p = 1 -> 255
                [] p = 2 -> k % 256
                [] p = 3 -> (k * k * 7 + 13 * k + 101) % 256
                [] p = 4 -> IF k % 64 = 55 \/ k % 16 = 15 THEN 128 ELSE 0
                [] OTHER -> (3 * k + p) % 256
Message == [k \in 1..count |-> Byte(pat, k - 1)]
BlockLen(a) == CASE a = "md2" -> 16 [] a \in {"sha384", "sha512"} -> 128 [] OTHER -> 64
LenLen(a) == IF a \in {"sha384", "sha512"} THEN 16 ELSE 8
BigEnd(a) == a \notin {"md4", "md5"}
Start(a) == CASE a = "md2" -> Md2Start
              [] a \in {"md4", "md5"} -> Md128Init
              [] a = "sha1" -> Sha1Init
              [] a = "sha224" -> Sha224Init
              [] a = "sha256" -> Sha256Init
              [] a = "sha384" -> Sha384Init
              [] a = "sha512" -> Sha512Init
\* the checksum of MD2 taken byte by byte, in place, each byte using the one before
RECURSIVE Sum2(_, _, _, _)
Sum2(c, l, b, j) == IF j > 16 THEN [c |-> c, l |-> l]
                    ELSE LET v == c[j] ^^ Md2S[(b[j] ^^ l) + 1] IN Sum2([c EXCEPT ![j] = v], v, b, j + 1)
Compress(a, h, b) == CASE a = "md2" -> LET s == Sum2(h.c, h.l, b, 1) IN [x |-> Md2Mix(h.x, b), c |-> s.c, l |-> s.l]
                       [] a = "md4" -> Md4Compress(h, b)
                       [] a = "md5" -> Md5Compress(h, b)
                       [] a = "sha1" -> Sha1Compress(h, b)
                       [] a \in {"sha224", "sha256"} -> Sha256Compress(h, b)
                       [] OTHER -> Sha512Compress(h, b)
Output(a, h) == CASE a = "md2" -> h.x
                  [] a \in {"md4", "md5"} -> Output128(h)
                  [] a = "sha1" -> OutputBE32(h, 5)
                  [] a = "sha224" -> OutputBE32(h, 7)
                  [] a = "sha256" -> OutputBE32(h, 8)
                  [] a = "sha384" -> OutputBE64(h, 6)
                  [] OTHER -> OutputBE64(h, 8)
\* what follows the message: for MD2 its padding, then (a block of its own) the checksum
Field(a, n) == LET d == DigitsLE(8 * n, 4) \o Repeat(0, LenLen(a) - 4) IN IF BigEnd(a) THEN Reverse(d) ELSE d
RECURSIVE ZerosFor(_, _)
ZerosFor(a, have) == IF (have + LenLen(a)) % BlockLen(a) = 0 THEN <<>> ELSE <<0>> \o ZerosFor(a, have + 1)
Ending(a, n) == IF a = "md2" THEN Repeat(16 - (n % 16), 16 - (n % 16))
                ELSE <<128>> \o ZerosFor(a, n + 1) \o Field(a, n)
RECURSIVE Feed(_, _, _)
Feed(a, h, bytes) == IF bytes = <<>> THEN h
                     ELSE Feed(a, Compress(a, h, SubSeq(bytes, 1, BlockLen(a))), Drop(bytes, BlockLen(a)))

Init == /\ alg \in Algs /\ pat \in Patterns /\ count = 0 /\ buf = <<>> /\ st = Start(alg) /\ out = <<>>
        /\ objs = <<>> /\ reply = NoReply /\ evt = <<>>
Push == /\ out = <<>> /\ count < Blocks * BlockLen(alg)
        /\ LET b == Append(buf, Byte(pat, count))
           IN  IF Len(b) = BlockLen(alg) THEN buf' = <<>> /\ st' = Compress(alg, st, b)
               ELSE buf' = b /\ UNCHANGED st
        /\ count' = count + 1
        /\ UNCHANGED <<alg, pat, out, objs, reply, evt>>
Finish == /\ out = <<>>
          /\ LET h == Feed(alg, st, buf \o Ending(alg, count))
             IN  out' = Output(alg, IF alg = "md2" THEN Compress(alg, h, h.c) ELSE h)
          /\ evt' = [op |-> "hash", alg |-> alg, data |-> Message, via |-> count % 3]
          /\ HashStep(evt')
          /\ UNCHANGED <<alg, pat, count, buf, st>>
Next == Push \/ Finish
Spec == Init /\ [][Next]_vars

BufferRight == Len(buf) = count % BlockLen(alg) /\ buf = Drop(Message, count - Len(buf))
IsDigest == out # <<>> => reply = Ok(<<out>>)
Size == out # <<>> => Len(out) = (CASE alg \in {"md2", "md4", "md5"} -> 16 [] alg = "sha1" -> 20 [] alg = "sha224" -> 28
                                    [] alg = "sha256" -> 32 [] alg = "sha384" -> 48 [] OTHER -> 64)
Emit == out # <<>> => PrintT("@" \o ToJson(<<[e |-> evt, r |-> reply]>>))
=============================================================================
