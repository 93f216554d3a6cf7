------------------------------ MODULE BlockApi ------------------------------
(* Block ciphers, block modes, bulk encryption, paddings: the machine behind   *)
(* the BlockCipher / BlockCipherMode / BlockEncryption / padding interface.     *)
(* objs is the sequence of cipher objects created so far.                      *)
EXTENDS Api, Aes, Rc2, Rc5, Padding, TLC
VARIABLES objs, reply

------------------------------------------------------------------------------
\* Ciphers. A caller-supplied ("toy") cipher on blocks of n bytes is part of the
\* environment: a byte rotation with key- and position-dependent addition.
ToyEnc(key, n, b) == [i \in 1..n |-> (b[(i % n) + 1] + key + 7 * i) % 256]
ToyDec(key, n, b) == [j \in 1..n |-> LET i == ((j + n - 2) % n) + 1 IN (b[i] - key - 7 * i + 256 * 16) % 256]

AesObj(key) == [t |-> "aes", n |-> 16, k |-> RoundKeys(key)]
Rc2Obj(key, bits) == [t |-> "rc2", n |-> 8, k |-> Rc2Expand(key, bits)]
Rc5Obj(key, rounds) == [t |-> "rc5", n |-> 8, k |-> Rc5Expand(key, rounds)]
ToyObj(key, n) == [t |-> "toy", n |-> n, k |-> key]

Enc(c, b) == CASE c.t = "aes" -> AesEncrypt(c.k, b)
               [] c.t = "rc2" -> Rc2Encrypt(c.k, b)
               [] c.t = "rc5" -> Rc5Encrypt(c.k, b)
               [] OTHER -> ToyEnc(c.k, c.n, b)
Dec(c, b) == CASE c.t = "aes" -> AesDecrypt(c.k, b)
               [] c.t = "rc2" -> Rc2Decrypt(c.k, b)
               [] c.t = "rc5" -> Rc5Decrypt(c.k, b)
               [] OTHER -> ToyDec(c.k, c.n, b)

------------------------------------------------------------------------------
\* Modes. ECB belongs to the library; the others are supplied by the caller and stateful.
\* A step returns <<next mode state, output block>>.
Tweak(n, c) == [i \in 1..n |-> (c + i) % 256]
ModeEnc(c, mode, st, b) ==
    CASE mode = "ecb" -> <<st, Enc(c, b)>>
      [] mode = "cbc" -> LET o == TLCEval(Enc(c, XorSeq(b, st))) IN <<o, o>>
      [] mode = "ctr" -> <<<<(st[1] + 1) % 256>>, Enc(c, XorSeq(b, Tweak(c.n, st[1])))>>
ModeDec(c, mode, st, b) ==
    CASE mode = "ecb" -> <<st, Dec(c, b)>>
      [] mode = "cbc" -> <<b, XorSeq(Dec(c, b), st)>>
      [] mode = "ctr" -> <<<<(st[1] + 1) % 256>>, XorSeq(Dec(c, b), Tweak(c.n, st[1]))>>

\* Run a mode over a whole number of blocks: [st, out, log]; the log has one entry per call,
\* a direction flag followed by the block given to the mode and the block it returned.
\* (Blocks from+1..to; long runs are cut in two so that the sequences are not copied once per block.)
RECURSIVE RunBlocks(_, _, _, _, _, _, _)
RunBlocks(c, mode, st0, data, dir, from, to) ==
    IF to - from <= 8
    THEN FoldLeft(LAMBDA acc, i :
            LET b == Chunk(data, c.n, from + i - 1)
                r == IF dir = "enc" THEN ModeEnc(c, mode, acc.st, b) ELSE ModeDec(c, mode, acc.st, b)
            IN  [st |-> r[1], out |-> acc.out \o r[2],
                 log |-> acc.log \o <<IF dir = "enc" THEN 1 ELSE 0>> \o b \o r[2]],
            [st |-> st0, out |-> <<>>, log |-> <<>>], Iota(to - from))
    ELSE LET mid == (from + to) \div 2
             x == RunBlocks(c, mode, st0, data, dir, from, mid)
             y == RunBlocks(c, mode, x.st, data, dir, mid, to)
         IN  IF Len(x.out) < 0 THEN x      \* never; the first half is evaluated first
             ELSE [st |-> y.st, out |-> x.out \o y.out, log |-> x.log \o y.log]
RunMode(c, mode, st0, data, dir) == RunBlocks(c, mode, st0, data, dir, 0, Len(data) \div c.n)

PadMessage(msg, n) == LET whole == (Len(msg) \div n) * n IN Take(msg, whole) \o PkcsPad(Drop(msg, whole), n)
BulkEnc(c, mode, iv, msg) == RunMode(c, mode, iv, PadMessage(msg, c.n), "enc")

WellFormed(c, ct) == Len(ct) > 0 /\ Len(ct) % c.n = 0
BulkDec(c, mode, iv, ct) == RunMode(c, mode, iv, ct, "dec")
LastBlock(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

------------------------------------------------------------------------------
\* Calls
Same == UNCHANGED objs
NewCipher(c) == objs' = Append(objs, c) /\ reply' = Ok(<<>>)
Refuse == Same /\ reply' = Panic

NewAes(key) == NewCipher(AesObj(key))
NewRc2(key, bits) == IF Len(key) \in 1..128 /\ bits \in 1..1024 THEN NewCipher(Rc2Obj(key, bits)) ELSE Refuse
NewRc5(key, rounds) == IF Len(key) <= 255 THEN NewCipher(Rc5Obj(key, rounds)) ELSE Refuse
NewToy(key, n) == NewCipher(ToyObj(key, n))

Block(i, dir, b) ==
    /\ Same
    /\ reply' = Ok(<<IF dir = "enc" THEN Enc(objs[i], b) ELSE Dec(objs[i], b)>>)

\* any number of calls on an object whose results nobody looks at: a cipher keeps no history
Warm(i) == Same /\ reply' = Ok(<<>>)

BulkReply(i, dir, mode, iv, data) ==
    IF dir = "enc"
    THEN LET r == BulkEnc(objs[i], mode, iv, data) IN Ok(<<r.out, r.log>>)
    ELSE IF ~WellFormed(objs[i], data) THEN Panic
    ELSE LET r == BulkDec(objs[i], mode, iv, data)
             last == LastBlock(r.out, objs[i].n)
         IN  IF PkcsValid(last, objs[i].n)
             THEN Ok(<<Take(r.out, Len(r.out) - objs[i].n + PkcsDataLen(last, objs[i].n)), r.log>>)
             ELSE Panic
Bulk(i, dir, mode, iv, data) == Same /\ reply' = BulkReply(i, dir, mode, iv, data)

\* The caller's own code (the mode, once for each block, or the output function, once for each byte) panics at its
\* at-th call: the call is left without a result, and without a trace.
Blocks(i, dir, data) == Len(data) \div objs[i].n + IF dir = "enc" THEN 1 ELSE 0
LeaveBulk(i, dir, mode, iv, data, at) ==
    /\ Same
    /\ reply' = LET r == BulkReply(i, dir, mode, iv, data)
                IN  IF r.k = "ok" /\ at > Blocks(i, dir, data) + Len(r.v[1]) THEN r ELSE Panic

Pad(kind, n, part) ==
    /\ Same
    /\ reply' = IF Len(part) >= n THEN Panic
                ELSE Ok(<<IF kind = "pkcs" THEN PkcsPad(part, n) ELSE BitPad(part, n)>>)
Unpad(kind, n, b) ==
    /\ Same
    /\ reply' = IF kind = "pkcs"
                THEN IF PkcsValid(b, n) THEN Ok(<<<<PkcsDataLen(b, n)>>>>) ELSE Panic
                ELSE IF BitValid(b, n) THEN Ok(<<<<BitDataLen(b, n)>>, BitData(b, n)>>) ELSE Panic

BlockStep(e) ==
    CASE e.op = "aes" -> NewAes(e.key)
      [] e.op = "rc2" -> NewRc2(e.key, e.bits)
      [] e.op = "rc5" -> NewRc5(e.key, e.rounds)
      [] e.op = "toy" -> NewToy(e.key[1], e.n)
      [] e.op = "block" -> Block(e.obj, e.dir, e.data)
      [] e.op = "warm" -> Warm(e.obj)
      [] e.op = "bulk" -> Bulk(e.obj, e.dir, e.mode, e.iv, e.data)
      [] e.op = "dbulk" -> LeaveBulk(e.obj, e.dir, e.mode, e.iv, e.data, e.at)
      [] e.op = "pad" -> Pad(e.pad, e.n, e.data)
      [] e.op = "unpad" -> Unpad(e.pad, e.n, e.data)
=============================================================================
