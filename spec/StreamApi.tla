------------------------------ MODULE StreamApi ------------------------------
(* Keystream generators and stream encryption. objs holds keystreams: finite    *)
(* ones given byte by byte, and RC4 states.                                    *)
EXTENDS Api, Rc4
VARIABLES objs, reply

W == 256
Rc4Obj(key) == [t |-> "rc4", st |-> Rc4Schedule(key, W)]
FiniteObj(ks) == [t |-> "fin", st |-> ks]
\* an endless keystream supplied by the caller; its state is the position
PatObj(seed) == [t |-> "pat", st |-> 0, seed |-> seed]
PatByte(seed, p) == (seed + (p % 251) + ((p \div 256) % 253) + 7 * (p \div 65536)) % 256
\* can n more bytes be taken
Has(o, n) == o.t # "fin" \/ Len(o.st) >= n
\* the next n bytes and the keystream after them
TakeKs(o, n) == IF o.t = "rc4" THEN LET r == Rc4Run(o.st, n, W) IN <<[o EXCEPT !.st = r[1]], r[2]>>
                ELSE IF o.t = "pat" THEN <<[o EXCEPT !.st = @ + n], [i \in 1..n |-> PatByte(o.seed, o.st + i - 1)]>>
                ELSE <<[o EXCEPT !.st = Drop(o.st, n)], SubSeq(o.st, 1, n)>>

NewFinite(ks) == objs' = Append(objs, FiniteObj(ks)) /\ reply' = Ok(<<>>)
NewPat(seed) == objs' = Append(objs, PatObj(seed)) /\ reply' = Ok(<<>>)
NewRc4(key) == IF key = <<>> THEN UNCHANGED objs /\ reply' = Panic
               ELSE objs' = Append(objs, Rc4Obj(key)) /\ reply' = Ok(<<>>)

\* Encrypt data piece by piece, taking only the first n results: the keystream advances by n.
EncryptPiece(i, data, n) ==
    IF Has(objs[i], n)
    THEN LET r == TakeKs(objs[i], n)
         IN  objs' = [objs EXCEPT ![i] = r[1]] /\ reply' = Ok(<<XorSeq(SubSeq(data, 1, n), r[2])>>)
    ELSE objs' = [objs EXCEPT ![i].st = <<>>] /\ reply' = Panic

\* Encrypt data and look at some of the results only: gaps[k] results are passed over before the k-th one that is
\* looked at. Passing over a result uses its keystream byte; a look past the end of the data finds nothing (-1).
Spots(gaps) == [k \in 1..Len(gaps) |-> FoldLeft(LAMBDA a, j : a + gaps[j] + 1, 0, Iota(k))]
Picks(i, data, gaps) ==
    LET at == Spots(gaps)
        last == IF gaps = <<>> THEN 0 ELSE at[Len(gaps)]
        n == IF last < Len(data) THEN last ELSE Len(data)
    IN  IF Has(objs[i], n)
        THEN LET r == TakeKs(objs[i], n)
             IN  /\ objs' = [objs EXCEPT ![i] = r[1]]
                 /\ reply' = Ok(<<[k \in 1..Len(gaps) |-> IF at[k] <= Len(data) THEN data[at[k]] ^^ r[2][at[k]] ELSE -1]>>)
        ELSE objs' = [objs EXCEPT ![i].st = <<>>] /\ reply' = Panic
\* the same look at an endless keystream itself
KeyPicks(i, gaps) == Picks(i, Repeat(0, IF gaps = <<>> THEN 0 ELSE Spots(gaps)[Len(gaps)]), gaps)

\* Read n keystream bytes (iterator interface), or pass over them.
ReadKeys(i, n) == EncryptPiece(i, Repeat(0, n), n)
SkipKeys(i, n) ==
    /\ objs' = [objs EXCEPT ![i].st = IF objs[i].t = "pat" THEN @ + n ELSE Rc4Skip(@, n, W)]
    /\ reply' = Ok(<<>>)
\* whole-message convenience call on a fresh keystream; the keystream is used up
Whole(key, data) ==
    /\ UNCHANGED objs
    /\ reply' = IF key = <<>> THEN Panic ELSE Ok(<<XorSeq(data, Rc4Run(Rc4Schedule(key, W), Len(data), W)[2])>>)

\* far into an RC4 keystream; st is the state reached after e.far bytes, as reported by the harness
Rc4Far(st) == UNCHANGED objs /\ reply' = Ok(<<Rc4Run(<<st[1], st[2][1], st[3][1]>>, 64, W)[2]>>)
\* far into a stream over a keystream whose byte at position p (eight bytes, big-endian) is FarByte(p)
FarByte(p) == ((p[8] ^^ p[7]) ^^ (p[6] ^^ p[5])) ^^ ((3 * p[4]) % 256)
\* p + n for a position of eight bytes
RECURSIVE AddPos(_, _, _)
AddPos(p, n, i) == IF n = 0 \/ i = 0 THEN p
                   ELSE AddPos([p EXCEPT ![i] = (p[i] + n) % 256], (p[i] + n) \div 256, i - 1)
StreamFar(at, data) ==
    UNCHANGED objs /\ reply' = Ok(<<[i \in 1..Len(data) |-> data[i] ^^ FarByte(AddPos(at, i - 1, 8))]>>)

StreamStep(e) ==
    CASE e.op = "fin" -> NewFinite(e.key)
      [] e.op = "pat" -> NewPat(e.key[1])
      [] e.op = "rc4" -> NewRc4(e.key)
      [] e.op = "piece" -> EncryptPiece(e.obj, e.data, e.n)
      [] e.op = "picks" -> Picks(e.obj, e.data, e.gaps)
      [] e.op = "keypicks" -> KeyPicks(e.obj, e.gaps)
      [] e.op = "keys" -> ReadKeys(e.obj, e.n)
      [] e.op = "skip" -> SkipKeys(e.obj, e.n)
      [] e.op = "rc4enc" -> Whole(e.key, e.data)
      [] e.op = "rc4far" -> IF e.k \in {"hang", "abort"} THEN UNCHANGED objs /\ reply' = Impossible ELSE Rc4Far(e.st)
      [] e.op = "streamfar" -> StreamFar(e.far, e.data)
      [] e.op = "rc4dec" -> Whole(e.key, e.data)
=============================================================================
