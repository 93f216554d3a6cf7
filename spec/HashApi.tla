------------------------------- MODULE HashApi -------------------------------
(* Digest functions and digest values. objs holds digest values (their bytes).  *)
EXTENDS Api, Hashes
VARIABLES objs, reply

Hash(alg, msg) == UNCHANGED objs /\ reply' = Ok(<<Digest(alg, msg)>>)
\* The data source panics at its at-th byte: the call is left without a result, and without a trace.
LeaveHash(alg, msg, at) == UNCHANGED objs /\ reply' = IF at <= Len(msg) THEN Panic ELSE Ok(<<Digest(alg, msg)>>)
HashGiant(alg, mid, tail, len) == UNCHANGED objs /\ reply' = Ok(<<DigestFrom(alg, mid, tail, len)>>)

\* digest values; bits is the size
Sizes == {160, 224, 256, 384, 512}
WordBytes(bits) == IF bits > 256 THEN 8 ELSE 4
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
HexValid(text, bits) == Len(text) = bits \div 4 /\ \A i \in 1..Len(text) : HexVal(text[i]) >= 0
HexBytes(text) == [i \in 1..(Len(text) \div 2) |-> 16 * HexVal(text[2*i - 1]) + HexVal(text[2*i])]

\* words are given and returned as their big-endian bytes, one sequence per word
FromWords(bits, words) == objs' = Append(objs, Flatten(words)) /\ reply' = Ok(<<>>)
FromHex(bits, text) ==
    IF HexValid(text, bits) THEN objs' = Append(objs, HexBytes(text)) /\ reply' = Ok(<<>>)
    ELSE UNCHANGED objs /\ reply' = Err
FromHash(alg, msg) == objs' = Append(objs, Digest(alg, msg)) /\ reply' = Ok(<<>>)
ToBytes(i) == UNCHANGED objs /\ reply' = Ok(<<objs[i]>>)
ToWords(i, bits) == LET n == WordBytes(bits)
                    IN  UNCHANGED objs /\ reply' = Ok([j \in 1..(Len(objs[i]) \div n) |-> Chunk(objs[i], n, j - 1)])
Equal(i, j) == UNCHANGED objs /\ reply' = Ok(<<<<IF objs[i] = objs[j] THEN 1 ELSE 0>>>>)

HashStep(e) ==
    CASE e.op = "hash" -> Hash(e.alg, e.data)
      [] e.op = "dhash" -> LeaveHash(e.alg, e.data, e.at)
      [] e.op = "giant" -> IF e.k \in {"hang", "abort"} THEN UNCHANGED objs /\ reply' = Impossible
                           ELSE HashGiant(e.alg, e.mid, e.tail, e.len)
      [] e.op = "from_words" -> FromWords(e.bits, e.words)
      [] e.op = "from_hex" -> FromHex(e.bits, e.text)
      [] e.op = "from_hash" -> FromHash(e.alg, e.data)
      [] e.op = "to_bytes" -> ToBytes(e.obj)
      [] e.op = "to_words" -> ToWords(e.obj, e.bits)
      [] e.op = "equal" -> Equal(e.obj, e.other)
=============================================================================
