----------------------------- MODULE OaepScheme -----------------------------
(* EME-OAEP of RFC 8017 over any hash function H with results of HLen bytes, with  *)
(* MGF1 (counter of CtrLen bytes) over the same function.                       *)
EXTENDS MdStrengthen
CONSTANTS HLen, CtrLen, H(_)

Mgf1(seed, n) ==
    SubSeq(Flatten([i \in 1..((n + HLen - 1) \div HLen) |-> H(seed \o Reverse(DigitsLE(i - 1, CtrLen)))]), 1, n)

\* the encoding for a given seed
Encode(label, msg, k, seed) ==
    LET db   == H(label) \o Repeat(0, k - Len(msg) - 2 * HLen - 2) \o <<1>> \o msg
        mdb  == XorSeq(db, Mgf1(seed, k - HLen - 1))
        ms   == XorSeq(seed, Mgf1(mdb, HLen))
    IN  <<0>> \o ms \o mdb

Fail == [ok |-> FALSE, msg |-> <<>>]
Decode(label, em, k) ==
    IF Len(em) # k \/ k < 2 * HLen + 2 \/ em[1] # 0 THEN Fail
    ELSE LET mdb  == SubSeq(em, HLen + 2, k)
             seed == XorSeq(SubSeq(em, 2, HLen + 1), Mgf1(mdb, HLen))
             db   == XorSeq(mdb, Mgf1(seed, k - HLen - 1))
             rest == Drop(db, HLen)
             sep  == SelectInSeq(rest, LAMBDA x : x # 0)
         IN  IF SubSeq(db, 1, HLen) # H(label) \/ sep = 0 THEN Fail
             ELSE IF rest[sep] # 1 THEN Fail
             ELSE [ok |-> TRUE, msg |-> Drop(rest, sep)]

\* em encodes msg with some seed.  The last digits alone are looked at first: of a very long string that is no
\* encoding, they often tell so without the rest.
LastRight(label, msg, em, k) ==
    LET d    == k - HLen - 1
        mdb  == SubSeq(em, HLen + 2, k)
        seed == TLCEval(XorSeq(SubSeq(em, 2, HLen + 1), Mgf1(mdb, HLen)))
        b    == (d - 1) \div HLen
        mask == H(seed \o Reverse(DigitsLE(b, CtrLen)))
        Want(p) == IF p > d - Len(msg) THEN msg[p - (d - Len(msg))]
                   ELSE IF p = d - Len(msg) THEN 1 ELSE IF p <= HLen THEN H(label)[p] ELSE 0
    IN  \A p \in (b * HLen + 1)..d : mdb[p] ^^ mask[p - b * HLen] = Want(p)
IsEncoding(label, msg, em, k) ==
    /\ Len(em) = k /\ k >= 2 * HLen + 2 + Len(msg) /\ em[1] = 0
    /\ LastRight(label, msg, em, k)
    /\ Decode(label, em, k) = [ok |-> TRUE, msg |-> msg]
=============================================================================
