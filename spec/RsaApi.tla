------------------------------- MODULE RsaApi -------------------------------
(* RSA keys and operations. objs holds keys: modulus n, exponent x and, when     *)
(* known, the exponent y of the matching key; x itself is unknown when only y      *)
(* determines it (generated private keys). t tells private from public keys.     *)
EXTENDS Api, RsaKeyFile, Oaep
VARIABLES objs, reply

KeyObj(t, n, x, y) == [t |-> t, n |-> n, x |-> x, y |-> y]
KeyBytes(n) == Len(n)
Refused == UNCHANGED objs /\ reply' = Panic

\* p and q are distinct primes (environment assumption)
CreateKeys(p, q, e) ==
    LET P == FromBE(p)  Q == FromBE(q)  E == FromBE(e)
        n == Mul(P, Q)
        phi == Mul(Sub(P, One), Sub(Q, One))
    IN  IF Len(P) > 16 \/ Len(Q) > 16 \/ Len(E) > 16 \/ Len(n) > 16 THEN Refused
        ELSE IF Gcd(phi, E) # One THEN Refused
        ELSE /\ objs' = objs \o <<KeyObj("priv", n, Unknown, E), KeyObj("pub", n, E, Unknown)>>
             /\ reply' = Ok(<<>>)

Import(t, f, accepted) ==
    CASE f.k = "yes" -> objs' = Append(objs, KeyObj(t, f.n, f.x, f.y)) /\ reply' = Ok(<<>>)
      [] f.k = "no" -> UNCHANGED objs /\ reply' = Err
      [] f.k = "open" -> /\ objs' = IF accepted THEN Append(objs, KeyObj(t, f.n, f.x, f.y)) ELSE objs
                         /\ reply' = OkOrErr(<<>>)
PrivateLabel == <<80, 82, 73, 86, 65, 84, 69, 32, 75, 69, 89>>
PublicLabel == <<80, 85, 66, 76, 73, 67, 32, 75, 69, 89>>
ImportPrivate(label, der, accepted) == Import("priv", IF label = PrivateLabel THEN PrivateFile(der) ELSE No, accepted)
ImportPublic(label, der, accepted) == Import("pub", IF label = PublicLabel THEN PublicFile(der) ELSE No, accepted)

\* Keys are values: a clone is the same key, and two keys of a kind are equal exactly when modulus and exponent are.
CloneKey(i) == objs' = Append(objs, objs[i]) /\ reply' = Ok(<<>>)
\* how a generated private exponent is represented is up to the library, so that only the public side can tell whether
\* the keys are the same
KeysDiffer(a, b) == a.n # b.n \/ (a.x # Unknown /\ b.x # Unknown /\ a.x # b.x)
KeysAgree(a, b) == a.n = b.n /\ a.x = b.x /\ (a.x # Unknown \/ a.y = b.y)
CompareKeys(i, j) ==
    /\ UNCHANGED objs
    /\ reply' = IF objs[i].t # objs[j].t THEN Unspecified
                ELSE IF KeysDiffer(objs[i], objs[j]) THEN Ok(<<<<0, 1>>>>)
                ELSE IF KeysAgree(objs[i], objs[j]) THEN Ok(<<<<1, 0>>>>)
                ELSE Unspecified

\* r = m^x mod n, decided with the short exponent when there is one
ShortExp(e) == e # Unknown /\ Len(e) <= 5
IsPower(key, m, r) ==
    IF key.x # Unknown /\ (key.y = Unknown \/ ~ShortExp(key.y) \/ ShortExp(key.x))
    THEN r = PowMod(m, key.x, key.n)
    ELSE Less(r, key.n) /\ PowMod(r, key.y, key.n) = Mod(m, key.n)

\* raw operation; out is the recorded result (number as bytes)
Raw(i, m, out) ==
    /\ UNCHANGED objs
    /\ reply' = IF out.k # "ok" THEN Impossible
                ELSE IF IsPower(objs[i], FromBE(m), FromBE(out.v[1])) /\ (out.v[1] = <<>> \/ out.v[1][1] # 0)
                THEN Ok(out.v) ELSE Impossible

------------------------------------------------------------------------------
\* Padding schemes: the built-in one, and a caller-supplied one (zeros, a one, the message).
ToyFits(msg, k) == Len(msg) + 2 <= k
ToyEncode(msg, k) == Repeat(0, k - Len(msg) - 1) \o <<1>> \o msg
ToyDecode(em) == LET s == SelectInSeq(em, LAMBDA x : x # 0)
                 IN  IF s = 0 THEN [ok |-> FALSE, msg |-> <<>>]
                     ELSE IF em[s] # 1 THEN [ok |-> FALSE, msg |-> <<>>]
                     ELSE [ok |-> TRUE, msg |-> Drop(em, s)]
Fits(pad, msg, k) == IF pad = "oaep" THEN Len(msg) + 2 * HLen + 2 <= k ELSE ToyFits(msg, k)
DecodeMsg(pad, em, k) == IF pad = "oaep" THEN OaepDecode(<<>>, em, k) ELSE ToyDecode(em)

\* out: recorded reply; wit: the encoded message as a number (bytes), i.e. the ciphertext
\* undone with the matching key
EncryptMessage(i, pad, msg, out, wit) ==
    LET key == objs[i]
        k == KeyBytes(key.n)
        c == FromBE(out.v[1])
        em == FromBE(wit)
    IN  /\ UNCHANGED objs
        /\ reply' = IF ~Fits(pad, msg, k) THEN Panic
                    ELSE IF out.k # "ok" THEN Impossible
                    ELSE IF Len(out.v[1]) # k \/ ~Less(c, key.n) THEN Impossible
                    ELSE IF ~Less(em, key.n) \/ ~IsPower(key, em, c) THEN BadWitness
                    ELSE IF DecodeMsg(pad, ToFixedBE(em, k), k) # [ok |-> TRUE, msg |-> msg] THEN Impossible
                    ELSE IF pad = "toy" /\ ToFixedBE(em, k) # ToyEncode(msg, k) THEN Impossible
                    ELSE Ok(out.v)
\* wit: the result of the key operation on the ciphertext
DecryptMessage(i, pad, ct, wit) ==
    LET key == objs[i]
        k == KeyBytes(key.n)
        c == FromBE(ct)
        em == FromBE(wit)
        regular == Len(ct) = k /\ Less(c, key.n)
    IN  /\ UNCHANGED objs
        /\ reply' = IF ~IsPower(key, c, em) THEN BadWitness
                    ELSE LET r == DecodeMsg(pad, ToFixedBE(em, k), k)
                         IN  IF ~r.ok THEN Panic
                             ELSE IF regular THEN Ok(<<r.msg>>) ELSE OkOrPanic(<<r.msg>>)

\* the padding scheme on its own
PadEncode(label, msg, k, out) ==
    /\ UNCHANGED objs
    /\ reply' = IF Len(msg) + 2 * HLen + 2 > k THEN Panic
                ELSE IF out.k # "ok" THEN Impossible
                ELSE IF IsOaepEncoding(label, msg, out.v[1], k) THEN Ok(out.v) ELSE Impossible
PadDecode(label, em, k) ==
    /\ UNCHANGED objs
    /\ reply' = LET r == OaepDecode(label, em, k) IN IF r.ok THEN Ok(<<r.msg>>) ELSE Err

\* The caller's padding scheme, asked once, panics: the call is left without a result, and without a trace.
LeaveMessage(at) == UNCHANGED objs /\ reply' = IF at = 1 THEN Panic ELSE Unspecified

RsaStep(e) ==
    CASE e.op = "create" -> CreateKeys(e.p, e.q, e.e)
      [] e.op = "priv" -> ImportPrivate(e.label, e.data, e.k = "ok")
      [] e.op = "pub" -> ImportPublic(e.label, e.data, e.k = "ok")
      [] e.op = "kclone" -> CloneKey(e.obj)
      [] e.op = "keq" -> CompareKeys(e.obj, e.other)
      [] e.op = "raw" -> Raw(e.obj, e.data, e)
      [] e.op \in {"dencmsg", "ddecmsg"} -> LeaveMessage(e.at)
      [] e.op = "encmsg" -> EncryptMessage(e.obj, e.pad, e.data, e, e.wit)
      [] e.op = "decmsg" -> DecryptMessage(e.obj, e.pad, e.data, e.wit)
      [] e.op = "oaep_enc" -> PadEncode(e.label, e.data, e.n, e)
      [] e.op = "oaep_dec" -> PadDecode(e.label, e.data, e.n)
=============================================================================
