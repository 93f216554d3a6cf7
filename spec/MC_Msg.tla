------------------------------- MODULE MC_Msg -------------------------------
(* Padded RSA with a caller-supplied padding, for keys of two to four bytes:       *)
(* every one-byte message, every encoded message from a menu (valid or not) as a    *)
(* crafted ciphertext, also without leading zeros and with extra bytes. The numbers  *)
(* are real, the number-to-bytes conversion is the point. Replayed.               *)
EXTENDS RsaApi, TLC, Json
VARIABLES key, case, hist

\* p, q, e
Keys == {<<251, 257, 3>>, <<4093, 4099, 5>>, <<65521, 65537, 11>>, <<3, 65537, 5>>, <<11, 23, 7>>, <<4093, 65537, 5>>}
Modulus(k) == Mul(FromInt(k[1]), FromInt(k[2]))
Bytes(k) == Len(Modulus(k))
\* messages that fit, and one that does not
Msgs(k) == LET n == Bytes(k) - 2
           IN  {<<>>} \cup (IF n >= 1 THEN {<<b>> : b \in 0..255} ELSE {<<7>>})
                      \cup (IF n >= 2 THEN {<<a, b>> : a \in {0, 1, 255}, b \in {0, 1, 2, 128}} ELSE {<<7, 8>>})
                      \cup {<<1, 2, 3>>}
Menu == {0, 1, 2, 255}
Encoded(k) == {em \in [1..Bytes(k) -> Menu] : Less(FromBE(em), Modulus(k))}
Init == /\ key \in Keys /\ objs = <<>> /\ reply = NoReply /\ hist = <<>>
        /\ \/ \E m \in Msgs(key) : case = [t |-> "trip", d |-> m]
           \/ \E em \in Encoded(key) : case = [t |-> "craft", d |-> em]
n == Modulus(key)
k == Bytes(key)
Public(x) == PowMod(x, FromInt(key[3]), n)
Cipher(em) == ToFixedBE(Public(FromBE(em)), k)
New == [op |-> "create", p |-> ToBE(FromInt(key[1])), q |-> ToBE(FromInt(key[2])), e |-> ToBE(FromInt(key[3]))]
EncCall(m) == [op |-> "encmsg", obj |-> 2, pad |-> "toy", data |-> m]
DecCall(c) == [op |-> "decmsg", obj |-> 1, pad |-> "toy", data |-> c]
Answer(em, regular) == LET r == ToyDecode(em) IN IF ~r.ok THEN Panic ELSE IF regular THEN Ok(<<r.msg>>) ELSE OkOrPanic(<<r.msg>>)
Trip(m) == IF ToyFits(m, k)
           THEN LET em == ToyEncode(m, k)
                IN  <<[e |-> EncCall(m), r |-> Ok(<<Cipher(em)>>)], [e |-> DecCall(Cipher(em)), r |-> Answer(em, TRUE)]>>
           ELSE <<[e |-> EncCall(m), r |-> Panic]>>
Craft(em) == LET c == Cipher(em)
             IN  <<[e |-> DecCall(c), r |-> Answer(em, TRUE)],
                   [e |-> DecCall(ToBE(FromBE(c))), r |-> Answer(em, Len(FromBE(c)) = k)],
                   [e |-> DecCall(<<0>> \o c), r |-> Answer(em, FALSE)]>>
Next == /\ hist = <<>>
        /\ CreateKeys(New.p, New.q, New.e)
        /\ hist' = <<[e |-> New, r |-> reply']>> \o (IF case.t = "trip" THEN Trip(case.d) ELSE Craft(case.d))
        /\ UNCHANGED <<key, case>>
KeysMade == hist # <<>> => reply = Ok(<<>>)
\* what was encrypted is what comes back; ciphertexts have the size of the modulus and are below it
TripRight == (hist # <<>> /\ case.t = "trip" /\ ToyFits(case.d, k)) =>
    LET c == hist[2].r.v[1]
    IN  Len(c) = k /\ Less(FromBE(c), n) /\ hist[3].r = Ok(<<case.d>>)
\* decryption gives a message only for encodings of exactly that message
OnlyValid == (hist # <<>> /\ case.t = "craft") =>
    \A i \in 2..4 : hist[i].r.k # "panic" => ToyEncode(hist[i].r.v[1], k) = case.d \/ (case.d[1] # 0)
Emit == hist # <<>> => PrintT("@" \o ToJson(hist))
=============================================================================
