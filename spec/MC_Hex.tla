------------------------------- MODULE MC_Hex -------------------------------
(* Digest values: texts of every size with every ASCII character in several      *)
(* places, texts of nearby lengths; an accepted text is converted to bytes and    *)
(* to words. Every history is replayed into the code.                          *)
EXTENDS HashApi, TLC, Json
CONSTANTS Chars
VARIABLES bits, text, hist

Digits16 == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Base(n) == [i \in 1..n |-> Digits16[((7 * i + i \div 5) % 16) + 1]]
Init == /\ bits \in Sizes
        /\ objs = <<>> /\ reply = NoReply /\ hist = <<>>
        /\ LET n == bits \div 4
           IN  \/ \E c \in Chars, p \in {1, 2, n \div 2, n - 1, n} : text = [Base(n) EXCEPT ![p] = c]
               \/ \E l \in {0, 1, 2, n - 2, n - 1, n + 1, n + 2, 2 * n, 40, 56, 64, 96, 128} : text = Base(l)
               \/ text = [i \in 1..n |-> Upper(Base(n)[i])]
Next ==
    /\ \/ /\ hist = <<>>
          /\ LET e == [op |-> "from_hex", bits |-> bits, text |-> text, via |-> Len(text) % 2]
             IN  HashStep(e) /\ hist' = <<[e |-> e, r |-> reply']>>
       \/ /\ Len(hist) = 1 /\ reply.k = "ok"
          /\ LET e == [op |-> "to_bytes", obj |-> 1]
             IN  HashStep(e) /\ hist' = Append(hist, [e |-> e, r |-> reply'])
       \/ /\ Len(hist) = 2
          /\ LET e == [op |-> "to_words", obj |-> 1, bits |-> bits]
             IN  HashStep(e) /\ hist' = Append(hist, [e |-> e, r |-> reply'])
    /\ UNCHANGED <<bits, text>>

IsHexDigit(c) == c \in (48..57) \cup (65..70) \cup (97..102)
AcceptExact == Len(hist) = 1 => ((reply.k = "ok") <=> (Len(text) = bits \div 4 /\ \A i \in 1..Len(text) : IsHexDigit(text[i])))
Nibble(v) == IF v < 10 THEN 48 + v ELSE 87 + v
\* writing the bytes as hex gives the text back, up to case
BytesRight == Len(hist) = 2 =>
    LET b == reply.v[1]
        Lower(c) == IF c >= 65 /\ c <= 70 THEN c + 32 ELSE c
    IN  /\ Len(b) = bits \div 8
        /\ \A i \in 1..Len(b) : Nibble(b[i] \div 16) = Lower(text[2*i - 1]) /\ Nibble(b[i] % 16) = Lower(text[2*i])
WordsRight == Len(hist) = 3 => /\ Flatten(reply.v) = objs[1]
                               /\ \A i \in 1..Len(reply.v) : Len(reply.v[i]) = (IF bits >= 384 THEN 8 ELSE 4)
CaseBlind == (Len(hist) = 1 /\ HexValid(text, bits)) => HexBytes(text) = HexBytes([i \in 1..Len(text) |-> IF IsHexDigit(text[i]) THEN Upper(text[i]) ELSE text[i]])
Emit == (Len(hist) = 3 \/ (Len(hist) = 1 /\ reply.k # "ok")) => PrintT("@" \o ToJson(hist))
=============================================================================
