--------------------------------- MODULE Pem ---------------------------------
(* PEM documents (the strict subset this library supports). Texts are          *)
(* sequences of Unicode code points.                                          *)
EXTENDS Words

------------------------------------------------------------------------------
\* base64, standard alphabet, padded, canonical
B64Char(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4
              ELSE IF v = 62 THEN 43 ELSE 47
B64Val(c) == IF c >= 65 /\ c <= 90 THEN c - 65
             ELSE IF c >= 97 /\ c <= 122 THEN c - 71
             ELSE IF c >= 48 /\ c <= 57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Eq == 61
B64Group(b) ==  \* 1..3 bytes to four characters
    LET b1 == b[1]
        b2 == IF Len(b) >= 2 THEN b[2] ELSE 0
        b3 == IF Len(b) >= 3 THEN b[3] ELSE 0
    IN  <<B64Char(b1 \div 4), B64Char((b1 % 4) * 16 + b2 \div 16),
          IF Len(b) >= 2 THEN B64Char((b2 % 16) * 4 + b3 \div 64) ELSE Eq,
          IF Len(b) >= 3 THEN B64Char(b3 % 64) ELSE Eq>>
B64Encode(data) ==
    Flatten([i \in 1..((Len(data) + 2) \div 3) |-> B64Group(SubSeq(data, 3*i - 2, IF 3*i > Len(data) THEN Len(data) ELSE 3*i))])
\* number of data bytes in a group of four characters, 0 if it is not a group
B64GroupLen(g) ==
    LET v == [i \in 1..4 |-> B64Val(g[i])]
    IN  IF v[1] < 0 \/ v[2] < 0 THEN 0
        ELSE IF g[3] = Eq /\ g[4] = Eq THEN (IF v[2] % 16 = 0 THEN 1 ELSE 0)
        ELSE IF v[3] < 0 THEN 0
        ELSE IF g[4] = Eq THEN (IF v[3] % 4 = 0 THEN 2 ELSE 0)
        ELSE IF v[4] < 0 THEN 0 ELSE 3
B64Valid(text) ==
    /\ Len(text) % 4 = 0
    /\ \A i \in 1..(Len(text) \div 4) :
          LET n == B64GroupLen(SubSeq(text, 4*i - 3, 4*i))
          IN  IF 4 * i = Len(text) THEN n >= 1 ELSE n = 3
B64Decode(text) ==
    Flatten([i \in 1..(Len(text) \div 4) |->
        LET g == SubSeq(text, 4*i - 3, 4*i)
            v == [k \in 1..4 |-> IF B64Val(g[k]) < 0 THEN 0 ELSE B64Val(g[k])]
        IN  SubSeq(<<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4]>>,
                   1, B64GroupLen(g))])

------------------------------------------------------------------------------
\* code points with the Unicode property White_Space
WhiteSpace == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
TrimWs(l) == LET first == SelectInSeq(l, LAMBDA c : c \notin WhiteSpace)
                 last  == SelectLastInSeq(l, LAMBDA c : c \notin WhiteSpace)
             IN  IF first = 0 THEN <<>> ELSE SubSeq(l, first, last)
NewLine == 10
\* the lines of a text (the text after the last newline counts as a line; an empty one is harmless)
Lines(text) ==
    LET r == FoldLeft(LAMBDA acc, c : IF c = NewLine THEN <<Append(acc[1], acc[2]), <<>>>> ELSE <<acc[1], Append(acc[2], c)>>,
                      <<<<>>, <<>>>>, text)
    IN  Append(r[1], r[2])

Dashes == Repeat(45, 5)
BeginMark == Dashes \o <<66, 69, 71, 73, 78, 32>>      \* -----BEGIN_
EndMark   == Dashes \o <<69, 78, 68, 32>>              \* -----END_
StartsWith(l, p) == Len(l) >= Len(p) /\ SubSeq(l, 1, Len(p)) = p
EndsWith(l, p) == Len(l) >= Len(p) /\ SubSeq(l, Len(l) - Len(p) + 1, Len(l)) = p

\* one trimmed line: what it is, and its label
Kind(l) ==
    IF StartsWith(l, BeginMark)
    THEN LET r == Drop(l, Len(BeginMark))
         IN IF EndsWith(r, Dashes) THEN [k |-> "begin", label |-> Take(r, Len(r) - 5)] ELSE [k |-> "bad", label |-> <<>>]
    ELSE IF StartsWith(l, EndMark)
    THEN LET r == Drop(l, Len(EndMark))
         IN IF EndsWith(r, Dashes) THEN [k |-> "end", label |-> Take(r, Len(r) - 5)] ELSE [k |-> "bad", label |-> <<>>]
    ELSE [k |-> "other", label |-> <<>>]

\* The scanner: one step per line.
ScanStart == [st |-> "before", label |-> <<>>, body |-> <<>>]
ScanLine(s, raw) ==
    LET l == TrimWs(raw)
        m == Kind(l)
    IN  CASE s.st = "bad" -> s
          [] m.k = "bad" -> [s EXCEPT !.st = "bad"]
          [] m.k = "begin" -> IF s.st = "before" THEN [s EXCEPT !.st = "inside", !.label = m.label] ELSE [s EXCEPT !.st = "bad"]
          [] m.k = "end" -> IF s.st = "inside" /\ m.label = s.label THEN [s EXCEPT !.st = "after"] ELSE [s EXCEPT !.st = "bad"]
          [] OTHER -> IF s.st = "inside" THEN [s EXCEPT !.body = s.body \o l] ELSE s
Scan(text) == FoldLeft(ScanLine, ScanStart, Lines(text))

\* the result of parsing: ok with label and data, or an error
PemParse(text) ==
    LET s == Scan(text)
    IN  IF s.st = "after" /\ B64Valid(s.body)
        THEN [ok |-> TRUE, label |-> s.label, data |-> B64Decode(s.body)]
        ELSE [ok |-> FALSE, label |-> <<>>, data |-> <<>>]

\* the text written for a label and data
Wrap(b64) ==
    Flatten([i \in 1..((Len(b64) + 63) \div 64) |->
        SubSeq(b64, 64 * i - 63, IF 64 * i > Len(b64) THEN Len(b64) ELSE 64 * i) \o <<NewLine>>])
PemWrite(label, data) ==
    BeginMark \o label \o Dashes \o <<NewLine>>
      \o (IF data = <<>> THEN <<NewLine>> ELSE Wrap(B64Encode(data)))
      \o EndMark \o label \o Dashes
=============================================================================
