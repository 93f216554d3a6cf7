------------------------------- MODULE MC_Pem -------------------------------
(* Every document of up to MaxLines lines from a menu of line shapes: the line   *)
(* scanner against a declarative definition of a well-formed document. Every      *)
(* document is replayed into the code.                                         *)
EXTENDS TextApi, TLC, Json
CONSTANTS MaxLines, Menu
VARIABLES lines, scan, pc

vars == <<objs, reply, lines, scan, pc>>
A == <<65>>
B == <<66, 32, 66>>
Begin(l) == BeginMark \o l \o Dashes
End(l) == EndMark \o l \o Dashes
Shape(m) ==
    CASE m = "beginA" -> Begin(A)
      [] m = "beginB" -> Begin(B)
      [] m = "endA" -> End(A)
      [] m = "endB" -> End(B)
      [] m = "beginAws" -> <<32, 9>> \o Begin(A) \o <<32, 13>>
      [] m = "endAws" -> <<32>> \o End(A) \o <<13>>
      [] m = "beginCut" -> BeginMark \o A \o SubSeq(Dashes, 1, 4)
      [] m = "endCut" -> EndMark \o A
      [] m = "beginTail" -> Begin(A) \o <<120>>
      [] m = "group" -> <<81, 85, 74, 68>>                 \* QUJD
      [] m = "groupWs" -> <<32, 81, 85, 74, 68, 13>>
      [] m = "half" -> <<81, 85>>                          \* QU
      [] m = "last" -> <<81, 81, 61, 61>>                  \* QQ==
      [] m = "loose" -> <<81, 82, 61, 61>>                 \* QR==, not canonical
      [] m = "inner" -> <<81, 32, 85>>                     \* white space inside a line
      [] m = "empty" -> <<>>
      [] m = "blank" -> <<32, 9, 13>>
      [] m = "text" -> <<110, 111, 116, 101, 33>>          \* note!
      [] m = "dashes" -> Dashes
Join(ls) == FoldLeft(LAMBDA acc, l : acc \o Shape(l) \o <<NewLine>>, <<>>, ls)
Text == Join(lines)

Init == lines = <<>> /\ scan = ScanStart /\ pc = "read" /\ objs = <<>> /\ reply = NoReply
Read == /\ pc = "read" /\ Len(lines) < MaxLines
        /\ \E m \in Menu : lines' = Append(lines, m) /\ scan' = ScanLine(scan, Shape(m))
        /\ UNCHANGED <<objs, reply, pc>>
Stop == /\ pc = "read" /\ pc' = "done"
        /\ ParsePem(Text)
        /\ UNCHANGED <<lines, scan>>
Next == Read \/ Stop

\* the declarative definition
Kinds == [i \in 1..Len(lines) |-> Kind(TrimWs(Shape(lines[i])))]
Begins == {i \in 1..Len(lines) : Kinds[i].k = "begin"}
Ends == {i \in 1..Len(lines) : Kinds[i].k = "end"}
Structure(i, j) == /\ Begins = {i} /\ Ends = {j} /\ i < j /\ Kinds[i].label = Kinds[j].label
                   /\ \A k \in 1..Len(lines) : Kinds[k].k # "bad"
Body(i, j) == Flatten([k \in 1..(j - i - 1) |-> TrimWs(Shape(lines[i + k]))])
WellFormed == \E i, j \in 1..Len(lines) : Structure(i, j) /\ B64Valid(Body(i, j))
ScannerRight ==
    pc = "done" => /\ (reply.k = "ok") <=> WellFormed
                   /\ (reply.k = "ok" => LET i == CHOOSE i \in Begins : TRUE
                                             j == CHOOSE j \in Ends : TRUE
                                         IN  reply.v = <<Kinds[i].label, B64Decode(Body(i, j))>>)
\* scanning line by line is scanning the text
Incremental == pc = "done" => Scan(Text) = scan
\* once bad, always bad; a finished document stays finished only if nothing but other lines follow
Doomed == [][scan.st = "bad" => scan'.st = "bad"]_vars
\* text outside and blank lines anywhere do not matter
Noise(m) == m \in {"empty", "blank"}
NoiseFree == pc = "done" => LET q == SelectSeq(lines, LAMBDA m : ~Noise(m)) IN PemParse(Join(q)) = PemParse(Text)
LineEnds == pc = "done" => LET crlf == FoldLeft(LAMBDA acc, l : acc \o Shape(l) \o <<13, NewLine>>, <<>>, lines)
                           IN  PemParse(crlf) = PemParse(Text)
Emit == pc = "done" => PrintT("@" \o ToJson(<<[e |-> [op |-> "pem_parse", text |-> Text], r |-> reply]>>))
=============================================================================
