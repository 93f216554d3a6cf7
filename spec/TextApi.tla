------------------------------- MODULE TextApi -------------------------------
(* PEM and ASN.1 decoding: stateless calls.                                    *)
EXTENDS Api, Pem, Der
VARIABLES objs, reply

\* how deep sequences may be nested before refusing them is up to the library, but 64 levels must work
SureDepth == 64

ParsePem(text) ==
    /\ UNCHANGED objs
    /\ reply' = LET r == PemParse(text) IN IF r.ok THEN Ok(<<r.label, r.data>>) ELSE Err
WritePem(label, data) == UNCHANGED objs /\ reply' = Ok(<<PemWrite(label, data)>>)
\* write, then parse what was written
PemTrip(label, data) == UNCHANGED objs /\ reply' = Ok(<<label, data>>)
DecodeDer(b) ==
    /\ UNCHANGED objs
    /\ reply' = LET r == Decode(b)
                IN  IF ~r.ok THEN Err
                    ELSE IF r.wide \/ r.depth > SureDepth THEN OkOrErr(<<r.flat>>) ELSE Ok(<<r.flat>>)
\* decode two texts and compare the values: equal exactly when they are the same value, also after cloning
CompareDer(a, b) ==
    /\ UNCHANGED objs
    /\ reply' = LET x == Decode(a)  y == Decode(b)
                    v == IF x.flat = y.flat THEN <<<<1, 0, 1>>>> ELSE <<<<0, 1, 1>>>>
                IN  IF ~x.ok \/ ~y.ok THEN Err
                    ELSE IF x.wide \/ y.wide \/ x.depth > SureDepth \/ y.depth > SureDepth THEN OkOrErr(v) ELSE Ok(v)
\* decoding the DER encoding of a value yields the value
DerTrip(flat) ==
    /\ UNCHANGED objs
    /\ reply' = LET r == Decode(Encode(flat)) IN IF r.depth > SureDepth THEN OkOrErr(<<flat>>) ELSE Ok(<<flat>>)

\* a long primitive value: n content bytes (n as eight bytes, big-endian), length field lenf. The reply has
\* the tag, the length and whether the contents are the ones given.
Significant(b) == LET k == SelectInSeq(b, LAMBDA x : x # 0) IN IF k = 0 THEN <<>> ELSE Drop(b, k - 1)
DecodeLong(tag, lenf, n) ==
    /\ UNCHANGED objs
    /\ reply' = IF Len(lenf) # lenf[1] - 127 \/ Significant(Tail(lenf)) # Significant(n) \/ tag \notin {2, 4, 6} THEN Err
                ELSE LET v == <<<<tag>>, n, <<1>>>> IN IF Len(lenf) > 17 THEN OkOrErr(v) ELSE Ok(v)

TextStep(e) ==
    CASE e.op = "pem_parse" -> ParsePem(e.text)
      [] e.op = "pem_write" -> WritePem(e.label, e.data)
      [] e.op = "pem_trip" -> PemTrip(e.label, e.data)
      [] e.op = "derlong" -> DecodeLong(e.tag, e.lenf, e.far)
      [] e.op = "der_eq" -> CompareDer(e.data, e.data2)
      [] e.op = "der" -> DecodeDer(e.data)
=============================================================================
