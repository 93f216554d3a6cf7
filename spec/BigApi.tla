------------------------------- MODULE BigApi -------------------------------
(* Big unsigned integers. objs holds the numbers (as BigNat values); every       *)
(* mutating call reports the new value, every query what the number implies.     *)
EXTENDS Api, BigNat
VARIABLES objs, reply

Create(x) == objs' = Append(objs, x) /\ reply' = Ok(<<ToBE(x)>>)
Assign(i, x) == objs' = [objs EXCEPT ![i] = x] /\ reply' = Ok(<<ToBE(x)>>)
Query(v) == UNCHANGED objs /\ reply' = Ok(v)
RefuseCall == UNCHANGED objs /\ reply' = Panic
B2I(b) == IF b THEN 1 ELSE 0

\* an amount given as two 16-bit halves; numbers here have far fewer than 2^31 bits
Amount(n) == IF n[1] >= 32768 THEN 2147483647 ELSE n[1] * 65536 + n[2]

NewBE(b) == Create(FromBE(b))
NewLE(b) == Create(FromLE(b))
Copy(i) == Create(objs[i])
AddTo(i, j) == Assign(i, Add(objs[i], objs[j]))
AddByte(i, b) == Assign(i, Add(objs[i], FromInt(b)))
\* only specified for operands in range
SubFrom(i, j) == IF Leq(objs[j], objs[i]) THEN Assign(i, Sub(objs[i], objs[j])) ELSE UNCHANGED objs /\ reply' = Unspecified
Difference(i, j) == IF Leq(objs[j], objs[i]) THEN Create(Sub(objs[i], objs[j])) ELSE UNCHANGED objs /\ reply' = Unspecified
Reduce(i, j) == IF objs[j] # Zero THEN Assign(i, Mod(objs[i], objs[j])) ELSE UNCHANGED objs /\ reply' = Unspecified
Shl(i, n) == Assign(i, ShiftLeft(objs[i], n))
Shr(i, n) == Assign(i, IF n >= BitLen(objs[i]) THEN Zero ELSE ShiftRight(objs[i], n))
Update(i, n, v) == IF n \div 8 < Len(objs[i]) THEN Assign(i, SetBit(objs[i], n, v)) ELSE RefuseCall

AskBytes(i) == Query(<<ToBE(objs[i])>>)
AskBits(i) == Query(<<FromInt(BitLen(objs[i]))>>)
AskBit(i, n) == Query(<<<<IF n >= BitLen(objs[i]) THEN 0 ELSE Bit(objs[i], n)>>>>)
AskU128(i) == UNCHANGED objs /\ reply' = IF Len(objs[i]) > 16 THEN Err ELSE Ok(<<ToFixedBE(objs[i], 16)>>)
\* <<less, equal, greater>> as seen by the ordering and by equality
AskCmp(i, j) == LET c == Cmp(objs[i], objs[j])
                IN Query(<<<<c + 1, B2I(c = 0), B2I(c < 0), B2I(c <= 0), B2I(c > 0), B2I(c >= 0)>>>>)

BigStep(e) ==
    CASE e.op = "be" -> NewBE(e.data)
      [] e.op = "le" -> NewLE(e.data)
      [] e.op = "u128" -> NewBE(e.data)
      [] e.op = "copy" -> Copy(e.obj)
      [] e.op = "add" -> AddTo(e.obj, e.other)
      [] e.op = "addb" -> AddByte(e.obj, e.n[2])
      [] e.op = "sub" -> SubFrom(e.obj, e.other)
      [] e.op = "diff" -> Difference(e.obj, e.other)
      [] e.op = "rem" -> Reduce(e.obj, e.other)
      [] e.op = "shl" -> Shl(e.obj, Amount(e.n))
      [] e.op = "shr" -> Shr(e.obj, Amount(e.n))
      [] e.op = "set" -> Update(e.obj, Amount(e.n), 1)
      [] e.op = "clear" -> Update(e.obj, Amount(e.n), 0)
      [] e.op = "bytes" -> AskBytes(e.obj)
      [] e.op = "bits" -> AskBits(e.obj)
      [] e.op = "bit" -> AskBit(e.obj, Amount(e.n))
      [] e.op = "as_u128" -> AskU128(e.obj)
      [] e.op = "cmp" -> AskCmp(e.obj, e.other)
=============================================================================
