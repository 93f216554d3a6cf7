----------------------------- MODULE MC_Cipher -----------------------------
(* Facts about the three block ciphers of the specification, one case per byte      *)
(* value: the substitution boxes and field products over all bytes, the linear        *)
(* layers on unit vectors, the inverse of every step, and decryption undoing           *)
(* encryption (and the reverse) for keys and blocks derived from the byte. The         *)
(* objects and both calls of every case are replayed into the code.                  *)
EXTENDS BlockApi, Json
CONSTANT Cases
VARIABLES case, go, which

Init == case \in Cases /\ go = 0 /\ which \in 1..10
InitAll == Init /\ objs = <<>> /\ reply = NoReply
Bytes(n, s) == [i \in 1..n |-> (case * (2 * i + s) + i * i + 13 * s + (case * case) \div (i + 1)) % 256]

Made == CASE which = 1 -> [op |-> "aes", key |-> Bytes(16, 5), words |-> case % 2]
         [] which = 2 -> [op |-> "aes", key |-> Bytes(24, 6), words |-> case % 2]
         [] which = 3 -> [op |-> "aes", key |-> Bytes(32, 7), words |-> case % 2]
         [] which = 4 -> [op |-> "rc2", key |-> Bytes(1 + (case % 128), 8), bits |-> 1 + ((4 * case + 3) % 1024)]
         [] which = 5 -> [op |-> "rc5", key |-> Bytes(case, 9), rounds |-> case % 32]
         [] which = 6 -> [op |-> "rc5", key |-> Bytes(255 - case, 9), rounds |-> 12]
         [] which = 7 -> [op |-> "toy", key |-> <<case>>, n |-> 1 + (case % 40)]
         [] which = 8 -> [op |-> "rc2", key |-> Bytes(1 + (case % 128), 4), bits |-> 8]
         [] which = 9 -> [op |-> "rc2", key |-> Bytes(1 + (case % 128), 4), bits |-> 64]
         [] which = 10 -> [op |-> "rc2", key |-> Bytes(1 + (case % 128), 4), bits |-> 8 * (1 + (case % 127))]
Object == CASE Made.op = "aes" -> AesObj(Made.key)
            [] Made.op = "rc2" -> Rc2Obj(Made.key, Made.bits)
            [] Made.op = "rc5" -> Rc5Obj(Made.key, Made.rounds)
            [] OTHER -> ToyObj(Made.key[1], Made.n)
\* the case runs in steps, so that TLC keeps the expanded key and the blocks: a block, its encryption and
\* decryption, and the way back
Next == go < 3 /\ go' = go + 1 /\ UNCHANGED <<case, which>>
     /\ objs' = (IF go = 0 THEN <<Object>> ELSE objs)
     /\ reply' = (CASE go = 0 -> Bytes(objs'[1].n, 10)
                    [] go = 1 -> <<Enc(objs[1], reply), Dec(objs[1], reply)>>
                    [] OTHER  -> <<Dec(objs[1], reply[1]), Enc(objs[1], reply[2])>>)

\* AES: the S-box is a permutation without fixed points, the field products are inverses
Field == go = 1 /\ which = 1 => /\ InvSBox[SBox[case + 1] + 1] = case /\ SBox[InvSBox[case + 1] + 1] = case
               /\ SBox[case + 1] # case /\ SBox[case + 1] # 255 - case
               /\ (case # 0 => GfMul(case, GfInv(case)) = 1)
               /\ GfMul(case, 2) = XTime(case) /\ Mul3[case + 1] = case ^^ XTime(case)
               /\ \A b \in {1, 2, 87, 131, 255} : /\ GfMul(case, b) = GfMul(b, case)
                                                  /\ GfMul(case, b ^^ 19) = GfMul(case, b) ^^ GfMul(case, 19)
Unit(i) == [k \in 1..16 |-> IF k = i THEN case ELSE 0]
Layers == go = 1 /\ which = 1 => /\ \A i \in 1..16 : InvMixColumns(MixColumns(Unit(i))) = Unit(i)
                /\ \A i \in 1..16 : InvShiftRows(ShiftRows(Unit(i))) = Unit(i)
                /\ LET u == Bytes(16, 1)  v == Bytes(16, 2)
                   IN  MixColumns(XorSeq(u, v)) = XorSeq(MixColumns(u), MixColumns(v))
\* RC2: each mixing and mashing step is undone by its inverse
Regs == [i \in 1..4 |-> (case * 257 + i * 4099 + case * case) % 65536]
Rc2Steps == go = 1 /\ objs[1].t = "rc2" =>
                  LET k == objs[1].k
                  IN  /\ \A i \in 0..3 : Rc2MixInv(k, Rc2Mix(k, Regs, i, case % 64), i, case % 64) = Regs
                      /\ \A i \in 0..3 : Rc2MashInv(k, Rc2Mash(k, Regs, i), i) = Regs
                      /\ MixRoundInv(k, MixRound(k, Regs, case % 16), case % 16) = Regs
                      /\ MashRoundInv(k, MashRound(k, Regs)) = Regs
                      /\ Len(k) = 64 /\ \A i \in 1..64 : k[i] \in 0..65535
\* with an effective length of n bytes the expanded key is a function of its last n bytes: every other byte
\* follows from the ones after it, so no key material beyond the effective length is left
KeyByte(k, i) == IF i % 2 = 1 THEN k[(i + 1) \div 2] % 256 ELSE k[i \div 2] \div 256
Derived(k, n) == \A i \in 1..(128 - n) : KeyByte(k, i) = Rc2Pi[(KeyByte(k, i + 1) ^^ KeyByte(k, i + n)) + 1]
Rc2Effective == go = 1 /\ which \in 8..10 => Derived(objs[1].k, CASE which = 8 -> 1 [] which = 9 -> 8 [] OTHER -> 1 + (case % 127))
Call(dir) == [op |-> "block", obj |-> 1, dir |-> dir, data |-> Bytes(objs[1].n, 10)]
Emit == go = 2 /\ Made.op # "toy" => PrintT("@" \o ToJson(<<[e |-> Made, r |-> Ok(<<>>)], [e |-> Call("enc"), r |-> Ok(<<reply[1]>>)],
                                                                [e |-> Call("dec"), r |-> Ok(<<reply[2]>>)]>>))
Undo == go = 3 => LET x == Bytes(objs[1].n, 10) IN reply = <<x, x>>
=============================================================================
