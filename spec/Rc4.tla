-------------------------------- MODULE Rc4 --------------------------------
(* RC4 over a state of W values (W = 256 for the cipher itself; smaller W      *)
(* gives the same machine for exhaustive exploration).                        *)
EXTENDS Words

\* permutation after key scheduling; state is <<s, x, y>>
Rc4Schedule(key, W) ==
    LET r == FoldLeft(LAMBDA st, i :
                 LET j == (st[2] + st[1][i] + key[((i - 1) % Len(key)) + 1]) % W
                 IN <<[st[1] EXCEPT ![i] = st[1][j + 1], ![j + 1] = st[1][i]], j>>,
                 <<[i \in 1..W |-> i - 1], 0>>, Iota(W))
    IN  <<r[1], 0, 0>>
\* the next state; its output byte is Rc4Out
Rc4Step(st, W) ==
    LET x == (st[2] + 1) % W
        y == (st[3] + st[1][x + 1]) % W
    IN  <<[st[1] EXCEPT ![x + 1] = st[1][y + 1], ![y + 1] = st[1][x + 1]], x, y>>
Rc4Out(st, W) == LET s == st[1] IN s[((s[st[2] + 1] + s[st[3] + 1]) % W) + 1]
\* n steps: <<state, outputs>>
Rc4Run(st, n, W) ==
    FoldLeft(LAMBDA acc, i : LET nx == Rc4Step(acc[1], W) IN <<nx, Append(acc[2], Rc4Out(nx, W))>>,
             <<st, <<>>>>, Iota(n))
\* n steps without keeping the output
Rc4Skip(st, n, W) == FoldLeft(LAMBDA acc, i : Rc4Step(acc, W), st, Iota(n))
=============================================================================
