------------------------------- MODULE MCTL2 -------------------------------
EXTENDS TL2
\* all programs of transactions with up to two operations per thread and some longer ones
Ops(V) == {"r", "w"} \X V
Seqs(V, n) == UNION {[1..k -> Ops(V)] : k \in 1..n}
Tx(V, n) == [ro : BOOLEAN, ops : Seqs(V, n)]
Pick2 == [{1, 2} -> Tx({1, 2}, 2)]
Pick23 == [{1, 2} -> {x \in Tx({1, 2}, 3) : x.ro => \E i \in DOMAIN x.ops : x.ops[i][1] = "r"}]
RMW(x) == [ro |-> FALSE, ops |-> << <<"r", x>>, <<"w", x>> >>]
MV(x, y) == [ro |-> FALSE, ops |-> << <<"r", x>>, <<"w", y>> >>]
RO == [ro |-> TRUE, ops |-> << <<"r", 1>>, <<"r", 2>> >>]
WW == [ro |-> FALSE, ops |-> << <<"w", 1>>, <<"w", 2>> >>]
PickSolo == [{1, 2} -> {RMW(1), MV(1, 2), MV(2, 1), RO, WW}]
Pick3 == [{1, 2, 3} -> {RMW(1), MV(1, 2), MV(2, 1), RO, WW}]
=============================================================================
