------------------------------ MODULE MCForged ------------------------------
\* SpecAll: every alteration of either layer, alone; SpecSim: several, and what is held changes in between.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
Rng(q) == {q[i] : i \in DOMAIN q}
N == P.places
Doors == Rng(P.doors)
INSTANCE Forged
VARIABLES st, hist, door
vars == <<st, hist, door>>
View == <<st, hist, door>>
Changes == {[layer |-> l, k |-> k, i |-> i] : l \in {"stream", "packed"}, k \in Rng(P.changes), i \in 1..N}
Placeless == {"empty", "junk", "append"}
Singles == {c \in Changes : c.k \in Placeless => c.i = 1}
Emit == CSVWrite("%1$s", <<ToJson([door |-> door, steps |-> hist'])>>, P.out)
Do(op) == /\ st' = Apply(st, op) /\ door' = door
          /\ hist' = Append(hist, [op |-> op, want |-> Demand(st, op)])
Init == st = Init0 /\ hist = <<>> /\ door \in Doors
NextAll ==
    LET n == Len(hist) + 1 IN
    /\ n <= 4
    /\ CASE n = 1 -> IF P.sweep THEN Do([k |-> "sweep"]) /\ Emit ELSE Do([k |-> "capture"])
         [] n = 2 -> ~P.sweep /\ \E c \in Singles : Do([k |-> "alter", c |-> c])
         [] n = 3 -> Do([k |-> "enter"])
         [] n = 4 -> Do([k |-> "enter"]) /\ Emit
SpecAll == Init /\ [][NextAll]_vars
R(S, x) == RandomElement(S)
Pick(k) == IF k # "alter" THEN [k |-> k]
           ELSE IF Len(st.ch) > 3 THEN [k |-> "fresh"]
           \* once it is packed the stream cannot be reached any more
           ELSE IF st.ch # <<>> /\ st.ch[Len(st.ch)].layer = "packed" THEN [k |-> k, c |-> [R(Singles, 1) EXCEPT !.layer = "packed"]]
           ELSE [k |-> k, c |-> R(Singles, 1)]
NextSim == /\ Len(hist) < P.depth
           /\ \E op \in {Pick(P.kinds[RandomElement(DOMAIN P.kinds)])} :
                IF op.k = "capture" /\ st.captured > 0 THEN Do([k |-> "enter"]) ELSE Do(op)
           /\ Len(hist') = P.depth => Emit
SpecSim == Init /\ [][NextSim]_vars
Inv == Verdict(st.ch) = "taken" => st.ch = Good
=============================================================================
