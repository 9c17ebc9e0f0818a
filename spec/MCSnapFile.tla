----------------------------- MODULE MCSnapFile -----------------------------
\* Bounded exploration of SnapFile (see MCSession for the two modes).
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
Rng(q) == {q[i] : i \in DOMAIN q}
\* two snapshots of one state under one key, and one under another key
Snaps == {"f1", "f2", "f3"}
KeyOf == [f1 |-> "K1", f2 |-> "K1", f3 |-> "K2"]
N == 13
Hdr == 2
INSTANCE SnapFile
VARIABLES st, hist
vars == <<st, hist>>
View == st
Ks == {"K1", "K2"}
Cands(k, n) ==
    CASE k = "flip" -> {[k |-> k, i |-> i, b |-> b] : i \in 1..n, b \in 1..2}
      [] k \in {"cut", "behead", "insert", "remove", "twice"} -> {[k |-> k, i |-> i] : i \in 0..n}
      [] k = "swap" -> {[k |-> k, i |-> i, j |-> j] : i \in 1..n, j \in 1..n}
      [] k \in {"splice", "graft"} -> {[k |-> k, i |-> i, f |-> f] : i \in 0..N, f \in Snaps}
      [] k \in {"append", "restore"} -> {[k |-> k, f |-> f] : f \in Snaps}
      [] OTHER -> {[k |-> k]}
Ops(s, k) == {op \in Cands(k, Len(s.c)) : Admitted(s, op)}
Proj(s) == [K1 |-> Opens(s, "K1"), K2 |-> Opens(s, "K2")]
MCInit == st = Init0 /\ hist = <<>>
Do(op, full) ==
    /\ st' = Apply(st, op)
    /\ hist' = Append(hist, [op |-> op, res |-> [ok |-> TRUE], st |-> IF full THEN Proj(Apply(st, op)) ELSE [x |-> 0]])
    /\ IF full THEN Len(hist) + 1 = P.depth => CSVWrite("%1$s", <<ToJson([steps |-> hist'])>>, P.out)
       ELSE CSVWrite("%1$s", <<ToJson([path |-> hist, op |-> op, res |-> [ok |-> TRUE], st |-> Proj(Apply(st, op))])>>, P.out)
NextAll == Len(hist) < P.depth /\ \E k \in Rng(P.kinds) : \E op \in Ops(st, k) : Do(op, FALSE)
SpecAll == MCInit /\ [][NextAll]_vars
Pick(s) == LET k == P.kinds[RandomElement(DOMAIN P.kinds)] o == Ops(s, k) IN
           IF o = {} \/ (Opens(s, "K1") = "none" /\ RandomElement(1..3) = 1) THEN [k |-> "restore", f |-> RandomElement(Snaps)] ELSE RandomElement(o)
\* now and then what was inverted or exchanged is put back
Undo(s) == LET o == hist[Len(hist)].op IN IF hist # <<>> /\ o.k \in {"flip", "swap"} /\ RandomElement(1..4) = 1 THEN o ELSE Pick(s)
NextSim == Len(hist) < P.depth /\ \E op \in {IF hist = <<>> THEN Pick(st) ELSE Undo(st)} : Do(op, TRUE)
SpecSim == MCInit /\ [][NextSim]_vars
Inv == Authentic(st, Ks) /\ Sensitive(st, Ks)
=============================================================================
