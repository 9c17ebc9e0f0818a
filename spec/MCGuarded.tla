----------------------------- MODULE MCGuarded -----------------------------
\* Bounded exploration of GuardedMem (see MCSession for the two modes).
EXTENDS GuardedMem, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
Rng(q) == {q[i] : i \in DOMAIN q}
Vals == Rng(P.vals)
Lens == Rng(P.lens)
VARIABLES st, hist
vars == <<st, hist>>
View == st

Cands(s, k) ==
    LET B == LiveB(s)  X == LiveR(s) IN
    CASE k \in {"alloc", "from"} -> {[k |-> k, val |-> v, len |-> n] : v \in Vals, n \in Lens}
      [] k \in {"zero", "random"} -> {[k |-> k, len |-> n] : n \in Lens}
      [] k \in {"clone", "serde", "debug", "borrow", "borrowmut", "drop", "wipe", "flood"} -> {[k |-> k, b |-> b] : b \in B}
      [] k = "eq" -> {[k |-> k, b |-> b, c |-> c] : b \in B, c \in B}
      [] k \in {"refclone", "dropref"} -> {[k |-> k, r |-> r] : r \in X}
      [] k = "write" -> {[k |-> k, r |-> r, val |-> v] : r \in X, v \in Vals}
      [] k = "refeq" -> {[k |-> k, r |-> r, q |-> q] : r \in X, q \in X}
Makes(op) == op.k \in {"alloc", "zero", "random", "from", "clone", "serde"}
Borrows(op) == op.k \in {"borrow", "borrowmut", "refclone"}
Fits(s, op) == /\ Makes(op) => Len(s.bufs) < P.maxbuf
               /\ Borrows(op) => Len(s.brs) < P.maxbr
Ops(s, k) == {op \in Cands(s, k) : Admitted(s, op) /\ Fits(s, op)}
MCInit == st = Init0 /\ hist = <<>>
Do(op, full) ==
    LET r == Apply(st, op) IN
    /\ st' = r.s
    /\ hist' = Append(hist, [op |-> op, res |-> r.res, st |-> IF full THEN Proj(r.s) ELSE [x |-> 0]])
    /\ IF full THEN Len(hist) + 1 = P.depth => CSVWrite("%1$s", <<ToJson([steps |-> hist'])>>, P.out)
       ELSE CSVWrite("%1$s", <<ToJson([path |-> hist, op |-> op, res |-> r.res, st |-> Proj(r.s)])>>, P.out)
NextAll == Len(hist) < P.depth /\ \E k \in Rng(P.kinds) : \E op \in Ops(st, k) : Do(op, FALSE)
SpecAll == MCInit /\ [][NextAll]_vars
Fallback(s) == UNION {Ops(s, k) : k \in Rng(P.kinds)}
Pick(s, k) == IF Ops(s, k) # {} THEN RandomElement(Ops(s, k))
              ELSE IF Fallback(s) # {} THEN RandomElement(Fallback(s)) ELSE [k |-> "none"]
NextSim == /\ Len(hist) < P.depth
           /\ \E op \in {Pick(st, P.kinds[RandomElement(DOMAIN P.kinds)])} :
                IF op.k = "none" THEN FALSE ELSE Do(op, TRUE)
SpecSim == MCInit /\ [][NextSim]_vars
Inv == Guarded(st)
=============================================================================
