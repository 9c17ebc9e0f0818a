------------------------------ MODULE MCLocked ------------------------------
\* Bounded exploration of LockedMem (see MCSession for the two modes).
EXTENDS LockedMem, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
Rng(q) == {q[i] : i \in DOMAIN q}
Vals == Rng(P.vals)
Lens == Rng(P.lens)
MKinds == Rng(P.mkinds)
VARIABLES st, hist
vars == <<st, hist>>
View == [st EXCEPT !.mems = [m \in DOMAIN @ |-> [@[m] EXCEPT !.ep = IF @ > 1 THEN 2 ELSE @]]]
LensOf(kind) == IF kind \in NcKinds THEN {32, 31, 33, 0} \cap (Lens \cup {32})
                ELSE IF kind \in FragKinds THEN {32} ELSE Lens
Cands(s, k) ==
    CASE k \in {"alloc", "deser"} -> UNION {{[k |-> k, kind |-> x, val |-> v, len |-> n] : v \in Vals, n \in LensOf(x)} : x \in MKinds}
      [] k = "update" -> UNION {{[k |-> k, m |-> m, val |-> v, len |-> n] : v \in Vals, n \in LensOf(s.mems[m].kind)} : m \in There(s)}
      [] k = "far" -> {[k |-> k, kind |-> x] : x \in MKinds \cap FragKinds}
      [] OTHER -> {[k |-> k, m |-> m] : m \in There(s)}
Makes(op) == op.k \in {"alloc", "deser", "update", "clone", "serde"}
Ops(s, k) == {op \in Cands(s, k) : Admitted(s, op) /\ (Makes(op) => Len(s.mems) < P.maxmem)}
MCInit == st = Init0 /\ hist = <<>>
Do(op, full) ==
    LET r == Apply(st, op) IN
    /\ st' = r.s
    /\ hist' = Append(hist, [op |-> op, res |-> r.res, st |-> IF full THEN Proj(r.s) ELSE [x |-> 0]])
    /\ IF full THEN Len(hist) + 1 = P.depth => CSVWrite("%1$s", <<ToJson([steps |-> hist'])>>, P.out)
       ELSE CSVWrite("%1$s", <<ToJson([path |-> hist, op |-> op, res |-> r.res, st |-> Proj(r.s)])>>, P.out)
NextAll == Len(hist) < P.depth /\ \E k \in Rng(P.kinds) : \E op \in Ops(st, k) : Do(op, FALSE)
SpecAll == MCInit /\ [][NextAll]_vars
Fallback(s) == UNION {Ops(s, k) : k \in Rng(P.kinds)}
Pick(s, k) == IF Ops(s, k) # {} THEN RandomElement(Ops(s, k))
              ELSE IF Fallback(s) # {} THEN RandomElement(Fallback(s)) ELSE [k |-> "none"]
NextSim == /\ Len(hist) < P.depth
           /\ \E op \in {Pick(st, P.kinds[RandomElement(DOMAIN P.kinds)])} :
                IF op.k = "none" THEN FALSE ELSE Do(op, TRUE)
SpecSim == MCInit /\ [][NextSim]_vars
Inv == NFiles(st) >= 0
=============================================================================
