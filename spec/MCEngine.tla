------------------------------ MODULE MCEngine ------------------------------
\* Bounded exploration of Engine (see MCSession for the two modes).
EXTENDS Engine, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
Rng(q) == {q[i] : i \in DOMAIN q}
Keys == Rng(P.keys)
Vids == Rng(P.vids)
Rids == 1..P.rids
Vals == {<<v>> : v \in Rng(P.vals)}
Hints == Rng(P.hints)
VARIABLES st, hist
vars == <<st, hist>>
\* blob identifiers matter only as to whether they are equal: packs and records of one write share one
View == [st EXCEPT !.n = 0]
Src == {[key |-> k, vid |-> v, rid |-> r] : k \in Keys, v \in Vids, r \in Rids}
\* any number of keys is wrong: the right one, and one other
KeyFor(s, vid) == IF vid \in DOMAIN s.vaults THEN s.vaults[vid].key ELSE "none"
Cands(s, k) ==
    CASE k = "init" -> {[k |-> k, vid |-> v, key |-> x] : v \in Vids, x \in Keys}
      [] k = "write" -> {[k |-> k, vid |-> v, key |-> x, rid |-> r, val |-> y, hint |-> h] : v \in Vids, x \in Keys, r \in Rids, y \in Vals, h \in Hints}
      [] k = "revoke" -> {[k |-> k, vid |-> v, key |-> x, rid |-> r] : v \in Vids, x \in Keys, r \in Rids}
      [] k = "gc" -> {[k |-> k, vid |-> v, key |-> x] : v \in Vids, x \in Keys}
      [] k = "export" -> {[k |-> k, vid |-> v, rids |-> R] : v \in Vids, R \in SUBSET Rids}
      [] k = "import" -> {[k |-> k, vid |-> v, p |-> p, old |-> o, new |-> x] : v \in Vids, p \in DOMAIN s.packs, o \in Keys, x \in Keys}
      [] k = "rekey" -> UNION {{[k |-> k, p |-> p, i |-> i, old |-> o, new |-> x, oid |-> a, nid |-> b] :
                                 i \in DOMAIN s.packs[p], o \in Keys, x \in Keys, a \in Rids, b \in Rids} : p \in DOMAIN s.packs}
      [] k = "relabel" -> UNION {{[k |-> k, p |-> p, i |-> i, nid |-> b] : i \in DOMAIN s.packs[p], b \in Rids} : p \in DOMAIN s.packs}
      [] k = "flip" -> UNION {{[k |-> k, p |-> p, i |-> i] : i \in DOMAIN s.packs[p]} : p \in DOMAIN s.packs}
      [] k \in {"clear", "serde", "clone"} -> {[k |-> k]}
Exec(sources) == {[k |-> "exec", src |-> q, vid |-> v, key |-> x, rid |-> r, hint |-> h, fail |-> f] :
                    q \in sources, v \in Vids, x \in Keys, r \in Rids, h \in Hints, f \in BOOLEAN}
Ops(s, k) == IF k = "exec" THEN {op \in Exec({<<>>} \cup {<<x>> : x \in Src}) : Admitted(s, op)}
             ELSE {op \in Cands(s, k) : Admitted(s, op) /\ (k = "export" => Len(s.packs) < P.maxpack)}
MCInit == st = Init0 /\ hist = <<>>
Do(op, full) ==
    LET r == Apply(st, op) IN
    /\ st' = r.s
    /\ hist' = Append(hist, [op |-> op, res |-> r.res, st |-> IF full THEN Proj(r.s) ELSE [x |-> 0]])
    /\ IF full THEN Len(hist) + 1 = P.depth => CSVWrite("%1$s", <<ToJson([steps |-> hist'])>>, P.out)
       ELSE CSVWrite("%1$s", <<ToJson([path |-> hist, op |-> op, res |-> r.res, st |-> Proj(r.s)])>>, P.out)
NextAll == Len(hist) < P.depth /\ \E k \in Rng(P.kinds) : \E op \in Ops(st, k) : Do(op, FALSE)
SpecAll == MCInit /\ [][NextAll]_vars

\* the right key three times out of four
KeyR(s, vid) == IF Has(s, vid) /\ RandomElement(1..4) > 1 THEN s.vaults[vid].key ELSE RandomElement(Keys)
R(S, x) == RandomElement(S)
Live1(s, vid, x) == IF Has(s, vid) /\ LiveRecs(s, vid) # {} /\ RandomElement(1..4) > 1 THEN RandomElement(LiveRecs(s, vid)) ELSE RandomElement(Rids)
PickSrc(s, x) == LET v == R(Vids, x) IN [key |-> KeyR(s, v), vid |-> v, rid |-> Live1(s, v, x)]
Pick(s, k) ==
    LET v == R(Vids, s) IN
    CASE k = "init" -> [k |-> k, vid |-> v, key |-> R(Keys, s)]
      [] k = "write" -> [k |-> k, vid |-> v, key |-> KeyR(s, v), rid |-> R(Rids, s), val |-> R(Vals, s), hint |-> R(Hints, s)]
      [] k = "revoke" -> [k |-> k, vid |-> v, key |-> KeyR(s, v), rid |-> R(Rids, s)]
      [] k = "gc" -> [k |-> k, vid |-> v, key |-> KeyR(s, v)]
      [] k = "exec" -> [k |-> k, src |-> LET n == RandomElement(0..2) IN [i \in 1..n |-> PickSrc(s, i)], vid |-> v, key |-> KeyR(s, v), rid |-> R(Rids, s),
                        hint |-> R(Hints, s), fail |-> RandomElement(1..6) = 1]
      [] k = "export" -> [k |-> k, vid |-> v, rids |-> R(SUBSET Rids, s)]
      [] k = "import" -> IF s.packs = <<>> THEN [k |-> "serde"] ELSE
                         LET p == RandomElement(DOMAIN s.packs) IN
                         [k |-> k, vid |-> v, p |-> p, new |-> KeyR(s, v),
                          old |-> IF s.packs[p] # <<>> /\ RandomElement(1..4) > 1 THEN s.packs[p][1].key ELSE R(Keys, s)]
      [] k \in {"rekey", "relabel", "flip"} -> IF \A p \in DOMAIN s.packs : s.packs[p] = <<>> THEN [k |-> "serde"] ELSE
                        LET p == RandomElement({p \in DOMAIN s.packs : s.packs[p] # <<>>})
                            i == RandomElement(DOMAIN s.packs[p])
                            x == s.packs[p][i] IN
                        IF k # "rekey" THEN [k |-> k, p |-> p, i |-> i, nid |-> R(Rids, s)]
                        ELSE [k |-> k, p |-> p, i |-> i, old |-> IF RandomElement(1..4) > 1 THEN x.key ELSE R(Keys, s), new |-> R(Keys, s),
                         oid |-> IF RandomElement(1..4) > 1 THEN x.rec.id ELSE R(Rids, s), nid |-> R(Rids, s)]
      [] OTHER -> [k |-> k]
NextSim == /\ Len(hist) < P.depth
           /\ \E op \in {Pick(st, P.kinds[RandomElement(DOMAIN P.kinds)])} :
                 IF Admitted(st, op) /\ (op.k = "export" => Len(st.packs) < P.maxpack) THEN Do(op, TRUE) ELSE Do([k |-> "serde"], TRUE)
SpecSim == MCInit /\ [][NextSim]_vars

(***************************************************************************)
(* C24 on the specification: no step without a vault's key changes it.     *)
(***************************************************************************)
Inv == \A v \in DOMAIN st.vaults : st.vaults[v].key \in Keys /\ \A r \in DOMAIN st.vaults[v].recs : st.vaults[v].recs[r].id = r
=============================================================================
