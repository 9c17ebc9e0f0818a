----------------------------- MODULE MCSnapSync -----------------------------
\* Bounded exploration of SnapSync (see MCSession for the two modes).
EXTENDS SnapSync, CSV, Randomization
P == JsonDeserialize(IOEnv.VP_PARAMS)
Rng(q) == {q[i] : i \in DOMAIN q}
MCPLen == [x |-> 1]
MCSnaps == Rng(P.snaps)
Paths == Rng(P.paths)
Vaults == Rng(P.vaults)
Recs == Rng(P.recs)
Locs == {<<v, r>> : v \in Vaults, r \in Recs}
SkLocs == Rng(P.sklocs)
Sks == 1..P.sks
VARIABLES st, hist
vars == <<st, hist>>
View == st
MCInit == st = Init0 /\ hist = <<>>
Assert1(op, r) == Assert(P_C11(st, op, r.res, r.s), <<"C11 does not hold in the specification", op, st>>)
Do(op, full) ==
    LET r == Apply(st, op) IN
    /\ Assert1(op, r)
    /\ st' = r.s
    /\ hist' = Append(hist, [op |-> op, res |-> r.res, st |-> IF full THEN Proj(r.s) ELSE [x |-> 0]])
    /\ IF full THEN Len(hist) + 1 = P.depth => CSVWrite("%1$s", <<ToJson([steps |-> hist'])>>, P.out)
       ELSE CSVWrite("%1$s", <<ToJson([path |-> hist, op |-> op, res |-> r.res, st |-> Proj(r.s)])>>, P.out)

\* a few configurations for the exhaustive exploration
VCfgs == {[all |-> a, sv |-> {v}, sr |-> r, mp |-> m, pol |-> pol] :
            a \in {TRUE}, v \in {"v1"}, r \in {EmptyFn, "v1" :> {<<"v1", "r1">>}}, m \in {EmptyFn, "v1" :> "v2"}, pol \in {"keep", "replace"}}
         \cup {[all |-> FALSE, sv |-> {"v1"}, sr |-> EmptyFn, mp |-> EmptyFn, pol |-> "replace"]}
Cfgs == {[all |-> a, sc |-> {"p1"}, mc |-> m, cc |-> c, pol |-> pol] :
            a \in BOOLEAN, m \in {EmptyFn, "p1" :> "p2"}, c \in {EmptyFn} \cup {"p1" :> x : x \in VCfgs}, pol \in {"keep", "replace"}}
Sels(s, x) == {EmptyFn} \cup {p :> (v :> S) : p \in Paths, v \in Vaults, S \in SUBSET Locs}
Cands(s, k) ==
    CASE k = "write" -> {[k |-> k, x |-> x, p |-> p, l |-> l] : x \in Snaps, p \in Paths, l \in Locs}
      [] k = "revoke" -> {[k |-> k, x |-> x, p |-> p, v |-> l[1], id |-> l] : x \in Snaps, p \in Paths, l \in Locs}
      [] k = "gc" -> {[k |-> k, x |-> x, p |-> p, v |-> v] : x \in Snaps, p \in Paths, v \in Vaults}
      [] k = "put" -> {[k |-> k, x |-> x, p |-> p, key |-> "a"] : x \in Snaps, p \in Paths}
      [] k = "purge" -> {[k |-> k, x |-> x, p |-> p] : x \in Snaps, p \in Paths}
      [] k = "setsk" -> {[k |-> k, x |-> x, l |-> l, j |-> j] : x \in Snaps, l \in SkLocs, j \in Sks}
      [] k = "merge" -> {[k |-> k, x |-> x, y |-> y, cfg |-> c] : x \in Snaps, y \in Snaps, c \in Cfgs}
      [] k = "export" -> IF Len(s.msgs) < P.maxmsg THEN {[k |-> k, x |-> x, sel |-> q, j |-> 1] : x \in Snaps, q \in Sels(s, "")} ELSE {}
      [] k = "damage" -> {[k |-> k, m |-> m] : m \in DOMAIN s.msgs}
      [] k = "import" -> {[k |-> k, x |-> x, m |-> m, e |-> m, l |-> l, cfg |-> c] : x \in Snaps, m \in DOMAIN s.msgs, l \in SkLocs, c \in Cfgs}
      [] k = "file" -> {[k |-> k, x |-> x] : x \in Snaps}
NextAll == Len(hist) < P.depth /\ \E k \in Rng(P.kinds) : \E op \in Cands(st, k) : Admitted(st, op) /\ Do(op, FALSE)
SpecAll == MCInit /\ [][NextAll]_vars

Pct(n) == RandomElement(1..100) <= n
Rn(S, x) == RandomElement(S)
RPick(S, D, x) == IF S # {} /\ Pct(80) THEN RandomElement(S) ELSE RandomElement(D)
RVCfg(c, x) ==
    [all |-> Pct(50), sv |-> RandomElement(SUBSET Vaults),
     sr |-> LET S == IF Pct(50) THEN {} ELSE RandomElement(SUBSET Vaults) IN [v \in S |-> {<<v, r>> : r \in RandomElement(SUBSET Recs)}],
     mp |-> LET S == IF Pct(50) THEN {} ELSE RandomElement(SUBSET Vaults) IN [v \in S |-> Rn(Vaults, v)],
     pol |-> Rn({"keep", "replace"}, x)]
RCfg(cs, x) ==
    [all |-> Pct(60), sc |-> RandomElement(SUBSET Paths),
     mc |-> LET S == IF Pct(50) THEN {} ELSE RandomElement(SUBSET Paths) IN [p \in S |-> Rn(Paths, p)],
     cc |-> LET S == IF Pct(30) THEN {} ELSE RandomElement(SUBSET Paths) IN [p \in S |-> RVCfg(cs, p)],
     pol |-> Rn({"keep", "replace"}, x)]
Ids(c, v) == IF HasVault(c, v) THEN DOMAIN c.vaults[v] ELSE {}
\* mostly live records of vaults that are there, and sometimes anything
RSel(cs, x) ==
    LET ps == IF Pct(90) THEN DOMAIN cs ELSE Paths
        ps1 == IF ps = {} THEN Paths ELSE ps
        S == RandomElement(SUBSET ps1)
        vs == [p \in S |-> LET d == DOMAIN Client(cs, p).vaults IN IF d # {} /\ Pct(92) THEN RandomElement(SUBSET d) ELSE RandomElement(SUBSET Vaults)] IN
    [p \in S |-> [v \in vs[p] |-> LET l == LiveIds(Client(cs, p), v) \cup (IF Pct(8) THEN Ids(Client(cs, p), v) ELSE {}) \cup (IF Pct(8) THEN Locs ELSE {}) IN
                                  RandomElement(SUBSET l)]]
RIds(c, v) == LET d == Ids(c, v) IN IF d # {} THEN RandomElement(d) ELSE RandomElement(Locs)
RMsg(s, x) == IF Pct(80) THEN Len(s.msgs) ELSE RandomElement(DOMAIN s.msgs)
File(s) == [k |-> "file", x |-> Rn(Snaps, s)]
Pick(s, k) ==
    LET x == Rn(Snaps, s)  p == RPick(DOMAIN Cs(s, x), Paths, s)  c == Client(Cs(s, x), p)  v == RPick(DOMAIN c.vaults, Vaults, s) IN
    CASE k = "write" -> [k |-> k, x |-> x, p |-> IF Pct(50) THEN p ELSE Rn(Paths, s), l |-> Rn(Locs, s)]
      [] k = "revoke" -> [k |-> k, x |-> x, p |-> p, v |-> v, id |-> RIds(c, v)]
      [] k = "gc" -> [k |-> k, x |-> x, p |-> p, v |-> v]
      [] k = "put" -> [k |-> k, x |-> x, p |-> p, key |-> Rn({"a", "b"}, s)]
      [] k = "purge" -> [k |-> k, x |-> x, p |-> p]
      [] k = "setsk" -> [k |-> k, x |-> x, l |-> Rn(SkLocs, s), j |-> Rn(Sks, s)]
      [] k = "merge" -> [k |-> k, x |-> x, y |-> Rn(IF Pct(90) THEN Snaps \ {x} ELSE Snaps, s), cfg |-> RCfg(Cs(s, x), s)]
      [] k = "export" -> [k |-> k, x |-> x, sel |-> RSel(Cs(s, x), s), j |-> Rn(Sks, s)]
      [] k = "damage" -> IF s.msgs = <<>> THEN File(s) ELSE [k |-> k, m |-> RMsg(s, x)]
      [] k = "import" -> IF s.msgs = <<>> THEN File(s) ELSE
                         LET m == RMsg(s, x)
                             y == LET can == {z \in Snaps : \E l \in DOMAIN s.snaps[z].sks : s.snaps[z].sks[l] = s.msgs[m].key} IN RPick(can, Snaps, s)
                             good == {l \in DOMAIN s.snaps[y].sks : s.snaps[y].sks[l] = s.msgs[m].key} IN
                         [k |-> k, x |-> y, m |-> m, e |-> IF Pct(92) THEN m ELSE Rn(DOMAIN s.msgs, s), l |-> RPick(good, SkLocs, s), cfg |-> RCfg(Cs(s, y), s)]
      [] OTHER -> File(s)
NextSim == /\ Len(hist) < P.depth
           /\ \E op \in {Pick(st, P.kinds[RandomElement(DOMAIN P.kinds)])} :
                 IF Admitted(st, op) /\ (op.k = "export" => Len(st.msgs) < P.maxmsg) THEN Do(op, TRUE)
                 ELSE \E q \in {[k |-> "write", x |-> Rn(Snaps, st), p |-> Rn(Paths, st), l |-> Rn(Locs, st)]} : Do(q, TRUE)
SpecSim == MCInit /\ [][NextSim]_vars
Inv == TRUE
=============================================================================
