------------------------------ MODULE MCAtRest ------------------------------
\* Bounded exploration of AtRest (see MCSession for the two modes).
EXTENDS AtRest, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
Rng(q) == {q[i] : i \in DOMAIN q}
Keys == Rng(P.keys)
VARIABLES st, hist
vars == <<st, hist>>
View == [st EXCEPT !.n = 0]
Cands(k) ==
    CASE k = "put" -> {[k |-> k, p |-> p, v |-> v, r |-> r, what |-> w, shape |-> x] :
                         p \in Rng(P.paths), v \in Rng(P.vaults), r \in Rng(P.recs), w \in Rng(P.whats), x \in Rng(P.shapes)}
      [] k = "setkey" -> {[k |-> k, key |-> x] : x \in Keys}
      [] k = "commit" -> {[k |-> k, f |-> f, key |-> x] : f \in Rng(P.files), x \in Keys}
      [] k \in {"stored", "load"} -> {[k |-> k, f |-> f] : f \in Rng(P.files)}
      [] k = "export" -> {[k |-> k, f |-> f, to |-> x] : f \in Rng(P.files), x \in Rng(P.peers)}
\* what every observer can read of every output, as numbers of atoms: nobody, and who has its key
Proj(s) == [outs |-> [i \in DOMAIN s.outs |-> [kind |-> s.outs[i].kind, key |-> s.outs[i].key, readable |-> Cardinality(Readable(s, {})),
                                               opened |-> s.outs[i].atoms]],
            related |-> {<<i, j>> \in (DOMAIN s.outs) \X (DOMAIN s.outs) : i < j /\ Related(s, i, j)}]
MCInit == st = Init0 /\ hist = <<>>
Do(op, full) ==
    LET s == Apply(st, op) IN
    /\ st' = s
    /\ hist' = Append(hist, [op |-> op, res |-> [ok |-> TRUE], st |-> IF full THEN Proj(s) ELSE [x |-> 0]])
    /\ Len(hist) + 1 = P.depth => CSVWrite("%1$s", <<ToJson([steps |-> hist'])>>, P.out)
NextAll == Len(hist) < P.depth /\ \E k \in Rng(P.kinds) : \E op \in Cands(k) : Admitted(st, op) /\ Do(op, TRUE)
SpecAll == MCInit /\ [][NextAll]_vars
Pick(s, k) == LET c == {op \in Cands(k) : Admitted(s, op)} IN IF c = {} THEN RandomElement(Cands("commit")) ELSE RandomElement(c)
\* the same output twice in a row, more often than chance has it
Again(s) == IF hist = <<>> \/ hist[Len(hist)].op.k \notin {"commit", "stored", "export"} \/ RandomElement(1..3) = 1
            THEN Pick(s, P.kinds[RandomElement(DOMAIN P.kinds)]) ELSE hist[Len(hist)].op
NextSim == Len(hist) < P.depth /\ \E op \in {Again(st)} : Do(op, TRUE)
SpecSim == MCInit /\ [][NextSim]_vars
Inv == Opaque(st) /\ Fresh(st) /\ Closed(st, Keys \cup Rng(P.peers))
=============================================================================
