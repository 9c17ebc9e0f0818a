------------------------------- MODULE MCKeys -------------------------------
(***************************************************************************)
(* SpecAll: every pair of providers of a universe; the first writes a      *)
(* file, the second reads it, and they are compared.  SpecSim: random      *)
(* operations with providers made of passphrases that resemble each other. *)
(***************************************************************************)
EXTENDS Keys, Json, IOUtils, CSV, SequencesExt
P == JsonDeserialize(IOEnv.VP_PARAMS)
VARIABLES st, hist, last
vars == <<st, hist, last>>
Rng(q) == {q[i] : i \in DOMAIN q}
Slots == 1..P.slots
Files == Rng(P.files)
Schemes == Rng(P.schemes)
Lens == Rng(P.lens)
Salts == Rng(P.salts)
Pass(n, d, v) == IF d \in 1..n /\ v # 1 THEN [n |-> n, d |-> d, v |-> v] ELSE [n |-> n, d |-> 0, v |-> 1]
Universe == UNION {{Pass(n, 0, 1), Pass(n, n, 0), Pass(n, n, 2), Pass(n, 1, 2)} : n \in Lens}
SaltU == UNION {{Pass(n, 0, 1), Pass(n, n, 2)} : n \in Salts}
NoSalt == Pass(0, 0, 1)
Emit == CSVWrite("%1$s", <<ToJson([steps |-> hist'])>>, P.out)
Do(op) == /\ st' = Apply(st, op)
          /\ hist' = Append(hist, [op |-> op @@ [ok |-> Ok(st, op)]])
Init == st = Empty(Slots, Files) /\ hist = <<>> /\ last = <<>>
Provide(i, f, p, s) == [k |-> "provide", i |-> i, f |-> f, p |-> p, s |-> s]
File == CHOOSE f \in Files : TRUE
\* raw and truncated make the same keys; other schemes are only compared with themselves and with these
Script(n) == <<"p", "commit", "p", "load", "same">>[n]
NextAll ==
    LET n == Len(hist) + 1 IN
    /\ n <= 5 /\ last' = last
    /\ CASE n = 1 -> \E f \in Schemes : \E p \in Universe : \E s \in IF f = "argon2" THEN SaltU ELSE {NoSalt} :
                        Has(Key(f, p, s)) /\ Do(Provide(1, f, p, s))
         [] n = 2 -> Do([k |-> "commit", i |-> 1, to |-> File])
         [] n = 3 -> \E f \in Schemes : \E p \in Universe : \E s \in IF f = "argon2" THEN SaltU ELSE {NoSalt} :
                        LET a == hist[1].op IN
                        /\ (f = a.f \/ "truncated" \in {f, a.f})
                        /\ (f = a.f => Assert(Agree(f, p, s, a.p, a.s), <<"Agree", f, p, s, a>>))
                        /\ Do(Provide(2, f, p, s))
         [] n = 4 -> Has(st.slot[2]) /\ Do([k |-> "load", i |-> 2, to |-> File])
         [] n = 5 -> Do([k |-> "same", i |-> 1, j |-> 2]) /\ Emit
SpecAll == Init /\ [][NextAll]_vars

R(S, x) == RandomElement(S)
RPass(x) == LET n == R(Lens, x) IN Pass(n, R(0..n, x), R({0, 2}, x))
\* one that resembles the last one
Near(p, x) ==
    LET k == R(1..9, x) IN
    CASE k = 1 -> p
      [] k = 2 -> Pass(p.n + 1, p.d, p.v)
      [] k = 3 -> Pass(p.n + 1, p.n + 1, 0)
      [] k = 4 -> IF p.n = 0 THEN p ELSE Pass(p.n - 1, p.d, p.v)
      [] k = 5 -> Pass(p.n, R(0..p.n, x), R({0, 2}, x))
      [] k = 6 -> Pass(p.n, p.n, R({0, 2}, x))
      [] k = 7 -> Pass(p.n, p.d, 2 - p.v)
      [] k = 8 -> Pass(p.n + R({1, 8, 32, 64, 128, 1000}, x), p.d, p.v)
      [] k = 9 -> Pass(p.n, 1, 2)
RSlot(x) == R(Slots, x)
Full(s) == {i \in Slots : Has(s.slot[i])}
Made(x) == LET f == IF last # <<>> /\ R(1..3, x) > 1 THEN last[1] ELSE R(Schemes, x) IN
           IF last # <<>> /\ R(1..5, x) > 1 THEN
               LET both == R(1..2, x) IN
               Provide(RSlot(x), f, IF f = "argon2" /\ both = 1 THEN last[2] ELSE Near(last[2], x), IF f = "argon2" THEN (IF both = 1 THEN Near(last[3], x) ELSE last[3]) ELSE NoSalt)
           ELSE Provide(RSlot(x), f, IF f = "raw" THEN Pass(32, R(0..32, x), R({0, 2}, x)) ELSE RPass(x), IF f = "argon2" THEN Pass(R(Salts, x), 0, 1) ELSE NoSalt)
Pick(k) ==
    IF k = "provide" \/ (Full(st) = {} /\ k # "commit0") THEN Made(k)
    ELSE CASE k = "commit0" -> [k |-> k, to |-> R(Files, k)]
           [] k = "same" -> [k |-> k, i |-> R(Full(st), 1), j |-> R(Full(st), 2)]
           [] OTHER -> [k |-> k, i |-> R(Full(st), k), to |-> R(Files, k)]
NextSim == /\ Len(hist) < P.depth
           /\ \E op \in {Pick(P.kinds[RandomElement(DOMAIN P.kinds)])} :
                /\ Do(op)
                /\ last' = IF op.k = "provide" THEN <<op.f, op.p, IF op.s.n = 0 THEN Pass(8, 0, 1) ELSE op.s>> ELSE last
           /\ Len(hist') = P.depth => Emit
SpecSim == Init /\ [][NextSim]_vars
\* a file opens with the slots that hold its key and with no other
Inv == \A f \in Files : Has(st.file[f]) => \A i \in Slots : Ok(st, [k |-> "load", i |-> i, to |-> f]) <=> st.slot[i] = st.file[f]
View == <<st, hist>>
=============================================================================
