------------------------------ MODULE MCNames ------------------------------
(***************************************************************************)
(* SpecAll: for every pair of different paths of a universe, a script that *)
(* uses all locations that can be made of the two.  SpecSim: random        *)
(* operations on the locations of a random table of related paths.         *)
(***************************************************************************)
EXTENDS Names, Json, IOUtils, CSV, SequencesExt
P == JsonDeserialize(IOEnv.VP_PARAMS)
Rng(q) == {q[i] : i \in DOMAIN q}
NC == P.counters
VARIABLES st, hist, ls
vars == <<st, hist, ls>>

\* joins equal neighbours
RECURSIVE Canon(_)
Canon(p) == IF Len(p) < 2 THEN SelectSeq(p, LAMBDA x : x[2] > 0 \/ x[1] \in {"sha", "id", "dbg"})
            ELSE IF Derived(p) THEN p
            ELSE IF p[1][2] = 0 THEN Canon(Tail(p))
            ELSE IF p[1][1] = p[2][1] THEN Canon(<<<<p[1][1], p[1][2] + p[2][2]>>>> \o SubSeq(p, 3, Len(p)))
            ELSE <<p[1]>> \o Canon(Tail(p))
B(b, n) == <<<<b, n>>>>
Alphabet == {"00", "61", "ff"}
Short == {<<>>} \cup {B(a, 1) : a \in Alphabet} \cup {Canon(B(a, 1) \o B(b, 1)) : a, b \in Alphabet}
Short3 == {Canon(B(a, 1) \o B(b, 1) \o B(c, 1)) : a, b, c \in Alphabet}
Lens == Rng(P.lens)
Long == UNION {{B("61", n), Canon(B("61", n - 1) \o B("62", 1)), Canon(B("62", 1) \o B("61", n - 1)), Canon(B("61", n - 1) \o B("00", 1))} : n \in Lens}
\* the paths that something derived from a path would be mistaken for
Special(p) == {<<<<"sha", 0>>>> \o p, <<<<"id", 0>>>> \o p} \cup {<<<<"dbg", n>>>> \o p : n \in 1..NC}
Words == {B("41", 1), B("20", 1), B("30", 1), B("31", 1), B("2f", 1), B("5c", 1), B("2e", 2), Canon(B("61", 1) \o B("2f", 1)), Canon(B("61", 1) \o B("2f", 1) \o B("61", 1)),
          Canon(B("61", 1) \o B("20", 1)), Canon(B("c3", 1) \o B("a4", 1)), B("fe", 1), B("80", 1), B("c3", 1), Canon(B("61", 1) \o B("80", 1)), Canon(B("61", 1) \o B("00", 1) \o B("62", 1)), Canon(B("61", 1) \o B("00", 1) \o B("61", 1)), B("word", 1)}
Universe == Short \cup Long \cup Words \cup (IF P.big THEN Short3 ELSE {})
            \cup UNION {Special(p) : p \in {B("61", 1), <<>>} \cup {B("61", n) : n \in {x \in Lens : x > 120 /\ x < 300}}}
U == SetToSeq(Universe)

Show(full, s) == IF full THEN [e |-> Reads(s, ls', FALSE), n |-> IF Aliased(s) THEN Reads(s, ls', TRUE) ELSE <<>>] ELSE [e |-> <<>>, n |-> <<>>]
Emit == CSVWrite("%1$s", <<ToJson([tab |-> st'.tab, locs |-> ls', steps |-> hist'])>>, P.out)
Do(op, full) ==
    LET s2 == Apply(st, op) IN
    /\ Assert(Separate(st, op, s2, NC), <<"Separate", op>>)
    /\ st' = s2
    /\ ls' = ls
    /\ hist' = Append(hist, [op |-> op, st |-> Show(full, s2)])

\* The script: write everywhere, start again, change single locations, start again.
First(s) == [c |-> 1, v |-> 1, s |-> s, i |-> 1]
Other(s) == [c |-> 2, v |-> 2, s |-> s, i |-> 2]
Script(n) ==
    LET ls0 == ls m == Len(ls0) IN
    IF n <= m THEN <<[k |-> "write", l |-> ls0[n]]>>
    ELSE LET t == <<[k |-> "restart"],
                    [k |-> "revoke", l |-> First("rec")], [k |-> "delete", l |-> Other("ctr")], [k |-> "delete", l |-> First("st")],
                    [k |-> "copy", l |-> [c |-> 1, v |-> 1, s |-> "rec", i |-> 2], d |-> [c |-> 1, v |-> 2, s |-> "rec", i |-> 1]],
                    [k |-> "copy", l |-> [c |-> 2, v |-> 1, s |-> "ctr", i |-> 1], d |-> [c |-> 2, v |-> 2, s |-> "rec", i |-> 2]],
                    [k |-> "delete", l |-> [c |-> 2, v |-> 1, s |-> "rec", i |-> 2]],
                    [k |-> "write", l |-> [c |-> 2, v |-> 2, s |-> "rec", i |-> 1]],
                    [k |-> "write", l |-> First("rec")], [k |-> "restart"]>> IN
         IF n - m <= Len(t) THEN <<t[n - m]>> ELSE <<>>
InitAll == /\ hist = <<>>
           /\ \E i \in DOMAIN U : \E j \in (i + 1)..Len(U) : st = Init0(<<U[i], U[j]>>)
           /\ ls = SetToSeq(Locs(st, NC))
NextAll == LET x == Script(Len(hist) + 1) IN
           /\ x # <<>>
           /\ Do(x[1], Len(hist) + 1 >= Len(ls))
           /\ Script(Len(hist) + 2) = <<>> => Emit
SpecAll == InitAll /\ [][NextAll]_vars

R(S, x) == RandomElement(S)
RPath(x) == U[RandomElement(DOMAIN U)]
Bytes == {"00", "61", "62", "ff", "fe", "80", "41", "31", "20", "2f"}
\* a path that is related to p
Near(p, x) ==
    LET k == R(1..12, x) b == R(Bytes, x) IN
    IF Derived(p) THEN IF k < 6 THEN Tail(p) ELSE RPath(x)
    ELSE CASE k = 1 -> Canon(p \o B(b, 1))
      [] k = 2 -> Canon(B(b, 1) \o p)
      [] k = 3 -> Canon(p \o B("00", R(1..130, x)))
      [] k = 4 -> IF p = <<>> THEN B(b, 1) ELSE SubSeq(p, 1, Len(p) - 1)
      [] k = 5 -> Canon(p \o p)
      [] k = 6 -> Canon(p \o B(b, R({1, 2, 7, 63, 64, 127, 128, 129, 1000, 70000}, x)))
      [] k = 7 -> IF p = <<>> THEN B(b, 3) ELSE Canon([p EXCEPT ![R(DOMAIN p, x)] = <<b, @[2]>>])
      [] k = 8 -> IF p = <<>> THEN <<>> ELSE Canon([p EXCEPT ![R(DOMAIN p, x)] = <<@[1], @[2] + 1>>])
      [] k = 9 -> <<<<"sha", 0>>>> \o p
      [] k = 10 -> <<<<"id", 0>>>> \o p
      [] k = 11 -> <<<<"dbg", R(1..NC, x)>>>> \o p
      [] k = 12 -> Reverse(p)
Norm(p) == IF Derived(p) THEN p ELSE Canon(p)
RECURSIVE Table(_, _)
Table(t, n) == IF n = 0 THEN t ELSE
    LET p == Norm(IF t = <<>> THEN RPath(n) ELSE Near(t[RandomElement(DOMAIN t)], n)) IN
    IF p \in Rng(t) THEN Table(t, n) ELSE Table(Append(t, p), n - 1)
InitSim == st = Init0(<<>>) /\ hist = <<>> /\ ls = <<>>
RLoc(x) == ls[RandomElement(DOMAIN ls)]
Inside(l, c) == [l EXCEPT !.c = c]
Pick(k) ==
    CASE k = "copy" -> LET a == RLoc(1) b == RLoc(2) IN
                       IF a.s = "st" \/ b.s = "st" THEN [k |-> "write", l |-> b] ELSE [k |-> k, l |-> a, d |-> Inside(b, a.c)]
      [] k = "restart" -> [k |-> k]
      [] OTHER -> [k |-> k, l |-> RLoc(k)]
NextSim ==
    IF st.tab = <<>> THEN
        /\ st' = Init0(Table(<<>>, P.paths))
        /\ ls' = LET all == SetToSeq(Locs(st', NC)) IN SetToSeq({all[i] : i \in {RandomElement(DOMAIN all) : j \in 1..P.locs}})
        /\ hist' = hist
    ELSE /\ Len(hist) < P.depth
         /\ \E op \in {Pick(P.kinds[RandomElement(DOMAIN P.kinds)])} : Do(op, TRUE)
         /\ Len(hist') = P.depth => Emit
SpecSim == InitSim /\ [][NextSim]_vars
Inv == st.tab # <<>> => Different(st.tab) /\ OnlyAliases(st)
View == <<st.tab, Len(hist)>>
=============================================================================
