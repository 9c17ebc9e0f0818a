----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Behaviours of module Session, bounded and driven by a parameter file    *)
(* (the environment variable VP_PARAMS names it).  Two ways to explore:    *)
(*   SpecAll  every operation with every argument from the given sets, for *)
(*            breadth-first search; each transition is written out once    *)
(*            together with a shortest path to it                          *)
(*   SpecSim  one randomly drawn operation per step, for -simulate; each   *)
(*            behaviour is written out when it has reached its depth       *)
(* In both the properties of module Session are checked at every step.     *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, CSV, Randomization

P == JsonDeserialize(IOEnv.VP_PARAMS)
Rng(q) == {q[i] : i \in DOMAIN q}

MCFiles == Rng(P.files)
MCBad == Rng(P.badfiles)
MCPLen == P.plen
Paths == Rng(P.paths)
Vaults == Rng(P.vaults)
Recs == Rng(P.recs)
GRecs == Rng(P.grecs)          \* records addressed by a path (the others by a counter)
Pays == DOMAIN P.plen
Keys == Rng(P.keys)
SKeys == Rng(P.skeys)
SVals == Rng(P.svals)
Lives == Rng(P.lives)
Procs == Rng(P.procs)
Locs == Vaults \X Recs
GLocs == Vaults \X GRecs

VARIABLES st, last, hist
vars == <<st, last, hist>>
View == st

(***************************************************************************)
(* Procedure steps.                                                        *)
(***************************************************************************)
S(p, s, d, a) == [p |-> p, s |-> s, d |-> d, a |-> a]
Args(p) == CASE p = "write" -> Pays
             [] p = "gen" -> {"ed", "x", "seed64", "seed16", "bip39"}
             [] p = "bip39" -> {"m1", "m2"}
             [] p = "pbkdf" -> {"h256", "h384", "h512"}
             [] p = "hkdf" -> {"h256", "h384", "h512"}
             [] p = "ckdf" -> {"k16", "k32", "k100"}
             [] p = "dh" -> {"pk1", "pk2"}
             [] p \in {"s10seed", "s10key"} -> {"c0", "c1", "c2", "soft"}
             [] p = "sign" -> {"m1", "m2"}
             [] p = "hmac" -> {"h256", "h384", "h512"}
             [] p = "cmp" -> Pays
             [] p = "aeadenc" -> {"gcm", "xcc"} \X {"ok", "badnonce"}
             [] p = "revoke" -> {"", "gc"}
             [] OTHER -> {""}
NSrc(p) == IF p \in {"concat", "wrap"} THEN 2 ELSE IF p \in Generators \cup {"revoke", "gc"} THEN 0 ELSE 1
AeadSpoil == {"intact", "tag", "ct", "ad", "nonce", "shorttag"}
WrapSpoil == {"intact", "flip", "short", "trunc"}

\* every step over the given locations, keys and wrapped secrets (payloads) only
AllSteps ==
    IF P.sim THEN {} ELSE UNION {
      CASE p \in Generators -> {S(p, <<>>, d, a) : d \in Locs, a \in Args(p)}
        [] p \in {"copy", "hkdf", "ckdf", "dh", "s10seed", "s10key"} ->
              {S(p, <<s>>, d, a) : s \in Locs, d \in Locs, a \in Args(p)}
        [] p = "concat" -> {S(p, <<s, s2>>, d, "") : s \in Locs, s2 \in Locs, d \in Locs}
        [] p = "unwrap" -> {S(p, <<s>>, d, <<<<"pay", k>>, <<"pay", w>>, "intact">>) :
                              s \in Locs, d \in Locs, k \in Pays, w \in Pays}
        [] p \in {"pub_ed", "pub_x", "sign", "hmac", "cmp", "aeadenc"} ->
              {S(p, <<s>>, <<>>, a) : s \in Locs, a \in Args(p)}
        [] p = "aeaddec" -> {S(p, <<s>>, <<>>, <<c, <<"pay", k>>, "intact">>) : s \in Locs, c \in {"gcm", "xcc"}, k \in Pays}
        [] p = "wrap" -> {S(p, <<s, s2>>, <<>>, "") : s \in Locs, s2 \in Locs}
        [] p = "revoke" -> {S(p, <<>>, d, a) : d \in Locs, a \in Args(p)}
        [] p = "gc" -> {S(p, <<>>, <<>>, v) : v \in Vaults}
      : p \in Procs}

(***************************************************************************)
(* Exhaustive exploration.                                                 *)
(***************************************************************************)
Kinds == Rng(P.kinds)
K(k) == k \in Kinds
Emit(h, op, res, t) ==
    CSVWrite("%1$s", <<ToJson([path |-> h, op |-> op, res |-> res, st |-> Proj(t)])>>, P.out)

Do(op) ==
    \E r \in {Apply(st, op)} :
        /\ st' = r.s
        /\ last' = [op |-> op, res |-> r.res]
        /\ hist' = Append(hist, [op |-> op, res |-> r.res, st |-> [now |-> r.s.now]])
        /\ Assert(Properties(st, op, r.res, r.s), <<"property violated", hist, op>>)
        /\ Emit(hist, op, r.res, r.s)

\* A client absent from the file ends the behaviour: see KNOWN FINDING C08.
Terminal(s, op) == op.k = "loadf" /\ LoadError(s, op.f, op.key) = ""
                   /\ op.p \notin DOMAIN s.loaded /\ op.p \notin DOMAIN s.files[op.f].data

Objs == DOMAIN st.objs
Room == Len(st.objs) < P.maxobj
Cfgs == IF P.synccfg = "none" THEN {}
        ELSE {[all |-> sv = Vaults, sv |-> sv, sr |-> sr, mp |-> mp, pol |-> pol] :
            sv \in SUBSET Vaults,
            sr \in {EmptyFn} \cup UNION {{v :> x : x \in SUBSET ({v} \X GRecs)} : v \in Vaults},
            mp \in {EmptyFn} \cup {v :> w : v \in Vaults, w \in Vaults},
            pol \in {"keep", "replace"}}

AExec == K("exec") /\ \E o \in Objs, x \in AllSteps : Do([k |-> "exec", o |-> o, st |-> x])
AChain == K("chain") /\ \E o \in Objs, x \in AllSteps, y \in AllSteps : Do([k |-> "chain", o |-> o, sts |-> <<x, y>>])
AWrite == K("vwrite") /\ \E o \in Objs, l \in Locs, a \in Pays : Do([k |-> "vwrite", o |-> o, l |-> l, a |-> a])
ARevoke == K("vrevoke") /\ \E o \in Objs, l \in GLocs : Do([k |-> "vrevoke", o |-> o, l |-> l])
ADelete == K("vdelete") /\ \E o \in Objs, l \in GLocs : Do([k |-> "vdelete", o |-> o, l |-> l])
ACleanup == K("vcleanup") /\ \E o \in Objs, v \in Vaults : Do([k |-> "vcleanup", o |-> o, v |-> v])
ASync == K("sync") /\ \E o \in Objs, q \in Objs, c \in Cfgs :
            ConflictFree(Obj(st, q), c) /\ Do([k |-> "sync", o |-> o, q |-> q, cfg |-> c])
SObjs == Objs \cup {0}
ASPut == K("sput") /\ \E o \in SObjs, key \in SKeys, v \in SVals, l \in Lives :
            Do([k |-> "sput", o |-> o, key |-> key, val |-> v, life |-> l])
ASDel == K("sdel") /\ \E o \in SObjs, key \in SKeys : Do([k |-> "sdel", o |-> o, key |-> key])
ATick == K("tick") /\ st.now < P.maxnow /\ Do([k |-> "tick", d |-> 1])
ACreate == K("create") /\ Room /\ \E p \in Paths : Do([k |-> "create", p |-> p])
AGet == K("get") /\ \E p \in Paths : Do([k |-> "get", p |-> p])
AUnload == K("unload") /\ \E o \in Objs : Do([k |-> "unload", o |-> o])
APurge == K("purge") /\ \E o \in Objs : Do([k |-> "purge", o |-> o])
ALoadc == K("loadc") /\ Room /\ \E p \in Paths : Do([k |-> "loadc", p |-> p])
ACapture == K("capture") /\ \E p \in Paths : Do([k |-> "capture", p |-> p])
AClear == K("clear") /\ Do([k |-> "clear"])
AReset == K("reset") /\ Do([k |-> "reset"])
ARestart == K("restart") /\ Do([k |-> "restart"])
ASetKey == K("setkey") /\ \E key \in Keys : Do([k |-> "setkey", key |-> key, loc |-> 1])
ACommitK == K("commitk") /\ \E f \in MCFiles \cup MCBad, key \in Keys : Do([k |-> "commitk", f |-> f, key |-> key])
ACommit == K("commit") /\ \E f \in MCFiles \cup MCBad : Do([k |-> "commit", f |-> f])
ALoad == K("load") /\ \E f \in MCFiles \cup MCBad, key \in Keys : Do([k |-> "load", f |-> f, key |-> key])
ALoadf == K("loadf") /\ Room /\ \E f \in MCFiles \cup MCBad, key \in Keys, p \in Paths :
            Do([k |-> "loadf", f |-> f, key |-> key, p |-> p])
ADamage == K("damage") /\ \E f \in MCFiles : st.files[f].kind = "snap" /\ Do([k |-> "damage", f |-> f])
ARmfile == K("rmfile") /\ \E f \in MCFiles : st.files[f].kind # "none" /\ Do([k |-> "rmfile", f |-> f])
AMkdir == K("mkdir") /\ \E f \in MCFiles : st.files[f].kind = "none" /\ Do([k |-> "mkdir", f |-> f])
ACopyFile == K("copyfile") /\ \E f, g \in MCFiles :
                f # g /\ st.files[f].kind # "dir" /\ st.files[g].kind \in {"snap", "junk"}
                /\ Do([k |-> "copyfile", f |-> f, g |-> g])

Start == Init0
MCInit == st = Start /\ last = [op |-> [k |-> "init"], res |-> Ok] /\ hist = <<>>
NextAll ==
    /\ Len(hist) < P.depth
    /\ ~Terminal(st, last.op)
    /\ \/ AExec \/ AChain \/ AWrite \/ ARevoke \/ ADelete \/ ACleanup \/ ASync
       \/ ASPut \/ ASDel \/ ATick
       \/ ACreate \/ AGet \/ AUnload \/ APurge \/ ALoadc \/ ACapture \/ AClear \/ AReset \/ ARestart
       \/ ASetKey \/ ACommitK \/ ACommit \/ ALoad \/ ALoadf
       \/ ADamage \/ ARmfile \/ AMkdir \/ ACopyFile
SpecAll == MCInit /\ [][NextAll]_vars

(***************************************************************************)
(* Random exploration.                                                     *)
(***************************************************************************)
R1(S0) == RandomElement(S0)
Pct(n) == RandomElement(1..100) <= n
KindSeq == P.kinds             \* kinds repeated according to their weight

LiveLocs(c) == {l \in Locs : Live(c, l)}
RLoc(c, live) == LET L == LiveLocs(c) IN IF L # {} /\ Pct(live) THEN R1(L) ELSE R1(Locs)
Fit(c, lens) == {l \in LiveLocs(c) : Len_(Secret(c, l)) \in lens}
RFit(c, lens) == LET L == Fit(c, lens) IN IF L # {} /\ Pct(80) THEN R1(L) ELSE RLoc(c, 85)
SomeTerm(c, l) == IF Live(c, l) /\ Pct(70) THEN Secret(c, l) ELSE <<"pay", R1(Pays)>>
RStep(c, p) ==
    CASE p \in Generators -> S(p, <<>>, RLoc(c, 30), R1(Args(p)))
      [] p \in {"copy", "hkdf", "ckdf", "s10seed"} -> S(p, <<RLoc(c, 90)>>, RLoc(c, 30), R1(Args(p)))
      [] p = "dh" -> S(p, <<RFit(c, {32})>>, RLoc(c, 30), R1(Args(p)))
      [] p = "s10key" -> S(p, <<RFit(c, {64})>>, RLoc(c, 30), R1(Args(p)))
      [] p = "concat" -> S(p, <<RLoc(c, 90), RLoc(c, 90)>>, RLoc(c, 30), "")
      [] p \in {"pub_ed", "sign"} -> S(p, <<RFit(c, 32..200)>>, <<>>, R1(Args(p)))
      [] p \in {"pub_x", "aeadenc"} -> S(p, <<RFit(c, {32})>>, <<>>, R1(Args(p)))
      [] p \in {"hmac", "cmp"} -> S(p, <<RLoc(c, 90)>>, <<>>, R1(Args(p)))
      [] p = "aeaddec" -> CHOOSE x \in {S(p, <<l>>, <<>>, <<R1({"gcm", "xcc"}), SomeTerm(c, l), IF Pct(50) THEN "intact" ELSE R1(AeadSpoil)>>) : l \in {RFit(c, {32})}} : TRUE
      [] p = "wrap" -> S(p, <<RFit(c, {32}), RFit(c, {16, 32, 64})>>, <<>>, "")
      [] p = "unwrap" -> CHOOSE x \in {S(p, <<l>>, RLoc(c, 30), <<SomeTerm(c, l), <<"pay", R1({q \in Pays : P.plen[q] % 8 = 0})>>, IF Pct(60) THEN "intact" ELSE R1(WrapSpoil)>>) : l \in {RFit(c, {32})}} : TRUE
      [] p = "revoke" -> S(p, <<>>, RLoc(c, 80), R1(Args(p)))
      [] p = "gc" -> S(p, <<>>, <<>>, R1(Vaults))
\* (definitions without parameters that depend on constants only are evaluated once by TLC)
RProc(x) == P.procs[RandomElement(DOMAIN P.procs)]

RIds(c, v) == LET all == ({v} \X Recs) \cup (IF HasVault(c, v) THEN DOMAIN c.vaults[v] ELSE {}) IN RandomSubset(R1(0..Cardinality(all)), all)
RGIds(v) == RandomSubset(R1(0..Cardinality(GRecs)), {v} \X GRecs)
RSync(o, q, c) ==
    IF o = q \* sync_vaults
    THEN CHOOSE x \in {[k |-> "sync", o |-> o, q |-> o,
            cfg |-> [all |-> FALSE, sv |-> {v}, sr |-> IF Pct(50) THEN v :> RIds(c, v) ELSE EmptyFn,
                     mp |-> v :> R1(Vaults), pol |-> R1({"keep", "replace"})]] : v \in {R1(Vaults)}} : TRUE
    ELSE [k |-> "sync", o |-> o, q |-> q,
          cfg |-> [all |-> Pct(40), sv |-> RandomSubset(R1(1..Cardinality(Vaults)), Vaults),
                   sr |-> IF Pct(50) THEN EmptyFn ELSE [v \in RandomSubset(R1(1..Cardinality(Vaults)), Vaults) |-> RGIds(v)],
                   mp |-> IF Pct(40) THEN EmptyFn ELSE [v \in RandomSubset(R1(1..Cardinality(Vaults)), Vaults) |-> R1(Vaults)],
                   pol |-> R1({"keep", "replace"})]]

LiveObjs == {st.loaded[p] : p \in DOMAIN st.loaded}
RObj == IF LiveObjs # {} /\ Pct(90) THEN R1(LiveObjs) ELSE R1(Objs)
RSObj == IF Pct(P.sessionstore) THEN 0 ELSE RObj
SnapFiles == {f \in MCFiles : st.files[f].kind = "snap"}
UsedFiles == {f \in MCFiles : st.files[f].kind # "none"}
RFile == IF SnapFiles # {} /\ Pct(75) THEN R1(SnapFiles) ELSE R1(MCFiles \cup MCBad)
RKeyFor(f) == IF f \in SnapFiles /\ Pct(80) THEN st.files[f].key ELSE R1(Keys)
RCFile == IF Pct(90) THEN R1(MCFiles) ELSE R1(MCFiles \cup MCBad)
FPaths(f, k) == IF LoadError(st, f, k) = "" THEN DOMAIN st.files[f].data ELSE {}

RLoadf(f, k) == [k |-> "loadf", f |-> f, key |-> k,
                 p |-> IF FPaths(f, k) # {} /\ (Pct(95) \/ Len(hist) + 1 < P.depth) THEN R1(FPaths(f, k)) ELSE R1(Paths)]

Create(x) == [k |-> "create", p |-> R1(Paths)]
RandOp(kind) ==
    CASE kind \in {"exec", "chain", "vwrite", "vrevoke", "vdelete", "vcleanup", "sync", "unload", "purge"} /\ st.objs = <<>> -> Create(st)
      [] kind = "exec" -> CHOOSE x \in {[k |-> "exec", o |-> o, st |-> RStep(Obj(st, o), RProc(o))] : o \in {RObj}} : TRUE
      [] kind = "chain" -> CHOOSE x \in {[k |-> "chain", o |-> o,
                               sts |-> [i \in 1..n |-> RStep(Obj(st, o), RProc(o))]] : o \in {RObj}, n \in {R1(0..5)}} : TRUE
      [] kind = "vwrite" -> CHOOSE x \in {[k |-> "vwrite", o |-> o, l |-> RLoc(Obj(st, o), 30), a |-> R1(Pays)] : o \in {RObj}} : TRUE
      [] kind = "vrevoke" -> CHOOSE x \in {[k |-> "vrevoke", o |-> o, l |-> R1(GLocs)] : o \in {RObj}} : TRUE
      [] kind = "vdelete" -> CHOOSE x \in {[k |-> "vdelete", o |-> o, l |-> R1(GLocs)] : o \in {RObj}} : TRUE
      [] kind = "vcleanup" -> [k |-> "vcleanup", o |-> RObj, v |-> R1(Vaults)]
      [] kind = "sync" -> CHOOSE x \in {RSync(o, q, Obj(st, q)) : o \in {RObj}, q \in {RObj}} : TRUE
      [] kind = "sput" /\ st.objs # <<>> -> [k |-> "sput", o |-> RSObj, key |-> R1(SKeys), val |-> R1(SVals), life |-> R1(Lives)]
      [] kind = "sdel" /\ st.objs # <<>> -> [k |-> "sdel", o |-> RSObj, key |-> R1(SKeys)]
      [] kind = "tick" -> [k |-> "tick", d |-> R1(1..2)]
      [] kind = "create" /\ Room -> Create(st)
      [] kind = "get" -> [k |-> "get", p |-> R1(Paths)]
      [] kind = "unload" -> [k |-> "unload", o |-> RObj]
      [] kind = "purge" -> [k |-> "purge", o |-> RObj]
      [] kind = "loadc" /\ Room -> [k |-> "loadc", p |-> IF st.snap # EmptyFn /\ Pct(60) THEN R1(DOMAIN st.snap) ELSE R1(Paths)]
      [] kind = "capture" -> [k |-> "capture", p |-> R1(Paths)]
      [] kind = "setkey" -> [k |-> "setkey", key |-> R1(Keys), loc |-> R1(1..2)]
      [] kind = "commitk" -> [k |-> "commitk", f |-> RCFile, key |-> R1(Keys)]
      [] kind = "commit" -> [k |-> "commit", f |-> RCFile]
      [] kind = "load" -> CHOOSE x \in {[k |-> "load", f |-> f, key |-> RKeyFor(f)] : f \in {RFile}} : TRUE
      [] kind = "loadf" /\ Room -> CHOOSE x \in {RLoadf(y[1], y[2]) : y \in {<<f, RKeyFor(f)>> : f \in {RFile}}} : TRUE
      [] kind = "damage" /\ SnapFiles # {} -> [k |-> kind, f |-> R1(SnapFiles)]
      [] kind = "rmfile" /\ UsedFiles # {} -> [k |-> kind, f |-> R1(UsedFiles)]
      [] kind = "mkdir" /\ SnapFiles # {} /\ \E f \in MCFiles : st.files[f].kind = "none" ->
            [k |-> kind, f |-> R1({f \in MCFiles : st.files[f].kind = "none"})]
      [] kind = "copyfile" /\ SnapFiles # {} ->
            CHOOSE x \in {IF st.files[f].kind = "dir" \/ f = g THEN [k |-> "get", p |-> R1(Paths)]
                          ELSE [k |-> kind, f |-> f, g |-> g] : f \in {R1(MCFiles)}, g \in {R1(SnapFiles)}} : TRUE
      [] kind \in {"clear", "reset", "restart"} -> [k |-> kind]
      [] OTHER -> [k |-> "get", p |-> R1(Paths)]

\* Drawn operations the specification leaves open, or whose terms grow too large, are replaced.
TermsOk(s) == \A o \in DOMAIN s.objs : \A v \in DOMAIN s.objs[o].c.vaults :
                 \A id \in DOMAIN s.objs[o].c.vaults[v] : Size(s.objs[o].c.vaults[v][id].t) <= P.maxterm
Admissible(op) ==
    /\ op.k = "sync" => ConflictFree(Obj(st, op.q), op.cfg)
    /\ Terminal(st, op) => Len(hist) + 1 = P.depth
Step0(h) == [op |-> h.op, res |-> h.res, st |-> Proj(h.s)]
DoSim(op) ==
    \E r \in {Apply(st, op)} :
        /\ st' = r.s
        /\ last' = [op |-> op, res |-> r.res]
        /\ hist' = Append(hist, [op |-> op, res |-> r.res, st |-> Proj(r.s)])
        /\ Assert(Properties(st, op, r.res, r.s), <<"property violated", hist, op>>)
        /\ Len(hist) + 1 = P.depth => CSVWrite("%1$s", <<ToJson([steps |-> hist'])>>, P.out)
NextSim ==
    /\ Len(hist) < P.depth
    /\ \E op \in {RandOp(KindSeq[RandomElement(DOMAIN KindSeq)])} :
         IF Admissible(op) /\ TermsOk(Apply(st, op).s) THEN DoSim(op)
         ELSE DoSim([k |-> "get", p |-> R1(Paths)])
SpecSim == MCInit /\ [][NextSim]_vars

Inv == Sane(st)
=============================================================================
