-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Histories of concurrent calls, recorded from the real code, against     *)
(* module Session (properties C13 and C14).                                *)
(*                                                                         *)
(* A history is a sequence of events: a call begins (inv) or returns (res).*)
(* Between the two its atomic parts take place at moments of TLC's choice; *)
(* most calls have one part.  A history agrees with the specification iff  *)
(* some choice leads to its end.                                           *)
(*                                                                         *)
(* Calls with several parts: the procedures of a chain are separate parts, *)
(* as are the revocations after its failure, the two halves of a deletion  *)
(* (revoke, collect), the captures of the clients during a commit, and the *)
(* steps of clearing a session.                                            *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, CSV

P == JsonDeserialize(IOEnv.VP_PARAMS)
H == ndJsonDeserialize(IOEnv.VP_HIST)
MCPLen == P.plen
MCFiles == {P.files[i] : i \in DOMAIN P.files}
Rng(q) == {q[i] : i \in DOMAIN q}

VARIABLES h,       \* index of the history
          pos,     \* events consumed
          st,      \* the session
          pend,    \* calls that began and did not return: call -> its progress
          hm,      \* handles the threads have: name -> object
          busy     \* the call that has the in-memory snapshot for itself, or 0
vars == <<h, pos, st, pend, hm, busy>>

Ev == H[h].ev
SnapOps == {"capture", "commit", "commitk", "load", "loadf", "loadc", "purge", "setkey"}

NewCall(op) == [op |-> op, pc |-> 0, done |-> FALSE, res |-> Ok, log |-> <<>>, outs |-> <<>>, fail |-> FALSE,
                caps |-> EmptyFn, todo |-> EmptyFn]
Fin(c, res) == [c EXCEPT !.done = TRUE, !.res = res]

\* calls that only look
Look(s, op) ==
    LET c == s.objs[op.o].c
        store == IF op.o = 0 THEN s.sstore ELSE c.store IN
    CASE op.k = "rexists" -> OkV(Live(c, op.l))
      [] op.k = "vexists" -> OkV(HasVault(c, op.v))
      [] op.k = "sget" -> OkV(SGet(store, op.key, s.now))
      [] op.k = "skeys" -> OkV(DOMAIN store)
Looks == {"rexists", "vexists", "sget", "skeys"}

\* what an observer at rest sees of a client
ObsC(c) ==
    [vs |-> DOMAIN c.vaults,
     rs |-> UNION {{[v |-> v, r |-> id[2], t |-> c.vaults[v][id].t] : id \in {x \in LiveIds(c, v) : x[1] = v}} : v \in DOMAIN c.vaults},
     st |-> {[k |-> k, val |-> c.store[k].val] : k \in DOMAIN c.store}]
ObsMap(m) == {[p |-> p, c |-> ObsC(m[p])] : p \in DOMAIN m}

\* one part of a call: the set of possible [s, c, hm, busy]
Part(s, i, c, hmap, b) ==
    LET op == c.op
        D(s1, c1) == {[s |-> s1, c |-> c1, hm |-> hmap, busy |-> b]}
        obj == Obj(s, op.o) IN
    CASE op.k \in Looks -> D(s, Fin(c, Look(s, op)))
      [] op.k = "obsclient" -> D(s, Fin(c, OkV(ObsC(obj))))
      [] op.k = "obsfile" -> D(s, Fin(c, OkV(ObsMap(s.files[op.f].data))))
      [] op.k = "obssnap" -> D(s, Fin(c, OkV(ObsMap(s.snap))))
      [] op.k = "obskey" -> D(s, Fin(c, OkV(s.files[op.f].key)))
      \* the observer unloaded all clients
      [] op.k = "forget" -> D([s EXCEPT !.loaded = EmptyFn], Fin(c, Ok))
      [] op.k = "obssame" -> D(s, Fin(c, Ok))
      [] op.k = "obsloaded" -> D(s, Fin(c, OkV(s.loaded)))
      [] op.k \in {"exec", "chain"} ->
            LET steps == IF op.k = "exec" THEN <<op.st>> ELSE op.sts IN
            IF c.fail THEN
                IF c.log = <<>> THEN D(s, Fin(c, Err("op")))
                ELSE LET c1 == [c EXCEPT !.log = Tail(@)]
                         s1 == SetObj(s, op.o, DoRevoke(obj, Head(c.log))) IN
                     D(s1, IF Len(c.log) = 1 THEN Fin(c1, Err("op")) ELSE c1)
            ELSE LET x == steps[c.pc + 1]
                     two == x.p = "revoke" /\ x.a = "gc"
                     half == two /\ c.todo = EmptyFn
                     r == IF half THEN R(DoRevoke(obj, x.d), TRUE, Unit, s.n)
                          ELSE IF two THEN R(DoCollect(obj, x.d[1]), TRUE, Unit, s.n)
                          ELSE ExecStep(obj, x, s.n)
                     s1 == [SetObj(s, op.o, r.c) EXCEPT !.n = r.n]
                     outs == Append(c.outs, r.out)
                     last == c.pc + 1 = Len(steps) IN
                 IF half THEN D(s1, [c EXCEPT !.todo = ("gc" :> TRUE)])
                 ELSE IF r.ok THEN
                     D(s1, [c EXCEPT !.pc = @ + 1, !.outs = outs, !.done = last, !.res = OkV(outs), !.todo = EmptyFn,
                                     !.log = IF x.p \in Producers THEN Append(@, x.d) ELSE @])
                 ELSE IF c.log = <<>> THEN D(s1, Fin(c, Err("op")))
                 ELSE D(s1, [c EXCEPT !.fail = TRUE])
      [] op.k = "vdelete" ->
            IF c.pc = 0 THEN D(SetObj(s, op.o, DoRevoke(obj, op.l)), [c EXCEPT !.pc = 1])
            ELSE D(SetObj(s, op.o, DoCollect(obj, op.l[1])), Fin(c, OkV(HasVault(obj, op.l[1]))))
      [] op.k \in {"commit", "commitk"} ->
            IF b # i THEN
                IF b # 0 THEN {}
                ELSE {[s |-> s, c |-> [c EXCEPT !.todo = s.loaded], hm |-> hmap, busy |-> i]}
            ELSE IF c.todo # EmptyFn THEN
                {[s |-> s, c |-> [c EXCEPT !.todo = Remove(@, {p}), !.caps = (p :> Obj(s, c.todo[p])) @@ @],
                  hm |-> hmap, busy |-> b] : p \in DOMAIN c.todo}
            ELSE LET key == IF op.k = "commitk" THEN op.key ELSE s.kloc
                     s1 == [s EXCEPT !.snap = c.caps @@ @] IN
                 IF key = NoKey THEN {[s |-> s1, c |-> Fin(c, Err("nokeylocation")), hm |-> hmap, busy |-> 0]}
                 ELSE {[s |-> [s1 EXCEPT !.files[op.f] = [kind |-> "snap", key |-> key, data |-> s1.snap]],
                        c |-> Fin(c, Ok), hm |-> hmap, busy |-> 0]}
      \* clearing: the snapshot, then the store, the key location and the list of clients, then every client
      [] op.k = "clear" ->
            CASE c.pc = 0 -> IF b = 0 THEN D([s EXCEPT !.snap = EmptyFn], [c EXCEPT !.pc = 1]) ELSE {}
              [] c.pc = 1 -> D([s EXCEPT !.sstore = EmptyFn], [c EXCEPT !.pc = 2])
              [] c.pc = 2 -> D([s EXCEPT !.kloc = NoKey], [c EXCEPT !.pc = 3])
              [] c.pc = 3 -> D([s EXCEPT !.loaded = EmptyFn],
                               IF s.loaded = EmptyFn THEN Fin(c, Ok) ELSE [c EXCEPT !.pc = 4, !.todo = s.loaded])
              [] OTHER -> UNION {LET c1 == [c EXCEPT !.todo = Remove(@, {p})] IN
                                 D(SetObj(s, c.todo[p], EmptyClient),
                                   IF c1.todo = EmptyFn THEN Fin(c1, Ok) ELSE c1) : p \in DOMAIN c.todo}
      [] OTHER ->
            IF op.k \in SnapOps /\ b # 0 THEN {}
            ELSE LET r == Apply(s, op)
                     binds == op.k \in {"create", "loadc", "loadf", "get"} /\ r.res.ok IN
                 {[s |-> r.s, c |-> Fin(c, r.res), hm |-> IF binds THEN (op.h :> r.res.v) @@ hmap ELSE hmap, busy |-> b]}

\* does the answer of the code agree with that of the specification?
\* (bytes that several terms stand for come as the sequence of these terms)
OutOk(want, got) ==
    LET w == IF want[1] = "o_cmp" THEN <<"o_bool", want[2] = want[3]>> ELSE want IN
    \E j \in DOMAIN got : got[j][1] = w[1] /\ got[j] = w
SeenOk(want, got) ==
    /\ want.vs = Rng(got.vs) /\ want.st = Rng(got.st)
    /\ Cardinality(want.rs) = Len(got.rs)
    /\ \A x \in want.rs : \E j \in DOMAIN got.rs : got.rs[j].v = x.v /\ got.rs[j].r = x.r /\ x.t \in Rng(got.rs[j].t)
MapOk(want, got) ==
    /\ Cardinality(want) = Len(got)
    /\ \A x \in want : \E j \in DOMAIN got : got[j].p = x.p /\ SeenOk(x.c, got[j].c)
Answers(op, want, got) ==
    /\ want.ok = got.ok
    /\ ~want.ok /\ want.e \in {"alreadyloaded", "notpresent"} => got.e = want.e
    /\ want.ok =>
         CASE op.k \in {"exec", "chain"} -> /\ Len(want.v) = Len(got.v)
                                            /\ \A j \in DOMAIN want.v : OutOk(want.v[j], got.v[j])
           [] op.k \in {"vdelete", "vcleanup", "sput", "sdel", "rexists", "vexists", "sget", "obskey"} -> want.v = got.v
           [] op.k = "skeys" -> want.v = Rng(got.v)
           [] op.k = "obsclient" -> SeenOk(want.v, got.v)
           [] op.k \in {"obsfile", "obssnap"} -> MapOk(want.v, got.v)
           \* the loaded clients, each with a handle to it
           [] op.k = "obsloaded" -> want.v = [p \in {got.v[j].p : j \in DOMAIN got.v} |->
                                                LET x == CHOOSE x \in Rng(got.v) : x.p = p IN IF x.h \in DOMAIN hm THEN hm[x.h] ELSE 0]
           \* handles known to be of the same live client
           [] op.k = "obssame" -> \A a, b \in DOMAIN hm :
                                     (hm[a] = hm[b]) = (\E j \in DOMAIN got.v : a \in Rng(got.v[j]) /\ b \in Rng(got.v[j]))
           [] OTHER -> TRUE

Begin ==
    /\ pos < Len(Ev) /\ Ev[pos + 1].t = "inv"
    /\ LET e == Ev[pos + 1]
           op == IF "h0" \in DOMAIN e.op THEN [e.op EXCEPT !.o = IF e.op.h0 = "session" THEN 0 ELSE hm[e.op.h0]] ELSE e.op IN
       pend' = (e.i :> NewCall(op)) @@ pend
    /\ pos' = pos + 1 /\ UNCHANGED <<h, st, hm, busy>>
\* Parts take place as late as possible: only when the next event is a return.
Work ==
    /\ pos < Len(Ev) /\ Ev[pos + 1].t = "res"
    /\ \E i \in DOMAIN pend : ~pend[i].done /\
         \E r \in Part(st, i, pend[i], hm, busy) :
            st' = r.s /\ pend' = [pend EXCEPT ![i] = r.c] /\ hm' = r.hm /\ busy' = r.busy
    /\ UNCHANGED <<h, pos>>
Return ==
    /\ pos < Len(Ev) /\ Ev[pos + 1].t = "res"
    /\ LET e == Ev[pos + 1] IN
       /\ e.i \in DOMAIN pend /\ pend[e.i].done /\ Answers(pend[e.i].op, pend[e.i].res, e.res)
       /\ pend' = Remove(pend, {e.i})
    /\ pos' = pos + 1 /\ UNCHANGED <<h, st, hm, busy>>
    /\ pos' = Len(Ev) => CSVWrite("%1$s", <<H[h].id>>, P.out)

LinInit == h \in DOMAIN H /\ pos = 0 /\ st = Init0 /\ pend = EmptyFn /\ hm = EmptyFn /\ busy = 0
LinNext == Begin \/ Work \/ Return
LinSpec == LinInit /\ [][LinNext]_vars
=============================================================================
