-------------------------------- MODULE Stm --------------------------------
(***************************************************************************)
(* Transactions as their users see them (properties C18 and C19), and      *)
(* histories of real transactions against this.                            *)
(*                                                                         *)
(* The state is a sequence of states of the variables; a commit appends    *)
(* one.  An attempt of a transaction begins when its closure is called.    *)
(* Whatever an attempt reads from outside, at some moment since it began   *)
(* all variables it has read so far had just these values (also if the     *)
(* attempt is given up later).  A transaction that writes commits at one   *)
(* moment between the end of its last attempt and its return, and then     *)
(* the values it read are still the present ones.  Attempts that are given *)
(* up, and transactions that only read, append nothing.                    *)
(*                                                                         *)
(* A second attempt is only made if the first one failed on purpose or if  *)
(* a transaction with a variable in common ran at the same time (C19).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

P == JsonDeserialize(IOEnv.VP_PARAMS)
H == ndJsonDeserialize(IOEnv.VP_HIST)
Rng(q) == {q[i] : i \in DOMAIN q}
EmptyFn == [x \in {} |-> 0]

VARIABLES h, pos,
          hist,   \* states of the variables, one per commit
          run     \* running transactions: thread -> its present attempt
vars == <<h, pos, hist, run>>
Ev == H[h].ev
Cur == hist[Len(hist)]

Consistent(a, st) == \A x \in DOMAIN a.rd : st[x] = a.rd[x]
SeenTogether(a, hs) == \E k \in a.since..Len(hs) : Consistent(a, hs[k])

Meets(a, b) == a.foot \cap b.foot # {}
Called(e) == [since |-> Len(hist), rd |-> EmptyFn, wr |-> EmptyFn, ro |-> e.ro, foot |-> Rng(e.foot), n |-> 0,
              ended |-> FALSE, committed |-> FALSE, failed |-> FALSE,
              conflict |-> FALSE,      \* a transaction with a common variable ran during this attempt
              next |-> FALSE]          \* ... or since it came to its end
Others(t) == {u \in DOMAIN run : u # t}
Met(t) == \E u \in Others(t) : Meets(run[t], run[u])

Take(e) ==
    LET t == e.t IN
    CASE e.k = "call" ->
            LET c == Called(e)
                m == {u \in DOMAIN run : Meets(c, run[u])} IN
            /\ t \notin DOMAIN run
            /\ run' = [u \in DOMAIN run \cup {t} |->
                         IF u = t THEN [c EXCEPT !.next = m # {}]
                         ELSE IF u \in m THEN [run[u] EXCEPT !.conflict = TRUE, !.next = TRUE] ELSE run[u]]
            /\ UNCHANGED hist
      [] e.k = "att" ->
            LET a == run[t] IN
            /\ e.n = a.n + 1
            /\ e.n > 1 => ~a.committed /\ (P.check = "C19" => a.failed \/ a.conflict)
            /\ run' = [run EXCEPT ![t] = [a EXCEPT !.since = Len(hist), !.rd = EmptyFn, !.wr = EmptyFn, !.n = e.n,
                                            !.ended = FALSE, !.failed = FALSE, !.conflict = a.next \/ Met(t)]]
            /\ UNCHANGED hist
      [] e.k = "rd" ->
            /\ IF e.x \in DOMAIN run[t].wr THEN e.v = run[t].wr[e.x] /\ UNCHANGED run
               ELSE LET a == [run[t] EXCEPT !.rd = (e.x :> e.v) @@ @] IN
                    /\ e.x \in DOMAIN run[t].rd => run[t].rd[e.x] = e.v
                    /\ SeenTogether(a, hist)
                    /\ run' = [run EXCEPT ![t] = a]
            /\ UNCHANGED hist
      [] e.k = "wr" -> run' = [run EXCEPT ![t].wr = (e.x :> e.v) @@ @] /\ UNCHANGED hist
      [] e.k = "end" -> run' = [run EXCEPT ![t].ended = TRUE, ![t].next = Met(t)] /\ UNCHANGED hist
      [] e.k = "fail" -> run' = [run EXCEPT ![t].failed = TRUE, ![t].next = Met(t)] /\ UNCHANGED hist
      [] e.k = "no" -> run' = [run EXCEPT ![t].next = Met(t)] /\ UNCHANGED hist
      [] e.k = "ret" ->
            LET a == run[t] IN
            /\ e.ok /\ a.ended
            /\ a.committed = (~a.ro /\ a.wr # EmptyFn)
            /\ run' = [u \in DOMAIN run \ {t} |-> run[u]] /\ UNCHANGED hist
      \* a look at a variable while no transaction runs
      [] e.k = "fin" -> Cur[e.x] = e.v /\ UNCHANGED <<run, hist>>

Event ==
    /\ pos < Len(Ev) /\ Take(Ev[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED h
    /\ pos' = Len(Ev) => CSVWrite("%1$s", <<H[h].id>>, P.out)
\* Commits take place as late as possible.
Commit ==
    /\ pos < Len(Ev) /\ Ev[pos + 1].k \in {"rd", "ret"}
    /\ \E t \in DOMAIN run :
         LET a == run[t] IN
         /\ a.ended /\ ~a.committed /\ ~a.ro /\ a.wr # EmptyFn /\ Consistent(a, Cur)
         /\ hist' = Append(hist, a.wr @@ Cur)
         /\ run' = [run EXCEPT ![t].committed = TRUE]
    /\ UNCHANGED <<h, pos>>

StmInit == h \in DOMAIN H /\ pos = 0 /\ hist = <<[x \in 0..(H[h].vars - 1) |-> x]>> /\ run = EmptyFn
StmNext == Event \/ Commit
StmSpec == StmInit /\ [][StmNext]_vars
=============================================================================
