------------------------------ MODULE Register ------------------------------
(***************************************************************************)
(* A snapshot path as its users see it while several threads and processes *)
(* commit to it and load from it: a register (property C07).  A commit     *)
(* takes effect at one moment between its begin and its end, if it reports *)
(* success; not at all if it reports an error; and perhaps, if its process *)
(* is killed.  A load returns what the path held at one moment.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
H == ndJsonDeserialize(IOEnv.VP_HIST)
VARIABLES h, pos, cur, run, seen
vars == <<h, pos, cur, run, seen>>
Ev == H[h].ev
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyFn == [x \in {} |-> 0]
Take(e) ==
    CASE e.k = "begin" -> run' = Put(run, e.t, [v |-> e.v, done |-> FALSE]) /\ UNCHANGED <<cur, seen>>
      [] e.k = "ok" -> run[e.t].done /\ run' = Del(run, e.t) /\ UNCHANGED <<cur, seen>>
      [] e.k = "err" -> ~run[e.t].done /\ run' = Del(run, e.t) /\ UNCHANGED <<cur, seen>>
      [] e.k = "gone" -> run' = Del(run, e.t) /\ UNCHANGED <<cur, seen>>
      [] e.k = "lb" -> seen' = Put(seen, e.t, {cur}) /\ UNCHANGED <<cur, run>>
      [] e.k = "load" -> e.r \in seen[e.t] /\ seen' = Del(seen, e.t) /\ UNCHANGED <<cur, run>>
Event == /\ pos < Len(Ev) /\ Take(Ev[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED h
         /\ pos' = Len(Ev) => CSVWrite("%1$s", <<H[h].id>>, P.out)
\* effects are only needed before loads begin or end and before commits end
Effect == /\ pos < Len(Ev) /\ Ev[pos + 1].k # "begin"
          /\ \E t \in DOMAIN run :
               /\ ~run[t].done /\ cur' = run[t].v /\ run' = [run EXCEPT ![t].done = TRUE]
               /\ seen' = [u \in DOMAIN seen |-> seen[u] \cup {run[t].v}]
          /\ UNCHANGED <<h, pos>>
RInit == h \in DOMAIN H /\ pos = 0 /\ cur = 0 /\ run = EmptyFn /\ seen = EmptyFn
RNext == Event \/ Effect
RSpec == RInit /\ [][RNext]_vars
=============================================================================
