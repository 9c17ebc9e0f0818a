------------------------------ MODULE ShardConc ------------------------------
(***************************************************************************)
(* Memories of two shards shared by several threads (property C16).        *)
(*                                                                         *)
(*   cur   for each memory the pair of contents of its two shards, by      *)
(*         number; <<>> when it is not known yet: contents that nobody     *)
(*         has looked at                                                   *)
(*   used  for each memory the contents each of its shards had before      *)
(*   run   calls that have begun and not returned: [m, k, n], k "must"     *)
(*         (re-splits the memory), "may" (may do so) or "no"; n how often  *)
(*         it has (serialising may do it once for the size, once for the   *)
(*         content)                                                        *)
(*   seen  for looks that have begun and not ended, the pairs the memory   *)
(*         had since, as [p, u] with the used ones of that moment          *)
(*                                                                         *)
(* A re-split happens at one moment and gives both shards contents they    *)
(* never had.  A look sees both shards of one moment.  That unlocks return *)
(* the secret does not depend on any of this, and is asserted of each.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
H == ndJsonDeserialize(IOEnv.VP_HIST)
VARIABLES h, pos, cur, used, run, seen
vars == <<h, pos, cur, used, run, seen>>
Ev == H[h].ev
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyFn == [x \in {} |-> 0]
Fresh(p, u) == p[1] \notin u[1] /\ p[2] \notin u[2]
\* a pair that was looked at is known from its first sight on
Bind(m, p) == IF cur[m] = <<>> THEN Fresh(p, used[m]) ELSE cur[m] = p

Take(e) ==
    CASE e.k \in {"must", "may", "no"} -> run' = Put(run, e.t, [m |-> e.m, k |-> e.k, n |-> 0]) /\ UNCHANGED <<cur, used, seen>>
      [] e.k = "ret" -> (run[e.t].k = "must" => run[e.t].n > 0) /\ run' = Del(run, e.t) /\ UNCHANGED <<cur, used, seen>>
      [] e.k = "new" -> cur' = Put(cur, e.m, <<>>) /\ used' = Put(used, e.m, <<{}, {}>>) /\ UNCHANGED <<run, seen>>
      [] e.k = "look" -> seen' = Put(seen, e.t, <<>>) /\ UNCHANGED <<cur, used, run>>
      [] e.k = "seen" -> seen[e.t] = <<e.a, e.b>> /\ seen' = Del(seen, e.t) /\ UNCHANGED <<cur, used, run>>
Event == /\ pos < Len(Ev) /\ Take(Ev[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED h
         /\ pos' = Len(Ev) => CSVWrite("%1$s", <<H[h].id>>, P.out)
\* what the look that a thread has begun will report
Report(t) == LET is == {i \in (pos + 1)..Len(Ev) : Ev[i].t = t /\ Ev[i].k = "seen"}
             IN Ev[CHOOSE i \in is : \A j \in is : i <= j]
Look == /\ pos < Len(Ev) /\ Ev[pos + 1].k \in {"seen", "ret"}
        /\ \E t \in DOMAIN seen :
             LET e == Report(t)
                 p == <<e.a, e.b>> IN
             /\ seen[t] = <<>> /\ Bind(e.m, p)
             /\ seen' = [seen EXCEPT ![t] = p] /\ cur' = [cur EXCEPT ![e.m] = p]
             /\ used' = [used EXCEPT ![e.m] = <<@[1] \cup {e.a}, @[2] \cup {e.b}>>]
        /\ UNCHANGED <<h, pos, run>>
Resplit == /\ pos < Len(Ev) /\ Ev[pos + 1].k \in {"seen", "ret"}
           /\ \E t \in DOMAIN run :
                /\ run[t].k # "no" /\ run[t].n < 2
                /\ run' = [run EXCEPT ![t].n = @ + 1]
                /\ cur' = [cur EXCEPT ![run[t].m] = <<>>]
           /\ UNCHANGED <<h, pos, used, seen>>
SInit == h \in DOMAIN H /\ pos = 0 /\ cur = (1 :> <<>>) /\ used = (1 :> <<{}, {}>>) /\ run = EmptyFn /\ seen = EmptyFn
SNext == Event \/ Look \/ Resplit
SSpec == SInit /\ [][SNext]_vars
=============================================================================
