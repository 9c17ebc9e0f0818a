------------------------------ MODULE GuardConc ------------------------------
(***************************************************************************)
(* Guarded buffers shared by several threads (property C15).               *)
(*                                                                         *)
(*   count  how many shared borrows each buffer has                        *)
(*   run    calls that have begun and not returned: each is a sequence of  *)
(*          effects [k, b, ph] on buffers, k "+" (one borrow more), "-"    *)
(*          (one less) or "t" (one for the duration of a comparison or a   *)
(*          copy, if it is needed at all)                                  *)
(*   seen   for probes that have begun and not ended: which protections    *)
(*          their buffer had since                                         *)
(*                                                                         *)
(* The protection of the pages is a function of the number of borrows; an  *)
(* effect happens at one moment between the begin and the end of its call. *)
(* Histories recorded from the real code (VP_HIST) must be explained.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
H == ndJsonDeserialize(IOEnv.VP_HIST)
VARIABLES h, pos, count, run, seen
vars == <<h, pos, count, run, seen>>
Ev == H[h].ev
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyFn == [x \in {} |-> 0]

Prot(n) == IF n > 0 THEN "r" ELSE "none"
Through(e) == IF e.k = "t" THEN e.ph \in {0, 2} ELSE e.ph = 1
Take(e) ==
    CASE e.k = "call" -> /\ run' = Put(run, e.t, [i \in DOMAIN e.eff |-> [k |-> e.eff[i].k, b |-> e.eff[i].b, ph |-> 0]])
                         /\ UNCHANGED <<count, seen>>
      [] e.k = "ret" -> (\A i \in DOMAIN run[e.t] : Through(run[e.t][i])) /\ run' = Del(run, e.t) /\ UNCHANGED <<count, seen>>
      [] e.k = "pb" -> seen' = Put(seen, e.t, [b |-> e.b, ps |-> {Prot(count[e.b])}]) /\ UNCHANGED <<count, run>>
      [] e.k = "pe" -> e.p \in seen[e.t].ps /\ seen' = Del(seen, e.t) /\ UNCHANGED <<count, run>>
Event == /\ pos < Len(Ev) /\ Take(Ev[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED h
         /\ pos' = Len(Ev) => CSVWrite("%1$s", <<H[h].id>>, P.out)
Change(e) == CASE e.k = "+" -> 1 [] e.k = "-" -> -1 [] e.k = "t" -> IF e.ph = 0 THEN 1 ELSE -1
\* effects are only needed right before calls or probes end
Effect == /\ pos < Len(Ev) /\ Ev[pos + 1].k \in {"ret", "pb", "pe"}
          /\ \E t \in DOMAIN run : \E i \in DOMAIN run[t] :
               LET e == run[t][i]
                   n == count[e.b] + Change(e) IN
               /\ ((e.k = "t" /\ e.ph < 2) \/ e.ph < 1) /\ n >= 0
               /\ run' = [run EXCEPT ![t][i].ph = @ + 1]
               /\ count' = [count EXCEPT ![e.b] = n]
               /\ seen' = [u \in DOMAIN seen |-> IF seen[u].b = e.b THEN [seen[u] EXCEPT !.ps = @ \cup {Prot(n)}] ELSE seen[u]]
          /\ UNCHANGED <<h, pos>>
GInit == h \in DOMAIN H /\ pos = 0 /\ count = [b \in 1..H[h].bufs |-> 0] /\ run = EmptyFn /\ seen = EmptyFn
GNext == Event \/ Effect
GSpec == GInit /\ [][GNext]_vars
=============================================================================
