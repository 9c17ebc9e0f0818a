------------------------------ MODULE ShardAlg ------------------------------
(***************************************************************************)
(* The algorithm of memories of two shards (engine/runtime/src/memories/   *)
(* noncontiguous_memory.rs): unlock, refresh and clone by several threads, *)
(* one action per step.  Shard 1 holds a random number; shard 2 is the     *)
(* secret masked by it, written as that number too: the secret comes out   *)
(* exactly if both numbers are the same.                                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Threads, Calls
Kinds == {"unlock", "refresh", "clone"}
VARIABLES s1, s2, l1, l2, next, th
vars == <<s1, s2, l1, l2, next, th>>
T0 == [pc |-> "idle", left |-> Calls, k |-> "", got |-> <<0, 0>>, new |-> <<0, 0>>, out |-> "none"]
Init == s1 = 0 /\ s2 = 0 /\ l1 = 0 /\ l2 = 0 /\ next = 1 /\ th = [t \in Threads |-> T0]
Set(t, r) == th' = [th EXCEPT ![t] = r]
Begin(t) == /\ th[t].pc = "idle" /\ th[t].left > 0
            /\ \E k \in Kinds : Set(t, [th[t] EXCEPT !.pc = IF k = "refresh" THEN "f1" ELSE "u1", !.left = @ - 1, !.k = k])
            /\ UNCHANGED <<s1, s2, l1, l2, next>>
Take1(t, from, to) == th[t].pc = from /\ l1 = 0 /\ l1' = t /\ Set(t, [th[t] EXCEPT !.pc = to]) /\ UNCHANGED <<s1, s2, l2, next>>
Take2(t, from, to) == th[t].pc = from /\ l2 = 0 /\ l2' = t /\ Set(t, [th[t] EXCEPT !.pc = to]) /\ UNCHANGED <<s1, s2, l1, next>>
Read1(t, from, to) == th[t].pc = from /\ Set(t, [th[t] EXCEPT !.pc = to, !.got[1] = s1]) /\ UNCHANGED <<s1, s2, l1, l2, next>>
Read2(t, from, to) == /\ th[t].pc = from /\ l1' = 0 /\ l2' = 0 /\ Set(t, [th[t] EXCEPT !.pc = to, !.got[2] = s2]) /\ UNCHANGED <<s1, s2, next>>
\* unlock and clone: both shards read under both locks
Check(t) == /\ th[t].pc = "u5"
            /\ Set(t, [th[t] EXCEPT !.out = IF th[t].got[1] = th[t].got[2] THEN "secret" ELSE "garbage", !.pc = IF th[t].k = "unlock" THEN "f1" ELSE "idle"])
            /\ UNCHANGED <<s1, s2, l1, l2, next>>
\* refresh: both read, new ones computed, both replaced under both locks; the new mask undoes the old one
Compute(t) == /\ th[t].pc = "f5" /\ next' = next + 1
              /\ Set(t, [th[t] EXCEPT !.new = IF th[t].got[1] = th[t].got[2] THEN <<next, next>> ELSE <<next, 0>>, !.pc = "f6"])
              /\ UNCHANGED <<s1, s2, l1, l2>>
Put1(t) == th[t].pc = "f8" /\ s1' = th[t].new[1] /\ Set(t, [th[t] EXCEPT !.pc = "f9"]) /\ UNCHANGED <<s2, l1, l2, next>>
Put2(t) == th[t].pc = "f9" /\ s2' = th[t].new[2] /\ l1' = 0 /\ l2' = 0 /\ Set(t, [th[t] EXCEPT !.pc = "idle"]) /\ UNCHANGED <<s1, next>>
Step(t) ==
    \/ Begin(t)
    \/ Take1(t, "u1", "u2") \/ Take2(t, "u2", "u3") \/ Read1(t, "u3", "u4") \/ Read2(t, "u4", "u5") \/ Check(t)
    \/ Take1(t, "f1", "f2") \/ Take2(t, "f2", "f3") \/ Read1(t, "f3", "f4") \/ Read2(t, "f4", "f5") \/ Compute(t)
    \/ Take1(t, "f6", "f7") \/ Take2(t, "f7", "f8") \/ Put1(t) \/ Put2(t)
Finished == \A t \in Threads : th[t].pc = "idle" /\ th[t].left = 0
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

NoGarbage == \A t \in Threads : th[t].out # "garbage"
Whole == (l1 = 0 /\ l2 = 0) => s1 = s2
Changes == [][\A t \in Threads : (th[t].pc = "f9" /\ th'[t].pc = "idle") => s1' = th[t].new[1] /\ s1' # th[t].got[1] /\ s2' # th[t].got[2]]_vars
Done == <>Finished
=============================================================================
