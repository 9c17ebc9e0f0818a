-------------------------------- MODULE Rlu --------------------------------
(***************************************************************************)
(* Sections over read-log-update variables (property C20), and histories   *)
(* of them recorded from the code.                                         *)
(*                                                                         *)
(*   cur    value of each variable: the last one committed                 *)
(*   alt    values that a commit put in view without completing (below)    *)
(*   sec    sections that have begun and not ended:                        *)
(*            snap   what all reads of it return; <<>> before the moment   *)
(*                   it is taken                                           *)
(*            now    read or write that has begun: variable and values it  *)
(*                   had since                                             *)
(*            open   write guards it holds: variable -> value so far       *)
(*            rel    writes it released: variable -> value                 *)
(*            todo   variables whose released write is not yet committed   *)
(*            done   some write of it was committed                        *)
(*            alone  no other section ran at the same time so far          *)
(*            held   variables of its read guards                          *)
(*            n      guards it took                                        *)
(*   dev    deviations from the property that the explanation needed       *)
(*                                                                         *)
(* The property: a section reads one state of all variables, committed     *)
(* when it is taken, or its own changes; its changes become visible        *)
(* together, and only if it succeeds.  Deviations that are known findings: *)
(*   "moments"  a section that takes several guards reads each variable as *)
(*              of the moment it is read, and commits each change when its *)
(*              guard is released                                          *)
(*   "abort"    a section that fails after it released a write guard has   *)
(*              committed that change                                      *)
(*   "late"     a change whose guard is released while another section     *)
(*              holds or asks for the variable is seen by sections, but    *)
(*              not (yet) in the variable                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
H == ndJsonDeserialize(IOEnv.VP_HIST)
VARIABLES h, pos, cur, alt, sec, dev
vars == <<h, pos, cur, alt, sec, dev>>
Ev == H[h].ev
Vs == 1..H[h].vars
May == {P.allow[i] : i \in DOMAIN P.allow}
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyFn == [x \in {} |-> 0]
Seen(v) == {cur[v]} \cup alt[v]
S0(others) == [snap |-> <<>>, now |-> <<>>, open |-> EmptyFn, rel |-> EmptyFn, todo |-> {}, done |-> FALSE, alone |-> others = {}, held |-> {}, n |-> 0]
Alone == [t \in DOMAIN sec |-> [sec[t] EXCEPT !.alone = FALSE]]
Own(s, v) == IF v \in DOMAIN s.open THEN {s.open[v]} ELSE IF v \in DOMAIN s.rel THEN {s.rel[v]} ELSE {}
\* results a read may give: own changes, the snapshot, or (deviating) a value of the moment
Reads(s, v, x) ==
    CASE x \in Own(s, v) -> {}
      [] Own(s, v) = {} /\ s.snap # <<>> /\ x = s.snap[v] -> {}
      [] s.n > 0 /\ x \in s.now[2] -> {"moments"}
      [] OTHER -> {"never"}
Set(t, s) == sec' = [sec EXCEPT ![t] = s]
Keep == UNCHANGED <<cur, alt>>
Take(e) ==
    LET t == e.t
        s == sec[t] IN
    CASE e.k = "sec" -> sec' = Put(IF DOMAIN sec = {} THEN sec ELSE Alone, t, S0(DOMAIN sec)) /\ Keep /\ UNCHANGED dev
      \* a guard is asked for
      [] e.k = "ask" -> Set(t, [s EXCEPT !.now = <<e.x, Seen(e.x)>>]) /\ Keep /\ UNCHANGED dev
      \* and given, showing a value
      [] e.k = "read" -> LET d == Reads(s, e.x, e.v) IN
                         /\ d \subseteq May /\ dev' = dev \cup d
                         /\ Set(t, [s EXCEPT !.now = <<>>, !.n = @ + 1, !.held = @ \cup {e.x}]) /\ Keep
      [] e.k = "write" -> LET d == Reads(s, e.x, e.v) IN
                          /\ d \subseteq May /\ dev' = dev \cup d
                          /\ Set(t, [s EXCEPT !.now = <<>>, !.n = @ + 1, !.open = Put(@, e.x, e.v)]) /\ Keep
      \* or refused: only if others are in the way
      [] e.k = "no" -> ~s.alone /\ Set(t, [s EXCEPT !.now = <<>>]) /\ Keep /\ UNCHANGED dev
      [] e.k = "set" -> Set(t, [s EXCEPT !.open[e.x] = e.v]) /\ Keep /\ UNCHANGED dev
      \* a write guard is being released, and has been
      [] e.k = "rel" -> Set(t, [s EXCEPT !.rel = Put(@, e.x, s.open[e.x]), !.open = Del(@, e.x), !.todo = @ \cup {e.x}]) /\ Keep /\ UNCHANGED dev
      [] e.k = "drop" -> Set(t, [s EXCEPT !.held = @ \ {e.x}]) /\ Keep /\ UNCHANGED dev
      [] e.k = "reld" -> UNCHANGED <<sec, cur, alt, dev>>
      \* the section has ended
      [] e.k = "ok" -> s.todo = {} /\ sec' = Del(sec, t) /\ Keep /\ UNCHANGED dev
      [] e.k = "err" -> LET d == IF s.done THEN {"abort"} ELSE {} IN
                        d \subseteq May /\ dev' = dev \cup d /\ sec' = Del(sec, t) /\ Keep
      \* the value outside of sections
      [] e.k = "get" -> /\ e.v = cur[e.x] /\ UNCHANGED <<sec, cur, alt, dev>>
Event == /\ pos < Len(Ev) /\ Take(Ev[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED h
         /\ pos' = Len(Ev) =>
              /\ CSVWrite("%1$s", <<H[h].id>>, P.out)
              /\ CSVWrite("%1$s", <<H[h].id>>, P.out \o "_" \o (IF dev' = {} THEN "clean" ELSE IF Cardinality(dev') = 1 THEN CHOOSE x \in dev' : TRUE ELSE "several"))
\* asked reads see what becomes visible meanwhile
Show(f) == [t \in DOMAIN f |-> IF f[t].now = <<>> THEN f[t] ELSE [f[t] EXCEPT !.now = <<@[1], @[2] \cup (({cur'[@[1]]}) \cup alt'[@[1]])>>]]
Next1 == Ev[pos + 1]
Snap(t) == /\ sec[t].snap = <<>> /\ sec[t].now # <<>>
           /\ \E f \in [Vs -> UNION {Seen(v) : v \in Vs}] :
                /\ \A v \in Vs : f[v] \in Seen(v)
                /\ sec' = [sec EXCEPT ![t].snap = f]
           /\ UNCHANGED <<cur, alt, dev>>
\* all released changes at once, when the section succeeds
Ends(t) == Next1.k = "ok" /\ Next1.t = t
Todo(t) == sec[t].todo
Commit(t, vs, d) == /\ vs # {} /\ d \subseteq May
                    /\ cur' = [v \in Vs |-> IF v \in vs THEN sec[t].rel[v] ELSE cur[v]]
                    /\ alt' = [v \in Vs |-> IF v \in vs THEN {} ELSE alt[v]]
                    /\ sec' = Show([sec EXCEPT ![t].done = TRUE, ![t].todo = @ \ vs])
                    /\ dev' = dev \cup d
Wanted(u, v) == v \in sec[u].held \cup sec[u].todo \cup DOMAIN sec[u].open \/ (sec[u].now # <<>> /\ sec[u].now[1] = v)
Late(t, v, d) == /\ \E u \in DOMAIN sec \ {t} : Wanted(u, v)
                 /\ ({"late"} \cup d) \subseteq May
                 /\ alt' = [alt EXCEPT ![v] = @ \cup {sec[t].rel[v]}] /\ cur' = cur
                 /\ sec' = Show([sec EXCEPT ![t].done = TRUE, ![t].todo = @ \ {v}])
                 /\ dev' = dev \cup d \cup {"late"}
Matters == Next1.k \in {"read", "write", "ask", "reld", "ok", "get"}
Effect == /\ pos < Len(Ev)
          /\ \E t \in DOMAIN sec :
               \/ Matters /\ Snap(t)
               \/ Matters /\ ~sec[t].done /\ (Ends(t) \/ sec[t].n = 1) /\ Commit(t, Todo(t), {})
               \/ \E v \in Todo(t) : Matters /\ sec[t].n > 1 /\ Commit(t, {v}, {"moments"})
               \/ \E v \in Todo(t) : Late(t, v, IF sec[t].n > 1 THEN {"moments"} ELSE {})
          /\ UNCHANGED <<h, pos>>
RInit == /\ h \in DOMAIN H /\ pos = 0 /\ cur = [v \in 1..H[h].vars |-> v] /\ alt = [v \in 1..H[h].vars |-> {}]
         /\ sec = EmptyFn /\ dev = {}
RNext == Event \/ Effect
RSpec == RInit /\ [][RNext]_vars
=============================================================================
