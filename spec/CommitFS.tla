------------------------------ MODULE CommitFS ------------------------------
(***************************************************************************)
(* Sequences of commits, recorded from the real code with faults, kills    *)
(* and losses of power, against FileSys (property C07).                    *)
(***************************************************************************)
EXTENDS FileSys, Json, IOUtils, CSV
P == JsonDeserialize(IOEnv.VP_PARAMS)
H == ndJsonDeserialize(IOEnv.VP_HIST)
VARIABLES h, pos, fs,
          cur,    \* version of the running commit, or 0
          base    \* what the path denoted when it began
vars == <<h, pos, fs, cur, base>>
Ev == H[h].ev

Version(i) == IF i = 0 THEN 0 ELSE fs.ino[i].v
Take(e) ==
    CASE e.k = "begin" -> cur = 0 /\ cur' = e.v /\ base' = Entry(fs, "P") /\ UNCHANGED fs
      [] e.k \in FsKinds -> fs' = Apply(fs, 1, cur, e) /\ Good(fs, fs') /\ UNCHANGED <<cur, base>>
      \* a call that failed has no effect
      [] e.k \in {"failed", "mkdir"} -> UNCHANGED <<fs, cur, base>>
      \* success: the path denotes what this commit wrote
      [] e.k = "ok" -> Entry(fs, "P") # base /\ Version(Entry(fs, "P")) = cur /\ cur' = 0 /\ UNCHANGED <<fs, base>>
      \* failure: the path denotes what it did before
      [] e.k = "err" -> Entry(fs, "P") = base /\ cur' = 0 /\ UNCHANGED <<fs, base>>
      \* the process ended, and possibly the machine; what was not synced is lost
      [] e.k \in {"kill", "power"} -> cur' = 0 /\ fs' = [fs EXCEPT !.fds = EmptyFn] /\ UNCHANGED base
      \* what a new session finds at the path: 0 nothing, -1 something that cannot be loaded
      [] e.k = "load" -> e.r = (IF Entry(fs, "P") = 0 THEN 0 ELSE Version(Entry(fs, "P"))) /\ UNCHANGED <<fs, cur, base>>
CInit == h \in DOMAIN H /\ pos = 0 /\ fs = Fs0(FALSE) /\ cur = 0 /\ base = 0
CNext == /\ pos < Len(Ev) /\ Take(Ev[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED h
         /\ pos' = Len(Ev) => CSVWrite("%1$s", <<H[h].id>>, P.out)
CSpec == CInit /\ [][CNext]_vars
=============================================================================
