------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The vault engine (engine/src/vault, DbView), property C24.              *)
(*                                                                         *)
(*   vaults  vault -> [key, recs: record -> [val, hint, blob, live]]       *)
(*   packs   sequence of exported records: sequences of [rid, rec, key,    *)
(*           bad], sealed under the key; what the id inside says is        *)
(*           rec.id; bad: some bit of it was changed on the way            *)
(*   n       number of blob identifiers given out                          *)
(*                                                                         *)
(* A vault belongs to the key it was created with; with any other key      *)
(* nothing is returned and nothing changes.  A revoked record is not there *)
(* for anybody; it makes way for a new one at garbage collection, or when  *)
(* a record of that id is imported.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
EmptyFn == [x \in {} |-> 0]
Init0 == [vaults |-> EmptyFn, packs |-> <<>>, n |-> 0]
Put(f, k, v) == (k :> v) @@ f
Ok == [ok |-> TRUE, v |-> "unit", ran |-> TRUE]
OkV(x) == [ok |-> TRUE, v |-> x, ran |-> TRUE]
Err == [ok |-> FALSE, v |-> "err", ran |-> TRUE]
NotRun == [ok |-> FALSE, v |-> "err", ran |-> FALSE]
AR(s, res) == [s |-> s, res |-> res]

Has(s, vid) == vid \in DOMAIN s.vaults
Opens(s, vid, k) == Has(s, vid) /\ s.vaults[vid].key = k
There(s, vid, rid) == Has(s, vid) /\ rid \in DOMAIN s.vaults[vid].recs
Live(s, vid, rid) == There(s, vid, rid) /\ s.vaults[vid].recs[rid].live
LiveRecs(s, vid) == {r \in DOMAIN s.vaults[vid].recs : s.vaults[vid].recs[r].live}
Readable(s, k, vid, rid) == Opens(s, vid, k) /\ Live(s, vid, rid)
Made(s, vid, k) == IF Has(s, vid) THEN s ELSE [s EXCEPT !.vaults = Put(@, vid, [key |-> k, recs |-> EmptyFn])]

Writable(s, k, vid, rid) == (Has(s, vid) => s.vaults[vid].key = k) /\ (There(s, vid, rid) => Live(s, vid, rid))
Written(s, k, vid, rid, val, hint) ==
    LET m == Made(s, vid, k)
        h == IF Live(m, vid, rid) THEN m.vaults[vid].recs[rid].hint ELSE hint IN
    [m EXCEPT !.n = @ + 1,
              !.vaults[vid].recs = Put(@, rid, [val |-> val, hint |-> h, blob |-> m.n + 1, live |-> TRUE, id |-> rid])]

\* what a pack's record opens with
PackOk(x, k, rid) == x.key = k /\ x.rec.live /\ x.rec.id = rid /\ ~x.bad
Importable(s, op) ==
    /\ \A i \in DOMAIN s.packs[op.p] : PackOk(s.packs[op.p][i], op.old, s.packs[op.p][i].rid)
    /\ Has(s, op.vid) => s.vaults[op.vid].key = op.new
RECURSIVE PutAll(_, _)
PutAll(recs, pack) == IF pack = <<>> THEN recs ELSE PutAll(Put(recs, Head(pack).rid, Head(pack).rec), Tail(pack))
Sources(op) == op.src
Value(s, x) == s.vaults[x.vid].recs[x.rid].val
RECURSIVE Concat(_)
Concat(vs) == IF vs = <<>> THEN <<>> ELSE Head(vs) \o Concat(Tail(vs))
\* record ids in a fixed order: the ids are numbers
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Ordered(S \ {m})
ToPack(s, vid, rids) == [i \in 1..Len(rids) |-> [rid |-> rids[i], rec |-> s.vaults[vid].recs[rids[i]], key |-> s.vaults[vid].key, bad |-> FALSE]]

Admitted(s, op) ==
    CASE op.k = "import" -> op.p \in DOMAIN s.packs
      [] op.k \in {"rekey", "relabel", "flip"} -> op.p \in DOMAIN s.packs /\ op.i \in DOMAIN s.packs[op.p]
      [] op.k = "exec" -> Len(op.src) <= 2 /\ (\A i \in DOMAIN op.src : Readable(s, op.src[i].key, op.src[i].vid, op.src[i].rid) => Len(Value(s, op.src[i])) <= 2)
      [] OTHER -> TRUE

Apply(s, op) ==
    CASE op.k = "init" -> AR(Made(s, op.vid, op.key), Ok)
      [] op.k = "write" -> IF Writable(s, op.key, op.vid, op.rid)
                           THEN AR(Written(s, op.key, op.vid, op.rid, op.val, op.hint), Ok) ELSE AR(s, Err)
      [] op.k = "revoke" -> IF ~Has(s, op.vid) THEN AR(s, Ok)
                            ELSE IF ~Opens(s, op.vid, op.key) THEN AR(s, Err)
                            ELSE IF There(s, op.vid, op.rid) THEN AR([s EXCEPT !.vaults[op.vid].recs[op.rid].live = FALSE], Ok)
                            ELSE AR(s, Ok)
      [] op.k = "gc" -> AR(IF Opens(s, op.vid, op.key)
                           THEN [s EXCEPT !.vaults[op.vid].recs = [r \in LiveRecs(s, op.vid) |-> @[r]]] ELSE s, Ok)
      [] op.k = "exec" ->
            IF ~\A i \in DOMAIN op.src : Readable(s, op.src[i].key, op.src[i].vid, op.src[i].rid) THEN AR(s, NotRun)
            ELSE IF ~op.fail /\ Writable(s, op.key, op.vid, op.rid)
            THEN AR(Written(s, op.key, op.vid, op.rid, Concat([i \in DOMAIN op.src |-> Value(s, op.src[i])]) \o <<"x">>, op.hint), Ok)
            ELSE AR(s, Err)
      [] op.k = "export" ->
            IF ~Has(s, op.vid) THEN AR(s, Err)
            ELSE LET rids == Ordered(op.rids \cap DOMAIN s.vaults[op.vid].recs) IN
                 AR([s EXCEPT !.packs = Append(@, ToPack(s, op.vid, rids))], OkV(rids))
      [] op.k = "rekey" ->
            LET x == s.packs[op.p][op.i] IN
            IF PackOk(x, op.old, op.oid)
            THEN AR([s EXCEPT !.packs[op.p][op.i] = [rid |-> op.nid, rec |-> [x.rec EXCEPT !.id = op.nid], key |-> op.new, bad |-> FALSE]], Ok)
            ELSE AR(s, Err)
      [] op.k = "relabel" -> AR([s EXCEPT !.packs[op.p][op.i].rid = op.nid], Ok)
      [] op.k = "flip" -> AR([s EXCEPT !.packs[op.p][op.i].bad = TRUE], Ok)
      [] op.k = "import" ->
            IF Importable(s, op)
            THEN AR([Made(s, op.vid, op.new) EXCEPT !.vaults[op.vid].recs = PutAll(@, s.packs[op.p])], Ok)
            ELSE AR(s, Err)
      [] op.k = "clear" -> AR([s EXCEPT !.vaults = EmptyFn], Ok)
      [] op.k \in {"serde", "clone"} -> AR(s, Ok)

\* lists of pairs, since keys are numbers
Proj(s) == [vaults |-> [v \in DOMAIN s.vaults |->
                          [key |-> s.vaults[v].key,
                           recs |-> LET o == Ordered(LiveRecs(s, v)) IN
                                    [i \in DOMAIN o |-> LET r == s.vaults[v].recs[o[i]] IN [rid |-> o[i], val |-> r.val, hint |-> r.hint, blob |-> r.blob]]]],
            packs |-> [p \in DOMAIN s.packs |-> Len(s.packs[p])]]
=============================================================================
