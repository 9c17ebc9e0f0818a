------------------------------ MODULE SnapSync ------------------------------
(***************************************************************************)
(* In-memory snapshots that exchange clients (property C11).               *)
(*                                                                         *)
(*   snaps  snapshot -> [cs: client path -> client (module Vault; entries  *)
(*          are numbered by the write that made them), sks: location ->    *)
(*          key held there]                                                *)
(*   msgs   sequence of exported states [cs, key, bad]                     *)
(*   n      number of writes                                               *)
(***************************************************************************)
EXTENDS Vault, Json, IOUtils
CONSTANTS Snaps
Init0 == [snaps |-> [x \in Snaps |-> [cs |-> EmptyFn, sks |-> EmptyFn]], msgs |-> <<>>, n |-> 0]
Ok == [ok |-> TRUE]
Err == [ok |-> FALSE]
AR(s, res) == [s |-> s, res |-> res]
Client(cs, p) == IF p \in DOMAIN cs THEN cs[p] ELSE EmptyClient

(* cfg: all or the clients sc; mc partial function client -> client; cc     *)
(* partial function client -> what is synchronised of it and how; pol for  *)
(* the others.                                                             *)
Everything(pol) == [all |-> TRUE, sv |-> {}, sr |-> EmptyFn, mp |-> EmptyFn, pol |-> pol]
SelClients(src, cfg) == IF cfg.all THEN DOMAIN src ELSE cfg.sc \cap DOMAIN src
MappedC(cfg, p) == IF p \in DOMAIN cfg.mc THEN cfg.mc[p] ELSE p
Of(cfg, p) == IF p \in DOMAIN cfg.cc THEN cfg.cc[p] ELSE Everything(cfg.pol)
Places(src, cfg, p) == UNION {{<<Mapped(Of(cfg, p), v), id>> : id \in SelIds(src[p], Of(cfg, p), v)} : v \in SelVaults(src[p], Of(cfg, p))}
\* no two source records compete for one place
NoContest(src, cfg) ==
    /\ \A p \in SelClients(src, cfg) : ConflictFree(src[p], Of(cfg, p))
    /\ \A p, q \in SelClients(src, cfg) :
          p # q /\ MappedC(cfg, p) = MappedC(cfg, q) => Places(src, cfg, p) \cap Places(src, cfg, q) = {}
RECURSIVE MergeFrom(_, _, _, _)
MergeFrom(src, dst, cfg, S) ==
    IF S = {} THEN dst
    ELSE LET p == CHOOSE p \in S : TRUE
             q == MappedC(cfg, p) IN
         MergeFrom(src, (q :> SyncInto(src[p], Client(dst, q), Of(cfg, p))) @@ dst, cfg, S \ {p})
Merge(src, dst, cfg) == MergeFrom(src, dst, cfg, SelClients(src, cfg))

(* sel: client -> vault -> records                                         *)
Exportable(cs, sel) == \A p \in DOMAIN sel : \A v \in DOMAIN sel[p] : HasVault(Client(cs, p), v)
\* a selection that names a revoked record may be refused; what it carries is the live ones
Doubtful(cs, sel) == \E p \in DOMAIN sel : \E v \in DOMAIN sel[p] : \E id \in sel[p][v] : IsRevoked(Client(cs, p), v, id)
Exported(cs, sel) ==
    LET ps == {p \in DOMAIN sel : DOMAIN sel[p] # {}} IN
    [p \in ps |-> [EmptyClient EXCEPT !.vaults =
        [v \in DOMAIN sel[p] |-> [id \in sel[p][v] \cap LiveIds(cs[p], v) |-> cs[p].vaults[v][id]]]]]

Cs(s, x) == s.snaps[x].cs
SetC(s, x, p, c) == [s EXCEPT !.snaps[x].cs = (p :> c) @@ @]
CanImport(s, op) ==
    LET m == s.msgs[op.m] IN
    /\ op.l \in DOMAIN s.snaps[op.x].sks /\ s.snaps[op.x].sks[op.l] = m.key
    /\ op.e = op.m /\ ~m.bad
Admitted(s, op) ==
    CASE op.k = "import" -> NoContest(s.msgs[op.m].cs, op.cfg)
      [] op.k = "merge" -> NoContest(Cs(s, op.y), op.cfg)
      [] OTHER -> TRUE
Apply(s, op) ==
    CASE op.k = "write" -> LET c == WithVault(Client(Cs(s, op.x), op.p), op.l[1]) IN
                           IF IsRevoked(c, op.l[1], op.l) THEN AR(s, Err)
                           ELSE AR([SetC(s, op.x, op.p, PutId(c, op.l[1], op.l, s.n + 1)) EXCEPT !.n = @ + 1], Ok)
      [] op.k = "revoke" -> LET c == Client(Cs(s, op.x), op.p) IN
                            AR(IF Has(c, op.v, op.id) THEN SetC(s, op.x, op.p, [c EXCEPT !.vaults[op.v][op.id].rev = TRUE]) ELSE s, Ok)
      [] op.k = "gc" -> LET c == Client(Cs(s, op.x), op.p) IN
                        AR(IF HasVault(c, op.v) THEN SetC(s, op.x, op.p, [c EXCEPT !.vaults[op.v] = Restrict(@, LiveIds(c, op.v))]) ELSE s, Ok)
      [] op.k = "put" -> AR([SetC(s, op.x, op.p, [Client(Cs(s, op.x), op.p) EXCEPT !.store = (op.key :> (s.n + 1)) @@ @]) EXCEPT !.n = @ + 1], Ok)
      [] op.k = "purge" -> AR([s EXCEPT !.snaps[op.x].cs = Remove(@, {op.p})], Ok)
      [] op.k = "setsk" -> AR([s EXCEPT !.snaps[op.x].sks = (op.l :> op.j) @@ @], Ok)
      [] op.k = "merge" -> AR([s EXCEPT !.snaps[op.x].cs = Merge(Cs(s, op.y), @, op.cfg)], Ok)
      [] op.k = "export" -> IF Exportable(Cs(s, op.x), op.sel)
                            THEN AR([s EXCEPT !.msgs = Append(@, [cs |-> Exported(Cs(s, op.x), op.sel), key |-> op.j, bad |-> FALSE])],
                                    [ok |-> TRUE, maybe |-> Doubtful(Cs(s, op.x), op.sel)])
                            ELSE AR(s, Err)
      [] op.k = "damage" -> AR([s EXCEPT !.msgs[op.m].bad = TRUE], Ok)
      [] op.k = "import" -> IF CanImport(s, op)
                            THEN AR([s EXCEPT !.snaps[op.x].cs = Merge(s.msgs[op.m].cs, @, op.cfg)], Ok)
                            ELSE AR(s, Err)
      \* through a snapshot file: clients stay, keys do not
      [] op.k = "file" -> AR([s EXCEPT !.snaps[op.x].sks = EmptyFn], Ok)

ProjC(c) == [rs |-> UNION {{[v |-> v, o |-> id[1], r |-> id[2], t |-> c.vaults[v][id].t] : id \in LiveIds(c, v)} : v \in DOMAIN c.vaults},
             st |-> {[k |-> k, t |-> c.store[k]] : k \in DOMAIN c.store}]
Proj(s) == [x \in Snaps |-> {[p |-> p, c |-> ProjC(s.snaps[x].cs[p])] : p \in DOMAIN s.snaps[x].cs}]

(***************************************************************************)
(* C11 as a relation between the state before and after a merge or import. *)
(***************************************************************************)
LiveAt(cs, p, v, id) == p \in DOMAIN cs /\ IsLive(cs[p], v, id)
Val(cs, p, v, id) == cs[p].vaults[v][id].t
P_C11(s, op, res, t) ==
    /\ op.k \in {"merge", "import"} /\ res.ok =>
         LET src == IF op.k = "merge" THEN Cs(s, op.y) ELSE s.msgs[op.m].cs
             old == Cs(s, op.x)  new == Cs(t, op.x)  cfg == op.cfg
             sel == {w \in UNION {{<<p, v, id>> : v \in DOMAIN src[p].vaults, id \in UNION {DOMAIN src[p].vaults[v] : v \in DOMAIN src[p].vaults}} : p \in DOMAIN src} :
                        /\ w[1] \in SelClients(src, cfg) /\ w[2] \in SelVaults(src[w[1]], Of(cfg, w[1]))
                        /\ w[3] \in SelIds(src[w[1]], Of(cfg, w[1]), w[2])}
             to(w) == <<MappedC(cfg, w[1]), Mapped(Of(cfg, w[1]), w[2]), w[3]>> IN
         \* every selected record arrives, unless it is kept away by one that was there
         /\ \A w \in sel : LET q == to(w) IN
              /\ LiveAt(new, q[1], q[2], q[3])
              /\ Val(new, q[1], q[2], q[3]) =
                    IF Of(cfg, w[1]).pol = "keep" /\ LiveAt(old, q[1], q[2], q[3]) THEN Val(old, q[1], q[2], q[3]) ELSE Val(src, w[1], w[2], w[3])
         \* everything else is as it was
         /\ \A p \in DOMAIN new : \A v \in DOMAIN new[p].vaults : \A id \in LiveIds(new[p], v) :
              <<p, v, id>> \in {to(w) : w \in sel} \/ (LiveAt(old, p, v, id) /\ Val(old, p, v, id) = Val(new, p, v, id))
         /\ \A p \in DOMAIN old : p \in DOMAIN new /\ new[p].store = old[p].store
              /\ \A v \in DOMAIN old[p].vaults : \A id \in LiveIds(old[p], v) : LiveAt(new, p, v, id)
         \* doing it again changes nothing
         /\ op.k = "import" \/ op.x # op.y => Merge(src, new, cfg) = new
    /\ op.k \in {"merge", "import"} => \A y \in Snaps \ {op.x} : t.snaps[y] = s.snaps[y]
    /\ op.k = "import" /\ ~res.ok => t = s
    /\ op.k = "export" => t.snaps = s.snaps
=============================================================================
