---------------------------- MODULE OptionsJudge ----------------------------
(* A tree comes as [leaves: sequence of [path, val], groups: sequence of       *)
(* paths].  kind "merge": in.user, in.defaults; obs.error, obs.merged,          *)
(* obs.kept (the defaults are unchanged).  kind "paths": in.tree, in.ops;       *)
(* obs.ops[i]: tree, and got or answer.  kind "assess": in.defaults, in.steps,  *)
(* in.seen (the names of the observed settings), in.streams[seed]; obs.steps[i]:*)
(* error, user, effs, drawn                                                     *)
EXTENDS Options, Judging
VARIABLES k, todo
I == Cases[k].in
O == Cases[k].obs
T(x) == [leaves |-> ToSet(x.leaves), groups |-> ToSet(x.groups)]
-----------------------------------------------------------------------------
BadMerge ==
  LET u == T(I.user) d == T(I.defaults) IN
  Clause("conflict", (O.error = 1) = Conflict(u, d))
  \cup (IF O.error = 1 \/ Conflict(u, d) THEN {} ELSE
          LET m == T(O.merged) IN
          Clause("user wins", \A l \in u.leaves : l \in m.leaves)
          \cup Clause("defaults fill", m = Merged(u, d)))
  \cup Clause("defaults kept", O.kept = 1)
-----------------------------------------------------------------------------
RECURSIVE TreeAt(_)
Does(t, op) == CASE op.act = "put" -> Put(t, op.path, op.val)
                 [] op.act = "putif" -> PutIf(t, op.path, op.val)
                 [] OTHER -> t
TreeAt(i) == IF i = 0 THEN T(I.tree) ELSE Does(TreeAt(i - 1), I.ops[i])
BadPaths == UNION {
  LET op == I.ops[i] o == O.ops[i] before == TreeAt(i - 1) IN
  Clause("exactly the entry", T(o.tree) = TreeAt(i))
  \cup (CASE op.act = "get" -> LET g == Got(before, op.path) IN
                Clause("lookup", o.got.kind = g.kind /\ (g.kind = "leaf" => o.got.val = g.val) /\ (g.kind = "group" => T(o.got.sub) = g.sub))
          [] op.act = "unspecified" -> Clause("unspecified", o.answer = (IF Unspecified(before, op.path) THEN 1 ELSE 0))
          [] OTHER -> {}) : i \in DOMAIN I.ops}
-----------------------------------------------------------------------------
(* the assessments: [eff, seed, drawn] *)
Seen(t) == [leaves |-> {l \in t.leaves : l.path[1] \in ToSet(I.seen) /\ (l.path[1] = "Sampling" => l.path[2] = "SamplingMethod")},
            groups |-> {g \in t.groups : g[1] \in ToSet(I.seen)}]
Create(st) == IF Conflict(st.user, T(I.defaults)) THEN st
              ELSE LET m == Merged(st.user, T(I.defaults))
                   IN [st EXCEPT !.all = Append(@, [eff |-> m, seed |-> ValueAt(m, <<"Seed">>), drawn |-> 0])]
Step(st, a) ==
  CASE a.act = "change" -> [st EXCEPT !.user = Put(@, a.path, a.val)]
    [] a.act = "create" -> Create(st)
    [] a.act = "set" -> [st EXCEPT !.all[a.who].eff = Put(@, a.path, a.val)]
    [] a.act = "draw" -> [st EXCEPT !.all[a.who].drawn = @ + 1]
    [] a.act \in {"reseed", "run"} -> [st EXCEPT !.all[a.who].seed = a.val, !.all[a.who].drawn = 0, !.all[a.who].eff = Put(@, <<"Seed">>, a.val)]
RECURSIVE StateAt(_)
StateAt(i) == IF i = 0 THEN [user |-> T(I.user), all |-> << >>] ELSE Step(StateAt(i - 1), I.steps[i])
BadStep(i) ==
  LET a == I.steps[i] o == O.steps[i] st == StateAt(i) before == StateAt(i - 1) IN
  Clause("conflict", a.act = "create" => (o.error = 1) = Conflict(before.user, T(I.defaults)))
  \cup Clause("error", a.act # "create" => o.error = 0)
  \cup Clause("caller", T(o.user) = st.user)
  \cup Clause("effective", Len(o.effs) = Len(st.all) /\ \A j \in DOMAIN o.effs : T(o.effs[j]) = Seen(st.all[j].eff))
  \cup Clause("stream", a.act = "draw" => LET s == before.all[a.who] IN
                          s.seed \in DOMAIN I.streams => o.drawn = I.streams[s.seed][s.drawn + 1])
Bad == IF Has(O, "exc") THEN {"error"}
       ELSE CASE I.kind = "merge" -> BadMerge
              [] I.kind = "paths" -> BadPaths
              [] I.kind = "assess" -> UNION {BadStep(i) : i \in DOMAIN I.steps}
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
