------------------------- MODULE DemandSampleJudge -------------------------
(* in: names, units, raw (rows of integers), drop (rows flagged as errors),  *)
(* marg (function name -> [kind, lo, hi]) and acts; obs.steps[i] after act i: *)
(* err, cols = sequence of [name, unit, vals], n, warned; for damage: ds      *)
EXTENDS DemandSample, Judging
VARIABLES k, todo
I == Cases[k].in
O == Cases[k].obs
NSeq == I.names
Rows == LET RECURSIVE f(_) f(r) == IF r > Len(I.raw) THEN <<>> ELSE (IF r \in ToSet(I.drop) THEN <<>> ELSE <<I.raw[r]>>) \o f(r + 1) IN f(1)
ColOf(src) == CHOOSE j \in DOMAIN NSeq : NSeq[j] = src
OwnId(names, units) == [n \in {names[i] : i \in DOMAIN names} |->
     [src |-> n, id |-> n, unit |-> units[CHOOSE i \in DOMAIN names : names[i] = n]]]
Loaded == [cols |-> OwnId(NSeq, I.units), model |-> <<>>, mode |-> "raw", n |-> Len(Rows)]
Generated(st, a) == [st EXCEPT !.cols = [n \in DOMAIN st.model |-> [st.model[n] EXCEPT !.id = n]],
                               !.mode = IF a.preserve = 1 THEN "cyclic" ELSE "draw", !.n = a.size]
After(st, a) ==
  CASE a.op = "calibrate" -> [st EXCEPT !.model = st.cols]
    [] a.op = "model" -> [st EXCEPT !.model = OwnId(NSeq, I.units)]
    [] a.op = "generate" -> LET g == Generated(st, a) IN [g EXCEPT !.cols = Clone(g.cols, a.clone)]
    [] a.op = "clone" -> [st EXCEPT !.cols = Clone(st.cols, a.clone)]
    [] a.op = "expand" -> [st EXCEPT !.cols = [n \in DOMAIN st.cols \cup {a.name} |->
            IF n = a.name THEN [src |-> "+", id |-> a.name, unit |-> a.unit] ELSE st.cols[n]]]
    [] OTHER -> st
RECURSIVE StateAt(_)
StateAt(s) == IF s = 0 THEN Loaded ELSE After(StateAt(s - 1), I.acts[s])
Fails(st, a) == IF a.op = "clone" THEN Rejected(st.cols, a.clone)
                ELSE IF a.op = "generate" THEN Rejected(Generated(st, a).cols, a.clone) ELSE FALSE
Noted(st, a) == IF a.op = "clone" THEN Unknown(st.cols, a.clone)
                ELSE IF a.op = "generate" THEN Unknown(Generated(st, a).cols, a.clone) ELSE {}
GoodVal(st, org, r, v) ==
  IF org.src = "+" THEN v = 7
  ELSE IF I.marg[org.src].kind # "raw" THEN I.marg[org.src].lo <= v /\ v <= I.marg[org.src].hi
  ELSE IF st.mode = "draw" THEN \E q \in DOMAIN Rows : Rows[q][ColOf(org.src)] = v
  ELSE v = Rows[Cyclic(r, Len(Rows))][ColOf(org.src)]
Named(o) == {o.cols[c].name : c \in DOMAIN o.cols}
BadTable(st, o) ==
  Clause("columns", Named(o) = DOMAIN st.cols /\ Len(o.cols) = Cardinality(DOMAIN st.cols))
  \cup Clause("count", o.n = st.n /\ \A c \in DOMAIN o.cols : Len(o.cols[c].vals) = st.n)
  \cup (IF Named(o) # DOMAIN st.cols \/ o.n # st.n THEN {} ELSE
    Clause("values", \A c \in DOMAIN o.cols : \A r \in 1..st.n : GoodVal(st, st.cols[o.cols[c].name], r, o.cols[c].vals[r]))
    \cup Clause("copies", \A c, d \in DOMAIN o.cols : st.cols[o.cols[c].name].id = st.cols[o.cols[d].name].id => o.cols[c].vals = o.cols[d].vals)
    \cup Clause("units", \A c \in DOMAIN o.cols : o.cols[c].unit = st.cols[o.cols[c].name].unit))
BadDamage(st, o) ==
  Clause("damage", /\ {o.ds[c].name : c \in DOMAIN o.ds} = DOMAIN st.cols
                   /\ \A c \in DOMAIN o.ds : \A d \in DOMAIN o.cols : o.cols[d].name = o.ds[c].name =>
                        \A r \in 1..st.n : (o.ds[c].ds[r] = 1) <=> (o.cols[d].vals[r] > I.thr))
BadStep(s) ==
  LET st0 == StateAt(s - 1) st == StateAt(s) a == I.acts[s] o == O.steps[s]
  IN Clause("rejects", (o.err = 1) <=> Fails(st0, a))
     \cup (IF o.ignore = 1 THEN {} ELSE BadTable(st, o))
     \cup Clause("unknown-reported", Fails(st0, a) \/ Noted(st0, a) \subseteq ToSet(o.warned))
     \cup (IF a.op = "damage" THEN BadDamage(st, o) ELSE {})
Bad == IF Has(O, "exc") THEN {"error"} ELSE UNION {BadStep(s) : s \in DOMAIN I.acts}
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
