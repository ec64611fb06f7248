-------------------------- MODULE PrecedenceJudge --------------------------
(* Judges damage states and losses against the definitions that apply.       *)
EXTENDS Precedence, Judging
VARIABLES k, todo, model, lossmodel
I == Cases[k].in
O == Cases[k].obs
RowsOf(t) == [i \in DOMAIN t |-> [key |-> t[i].key, def |-> t[i].def]]
Calls(cs) == [i \in DOMAIN cs |-> [j \in DOMAIN cs[i] |-> RowsOf(cs[i][j])]]
(* demand of type t in realization i, doubled *)
Dem(t, i) == CASE t = 1 -> 2 * i [] t = 2 -> 2 * (I.n + 1 - i) [] t = 3 -> IF i % 2 = 0 THEN 2 * I.n ELSE i + 1
(* state of a block: consecutive numbers over the defined limit states; 0 = not defined *)
Number(caps, j) == Cardinality({x \in 1..j : caps[x] > 0})
State(def, i) == LET ex == {j \in DOMAIN def.caps : def.caps[j] > 0 /\ def.caps[j] < Dem(def.type, i)}
                 IN IF ex = {} THEN 0 ELSE Number(def.caps, MaxSet(ex))
WantedC == {I.comps[i] : i \in DOMAIN I.comps}
WantedL == {<<I.map[i].cons, dv>> : i \in DOMAIN I.map, dv \in ToSet(I.dvs)}
(* loss of one component in decision variable dv in realization i *)
Y(def, ds) == IF ds = 0 \/ ds > Len(def.ys) THEN 0 ELSE def.ys[ds]
Amount(m, dv, i) ==
  LET key == <<m.cons, dv>> IN
  IF key \notin DOMAIN lossmodel THEN 0
  ELSE LET def == lossmodel[key] IN
       IF m.kind = "lf" THEN m.q * def.slope * i
       ELSE IF m.cmp \notin DOMAIN model THEN 0 ELSE m.q * Y(def, State(model[m.cmp], i))
Bad ==
  IF Has(O, "exc") THEN {"error"}
  ELSE Clause("components", {O.states[i].cmp : i \in DOMAIN O.states} = DOMAIN model)
    \cup Clause("definition", \A i \in DOMAIN O.states : O.states[i].cmp \in DOMAIN model =>
                   O.states[i].ds = [r \in 1..I.n |-> State(model[O.states[i].cmp], r)])
    \cup Clause("reported", I.warn = 0 \/ ToSet(O.named) = EverMissing(Nothing, Calls(I.calls), WantedC))
    \cup (IF I.loss = 0 THEN {} ELSE
           Clause("loss-definition", \A m \in ToSet(I.map) : \A dv \in ToSet(I.dvs) : \A i \in 1..I.n :
                     LET s == {x \in DOMAIN O.losses : O.losses[x].cmp = m.cmp /\ O.losses[x].dv = dv}
                     IN SumSeq([x \in 1..Len(O.losses) |-> IF x \in s THEN O.losses[x].v[i] ELSE 0]) = Amount(m, dv, i))
           \cup Clause("loss-reported", {<<O.lnamed[x][1], O.lnamed[x][2]>> : x \in DOMAIN O.lnamed} = EverMissing(Nothing, Calls(I.lcalls), WantedL))
           \cup Clause("loss-columns", \A x \in DOMAIN O.losses : \E m \in ToSet(I.map) : m.cmp = O.losses[x].cmp /\ <<m.cons, O.losses[x].dv>> \in DOMAIN lossmodel
                                                /\ O.losses[x].cons = m.cons))
JInit == /\ k \in DOMAIN Cases /\ todo = TRUE
         /\ model = LoadAll(Nothing, Calls(I.calls), WantedC)
         /\ lossmodel = IF I.loss = 0 THEN Nothing ELSE LoadAll(Nothing, Calls(I.lcalls), WantedL)
JNext == todo /\ Report(Cases[k].id, Bad) /\ todo' = FALSE /\ UNCHANGED <<k, model, lossmodel>>
=============================================================================
