---------------------------- MODULE LossFnJudge ----------------------------
EXTENDS LossFn, Judging

VARIABLES k, g, bad, Pairs, Fine, Want
C == Cases[k]
I == C.in
AllPairs == {<<x, d>> \in (DOMAIN I.groups) \X (DOMAIN I.dvs) :
             ParamsOf(I.params, I.map, I.groups[x].cmp, I.dvs[d]) # {}}
Par(x, d) == I.params[CHOOSE i \in ParamsOf(I.params, I.map, I.groups[x].cmp, I.dvs[d]) : TRUE]
AllThere(Prs) == \A pr \in Prs : Available(I.sample, Par(pr[1], pr[2]).term, I.groups[pr[1]].loc, I.groups[pr[1]].dir, I.opts)
AllIn(Prs) == \A pr \in Prs : \A r \in 1..I.n :
            InDomain(Par(pr[1], pr[2]).xs, Drive(I, Par(pr[1], pr[2]), I.groups[pr[1]], r))
Err == Has(C.obs, "exc")

Of(o) == {x \in DOMAIN I.groups : LET p == I.groups[x] IN
             p.cmp = o.dmg /\ p.loc = o.loc /\ p.dir = o.dir /\ p.uid = o.uid}
ColumnBad(o) ==
  LET src == {pr \in Pairs : pr[1] \in Of(o) /\ I.dvs[pr[2]] = o.dv}
  IN IF src = {} THEN {"invented-column"}
     ELSE LET pr == CHOOSE x \in src : TRUE
              grp == I.groups[pr[1]]
              p == Par(pr[1], pr[2])
          IN Clause("loss-id", o.loss = p.cons) \cup Clause("realizations", Len(o.v) = I.n)
             \cup IF p.rnd = 0
                  THEN Clause("loss-value", \A r \in DOMAIN o.v : Abs(o.v[r] - 100 * Want[pr][r]) <= 1)
                  ELSE IF grp.blocks = 1
                  THEN Clause("deviation", {o.rank[r] : r \in DOMAIN o.rank} = 0..(I.n - 1))
                  ELSE Clause("block-deviations", {o.rank[r] : r \in DOMAIN o.rank} # 0..(I.n - 1))

JInit == /\ k \in DOMAIN Cases /\ g = 1 /\ bad = {}
         /\ Pairs = AllPairs /\ Fine = (AllThere(Pairs) /\ AllIn(Pairs))
         /\ Want = IF Fine THEN [pr \in Pairs |-> [r \in 1..I.n |-> LossOf(I, Par(pr[1], pr[2]), I.groups[pr[1]], r)]] ELSE <<>>
StepColumn == /\ Fine /\ ~Err /\ g <= Len(C.obs.cols)
              /\ bad' = bad \cup ColumnBad(C.obs.cols[g])
              /\ g' = g + 1 /\ UNCHANGED <<k, Pairs, Fine, Want>>
Missing == Clause("missing-column", \A pr \in Pairs :
              (\E r \in 1..I.n : Want[pr][r] # 0) =>
                 \E o \in DOMAIN C.obs.cols : pr[1] \in Of(C.obs.cols[o]) /\ C.obs.cols[o].dv = I.dvs[pr[2]])
Same == Clause("other-model", C.obs.ds = I.dsexpect)
Dup == Clause("duplicate-column", Cardinality({<<C.obs.cols[o].dv, C.obs.cols[o].dmg, C.obs.cols[o].loc, C.obs.cols[o].dir, C.obs.cols[o].uid>> : o \in DOMAIN C.obs.cols}) = Len(C.obs.cols))
Finish == /\ IF Err THEN /\ g = 1 /\ Report(C.id, Clause("unexpected-error", ~Fine))
             ELSE IF ~Fine THEN /\ g = 1 /\ Report(C.id, {"bad-demand-accepted"})
             ELSE /\ g = Len(C.obs.cols) + 1 /\ Report(C.id, bad \cup Missing \cup Same \cup Dup)
          /\ g' = 1000 /\ UNCHANGED <<k, bad, Pairs, Fine, Want>>
JNext == g < 1000 /\ (StepColumn \/ Finish)
=============================================================================
