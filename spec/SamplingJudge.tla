--------------------------- MODULE SamplingJudge ---------------------------
(* Judges recorded samples. in.kind:                                         *)
(*  "reg"   a registry: in.vars[i] = [kind, anchor, group, sign, w, D, raw]  *)
(*          kind cont | cats | index | raw | const; anchor = index or 0;     *)
(*          group/sign = correlated group (0: none). obs.v[i] = [s, mid, out, *)
(*          rank, c, same, again, other]: strata, thousandths in the stratum, *)
(*          values outside the support, ranks, category or index or position  *)
(*          of the value, agreement of all ways to read it, ...               *)
(*  "pairs" a correlated set: obs.pairs = [want, got] in hundredths           *)
(*  "repeat" obs.digests: one per run that must not differ                    *)
EXTENDS Sampling, Judging
VARIABLES k, todo
I == Cases[k].in
O == Cases[k].obs
N == I.n
Lhs == I.method # "MonteCarlo"
RECURSIVE Root(_)
Root(i) == IF I.vars[i].anchor = 0 THEN i ELSE Root(I.vars[i].anchor)
Of(kind) == {i \in DOMAIN I.vars : I.vars[i].kind = kind}
(* with more than one group the strata of a set are mixed *)
Mixed(i) == I.vars[Root(i)].group > 0 /\ I.groups > 1
Strat == {i \in Of("cont") : Lhs /\ ~Mixed(i)}
Count(i, c) == Cardinality({r \in 1..N : O.v[i].c[r] = c})
Discrete == Of("cats") \cup Of("index")
KnownRoot(i) == Root(i) \in Of("cont")
Bad16 ==
  Clause("strata", \A i \in Strat : Stratified(O.v[i].s))
  \cup Clause("midpoint", I.method # "LHS_midpoint" \/ \A i \in Strat : \A r \in 1..N : Abs(O.v[i].mid[r] - 500) <= 2)
  \cup Clause("limits", \A i \in Of("cont") : O.v[i].out = 0)
  \cup Clause("distribution-function", \A i \in Of("cont") : O.v[i].cdf = 1)
  \cup Clause("map", \A i \in DOMAIN I.vars : O.v[i].same = 1)
  \cup Clause("categories", \A i \in Discrete : \A r \in 1..N : O.v[i].c[r] \in 1..Len(I.vars[i].w) /\ (I.vars[i].w[O.v[i].c[r]] > 0 \/ O.v[i].c[r] = Len(I.vars[i].w)))
  \cup Clause("counts", \A i \in {x \in Discrete : Lhs /\ ~Mixed(x)} : \A c \in 1..Len(I.vars[i].w) : CountOk(Count(i, c), I.vars[i].w, I.vars[i].D, N, c))
  \cup Clause("constants", \A i \in Of("const") : \A r \in 1..N : O.v[i].c[r] = 1)
Bad15 ==
  Clause("anchored", \A i \in Of("cont") : KnownRoot(i) => O.v[i].s = O.v[Root(i)].s /\ O.v[i].rank = O.v[Root(i)].rank)
  \cup Clause("anchored-discrete", \A i \in Discrete : KnownRoot(i) => \A r \in 1..N :
                  /\ O.v[i].c[r] \in InStratum(I.vars[i].w, I.vars[i].D, N, O.v[Root(i)].s[r])
                  /\ (I.method = "LHS_midpoint" /\ ~Mixed(i)) => O.v[i].c[r] \in AtMid(I.vars[i].w, I.vars[i].D, N, O.v[Root(i)].s[r]))
  \cup Clause("sets", \A i, j \in Of("cont") : LET a == I.vars[Root(i)] b == I.vars[Root(j)] IN
                  (a.group > 0 /\ a.group = b.group) =>
                     O.v[i].rank = (IF a.sign = b.sign THEN O.v[j].rank ELSE Mirror(O.v[j].rank)))
  \cup Clause("independent", N < 12 \/ \A i, j \in Of("cont") : LET a == I.vars[Root(i)] b == I.vars[Root(j)] IN
                  (Root(i) # Root(j) /\ (a.group = 0 \/ a.group # b.group)) => O.v[i].rank # O.v[j].rank /\ O.v[i].rank # Mirror(O.v[j].rank))
  \cup Clause("own-distribution", \A i \in Strat : \A r \in 1..N : O.v[i].s[r] >= 0)
  \cup Clause("cyclic", \A i \in Of("raw") : \A r \in 1..N : O.v[i].c[r] = Cyclic([x \in 1..I.vars[i].D |-> x], r))
  \cup Clause("repeat", \A i \in DOMAIN I.vars : O.v[i].again = 1)
BadPairs == Clause("correlation", \A p \in DOMAIN O.pairs : Abs(O.pairs[p].want - O.pairs[p].got) <= 9)
            \cup Clause("count", Len(O.pairs) = (I.size * (I.size - 1)) \div 2)
BadRepeat == Clause("repeat", \A x, y \in DOMAIN O.digests : O.digests[x] = O.digests[y])
Bad == IF Has(O, "exc") THEN {"error"}
       ELSE IF I.kind = "reg" THEN (IF I.prop = "C15" THEN Bad15 ELSE Bad16)
       ELSE IF I.kind = "pairs" THEN BadPairs ELSE BadRepeat
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
