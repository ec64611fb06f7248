------------------------------- MODULE DLCalc -------------------------------
(* A damage and loss calculation (properties C25 and C30): from the rows of   *)
(* the demand file and the configuration to the tables in the result files.   *)
(*                                                                            *)
(* A configuration x is a record. Demands are integers (thousandths), one     *)
(* sequence per row of the file in x.rows, with the columns x.cols            *)
(* [edp, loc, dir]. Components are [id, locs, dirs, qty, edp, base, offset,   *)
(* directional, limits]; each stands for one performance group at every       *)
(* location and direction. Nothing is random: limits are fixed values.        *)
EXTENDS DamageProcess, SequencesExt

NAN == -99999
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumOver(S \ {e}, f)
Field(r, f) == DOMAIN r # {} /\ f \in DOMAIN r
MaxIn(S) == CHOOSE m \in S : \A y \in S : y <= m
MinIn(S) == CHOOSE m \in S : \A y \in S : m <= y
Str(i) == ToString(i)

(* -- demands ------------------------------------------------------------- *)
(* rows with a demand above a collapse limit are left out *)
Kept(x) == SelectSeq([j \in DOMAIN x.rows |-> j],
             LAMBDA j : \A q \in DOMAIN x.limits : \A c \in DOMAIN x.cols :
                          x.cols[c].edp = x.limits[q].edp => x.rows[j][c] <= x.limits[q].v)
(* realizations are the rows in order, over and over *)
RowOf(x, r) == LET k == Kept(x) IN x.rows[k[((r - 1) % Len(k)) + 1]]
Runs(x) == 1..x.samples
(* Residual drifts can be inferred from the peak drifts in some directions.   *)
(* Their values are random, unless the peak drift is below the yield drift;   *)
(* above it they are some positive number (yield drifts here are so small     *)
(* that it exceeds the capacity).                                             *)
Positive == 88888
Drifting(x) == SelectSeq(x.cols, LAMBDA c : c.edp = "PID" /\ \E q \in DOMAIN x.inferred : x.inferred[q].dir = c.dir)
Cols(x) == x.cols \o [q \in DOMAIN Drifting(x) |-> [Drifting(x)[q] EXCEPT !.edp = "RID", !.unit = "unitless"]]
Peak(x, row, c) == row[CHOOSE q \in DOMAIN x.cols : x.cols[q].edp = "PID" /\ x.cols[q].loc = c.loc /\ x.cols[q].dir = c.dir]
Yield(x, c) == x.inferred[CHOOSE q \in DOMAIN x.inferred : x.inferred[q].dir = c.dir].at
Full(x, row) == row \o [q \in DOMAIN Drifting(x) |-> LET c == Drifting(x)[q] IN IF Peak(x, row, c) < Yield(x, c) THEN 0 ELSE Positive]
(* Demands can be cloned: the values of column from go to every column named, *)
(* the column itself is kept only when it is named. What is above a collapse  *)
(* limit is left out before.                                                  *)
Stay(x) == SelectSeq([c \in DOMAIN x.cols |-> c], LAMBDA c : \A q \in DOMAIN x.clones : x.clones[q].from # c)
Copies(x) == FlattenSeq([q \in DOMAIN x.clones |-> [z \in DOMAIN x.clones[q].to |-> <<x.clones[q].from, x.clones[q].to[z]>>]])
Cloning(x) ==
  IF x.clones = <<>> THEN x
  ELSE LET st == Stay(x) cp == Copies(x) k == Kept(x)
       IN [x EXCEPT !.cols = [c \in DOMAIN st |-> x.cols[st[c]]] \o
                             [z \in DOMAIN cp |-> [x.cols[cp[z][1]] EXCEPT !.loc = cp[z][2].loc, !.dir = cp[z][2].dir]],
                    !.rows = [j \in DOMAIN k |-> [c \in DOMAIN st |-> x.rows[k[j]][st[c]]] \o [z \in DOMAIN cp |-> x.rows[k[j]][cp[z][1]]]],
                    !.limits = <<>>]
\* the demands that the calculation uses
Infer(x) == [x EXCEPT !.cols = Cols(x), !.rows = [j \in DOMAIN x.rows |-> Full(x, x.rows[j])]]
Inferring(x) == Infer(Cloning(x))
Edps(x) == {x.cols[c].edp : c \in DOMAIN x.cols}

(* -- performance groups -------------------------------------------------- *)
Never == 2000000000
Special(id, locs, dirs, edp, base, offset, limits) ==
  [id |-> id, locs |-> locs, dirs |-> dirs, qty |-> 1, edp |-> edp, base |-> base, offset |-> offset, directional |-> 1,
   limits |-> limits, model |-> ""]
Placeholder(id) == Special(id, <<0>>, <<1>>, "ONE", "ONE", 0, <<Never>>)
Places(x, edp) == SetToSeq({x.cols[c].loc : c \in {c \in DOMAIN x.cols : x.cols[c].edp = edp}})
Ways(x, edp) == SetToSeq({x.cols[c].dir : c \in {c \in DOMAIN x.cols : x.cols[c].edp = edp}})
DefaultOffset(x, base) == IF base \in {"PFA", "PFV"} THEN x.offset ELSE 0
ByStory(x) == x.collapse.edp # "" /\ x.collapse.base # "SA"
\* the collapse component is where the demand is, whatever the default offset of that demand
Collapse(x) ==
  IF x.collapse.edp = "" THEN <<Placeholder("collapse")>>
  ELSE IF ByStory(x)
  THEN <<Special("excessive.coll.DEM", Places(x, x.collapse.edp), Ways(x, x.collapse.edp), x.collapse.edp, x.collapse.base,
                 -DefaultOffset(x, x.collapse.base), <<x.collapse.median>>), Placeholder("collapse")>>
  ELSE <<Special("collapse", <<0>>, <<1>>, x.collapse.edp, x.collapse.base, -DefaultOffset(x, x.collapse.base), <<x.collapse.median>>)>>
Irreparable(x) ==
  IF x.irreparable = 0 \/ "RID" \notin Edps(x) THEN <<>>
  ELSE <<Special("excessiveRID", Places(x, "RID"), Ways(x, "RID"), "RID", "RID", 0, <<x.irreparable>>), Placeholder("irreparable")>>
\* an inventory given as a sample stays as it is
Components(x) == IF x.sampled = 1 THEN x.comps ELSE x.comps \o Collapse(x) \o Irreparable(x)

RECURSIVE Expand(_, _, _, _)
\* rows of components into performance groups; u tells equal (component, location, direction) apart
Expand(cs, i, done, acc) ==
  IF i > Len(cs) THEN acc
  ELSE LET c == cs[i]
           nd == Len(c.dirs)
           pgs == [q \in 1..(Len(c.locs) * nd) |->
                     LET l == c.locs[((q - 1) \div nd) + 1]  d == c.dirs[((q - 1) % nd) + 1]
                     IN [cmp |-> c.id, loc |-> l, dir |-> d, c |-> c,
                         uid |-> Cardinality({y \in 1..(i - 1) : cs[y].id = c.id /\ l \in {cs[y].locs[z] : z \in DOMAIN cs[y].locs}
                                                                  /\ d \in {cs[y].dirs[z] : z \in DOMAIN cs[y].dirs}}) ]]
       IN Expand(cs, i + 1, done, acc \o pgs)
Groups(x) == Expand(Components(x), 1, {}, <<>>)

(* -- damage -------------------------------------------------------------- *)
\* ten times the demand (the multiplier of nondirectional demands is in tenths)
Demand(x, g, row) ==
  LET c == g.c
      l == g.loc + c.offset + DefaultOffset(x, c.base)
      at == {q \in DOMAIN x.cols : x.cols[q].edp = c.edp /\ x.cols[q].loc = l}
      own == {q \in at : x.cols[q].dir = g.dir}
  IN IF c.edp = "ONE" THEN 10000
     ELSE IF c.directional = 1 THEN 10 * row[CHOOSE q \in own : TRUE]
     ELSE x.multiplier * MaxIn({row[q] : q \in at})
\* limits of single performance groups can be scaled
Scale(x, g) == LET S == {q \in DOMAIN x.scaling : x.scaling[q].cmp = g.cmp /\ x.scaling[q].loc = g.loc /\ x.scaling[q].dir = g.dir}
               IN IF S = {} THEN 1 ELSE x.scaling[CHOOSE q \in S : TRUE].by
State(x, g, row) ==
  LET lim == g.c.limits
      d == Demand(x, g, row)
      f == Scale(x, g)
      over == {i \in DOMAIN lim : (IF f = 1 THEN lim[i] ELSE f * lim[i]) <= d \div 10}
  IN IF over = {} THEN 0 ELSE MaxIn(over)
Initial(x) == LET gs == Groups(x) IN [r \in Runs(x) |-> LET row == RowOf(x, r) IN [g \in DOMAIN gs |-> State(x, gs[g], row)]]

(* -- damage process ------------------------------------------------------ *)
Rule(n, src, ds, cmp, to) == [num |-> n, src |-> src, byloc |-> FALSE, events |-> <<[ds |-> ds, targets |-> <<[cmp |-> cmp, to |-> to]>>]>>]
P58 == <<Rule(1, "excessive.coll.DEM", 1, "collapse", 1), Rule(2, "collapse", 1, "ALL", NA), Rule(3, "excessiveRID", 1, "irreparable", 1),
         Rule(4, "irreparable", 1, "ALL", NA), Rule(5, "irreparable", 1, "collapse", 0)>>
Hazus(str) == <<Rule(1, str, 5, "collapse", 1), Rule(2, "excessive.coll.DEM", 1, "collapse", 1), Rule(3, "collapse", 1, "ALL", NA),
                Rule(4, "excessiveRID", 1, "irreparable", 1), Rule(5, "irreparable", 1, "ALL", NA), Rule(6, "irreparable", 1, "collapse", 0)>>
Lifeline(lf) == <<Rule(1, lf, 5, "collapse", 1), Rule(2, "collapse", 1, "ALL", NA)>>
Known(x) == {Components(x)[i].id : i \in DOMAIN Components(x)}
Rules(x) ==
  CASE x.process = "FEMA P-58" -> P58
    [] x.process = "Hazus Earthquake - Buildings" -> Hazus(x.main)
    [] x.process = "Hazus Earthquake - Lifeline Facilities" -> Lifeline(x.main)
    [] x.process = "User Defined" -> x.steps
    [] OTHER -> <<>>
\* rules whose components are not in the asset do nothing
Program30(x) == SelectSeq(Program(Rules(x)), LAMBDA e : e.src \in Known(x) /\ e.tgt \in Known(x) \cup {"ALL"})
RECURSIVE Play(_, _, _)
Play(cols, ds, prog) == IF prog = <<>> THEN ds
                        ELSE LET e == Head(prog) IN Play(cols, ApplySample(cols, ds, e.src, e.byloc, e.ds, e.tgt, e.to), Tail(prog))
Damage(x) == Play(Groups(x), Initial(x), Program30(x))

(* -- losses -------------------------------------------------------------- *)
\* what the loss map says about a damaged component: the name of its loss model, or ""
Driver(x, g) ==
  LET id == g.cmp
  IN IF Field(x.map, id) THEN x.map[id]
     ELSE IF id \in {"collapse", "irreparable"} THEN "replacement"
     ELSE IF x.automatic = 0 THEN ""
     ELSE g.c.model
\* the user's table comes before the built-in ones, of which the one named last comes first
Given(t, l, dv) == Field(t, l) /\ Field(t[l], dv)
Sources(x) == <<x.user>> \o [q \in 1..Len(x.libraries) |-> x.libraries[Len(x.libraries) + 1 - q]]
Holding(x, l, dv) == {q \in 1..(Len(x.libraries) + 1) : Given(Sources(x)[q], l, dv)}
Entry(x, l, dv) == Sources(x)[MinIn(Holding(x, l, dv))][l][dv]
Replacement(x, dv) ==
  IF Field(x.replacement, dv) THEN <<x.replacement[dv]>>
  ELSE IF x.process = "FEMA P-58" THEN <<0>>
  ELSE <<Entry(x, x.occupied, dv)[5]>>
Consequences(x, l, dv) ==
  IF Holding(x, l, dv) # {} THEN Entry(x, l, dv)
  ELSE IF l = "replacement" THEN Replacement(x, dv)
  ELSE <<>>
\* the loss of one performance group in one realization, in thousandths
Loss(x, g, ds, dv) ==
  LET l == Driver(x, g)
      t == Consequences(x, l, dv)
  IN IF ds <= 0 \/ l = "" \/ ds \notin DOMAIN t THEN 0 ELSE 1000 * t[ds] * g.c.qty

(* -- tables: sets of [name, values, unit] -------------------------------- *)
Column(n, v, u) == [name |-> n, values |-> v, unit |-> u]
Key(x, g) == IF x.settings.AggregateColocatedComponentResults = 1 THEN <<g.cmp, g.loc, g.dir>> ELSE <<g.cmp, g.loc, g.dir, g.uid>>
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "-" \o Join(Tail(s))
KeyName(k) == Join(<<k[1]>> \o [i \in 1..(Len(k) - 1) |-> Str(k[i + 1])])
Keys(x, gs) == {Key(x, gs[g]) : g \in DOMAIN gs}
In(x, gs, k) == {g \in DOMAIN gs : Key(x, gs[g]) = k}
Qty(x, gs, g) == 1000 * gs[g].c.qty
\* the sum over the groups that are not cleared
Alive(S, ds, f) == LET a == {g \in S : ds[g] # NA} IN IF a = {} THEN NAN ELSE SumOver(a, f)

Demands(x) == {Column(Join(<<x.cols[c].edp, Str(x.cols[c].loc), Str(x.cols[c].dir)>>), [r \in Runs(x) |-> RowOf(x, r)[c]], x.cols[c].unit) : c \in DOMAIN x.cols}
              \cup {Column("ONE-0-1", [r \in Runs(x) |-> 1000], "unitless")}
Assets(x, gs) == {Column(KeyName(k), [r \in Runs(x) |-> SumOver(In(x, gs, k), [g \in In(x, gs, k) |-> Qty(x, gs, g)])], "ea") : k \in Keys(x, gs)}
States(x, gs, k) == 0..MaxIn({Len(gs[g].c.limits) : g \in In(x, gs, k)})
Damages(x, gs, dmg) ==
  UNION {{Column(KeyName(k) \o "-" \o Str(s),
                 [r \in Runs(x) |-> Alive(In(x, gs, k), dmg[r], [g \in In(x, gs, k) |-> IF dmg[r][g] = s THEN Qty(x, gs, g) ELSE 0])], "ea")
          : s \in States(x, gs, k)} : k \in Keys(x, gs)}
Grouped(x, gs, dmg) ==
  IF x.settings.CondenseDS = 1
  THEN {Column(k[1] \o "-" \o Str(k[2]),
               [r \in Runs(x) |-> LET S == {dmg[r][g] : g \in {g \in DOMAIN gs : gs[g].cmp = k[1] /\ gs[g].loc = k[2]}} \ {NA}
                                  IN IF S = {} THEN NAN ELSE 1000 * MaxIn(S)], "ea") : k \in {<<gs[g].cmp, gs[g].loc>> : g \in DOMAIN gs}}
  ELSE {Column(c, [r \in Runs(x) |-> LET S == {g \in DOMAIN gs : gs[g].cmp = c} IN Alive(S, dmg[r], [g \in S |-> Qty(x, gs, g)])], "ea")
        : c \in {gs[g].cmp : g \in DOMAIN gs}}
\* losses: columns of nothing but zeros may be there or not
Wanted(x) == {x.dvs[i] : i \in DOMAIN x.dvs}
LossOver(x, gs, dmg, dv, S) == [r \in Runs(x) |-> SumOver(S, [g \in S |-> Loss(x, gs[g], dmg[r][g], dv)])]
Losers(x, gs) == {g \in DOMAIN gs : Driver(x, gs[g]) # ""}
Losses(x, gs, dmg) ==
  UNION {UNION {{LET S == In(x, gs, k)
                 IN Column(Join(<<dv, Driver(x, gs[CHOOSE g \in S : TRUE]), k[1], Str(s), Str(k[2]), Str(k[3])>>) \o (IF Len(k) = 4 THEN "-" \o Str(k[4]) ELSE ""),
                           [r \in Runs(x) |-> LET T == {g \in S : dmg[r][g] = s} IN SumOver(T, [g \in T |-> Loss(x, gs[g], s, dv)])], x.units[dv])
                 : s \in States(x, gs, k) \ {0}} : dv \in Wanted(x)} : k \in {Key(x, gs[g]) : g \in Losers(x, gs)}}
LossGroups(x, gs, dmg) ==
  UNION {{LET S == {g \in DOMAIN gs : gs[g].cmp = c}
          IN Column(Join(<<dv, Driver(x, gs[CHOOSE g \in S : TRUE]), c>>), LossOver(x, gs, dmg, dv, S), x.units[dv])
          : dv \in Wanted(x)} : c \in {gs[g].cmp : g \in Losers(x, gs)}}
\* realizations with a replacement: nothing but the replacement counts
Replacing(x, gs) == {g \in Losers(x, gs) : Driver(x, gs[g]) = "replacement"}
Counted(x, gs, dmg) ==
  [r \in Runs(x) |-> LET R == Replacing(x, gs)
                     IN IF \E g \in R : \E dv \in Wanted(x) : Loss(x, gs[g], dmg[r][g], dv) > 0 THEN R ELSE Losers(x, gs)]
Sum30(x, gs, dmg, dv, S, r) == SumOver(S, [g \in S |-> Loss(x, gs[g], dmg[r][g], dv)])
Total(x, gs, dmg, dv) == LET c == Counted(x, gs, dmg) IN [r \in Runs(x) |-> Sum30(x, gs, dmg, dv, c[r], r)]
Parallel(x, gs, dmg, dv) ==
  LET c == Counted(x, gs, dmg)
  IN [r \in Runs(x) |-> MaxIn({0} \cup {Sum30(x, gs, dmg, dv, {g \in c[r] : gs[g].loc = l}, r) : l \in {gs[g].loc : g \in c[r]}})]
Name(dv) == CASE dv = "Cost" -> "repair_cost" [] dv = "Carbon" -> "repair_carbon" [] dv = "Energy" -> "repair_energy" [] OTHER -> "repair_time"
Aggregated(x, gs, dmg) ==
  {Column(Name(dv), Total(x, gs, dmg, dv), "") : dv \in Wanted(x) \ {"Time"}}
  \cup (IF "Time" \notin Wanted(x) THEN {}
        ELSE {Column("repair_time-sequential", Total(x, gs, dmg, "Time"), ""), Column("repair_time-parallel", Parallel(x, gs, dmg, "Time"), "")})
Flag(x, gs, dmg, id) == Column(id, [r \in Runs(x) |-> IF \E g \in DOMAIN gs : gs[g].cmp = id /\ dmg[r][g] = 1 THEN 1000 ELSE 0], "")
Summary(x, gs, dmg) ==
  (IF x.losses = 1 THEN Aggregated(x, gs, dmg) ELSE {})
  \cup (IF x.damage = 1 THEN {Flag(x, gs, dmg, "collapse"), Flag(x, gs, dmg, "irreparable")} ELSE {})

\* nothing in the inventory has consequences
Lossless(x, gs) == \A g \in DOMAIN gs : \A dv \in Wanted(x) : Consequences(x, Driver(x, gs[g]), dv) = <<>>

(* -- which files there are ----------------------------------------------- *)
Kinds == {"Demand", "Asset", "Damage", "Loss"}
Options == [Demand |-> {"Sample", "Statistics"}, Asset |-> {"Sample", "Statistics"},
            Damage |-> {"Sample", "Statistics", "GroupedSample", "GroupedStatistics"},
            Loss |-> {"Sample", "Statistics", "GroupedSample", "GroupedStatistics", "AggregateSample", "AggregateStatistics"}]
Stem == [Demand |-> "DEM", Asset |-> "CMP", Damage |-> "DMG", Loss |-> "DV_repair"]
Lean == [Demand |-> {"Sample"}, Asset |-> {"Sample"}, Damage |-> {"GroupedSample", "GroupedStatistics"}, Loss |-> Options.Loss]
File(k, o) == Stem[k] \o (CASE o = "Sample" -> "_sample.zip" [] o = "Statistics" -> "_stats.csv" [] o = "GroupedSample" -> "_grp.zip"
                            [] o = "GroupedStatistics" -> "_grp_stats.csv" [] o = "AggregateSample" -> "_agg.zip" [] OTHER -> "_agg_stats.csv")
Asked(x, k) ==
  IF x.kind = "auto"
  THEN IF (k = "Loss" /\ x.losses = 0) \/ (Field(x.deselected, k) /\ x.deselected[k] = 1) THEN {}
       ELSE IF x.detailed = 1 THEN Options[k] ELSE Lean[k]
  ELSE IF x.given = 0 THEN Options[k]
  ELSE {o \in Options[k] : Field(x.outputs, k) /\ Field(x.outputs[k], o) /\ x.outputs[k][o] = 1}
(* formats: what the caller asks for, otherwise what the configuration asks for *)
Csv(x) == CASE x.override = 1 -> x.csv = 1
            [] x.kind = "auto" -> x.detailed = 1
            [] x.given = 0 -> TRUE
            [] Field(x.outputs, "Format") -> Field(x.outputs.Format, "CSV") /\ x.outputs.Format.CSV = 1
            [] OTHER -> TRUE
Json30(x) == CASE x.override = 1 -> x.json = 1
            [] x.kind = "auto" -> TRUE
            [] x.given = 0 -> TRUE
            [] Field(x.outputs, "Format") -> Field(x.outputs.Format, "JSON") /\ x.outputs.Format.JSON = 1
            [] OTHER -> FALSE
Names(x) == UNION {{<<k, o>> : o \in Asked(x, k)} : k \in Kinds}
Always == {"DL_summary.csv", "DL_summary_stats.csv"}
\* replace the extension
Plain == [k \in Kinds |-> [o \in Options[k] |-> SubSeq(File(k, o), 1, Len(File(k, o)) - 4) \o ".json"]]
Files(x) ==
  {File(n[1], n[2]) : n \in (IF Csv(x) THEN Names(x) ELSE {})} \cup Always
  \cup (IF Json30(x) THEN {Plain[n[1]][n[2]] : n \in Names(x)} \cup {"DL_summary.json", "DL_summary_stats.json"} ELSE {})
\* component by component there may be nothing to report
Optional(x, gs) ==
  IF x.losses = 1 /\ Lossless(x, gs)
  THEN LET o == {"Sample", "Statistics", "GroupedSample", "GroupedStatistics"} IN {File("Loss", q) : q \in o} \cup {Plain.Loss[q] : q \in o}
  ELSE {}
=============================================================================
