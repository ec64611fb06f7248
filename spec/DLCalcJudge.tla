---------------------------- MODULE DLCalcJudge ----------------------------
(* Trace specification: after every calculation, which files are in the       *)
(* output folder and what is in their tables.                                 *)
EXTENDS DLCalc, Uncertain, Judging

VARIABLES k, todo

Close(a, b) == IF b = Positive THEN a > 0 ELSE IF a = NAN \/ b = NAN THEN a = b ELSE Abs(a - b) <= 1
Same(v, w) == DOMAIN v = DOMAIN w /\ \A r \in DOMAIN w : Close(v[r], w[r])
Zero(v) == \A r \in DOMAIN v : v[r] = 0
Of(t, n) == CHOOSE i \in DOMAIN t.columns : t.columns[i] = n

(* statistics of a column *)
Numbers(v) == SelectSeq(v, LAMBDA e : e # NAN)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>>
             ELSE LET m == MinSet(ToSet(s)) IN [i \in 1..Cardinality({j \in DOMAIN s : s[j] = m}) |-> m] \o Sorted(SelectSeq(s, LAMBDA e : e # m))
Median2(s) == LET n == Len(s) IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[(n \div 2) + 1]
Stat(t, i, name) == LET j == CHOOSE j \in DOMAIN t.rows : t.rows[j] = name IN t.values[i][j]
Wants == {"count", "mean", "min", "50%", "max"}
StatsSame(t, i, v) ==
  LET s == Sorted(Numbers(v)) n == Len(s)
  IN /\ \A w \in Wants : \E j \in DOMAIN t.rows : t.rows[j] = w
     /\ Stat(t, i, "count") = 1000 * n
     /\ IF n = 0 THEN \A w \in Wants \ {"count"} : Stat(t, i, w) = NAN
        ELSE /\ \A w \in Wants : Stat(t, i, w) # NAN
             /\ Positive \in ToSet(v) \/ (
                /\ Close(Stat(t, i, "min"), s[1]) /\ Close(Stat(t, i, "max"), s[n])
                /\ Abs(Stat(t, i, "mean") - (SumSeq(s) \div n)) <= 2
                /\ Abs(2 * Stat(t, i, "50%") - Median2(s)) <= 3)

(* one table: every wanted column is there, and nothing else *)
Numbered(t, n) == Len(t.rows) = n /\ \A j \in DOMAIN t.rows : t.rows[j] = Str(j - 1)
TableBad(x, t, want, stats, loose) ==
  LET names == {c.name : c \in want}
      V(i) == IF stats THEN StatsSame(t, i, [r \in Runs(x) |-> 0]) ELSE Zero(t.values[i])
  IN Clause("columns", /\ Cardinality(ToSet(t.columns)) = Len(t.columns)
                       /\ \A c \in want : c.name \in ToSet(t.columns) \/ ("missing" \in loose /\ Zero(c.values) /\ c.name \notin {"collapse", "irreparable"}) \/ Numbers(c.values) = <<>>
                       /\ \A i \in DOMAIN t.columns : t.columns[i] \in names \/ ("extra" \in loose /\ V(i)))
     \cup Clause("rows", stats \/ t.columns = <<>> \/ Numbered(t, x.samples))
     \cup Clause("values", \A c \in want : c.name \in ToSet(t.columns) =>
            LET i == Of(t, c.name) IN IF stats THEN StatsSame(t, i, c.values) ELSE Same(t.values[i], c.values))
     \cup Clause("units", \A c \in want : c.name \in ToSet(t.columns) => t.units[Of(t, c.name)] = c.unit)

Content(x, gs, dmg, kind, o) ==
  CASE kind = "Demand" -> Demands(x)
    [] kind = "Asset" -> Assets(x, gs)
    [] kind = "Damage" -> IF o \in {"Sample", "Statistics"} THEN Damages(x, gs, dmg) ELSE Grouped(x, gs, dmg)
    [] OTHER -> IF o \in {"Sample", "Statistics"} THEN Losses(x, gs, dmg)
                ELSE IF o \in {"GroupedSample", "GroupedStatistics"} THEN LossGroups(x, gs, dmg) ELSE Aggregated(x, gs, dmg)
Stats(o) == o \in {"Statistics", "GroupedStatistics", "AggregateStatistics"}
\* loss columns of nothing but zeros may be there or not
Loose(kind) == IF kind = "Loss" THEN {"missing", "extra"} ELSE {}
Named(kind, S) == {kind \o "-" \o e : e \in S}
FilesBad(x, files) ==
  LET gs == Groups(x)
      dmg == Damage(x)
      sum == Summary(x, gs, dmg)
  IN Clause("files", Files(x) \ Optional(x, gs) \subseteq DOMAIN files /\ DOMAIN files \subseteq Files(x))
     \cup UNION {LET want == Content(x, gs, dmg, n[1], n[2])
                     f == File(n[1], n[2])
                     j == Plain[n[1]][n[2]]
                 IN (IF Has(files, f) THEN Named(n[1], TableBad(x, files[f], want, Stats(n[2]), Loose(n[1]))) ELSE {})
                    \cup (IF Has(files, j) THEN Named(n[1] \o "-json", TableBad(x, files[j], want, Stats(n[2]), Loose(n[1]))) ELSE {})
                 : n \in Names(x)}
     \cup UNION {IF Has(files, f) THEN Named("summary", TableBad(x, files[f], sum, FALSE, {"missing"})) ELSE {} : f \in {"DL_summary.csv", "DL_summary.json"}}
     \cup UNION {IF Has(files, f) THEN Named("summary-stats", TableBad(x, files[f], sum, TRUE, {"missing"})) ELSE {} : f \in {"DL_summary_stats.csv", "DL_summary_stats.json"}}

StepBad(x, s) ==
  IF x.valid = 0 THEN Clause("refuses", s.error # "")
  ELSE IF x.kind = "na" THEN Clause("error", s.error = "")
  ELSE IF s.error # "" THEN {"error"}
  ELSE FilesBad(Inferring(x), s.files)
UncertainBad(u, o) == IF o.error # "" THEN {"error"} ELSE Clause("uncertain", Outcome(u, o)) \cup Clause("uncertain-cost", Paid(u, o))
Bad(c) == IF Has(c.in, "spread") /\ Has(c.obs, "error") THEN UncertainBad(c.in.spread, c.obs)
          ELSE IF ~Has(c.obs, "steps") THEN {"raised"} ELSE UNION {StepBad(c.in.runs[i], c.obs.steps[i]) : i \in DOMAIN c.in.runs}

JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad(Cases[k])) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
