---------------------------- MODULE RegionalJudge ----------------------------
(* Trace specification: the result files of a regional simulation, and the    *)
(* results of the interpolation itself.                                       *)
EXTENDS Regional, Judging

VARIABLES k, todo

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MinSet(S) IN <<m>> \o Ascending(S \ {m})

(* what the filter keeps *)
Ids(x) == [i \in DOMAIN x.buildings |-> x.buildings[i].id]
Wanted(x) == Listed(x.parts)
Fails(x) == BadFilter(x.parts) \/ ~(Wanted(x) \subseteq ToSet(Ids(x))) \/ x.missing = 1
Order(x) == IF Wanted(x) = {} THEN Ids(x) ELSE Ascending(Wanted(x))

D(x, b) == [p \in DOMAIN x.grid |-> Sq(x.grid[p].x - b.x) + Sq(x.grid[p].y - b.y)]
Near(x, b) == LET d == D(x, b) n == IF x.neighbors < Cardinality(DOMAIN d) THEN x.neighbors ELSE Cardinality(DOMAIN d) IN Nearest(d, n)

(* demands *)
Columns(x) == LET o == Order(x) n == Len(x.ims)
              IN [c \in 1..(Len(o) * n) |-> <<x.ims[((c - 1) % n) + 1], o[((c - 1) \div n) + 1]>>]
Rows(x) == x.rows
DemandBad(x, o) ==
  IF ~Has(o, "demand") THEN {"demand-missing"}
  ELSE LET f == o.demand  want == Columns(x)
       IN IF f.columns # want THEN {"demand-columns"}
          ELSE Clause("demand-rows", f.rows = [j \in 1..(x.samples + 1) |-> IF j <= x.samples THEN j - 1 ELSE -1])
               \cup Clause("demand-units", \A c \in DOMAIN want : f.units[c] = x.units[want[c][1]])
               \cup Clause("intensity", Len(f.rows) = x.samples + 1 =>
                      \A q \in DOMAIN x.buildings :
                         LET b == x.buildings[q]
                             cols == {c \in DOMAIN want : want[c][2] = b.id}
                             d == D(x, b)
                         IN cols # {} => \E S \in Near(x, b) :
                              LET w == Weights(S, d)
                              IN \A c \in cols, j \in 1..x.samples :
                                   LET v == [p \in S |-> x.grid[p].values[want[c][1]][((j - 1) % x.rows) + 1]]
                                   IN Abs(f.values[c][j] - Mean(S, w, v)) <= 1)

Building(x, id) == x.buildings[CHOOSE q \in DOMAIN x.buildings : x.buildings[q].id = id]
(* the intensity of building number i of the files in realization j *)
Intensity(x, o, i, j, im) == LET n == Len(x.ims) m == CHOOSE m \in 1..n : x.ims[m] = im
                             IN o.demand.values[(i - 1) * n + m][((j - 1) % x.samples) + 1]
Table(x, o, f) == /\ o[f].ids = Order(x)
                  /\ o[f].columns = [j \in 1..x.realizations |-> j - 1]
Tol == 2
DamageBad(x, o) ==
  IF ~Has(o, "damage") THEN {"damage-missing"}
  ELSE IF ~Table(x, o, "damage") THEN {"damage-table"}
  ELSE Clause("damage", \A i \in DOMAIN o.damage.ids, j \in 1..x.realizations :
         LET a == x.archetypes[Building(x, o.damage.ids[i]).arch]  v == Intensity(x, o, i, j, a.im)
         IN Clear(a.limits, v, Tol) => o.damage.values[i][j] = 1000 * Governing(a.limits, v))

LossBad(x, o, dv) ==
  IF x.requested[dv] = 0 THEN Clause(dv \o "-unrequested", ~Has(o, dv))
  ELSE IF ~Has(o, dv) THEN {dv \o "-missing"}
  ELSE IF ~Table(x, o, dv) \/ ~Has(o, "damage") \/ ~Table(x, o, "damage") THEN {dv \o "-table"}
  ELSE Clause(dv, \A i \in DOMAIN o[dv].ids, j \in 1..x.realizations :
         LET b == Building(x, o[dv].ids[i])
             c == x.consequences[IF x.method = "eq" THEN b.occ ELSE b.arch][dv]
             ds == o.damage.values[i][j] \div 1000
         IN o[dv].values[i][j] = IF ds = 0 THEN 0 ELSE IF ds \in DOMAIN c THEN c[ds] ELSE -1)

Files == {"demand", "damage", "Cost", "Time"}
Simulation(x, o) ==
  IF Fails(x) THEN Clause("stops", o.error = "ValueError") \cup Clause("leaves-nothing", \A f \in Files : ~Has(o, f))
  ELSE IF o.error # "" THEN {"error"}
  ELSE LET d == DemandBad(x, o)
       IN d \cup (IF "demand-missing" \in d \/ "demand-columns" \in d \/ "demand-rows" \in d THEN {} ELSE DamageBad(x, o)) \cup LossBad(x, o, "Cost") \cup LossBad(x, o, "Time")

(* interpolation: targets and sources are on a line or a plane *)
Dist(x, t) == [p \in DOMAIN x.source |-> LET s == SumSeq([q \in DOMAIN x.source[p] |-> Sq(x.source[p][q] - x.target[t][q])]) IN s]
Root(n) == CHOOSE r \in 0..n : r * r = n
Weigh(x, S, d) == CASE x.weight = "distance2" -> Weights(S, d)
                    [] x.weight = "distance1" -> Weights(S, [p \in S |-> Root(d[p])])
                    [] OTHER -> [p \in S |-> 1]
Value(x, p, f, r) == x.values[p][f][((r - 1) % Len(x.values[p][f])) + 1]
Interpolation(x, o) ==
  IF o.error # "" THEN {"error"}
  ELSE Clause("nnr-shape", o.shape = x.shape) \cup Clause("nnr-inputs", o.kept = 1) \cup Clause("nnr-repeats", x.n = -1 \/ x.seed = -1 \/ o.repeats = 1)
       \cup (IF o.shape # x.shape THEN {}
             ELSE IF x.n = -1
             THEN Clause("nnr-mean", \A t \in DOMAIN x.target : LET d == Dist(x, t) IN \E S \in Nearest(d, x.k) :
                    LET w == Weigh(x, S, d)
                    IN \A f \in DOMAIN o.values[t] : \A r \in DOMAIN o.values[t][f] : Abs(o.values[t][f][r] - Mean(S, w, [p \in S |-> Value(x, p, f, r)])) <= 1)
             ELSE Clause("nnr-sample", \A t \in DOMAIN x.target : LET d == Dist(x, t) IN \E S \in Nearest(d, x.k) :
                    LET w == Weigh(x, S, d)
                        N == x.n
                        all == Sum(S, w)
                        from(r) == {p \in S : w[p] > 0 /\ \A f \in DOMAIN o.values[t] : o.values[t][f][r] = 1000 * Value(x, p, f, r)}
                        count == [p \in S |-> Cardinality({r \in 1..N : p \in from(r)})]
                    IN /\ \A r \in 1..N : from(r) # {}
                       \* the values of the sources differ, so that the counts are those of the draws
                       /\ \A p \in S : Abs(count[p] * all - N * w[p]) <= all * x.slack))

Bad(c) == IF ~Has(c.obs, "error") THEN {"raised"} ELSE IF c.in.kind = "nnr" THEN Interpolation(c.in, c.obs) ELSE Simulation(c.in, c.obs)
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad(Cases[k])) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
