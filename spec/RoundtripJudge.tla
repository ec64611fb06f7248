--------------------------- MODULE RoundtripJudge ---------------------------
(* Judges saving and loading: every event of the trace must be explained by  *)
(* the state (mem, file) the earlier events left.                            *)
EXTENDS Roundtrip, Judging
VARIABLES k, todo
FMap(c) == [u \in {x.u : x \in ToSet(c.in.units)} |-> (CHOOSE x \in ToSet(c.in.units) : x.u = u).f]
RECURSIVE Run(_, _, _, _, _, _)
(* mem: compact table, file: what the good file holds, bad: clauses so far   *)
Run(ev, i, mem, file, F, bad) ==
  IF i > Len(ev) THEN bad
  ELSE LET e == ev[i] IN
    CASE e.ev = "mem" -> Run(ev, i + 1, ToSet(e.t), file, F, bad)
      [] e.ev = "returned" -> Run(ev, i + 1, mem, file, F, bad \cup Clause("returned", ToSet(e.t) = {[head |-> c.head, unit |-> c.unit, cells |-> [j \in DOMAIN c.v |-> Down(c.v[j], F[c.unit])]] : c \in mem}))
      [] e.ev = "file" -> LET want == {[head |-> c.head, unit |-> c.unit, cells |-> [j \in DOMAIN c.v |-> Down(c.v[j], F[c.unit])]] : c \in mem} IN
           Run(ev, i + 1, mem, ToSet(e.t), F, bad
               \cup Clause("file-labels", {c.head : c \in ToSet(e.t)} = {c.head : c \in want})
               \cup Clause("file-units", \A c \in ToSet(e.t) : \A w \in want : c.head = w.head => c.unit = w.unit)
               \cup Clause("file-values", \A c \in ToSet(e.t) : \A w \in want : c.head = w.head => c.cells = w.cells)
               \cup Clause("file-rows", e.rows = [j \in 1..e.n |-> j - 1])
               \cup Clause("file-whole", Len(e.t) = Cardinality(want)))
      [] e.ev = "restart" -> Run(ev, i + 1, {}, file, F, bad)
      [] e.ev = "loaded" -> LET want == FromFile(file, F) IN
           Run(ev, i + 1, ToSet(e.t), file, F, bad
               \cup Clause("loaded-labels", {c.head : c \in ToSet(e.t)} = {c.head : c \in want})
               \cup Clause("loaded-units", \A c \in ToSet(e.t) : \A w \in want : c.head = w.head => c.unit = w.unit)
               \cup Clause("loaded-values", \A c \in ToSet(e.t) : \A w \in want : c.head = w.head => c.v = w.v)
               \cup Clause("loaded-once", Len(e.t) = Cardinality(want)))
      [] e.ev = "failed" -> Run(ev, i + 1, mem, file, F, bad \cup Clause("failure-reported", e.error # "") \cup Clause("failure-keeps-model", ToSet(e.t) = mem))
      [] e.ev = "same" -> Run(ev, i + 1, mem, file, F, bad \cup Clause("same-" \o e.what, e.a = e.b))
      [] OTHER -> Run(ev, i + 1, mem, file, F, bad \cup {"unknown-event"})
Verdict(c) == Run(c.obs.log, 1, {}, {}, FMap(c), {})
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Verdict(Cases[k])) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
