------------------------------ MODULE Judging ------------------------------
(* Shared skeleton of the trace specifications. A trace file holds a        *)
(* sequence of cases [id, in, obs]; `in` is what was given to the code and   *)
(* `obs` what it did. Every case gets a total verdict: the set of the names  *)
(* of the clauses that fail, printed as JSON; an empty set is acceptance.    *)
EXTENDS TLC, Json, IOUtils, Sequences, Integers, FiniteSets, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)

Emit(rec) == PrintT("J!" \o ToJson(rec))

(* One record per case; TRUE always, so that judging goes on. *)
Report(id, bad) ==
  /\ IF bad = {} THEN TRUE ELSE Emit([id |-> id, bad |-> SetToSeq(bad)])
  /\ Emit([id |-> id, end |-> TRUE])

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
Has(r, f) == f \in DOMAIN r
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
