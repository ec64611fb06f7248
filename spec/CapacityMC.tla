----------------------------- MODULE CapacityMC -----------------------------
(* Every small specification over two groups and two limit states: only the *)
(* named capacities move, ALL equals naming each, lists go by realization.  *)
EXTENDS Capacity, TLC
Groups == {[cmp |-> "A", loc |-> "1", dir |-> "1"], [cmp |-> "A", loc |-> "2", dir |-> "1"]}
Ops == {[op |-> o, n |-> v] : o \in {"+", "-", "*", "/"}, v \in {1, 4, 8}}
OpSeqs == {<<o>> : o \in Ops} \cup {<<a, b>> : a \in Ops, b \in {[op |-> "+", n |-> 4], [op |-> "*", n |-> 2]}}
VARIABLES spec, r, caps
vars == <<spec, r, caps>>
Entry(gr, n, ops) == [cmp |-> gr.cmp, loc |-> gr.loc, dir |-> gr.dir, entries |-> <<[ls |-> n, ops |-> ops]>>]
Init == /\ r \in 1..2 /\ caps = [g \in Groups |-> [n \in 1..2 |-> <<8 * n, 4>>]]
        /\ spec \in {<<>>} \cup {<<Entry(gr, n, o)>> : gr \in Groups, n \in 0..2, o \in OpSeqs}
Adjust == /\ caps = [g \in Groups |-> [n \in 1..2 |-> <<8 * n, 4>>]]
          /\ caps' = [g \in Groups |-> [n \in 1..2 |-> Adjusted(spec, g, n, 8 * n, r)]]
          /\ UNCHANGED <<spec, r>>
Next == Adjust
Spec == Init /\ [][Next]_vars
Same(f, c) == f[1] * 4 = c * f[2]
OnlyNamed == \A g \in Groups : \A n \in 1..2 :
  ~Same(caps[g][n], 8 * n) => \E i \in DOMAIN spec : spec[i].cmp = g.cmp /\ spec[i].loc = g.loc /\ spec[i].entries[1].ls \in {0, n}
AllIsEach == \A g \in Groups : \A n \in 1..2 : \A o \in {<<x>> : x \in Ops} :
  Adjusted(<<Entry(g, 0, o)>>, g, n, 8 * n, r) = Adjusted(<<Entry(g, n, o)>>, g, n, 8 * n, r)
ByRealization == \A g \in Groups : \A i \in DOMAIN spec :
  (Len(spec[i].entries[1].ops) = 2 /\ spec[i].loc = g.loc /\ spec[i].entries[1].ls = 0
    /\ caps # [h \in Groups |-> [n \in 1..2 |-> <<8 * n, 4>>]])
  => caps[g][1] = Apply(8, spec[i].entries[1].ops[r])
Inv == OnlyNamed /\ AllIsEach /\ ByRealization
=============================================================================
