----------------------------- MODULE OptionsMC -----------------------------
(* Assessments created one after the other from settings the caller keeps     *)
(* and changes; each has effective settings and a stream of random numbers.    *)
EXTENDS Options, TLC
CONSTANTS MaxA, Vals, MaxSteps
Paths == {<<"s">>, <<"g">>, <<"g", "a">>, <<"g", "b">>, <<"g", "h", "c">>}
Defaults == [leaves |-> {[path |-> <<"s">>, val |-> "0"], [path |-> <<"g", "a">>, val |-> "0"], [path |-> <<"g", "h", "c">>, val |-> "0"]},
             groups |-> {<<"g">>, <<"g", "h">>}]
VARIABLES given, eff, user, seed, drawn, n
vars == <<given, eff, user, seed, drawn, n>>
\* given[i]: what the caller had set when assessment i was created, and what was set in it since
Init == given = <<>> /\ eff = <<>> /\ user = Empty /\ seed = <<>> /\ drawn = <<>> /\ n = 0
Room == n < MaxSteps /\ n' = n + 1
Change == Room /\ \E p \in Paths, v \in Vals \cup {"emptygroup"} : /\ user' = Put(user, p, v)
             /\ UNCHANGED <<given, eff, seed, drawn>>
Create == /\ Room /\ Len(eff) < MaxA /\ ~Conflict(user, Defaults)
          /\ \E s \in {1, 2} : seed' = Append(seed, s)
          /\ eff' = Append(eff, Merged(user, Defaults)) /\ given' = Append(given, user) /\ drawn' = Append(drawn, 0)
          /\ UNCHANGED user
Set == Room /\ \E i \in DOMAIN eff, p \in {<<"s">>, <<"g", "a">>}, v \in Vals :
          /\ eff' = [eff EXCEPT ![i] = Put(@, p, v)] /\ given' = [given EXCEPT ![i] = Put(@, p, v)]
          /\ UNCHANGED <<user, seed, drawn>>
Draw == Room /\ \E i \in DOMAIN eff : drawn' = [drawn EXCEPT ![i] = @ + 1] /\ UNCHANGED <<user, seed, eff, given>>
Reseed == Room /\ \E i \in DOMAIN eff : drawn' = [drawn EXCEPT ![i] = 0] /\ seed' = [seed EXCEPT ![i] = 3 - @] /\ UNCHANGED <<user, eff, given>>
Next == Change \/ Create \/ Set \/ Draw \/ Reseed
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Formed == WellFormed(user) /\ \A i \in DOMAIN eff : WellFormed(eff[i])
Wins == \A i \in DOMAIN eff : \A l \in given[i].leaves : l \in eff[i].leaves
Filled == \A i \in DOMAIN eff : \A l \in Defaults.leaves : l \in eff[i].leaves \/ LeafAt(given[i], l.path)
Nothing == \A i \in DOMAIN eff : \A l \in eff[i].leaves : l \in given[i].leaves \cup Defaults.leaves
Local == [][\A i \in DOMAIN eff : eff'[i] # eff[i] => \A j \in DOMAIN eff \ {i} : eff'[j] = eff[j]]_vars
Exact == \A p \in Paths : LET t == Put(user, p, "v") IN
           /\ WellFormed(t) /\ Got(t, p).val = "v"
           /\ \A q \in Paths : ~IsPrefix(p, q) /\ ~IsPrefix(q, p) => Got(t, q) = Got(user, q)
Once == \A p \in Paths : PutIf(PutIf(user, p, "v"), p, "w") = PutIf(user, p, "v")
Inv == Formed /\ Wins /\ Filled /\ Nothing /\ Exact /\ Once
=============================================================================
