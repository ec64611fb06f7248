---------------------------- MODULE PrecedenceMC ----------------------------
(* Sources arrive row by row; calls end anywhere.                            *)
EXTENDS Precedence, TLC
CONSTANTS Wanted, KeySet, MaxRows
Defs == {[d |-> 1, incomplete |-> FALSE], [d |-> 2, incomplete |-> FALSE], [d |-> 3, incomplete |-> TRUE]}
Rows == [key : KeySet, def : Defs]
VARIABLES model, pending, seen, called
vars == <<model, pending, seen, called>>
Init == model = Nothing /\ pending = <<>> /\ seen = <<>> /\ called = 0
Add == Len(seen) < MaxRows /\ \E r \in Rows : pending' = Append(pending, r) /\ seen' = Append(seen, r) /\ UNCHANGED <<model, called>>
Call == /\ pending # <<>> /\ model' = Load(model, <<pending>>, Wanted) /\ pending' = <<>> /\ called' = called + 1 /\ UNCHANGED seen
Next == Add \/ Call
Spec == Init /\ [][Next]_vars
Done == Len(seen) - Len(pending)
Past == SubSeq(seen, 1, Done)
Inv ==
  /\ DOMAIN model \subseteq Wanted
  /\ \A k \in DOMAIN model : ~model[k].incomplete /\ \E i \in 1..Done : seen[i].key = k /\ seen[i].def = model[k]
  /\ \A k \in Wanted \cap Keys(Past) : ~First(Past, k).incomplete => k \in DOMAIN model /\ model[k] = First(Past, k)
  /\ called = 1 => \A k \in Wanted \cap Keys(Past) : First(Past, k).incomplete => k \notin DOMAIN model
  (* one call or many: the same model, unless a definition was withdrawn *)
  /\ (\A i \in 1..Done : ~seen[i].def.incomplete) => model = Load(Nothing, <<Past>>, Wanted)
Stable == [][\A k \in DOMAIN model : k \in DOMAIN model' /\ model'[k] = model[k]]_vars
=============================================================================
