---------------------------- MODULE RoundtripMC ----------------------------
(* One table, one file, sessions that end and begin: saving goes column by   *)
(* column and may fail half way, which the caller is told.                   *)
EXTENDS Roundtrip, TLC
CONSTANTS N, MaxSteps
Vals == {0, 3, NA}
F == [m |-> 1, km |-> 3]
Labs == {<<"A", "1">>, <<"B", "1">>}
Cols == {[lab |-> l, unit |-> u, v |-> v] : l \in Labs, u \in DOMAIN F, v \in [1..N -> Vals]}
Good == {c \in Cols : Whole({c}, F)}
Tables == {T \in {{a, b} : a, b \in Good} : \A a, b \in T : a.lab = b.lab => a = b}
None == {}
VARIABLES mem, file, good, saved, writing, told, steps, lastact
vars == <<mem, file, good, saved, writing, told, steps, lastact>>
Init == /\ mem \in {Compact(T) : T \in Tables} /\ file = None /\ good = FALSE /\ saved = None /\ writing = None /\ told = "" /\ steps = 0 /\ lastact = ""
Tick == steps < MaxSteps /\ steps' = steps + 1
OfMem(M) == {[head |-> c.head, unit |-> c.unit, cells |-> [i \in DOMAIN c.v |-> Down(c.v[i], F[c.unit])]] : c \in M}
Calculate == /\ lastact' = "calculate" /\ Tick /\ writing = None /\ \E T \in Tables : mem' = Compact(T) /\ UNCHANGED <<file, good, saved, writing, told>>
Open == /\ lastact' = "open" /\ Tick /\ writing = None /\ mem # None /\ writing' = OfMem(mem) /\ file' = None /\ good' = FALSE /\ told' = "busy" /\ UNCHANGED <<mem, saved>>
Write == /\ lastact' = "write" /\ writing # None /\ \E c \in writing : file' = file \cup {c} /\ writing' = writing \ {c}
         /\ IF writing' = None THEN good' = TRUE /\ saved' = mem /\ told' = "ok" ELSE UNCHANGED <<good, saved, told>>
         /\ UNCHANGED <<mem, steps>>
Fail == /\ lastact' = "fail" /\ writing # None /\ writing' = None /\ told' = "error" /\ UNCHANGED <<mem, file, good, saved, steps>>
Restart == /\ lastact' = "restart" /\ Tick /\ writing = None /\ mem' = None /\ UNCHANGED <<file, good, saved, writing, told>>
Load == /\ lastact' = "load" /\ Tick /\ writing = None /\ good /\ mem' = FromFile(file, F) /\ UNCHANGED <<file, good, saved, writing, told>>
Next == Calculate \/ Open \/ Write \/ Fail \/ Restart \/ Load
Spec == Init /\ [][Next]_vars
Inv == /\ good => FromFile(file, F) = saved            \* a file that was reported as written holds all of the table
       /\ told = "ok" => good
       /\ lastact = "load" => mem = saved
       /\ \A c \in file : \A i \in DOMAIN c.cells : c.cells[i] \in {NA, 0, 1, 3}
=============================================================================
