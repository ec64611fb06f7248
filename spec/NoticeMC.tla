------------------------------ MODULE NoticeMC ------------------------------
(* The update notice: releases appear, versions are installed, time passes,   *)
(* the program is started.                                                    *)
EXTENDS Library, TLC, Json
CONSTANTS MaxSteps, Trace
Ver(n) == [kind |-> "version", num |-> <<1, n, 0>>, tag |-> "v1"]
Commit == [kind |-> "commit", num |-> <<0, 0, 0>>, tag |-> "commit"]
Unknown == [kind |-> "unknown", num |-> <<0, 0, 0>>, tag |-> ""]
VARIABLES latest, installed, chk, now, asked, shown, truth, hist
vars == <<latest, installed, chk, now, asked, shown, truth, hist>>
\* asked: times of the checks since the last installation; truth: was the last successful check's answer `newer`
Init == latest = 1 /\ installed = Ver(1) /\ chk = NoCheck /\ now = 0 /\ asked = {} /\ shown = FALSE /\ truth = FALSE /\ hist = <<>>
Step(a, x) == Len(hist) < MaxSteps /\ hist' = Append(hist, [act |-> a, x |-> x])
Room == Len(hist) < MaxSteps
Release == Room /\ Step("release", latest + 1) /\ latest < 3 /\ latest' = latest + 1 /\ UNCHANGED <<installed, chk, now, asked, shown, truth>>
Wait == Room /\ \E h \in {5, 20, 25} : Step("wait", h) /\ now' = now + h /\ UNCHANGED <<latest, installed, chk, asked, shown, truth>>
Install == Room /\ \E i \in 0..latest : Step("install", i) /\ installed' = (IF i = 0 THEN Commit ELSE Ver(i)) /\ chk' = NoCheck /\ asked' = {} /\ shown' = FALSE /\ truth' = FALSE
           /\ UNCHANGED <<latest, now>>
Interrupt == Room /\ Step("interrupt", 0) /\ installed' = Unknown /\ chk' = NoCheck /\ asked' = {} /\ shown' = FALSE /\ truth' = FALSE /\ UNCHANGED <<latest, now>>
Import == /\ Room
          /\ IF Due(chk, now)
             THEN \E ok \in BOOLEAN : /\ Step("import", IF ok THEN 1 ELSE 0) /\ chk' = [at |-> now, ok |-> ok, newer |-> Newer(Ver(latest), installed)]
                     /\ asked' = asked \cup {now} /\ truth' = (ok /\ Newer(Ver(latest), installed))
             ELSE Step("import", 1) /\ UNCHANGED <<chk, asked, truth>>
          /\ shown' = Notice(chk') /\ UNCHANGED <<latest, installed, now>>
Next == Release \/ Wait \/ Install \/ Interrupt \/ Import
Spec == Init /\ [][Next]_vars
Rare == \A s, t \in asked : s = t \/ s - t >= Day \/ t - s >= Day
Right == shown => truth
NeverForNewest == [][installed' = Ver(latest') /\ shown' => ~Due(chk, now) \/ ~Newer(Ver(latest'), installed')]_vars
Inv == Rare /\ Right
Emitting == Trace /\ Len(hist) = MaxSteps /\ hist[MaxSteps].act = "import" => PrintT("J!" \o ToJson([notice |-> hist]))
=============================================================================
