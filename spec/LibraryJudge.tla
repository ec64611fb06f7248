---------------------------- MODULE LibraryJudge ----------------------------
(* in.commits: [parent, manifest, content: file -> name] (file names as in     *)
(* the repository); in.steps[i]: [act, to (commit, 0 unknown), label, use,     *)
(* latest (the newest release then), hours]; obs.steps[i]: outcome "ok",       *)
(* "error", "crash"; disk: file -> content name; notice, asked (requests for   *)
(* the newest release), faulted, killed, wrote (the list of files was asked    *)
(* for), reached (a file was), used (models are read from the folder).                                                 *)
EXTENDS Library, Judging
VARIABLES k, todo
I == Cases[k].in
O == Cases[k].obs
N == Len(I.steps)
Disk(i) == IF i = 0 THEN I.disk ELSE O.steps[i].disk
At(d, f) == IF f \in DOMAIN d THEN d[f] ELSE Absent
Wanted(c, f) == I.commits[c].content[f]
InPlace(d, c) == \A f \in ToSet(I.commits[c].manifest) : At(d, f) = Wanted(c, f)
Good(i) == I.steps[i].act \in {"update", "import"} /\ O.steps[i].outcome = "ok" /\ O.steps[i].wrote = 1
(* what is known of the folder: the commit last installed with success (0: unknown), its label, files edited by hand since, *)
(* the last version check (known: TRUE when the notice is determined)                                                   *)
Start == [commit |-> 0, label |-> [kind |-> "unknown", num |-> <<0, 0, 0>>, tag |-> ""], edited |-> {}, chk |-> NoCheck, now |-> 0, sure |-> TRUE]
Missing(d) == At(d, "model_files.txt") = Absent
Downloads(i) == I.steps[i].act = "update" \/ (I.steps[i].act = "import" /\ Missing(Disk(i - 1)))
After(st, i) ==
  LET s == I.steps[i] o == O.steps[i] IN
  CASE s.act \in {"edit", "wipe"} -> [st EXCEPT !.edited = @ \cup {f \in DOMAIN Disk(i - 1) \cup DOMAIN Disk(i) : At(Disk(i - 1), f) # At(Disk(i), f)}]
    [] s.act = "reset" -> [Start EXCEPT !.now = st.now]
    [] s.act = "tear" -> [st EXCEPT !.commit = 0, !.label = Start.label, !.chk = NoCheck]
    [] s.act = "wait" -> [st EXCEPT !.now = @ + s.hours]
    [] Downloads(i) -> IF s.to = 0 THEN st
         ELSE IF o.outcome = "ok" THEN
           (IF st.commit = s.to /\ s.use = 1 /\ o.wrote = 0
            THEN (IF st.label = s.label THEN st ELSE [st EXCEPT !.label = s.label, !.chk = NoCheck])
            \* (an uncached update to an empty list need not leave a record)
            ELSE [st EXCEPT !.commit = s.to, !.label = s.label, !.edited = {}, !.chk = NoCheck,
                            !.sure = s.use = 1 \/ I.commits[s.to].manifest # <<>>])
         ELSE IF o.reached = 1 THEN [st EXCEPT !.commit = 0, !.label = Start.label, !.chk = NoCheck, !.sure = FALSE]
         ELSE IF o.wrote = 1 THEN [st EXCEPT !.sure = FALSE] ELSE st
    [] s.act = "import" -> IF Due(st.chk, st.now)
         THEN [st EXCEPT !.chk = [at |-> st.now, ok |-> o.faulted = 0, newer |-> Newer(s.latest, st.label)], !.sure = @ /\ o.outcome = "ok"]
         ELSE st
    [] OTHER -> st
RECURSIVE StateAt(_)
StateAt(i) == IF i = 0 THEN Start ELSE After(StateAt(i - 1), i)
BadStep(i) ==
  LET s == I.steps[i] o == O.steps[i] st == StateAt(i - 1) d == Disk(i - 1) e == Disk(i) IN
  IF Downloads(i) THEN
    \* an installation that the folder already holds may be taken at its word, but for the files edited by hand
    (LET spare == IF I.strict = 0 /\ st.commit = s.to /\ s.use = 1 /\ s.act = "update" THEN st.edited ELSE {} IN
     Clause("success", o.outcome = "ok" => s.to # 0 /\ \A f \in ToSet(I.commits[s.to].manifest) \ spare : At(e, f) = Wanted(s.to, f)))
    \cup Clause("manifest", o.outcome = "ok" /\ s.act = "import" => ~Missing(e))
    \cup Clause("undisturbed", s.to # 0 /\ o.faulted = 0 => o.outcome = "ok")
    \cup Clause("unknown version", s.to = 0 => o.outcome = "error" /\ e = d)
    \cup Clause("frame", s.to # 0 => \A f \in DOMAIN d \cup DOMAIN e :
            \/ At(e, f) = At(d, f)
            \/ f = "model_files.txt"
            \/ o.outcome # "ok" /\ At(d, f) = Absent
            \/ f \in ToSet(I.commits[s.to].manifest) /\ (At(e, f) = Wanted(s.to, f) \/ o.outcome # "ok"))
    \cup Clause("no notice", o.notice = 0) \cup Clause("used", o.used = 1)
  ELSE IF s.act = "import" THEN
    Clause("files stay", e = d) \cup Clause("import", o.outcome = "ok" \/ o.killed = 1)
    \cup (IF ~st.sure THEN {} ELSE
            Clause("checked daily", o.asked = (IF Due(st.chk, st.now) THEN 1 ELSE 0))
            \cup Clause("notice", o.outcome = "ok" => (o.notice = 1) = Notice(StateAt(i).chk)))
  ELSE {}
Bad == IF Has(O, "exc") THEN {"error"} ELSE UNION {BadStep(i) : i \in 1..N}
JInit == k \in DOMAIN Cases /\ todo = TRUE
JNext == todo /\ Report(Cases[k].id, Bad) /\ todo' = FALSE /\ UNCHANGED k
=============================================================================
