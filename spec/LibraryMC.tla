----------------------------- MODULE LibraryMC -----------------------------
(* Updates to any commit, with and without the cache, with a failure or a     *)
(* crash at any request or write, edits by hand in between, and imports.       *)
EXTENDS Library, TLC, Json
CONSTANTS MaxSteps, Edits, Trace
Commits == 1..4
Files == 1..2
\* 1 - 2, 1 - 3 - 4: 2 and 3 have diverged; file 1 is not listed in 3
Parent == <<0, 1, 1, 3>>
Content == << <<"a", "b">>, <<"c", "b">>, <<"c", "d">>, <<"c", "d">> >>
Manifest == << {1, 2}, {1, 2}, {2}, {1, 2} >>
NoCache == [commit |-> 0, had |-> [f \in Files |-> Absent]]
VARIABLES disk, cache, pc, target, use, changed, todo, seen, told, edited, hist
vars == <<disk, cache, pc, target, use, changed, todo, seen, told, edited, hist>>
All == Files
Init == /\ disk = [f \in Files |-> Absent] /\ cache = NoCache /\ pc = "idle" /\ target = 0 /\ use = TRUE
        /\ changed = Files /\ todo = {} /\ seen = [f \in Files |-> Absent] /\ told = "none" /\ edited = {} /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Start == /\ pc = "idle" /\ Len(hist) < MaxSteps
         /\ \E c \in Commits, u \in BOOLEAN :
              /\ target' = c /\ use' = u /\ pc' = "resolve" /\ told' = "none" /\ Log([act |-> "update", to |-> c, use |-> u, fault |-> "none"])
         /\ UNCHANGED <<disk, cache, changed, todo, seen, edited>>
\* what the cache says was already there is taken at its word
Shortcut == /\ pc = "resolve" /\ use /\ cache.commit = target
            /\ pc' = "idle" /\ told' = "ok" /\ UNCHANGED <<disk, cache, target, use, changed, todo, seen, edited, hist>>
Compare == /\ pc = "resolve" /\ ~(use /\ cache.commit = target) /\ pc' = "manifest"
           /\ \/ /\ use /\ cache.commit # 0 /\ Status(Parent, cache.commit, target) # "diverged"
                 /\ changed' = Differing(Content, cache.commit, target)
              \/ changed' = Files     \* no base, diverged, or the request failed
           /\ UNCHANGED <<disk, cache, target, use, todo, seen, told, edited, hist>>
Listed == /\ pc = "manifest" /\ todo' = Manifest[target] /\ pc' = "invalidate"
          /\ UNCHANGED <<disk, cache, target, use, changed, seen, told, edited, hist>>
\* from here on the cache claims nothing
Invalidate == /\ pc = "invalidate" /\ pc' = "files" /\ seen' = IF use THEN cache.had ELSE [f \in Files |-> Absent]
              /\ cache' = NoCache /\ UNCHANGED <<disk, target, use, changed, todo, told, edited, hist>>
Skip == /\ pc = "files" /\ \E f \in todo : /\ f \notin changed /\ seen[f] # Absent /\ disk[f] = seen[f]
                                          /\ todo' = todo \ {f} /\ edited' = edited \ {f}
        /\ UNCHANGED <<disk, cache, pc, target, use, changed, seen, told, hist>>
Take == /\ pc = "files" /\ \E f \in todo : /\ ~(f \notin changed /\ seen[f] # Absent /\ disk[f] = seen[f])
                                          /\ disk' = [disk EXCEPT ![f] = Content[target][f]] /\ todo' = todo \ {f} /\ edited' = edited \ {f}
        /\ UNCHANGED <<cache, pc, target, use, changed, seen, told, hist>>
Finish == /\ pc = "files" /\ todo = {} /\ pc' = "idle" /\ told' = "ok"
          /\ cache' = [commit |-> target, had |-> [f \in Files |-> IF f \in Manifest[target] THEN disk[f] ELSE Absent]]
          /\ UNCHANGED <<disk, target, use, changed, todo, seen, edited, hist>>
Mark(x) == hist' = [hist EXCEPT ![Len(hist)].fault = x]
\* a failed request is reported, a crash is seen by the caller
Fail == /\ pc \in {"resolve", "manifest"} /\ Mark(pc) /\ pc' = "idle" /\ told' = "error"
        /\ UNCHANGED <<disk, cache, target, use, changed, todo, seen, edited>>
FailFile == /\ pc = "files" /\ todo # {} /\ Mark("file") /\ pc' = "idle" /\ told' = "error"
            /\ \E f \in todo : disk' \in {disk, [disk EXCEPT ![f] = Junk]}
            /\ UNCHANGED <<cache, target, use, changed, todo, seen, edited>>
\* the power goes off while the cache is written
Tear == /\ pc = "files" /\ todo = {} /\ Mark("save") /\ pc' = "idle" /\ told' = "error" /\ cache' = NoCache
        /\ UNCHANGED <<disk, target, use, changed, todo, seen, edited>>
Edit == /\ pc = "idle" /\ Edits /\ Len(hist) < MaxSteps
        /\ \E f \in Files, x \in {Absent, Junk} : /\ disk[f] # x /\ disk' = [disk EXCEPT ![f] = x] /\ edited' = edited \cup {f}
             /\ Log([act |-> "edit", to |-> f, use |-> x = Junk, fault |-> "none"])
        /\ told' = "none" /\ UNCHANGED <<cache, pc, target, use, changed, todo, seen>>
Next == Start \/ Shortcut \/ Compare \/ Listed \/ Invalidate \/ Skip \/ Take \/ Finish \/ Fail \/ FailFile \/ Tear \/ Edit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* a reported success means that the version is in place *)
Success == pc = "idle" /\ told = "ok" => \A f \in Manifest[target] : disk[f] = Content[target][f] \/ f \in edited
(* the cache never claims a version that is not in place *)
Truth == cache.commit # 0 => \A f \in Manifest[cache.commit] : disk[f] = Content[cache.commit][f] \/ f \in edited
(* whatever happened, another update without failures helps *)
Inv == Success /\ Truth
Emitting == Trace /\ pc = "idle" /\ Len(hist) = MaxSteps /\ told # "none" => PrintT("J!" \o ToJson([hist |-> hist]))
=============================================================================
