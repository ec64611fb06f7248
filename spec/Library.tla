------------------------------ MODULE Library ------------------------------
(* The damage and loss model library: the remote repository, the data folder,  *)
(* the cache and the update, request by request.                               *)
(*                                                                             *)
(* remote: commits with parents, a manifest (set of files) and contents;       *)
(* disk: file -> content; cache: which commit the folder holds and what was    *)
(* there then.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets

Absent == "absent"
Junk == "junk"

RECURSIVE Ancestors(_, _)
Ancestors(Parent, c) == IF Parent[c] = 0 THEN {c} ELSE {c} \cup Ancestors(Parent, Parent[c])
Status(Parent, a, b) == IF a = b THEN "identical" ELSE IF a \in Ancestors(Parent, b) THEN "ahead"
                        ELSE IF b \in Ancestors(Parent, a) THEN "behind" ELSE "diverged"
Differing(Content, a, b) == {f \in DOMAIN Content[a] : Content[a][f] # Content[b][f]}

Installed(Manifest, Content, disk, c) == \A f \in Manifest[c] : disk[f] = Content[c][f]

(* the daily version check *)
Day == 24
NoCheck == [at |-> -1000, ok |-> FALSE, newer |-> FALSE]
Due(chk, now) == now - chk.at >= Day
(* versions: triples of numbers; a commit or an unknown version is never the latest; a name that is no version *)
(* differs from every other name                                                                           *)
Less(v, w) == \/ v[1] < w[1] \/ (v[1] = w[1] /\ v[2] < w[2]) \/ (v[1] = w[1] /\ v[2] = w[2] /\ v[3] < w[3])
Newer(latest, installed) ==
  CASE installed.kind \in {"unknown", "commit"} -> TRUE
    [] installed.kind = "name" \/ latest.kind = "name" -> installed.tag # latest.tag
    [] OTHER -> Less(installed.num, latest.num)
Notice(chk) == chk.ok /\ chk.newer
=============================================================================
