------------------------------- MODULE AssetMC -------------------------------
(* Placing the rows of an assignment one place at a time: each placement      *)
(* takes the next free id at its place.                                      *)
EXTENDS Asset, TLC
CONSTANTS N, MaxRows, Stories
One == {[t |-> "one", a |-> i] : i \in 0..N}
Ranges == {[t |-> "range", a |-> i, b |-> j] : i, j \in 0..N}
Keys == {[t |-> k] : k \in KeyWords}
Atoms == One \cup Ranges \cup Keys
Lists == {[t |-> "list", parts |-> <<x, y>>] : x \in One \cup Keys, y \in One \cup Ranges}
Locs == Atoms \cup Lists \cup {[t |-> "bad"]}
Dirs == {[t |-> "one", a |-> 1], [t |-> "range", a |-> 1, b |-> 2], [t |-> "range", a |-> 2, b |-> 1], [t |-> "list", parts |-> <<[t |-> "one", a |-> 2], [t |-> "one", a |-> 2]>>]}
Rows == [cmp : {"A", "B"}, loc : Locs, dir : Dirs]

VARIABLES rows, stories, r, todo, placed, status
vars == <<rows, stories, r, todo, placed, status>>
Init == /\ rows \in UNION {[1..n -> Rows] : n \in {MaxRows}} /\ stories \in Stories
        /\ r = 0 /\ todo = <<>> /\ placed = <<>> /\ status = "busy"
Uid(p) == Cardinality({i \in DOMAIN placed : placed[i].place = p})
Open == /\ status = "busy" /\ todo = <<>> /\ r < Len(rows) /\ RowValid(rows[r + 1], stories)
        /\ r' = r + 1 /\ todo' = Places(rows[r + 1], stories) /\ UNCHANGED <<rows, stories, placed, status>>
Reject == /\ status = "busy" /\ todo = <<>> /\ r < Len(rows) /\ ~RowValid(rows[r + 1], stories)
          /\ status' = "error" /\ UNCHANGED <<rows, stories, r, todo, placed>>
Place == /\ status = "busy" /\ todo # <<>>
         /\ placed' = Append(placed, [place |-> Head(todo), uid |-> Uid(Head(todo)), row |-> r])
         /\ todo' = Tail(todo) /\ UNCHANGED <<rows, stories, r, status>>
Finish == status = "busy" /\ todo = <<>> /\ r = Len(rows) /\ status' = "done" /\ UNCHANGED <<rows, stories, r, todo, placed>>
Next == Open \/ Reject \/ Place \/ Finish
Spec == Init /\ [][Next]_vars
Inv ==
  /\ \A i, j \in DOMAIN placed : i # j => <<placed[i].place, placed[i].uid>> # <<placed[j].place, placed[j].uid>>
  /\ \A i \in DOMAIN placed : placed[i].uid < Cardinality({j \in DOMAIN placed : placed[j].place = placed[i].place})
  /\ status = "done" =>
       /\ Accepted(rows, stories)
       /\ [i \in DOMAIN placed |-> [place |-> placed[i].place, row |-> placed[i].row]] = Groups(rows, stories)
       /\ \A x \in DOMAIN rows : /\ Cardinality({i \in DOMAIN placed : placed[i].row = x})
                                      = Len(Expand(rows[x].loc, stories)) * Len(Expand(rows[x].dir, 0))
                                 /\ \E i \in DOMAIN placed : placed[i].row = x   \* no row is lost
  /\ status = "error" => ~Accepted(rows, stories)
=============================================================================
