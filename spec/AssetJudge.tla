----------------------------- MODULE AssetJudge -----------------------------
(* in: stories, rows [cmp, loc, dir, sig]; sig is the text of the quantity   *)
(* definition of the row in base units. obs.groups: [cmp, loc, dir, uid, sig] *)
(* of the model; obs.sample: the same of the sample, sig = the value (or the  *)
(* text of the row for values that are random but within its support);       *)
(* obs.saved: of the sample saved in the stated unit, brought back by its     *)
(* factor.                                                                    *)
EXTENDS Asset, Judging
VARIABLES k, todo, ok, want
I == Cases[k].in
Obs == Cases[k].obs
Wanted(key) == Cardinality({g \in DOMAIN want : want[g] = key})
Have(seq, key) == Cardinality({g \in DOMAIN seq : <<seq[g].cmp, seq[g].loc, seq[g].dir, seq[g].sig>> = key})
Matches(seq) == Len(seq) = Len(want) /\ \A g \in DOMAIN want : Have(seq, want[g]) = Wanted(want[g])
Place(g) == <<g.cmp, g.loc, g.dir>>
Unique(seq) == \A g \in DOMAIN seq : \A h \in DOMAIN seq : g # h => (Place(seq[g]) # Place(seq[h]) \/ seq[g].uid # seq[h].uid)
Dense(seq) == \A g \in DOMAIN seq : seq[g].uid \in 0..(Cardinality({h \in DOMAIN seq : Place(seq[h]) = Place(seq[g])}) - 1)
SamePlaces(a, b) == {<<Place(a[i]), a[i].uid, a[i].row>> : i \in DOMAIN a} = {<<Place(b[i]), b[i].uid, b[i].row>> : i \in DOMAIN b}
Verdict ==
  IF ~ok THEN Clause("malformed-location-accepted", Has(Obs, "exc"))
  ELSE IF Has(Obs, "exc") THEN {"unexpected-error"}
  ELSE Clause("groups", Matches(Obs.groups)) \cup Clause("unique-ids", Unique(Obs.groups) /\ Dense(Obs.groups))
       \cup Clause("sample", Matches(Obs.sample) /\ Unique(Obs.sample))
       \cup Clause("saved", Matches(Obs.saved) /\ Unique(Obs.saved))
       \cup Clause("realizations", Obs.n = I.n)
       \cup Clause("same-row", SamePlaces(Obs.groups, Obs.sample))
       \cup Clause("damage", \A g \in DOMAIN Obs.blocks : Obs.blocks[g].got = Obs.blocks[g].blocks)
JInit == k \in DOMAIN Cases /\ todo = TRUE /\ ok = Accepted(I.rows, I.stories)
         /\ want = (IF ok THEN LET gs == Groups(I.rows, I.stories) IN
                      [g \in DOMAIN gs |-> <<gs[g].place[1], gs[g].place[2], gs[g].place[3], I.rows[gs[g].row].sig>>] ELSE <<>>)
JNext == todo /\ Report(Cases[k].id, Verdict) /\ todo' = FALSE /\ UNCHANGED <<k, ok, want>>
=============================================================================
