------------------------- MODULE DemandSample -------------------------
(* The demand sample as a table: a function from column names to the origin *)
(* of their values. An origin is [src, unit]: src names a demand of the raw  *)
(* table or of the model, or an added constant. A cloning configuration is a *)
(* sequence of [src, to]: the values of src go to every column listed in to; *)
(* src itself is kept only if it is listed.                                  *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Flat(_)
Flat(cfg) == IF cfg = <<>> THEN <<>> ELSE Head(cfg).to \o Flat(Tail(cfg))
Listed(cfg) == Flat(cfg)
Sources(cfg) == {cfg[i].src : i \in DOMAIN cfg}
Known(cols, cfg) == {i \in DOMAIN cfg : cfg[i].src \in DOMAIN cols}
Unknown(cols, cfg) == Sources(cfg) \ DOMAIN cols
NewNames(cols, cfg) == UNION {{cfg[i].to[j] : j \in DOMAIN cfg[i].to} : i \in Known(cols, cfg)}
Kept(cols, cfg) == DOMAIN cols \ Sources(cfg)
Repeats(s) == \E i, j \in DOMAIN s : i # j /\ s[i] = s[j]
(* every column has one origin *)
Rejected(cols, cfg) == Repeats(Listed(cfg)) \/ Kept(cols, cfg) \cap NewNames(cols, cfg) # {}
Cloned(cols, cfg) ==
  [n \in Kept(cols, cfg) \cup NewNames(cols, cfg) |->
     IF n \in NewNames(cols, cfg)
     THEN cols[cfg[CHOOSE i \in Known(cols, cfg) : \E j \in DOMAIN cfg[i].to : cfg[i].to[j] = n].src]
     ELSE cols[n]]
Clone(cols, cfg) == IF Rejected(cols, cfg) THEN cols ELSE Cloned(cols, cfg)
Own(names, units) == [n \in {names[i] : i \in DOMAIN names} |-> [src |-> n, unit |-> units[CHOOSE i \in DOMAIN names : names[i] = n]]]
Expand(cols, name, unit) == [n \in DOMAIN cols \cup {name} |-> IF n = name THEN [src |-> "+" \o name, unit |-> unit] ELSE cols[n]]
Cyclic(r, n) == ((r - 1) % n) + 1
=============================================================================
