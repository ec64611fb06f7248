--------------------------- MODULE ResidualMC ---------------------------
(* Samples are drawn and extended again and again with the settings of one   *)
(* caller: drifts and yields move through all regimes, the caller's settings *)
(* stay as they are and mean the same every time.                            *)
EXTENDS Residual, TLC
CONSTANTS MaxD, Yields, Runs
Cols == {[type |-> t, loc |-> l, dir |-> d] : t \in {"PID", "PFA"}, l \in {"1", "2"}, d \in {"1", "2"}}
VARIABLES config, cols, drift, resid, runs, phase
vars == <<config, cols, drift, resid, runs, phase>>
Dirs == {"1", "2"}
Init == /\ config \in UNION {[D -> Yields] : D \in SUBSET Dirs}
        /\ cols = {} /\ drift = 0 /\ resid = <<>> /\ runs = 0 /\ phase = "start"
Draw == /\ phase \in {"start", "inferred"} /\ runs < Runs /\ runs' = runs + 1 /\ phase' = "drawn"
        /\ cols' \in {Cols, {c \in Cols : c.loc = "1"}}
        /\ drift' \in 0..MaxD /\ resid' = <<>> /\ UNCHANGED config
Infer == /\ phase = "drawn" /\ phase' = "inferred"
         /\ cols' = Adjusted(cols, config)
         /\ resid' = [d \in DOMAIN config |-> Median(drift, config[d])]
         /\ UNCHANGED <<config, drift, runs>>
Next == Draw \/ Infer
Sane == phase = "inferred" => \A d \in DOMAIN config : resid[d] >= 0 /\ resid[d] <= drift /\ (drift <= config[d] => resid[d] = 0)
Monotone == phase = "inferred" => \A d \in DOMAIN config : drift > 0 => Median(drift - 1, config[d]) <= resid[d]
PerDirection == phase = "inferred" => \A c \in Peaks(cols) : ([c EXCEPT !.type = "RID"] \in cols) <=> c.dir \in DOMAIN config
Keeps == phase = "inferred" => \A c \in cols : c.type = "RID" => [c EXCEPT !.type = "PID"] \in cols
CallerKept == [][config' = config]_vars
=============================================================================
