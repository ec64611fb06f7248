----------------------------- MODULE WorkflowMC -----------------------------
EXTENDS Workflow, TLC, Json

CONSTANTS DemandVersions, AssetVersions, Sources, Processes, Maps, Settings, Clonings, Depth, Tamper, Rare, MaxScale, Rids
VARIABLES s, hist

Kinds == {"LoadDemand", "Calibrate", "GenDemand", "Rid", "Assets", "Frag", "Damage", "Map", "Cons", "Loss", "Scale",
          "Agg", "SaveLoad", "Restart", "Other", "TamperIn", "TamperOut"}

Acts(kind) ==
  CASE kind = "LoadDemand" -> {Act(kind, v, 0) : v \in DemandVersions}
    [] kind = "Calibrate"  -> {Act(kind, k, 0) : k \in Settings}
    [] kind = "GenDemand"  -> {Act(kind, c, 0) : c \in Clonings}
    [] kind = "Assets"     -> {Act(kind, v, 0) : v \in AssetVersions}
    [] kind = "Frag"       -> {Act(kind, f, 0) : f \in Sources}
    [] kind = "Damage"     -> {Act(kind, p, 0) : p \in Processes}
    [] kind = "Map"        -> {Act(kind, m, 0) : m \in Maps}
    [] kind = "Cons"       -> {Act(kind, c, 0) : c \in Sources}
    [] kind = "Scale"      -> {Act(kind, c, 0) : c \in {1, 2}}
    [] kind = "Agg"        -> {Act(kind, o, 0) : o \in 0..2}
    [] kind = "SaveLoad"   -> {Act(kind, o, w) : o \in 1..4, w \in 0..1}
    [] kind = "Other"      -> {Act(kind, o, 0) : o \in 1..2}
    [] OTHER               -> {Act(kind, 0, 0)}

\* one entry of the history: the action, the state it leads to, the tag of what it returns
Entry(t, x) == [a |-> x.a, v |-> x.v, w |-> x.w, s |-> Step(t, x), ret |-> Result(t, x)]

Init == \E n \in {0, 2, 4, 6, 7} :
          /\ s = RunActs(Empty, SubSeq(Prefix, 1, n))
          /\ hist = [i \in 1..n |-> Entry(RunActs(Empty, SubSeq(Prefix, 1, i - 1)), Prefix[i])]

Do(kind) == \E x \in Acts(kind) : Enabled(s, x) /\ s' = Step(s, x) /\ hist' = Append(hist, Entry(s, x))

LoadDemand == Do("LoadDemand")
Calibrate == Do("Calibrate")
GenDemand == Do("GenDemand")
Rid == Rids /\ Do("Rid")
Assets == Do("Assets")
Frag == Do("Frag")
Damage == Do("Damage")
Damage2 == Do("Damage")      \* twice, so that simulation takes it more often
Map == Do("Map")
Cons == Do("Cons")
Cons2 == Do("Cons")
Loss == Do("Loss")
Loss2 == Do("Loss")
Loss3 == Do("Loss")
Scale == s.lss # None /\ Len(s.lss[6]) < MaxScale /\ Do("Scale")
Agg == Do("Agg")
\* less often
SaveLoad == Len(hist) % Rare = 0 /\ Do("SaveLoad")
Restart == Len(hist) % (2 * Rare) = Rare /\ Do("Restart")
Other == Len(hist) % Rare = Rare - 1 /\ Do("Other")
TamperIn == Tamper /\  Do("TamperIn")
TamperOut == Tamper /\ Do("TamperOut")

Next == \/ LoadDemand \/ Calibrate \/ GenDemand \/ Rid \/ Assets \/ Frag \/ Damage \/ Damage2 \/ Map \/ Cons \/ Cons2 \/ Loss \/ Loss2 \/ Loss3 \/ Scale
        \/ Agg \/ SaveLoad \/ Restart \/ Other \/ TamperIn \/ TamperOut

Spec == Init /\ [][Next]_<<s, hist>>

\* for exhaustive exploration: the history is no part of the state
View == s

-----------------------------------------------------------------------------
TypeOK == /\ s.dem = None \/ s.dem[1] \in {"raw", "gen", "rid"}
          /\ s.cmp \in AssetVersions \cup {0}

\* a loss is never computed from a damage sample of another asset model, nor with undefined consequences
Consistent == s.lss # None => /\ s.lss[4][2] = s.lss[2][3]
                              /\ \A c \in Used(s.lss[4][1], s.lss[4][2]) : s.lss[5][c] # 0
DamageDefined == s.dmg # None => \A p \in InAsset(s.dmg[3]) : s.dmg[5][p] # 0

\* changing a stage leaves what earlier stages produced alone
Upstream == [][
    /\ (s'.dem # s.dem => \E x \in {"LoadDemand", "GenDemand", "Rid"} : hist'[Len(hist')].a = x)
    /\ (s'.dmg # s.dmg => hist'[Len(hist')].a \in {"Damage", "Restart"})
    /\ (s'.lss # s.lss => hist'[Len(hist')].a \in {"Loss", "Scale", "Restart"})
    /\ (hist'[Len(hist')].a \in {"Agg", "SaveLoad", "Other", "TamperIn", "TamperOut"} => s' = s)]_<<s, hist>>

\* the same calculation again gives the same result
Idempotent == \A k \in {"Damage", "Loss"} : \A x \in Acts(k) :
                 Enabled(s, x) => Step(Step(s, x), x) = Step(s, x)

\* prints the behaviours of a simulation
Show == Len(hist) < Depth \/ PrintT("J!" \o ToJson([hist |-> hist]))
Stop == Len(hist) < Depth
=============================================================================
