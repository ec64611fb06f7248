INIT Init
NEXT Next
CONSTANTS Fams = {"lognormal", "normal", "empirical"}
 Lows = {0, 4}
 Highs = {0, 5, 45}
 UnitSet = {1, 10}
 Adds = {3}
 Rounds = 3
INVARIANTS SettingsOk KeptOk RawOk CensorOk
CHECK_DEADLOCK FALSE
