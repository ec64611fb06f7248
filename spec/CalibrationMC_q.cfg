INIT Init
NEXT Next
CONSTANTS Fams = {"lognormal", "normal"}
 Lows = {0, 4}
 Highs = {0, 5}
 UnitSet = {1, 10}
 Adds = {3}
 Rounds = 2
INVARIANTS SettingsOk KeptOk RawOk CensorOk
CHECK_DEADLOCK FALSE
