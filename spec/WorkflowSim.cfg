CONSTANTS
 DemandVersions = {1, 2}
 AssetVersions = {1, 2}
 Sources = {1, 2}
 Processes = {0, 1, 2}
 Maps = {1, 2}
 Settings = {1, 2, 3}
 Clonings = {0, 1}
 Rids = TRUE
 Depth = 24
 Rare = 4
 MaxScale = 2
 Tamper = FALSE
SPECIFICATION Spec
INVARIANTS Show Consistent
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
