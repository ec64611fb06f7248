CONSTANTS
 DemandVersions = {1}
 AssetVersions = {1, 2}
 Sources = {1, 2}
 Processes = {0}
 Maps = {1}
 Settings = {1}
 Clonings = {0}
 Rids = FALSE
 Depth = 99
 Rare = 1
 MaxScale = 1
 Tamper = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Consistent DamageDefined Idempotent
PROPERTIES Upstream
CHECK_DEADLOCK FALSE
