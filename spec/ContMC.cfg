SPECIFICATION Spec
CONSTANTS
 MaxLen = 2
 Ks = {0, 1}
 Vs = {0, 1}
 Cms <- CmsQ
INVARIANTS Unique Sorted Agree BiUnique
CHECK_DEADLOCK FALSE
