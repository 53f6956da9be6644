SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1}
 Ls = {1}
 Slots = {1}
 MaxLen = 2
 Ks = {0, 1}
 Vs = {0}
 Kinds <- KindsAll
INVARIANTS InvOne InvReplica InvForm InvDiff InvDirty
PROPERTIES Atomic Exclusive Fixed
CHECK_DEADLOCK FALSE
