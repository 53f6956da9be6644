SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1}
 Ls = {1}
 MaxLen = 2
 Ks = {0, 1}
 Vs = {0}
 Kinds <- KindsBig
INVARIANTS InvReplica InvOne InvForm
CHECK_DEADLOCK FALSE
