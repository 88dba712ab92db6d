SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  MaxOid = 2
  MaxCommits = 2
INVARIANTS Coherent Disjoint NoReuse
PROPERTIES Atomic PackKeeps
CHECK_DEADLOCK FALSE
