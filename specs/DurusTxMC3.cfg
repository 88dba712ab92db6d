SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2, 3}
  MaxCommits = 2
  MaxOid = 1
  MaxStamp = 4
  WithNew = FALSE
  WithPack = FALSE
INVARIANTS TxTypeOK InvalidationComplete NoDangling OneState Serializable NoSpurious
PROPERTIES UpToDate CommitExact
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
