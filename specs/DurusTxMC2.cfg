SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  MaxCommits = 2
  MaxOid = 2
  MaxStamp = 5
  WithNew = TRUE
  WithPack = TRUE
INVARIANTS TxTypeOK InvalidationComplete NoDangling OneState Serializable NoSpurious
PROPERTIES UpToDate CommitExact
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
