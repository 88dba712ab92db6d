----------------------------- MODULE DurusLock -----------------------------
(***************************************************************************)
(* Several processes open, write, pack and close the database at one path;  *)
(* one action for each system call that the others can notice.              *)
(* content[i] is the number of commits in file i (-1: empty), lock[i] the    *)
(* process with a lock on it, path the file with the name.                  *)
(* With any of the constants FALSE the model has two writers or loses        *)
(* commits; all three were FALSE in the code as found.                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Procs, MaxFiles, MaxCommits, MaxKills,
          KeepLock,      \* the packed file stays open and locked when it is renamed
          Verify,        \* having the lock, check that the file still has the name
          Create         \* opening a new file never clears one
VARIABLES path, content, lock, pc, fd, new, mem, acked, kills
vars == <<path, content, lock, pc, fd, new, mem, acked, kills>>
NoFile == 0
Init == /\ path = NoFile /\ content = <<>> /\ lock = <<>> /\ pc = [p \in Procs |-> "idle"]
        /\ fd = [p \in Procs |-> NoFile] /\ new = [p \in Procs |-> NoFile] /\ mem = [p \in Procs |-> 0]
        /\ acked = 0 /\ kills = 0
Go(p, to) == pc' = [pc EXCEPT ![p] = to]
Holding == {"holding", "copied", "linked", "relock", "swapped"}

\* File.__init__: looks whether there is a file
Start(p) == /\ pc[p] = "idle" /\ (path # NoFile \/ Len(content) < MaxFiles)
            /\ Go(p, IF path = NoFile THEN "create" ELSE "open")
            /\ UNCHANGED <<path, content, lock, fd, new, mem, acked, kills>>
Open(p) == /\ pc[p] \in {"create", "open"} /\ Go(p, "opened")
           /\ IF path = NoFile
              THEN /\ Len(content) < MaxFiles /\ path' = Len(content) + 1
                   /\ content' = Append(content, -1) /\ lock' = Append(lock, 0)
              ELSE /\ content' = IF pc[p] = "create" /\ ~Create THEN [content EXCEPT ![path] = -1] ELSE content
                   /\ UNCHANGED <<path, lock>>
           /\ fd' = [fd EXCEPT ![p] = path'] /\ UNCHANGED <<new, mem, acked, kills>>
\* obtain_lock(), then the storage reads the file or begins it
Lock(p) == /\ pc[p] = "opened"
           /\ LET f == fd[p] IN
              IF lock[f] = 0 /\ (Verify => f = path)
              THEN /\ lock' = [lock EXCEPT ![f] = p] /\ Go(p, "holding")
                   /\ content' = [content EXCEPT ![f] = IF @ = -1 THEN 0 ELSE @]
                   /\ mem' = [mem EXCEPT ![p] = content'[f]]
              ELSE Go(p, "idle") /\ UNCHANGED <<lock, content, mem>>
           /\ UNCHANGED <<path, fd, new, acked, kills>>
Commit(p) == /\ pc[p] \in {"holding", "copied"} /\ acked < MaxCommits
             /\ mem' = [mem EXCEPT ![p] = @ + 1] /\ content' = [content EXCEPT ![fd[p]] = mem'[p]]
             /\ acked' = acked + 1
             /\ UNCHANGED <<path, lock, pc, fd, new, kills>>
\* get_packer(): the file for the pack, locked
Pack(p) == /\ pc[p] = "holding" /\ Len(content) < MaxFiles
           /\ content' = Append(content, mem[p]) /\ lock' = Append(lock, p)
           /\ new' = [new EXCEPT ![p] = Len(content) + 1] /\ Go(p, "copied")
           /\ UNCHANGED <<path, fd, mem, acked, kills>>
Link(p) == /\ pc[p] = "copied" /\ Go(p, "linked")
           /\ content' = [content EXCEPT ![new[p]] = mem[p]]
           /\ UNCHANGED <<path, lock, fd, new, mem, acked, kills>>
Rename(p) == /\ pc[p] = "linked" /\ path' = new[p]
             /\ IF KeepLock THEN Go(p, "swapped") /\ UNCHANGED lock
                ELSE Go(p, "relock") /\ lock' = [lock EXCEPT ![new[p]] = 0]
             /\ UNCHANGED <<content, fd, new, mem, acked, kills>>
Relock(p) == /\ pc[p] = "relock"
             /\ IF lock[new[p]] = 0 THEN lock' = [lock EXCEPT ![new[p]] = p] /\ Go(p, "swapped")
                ELSE Go(p, "holding") /\ UNCHANGED lock      \* the pack fails
             /\ UNCHANGED <<path, content, fd, new, mem, acked, kills>>
CloseOld(p) == /\ pc[p] = "swapped" /\ Go(p, "holding")
               /\ lock' = [lock EXCEPT ![fd[p]] = 0] /\ fd' = [fd EXCEPT ![p] = new[p]]
               /\ UNCHANGED <<path, content, new, mem, acked, kills>>
Close(p) == /\ pc[p] = "holding" /\ Go(p, "idle") /\ lock' = [lock EXCEPT ![fd[p]] = 0]
            /\ UNCHANGED <<path, content, fd, new, mem, acked, kills>>
Kill(p) == /\ kills < MaxKills /\ pc[p] # "idle" /\ Go(p, "idle") /\ kills' = kills + 1
           /\ lock' = [i \in DOMAIN lock |-> IF lock[i] = p THEN 0 ELSE lock[i]]
           /\ UNCHANGED <<path, content, fd, new, mem, acked>>
Next == \E p \in Procs : \/ Start(p) \/ Open(p) \/ Lock(p) \/ Commit(p) \/ Pack(p) \/ Link(p) \/ Rename(p)
                         \/ Relock(p) \/ CloseOld(p) \/ Close(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
OneWriter == Cardinality({p \in Procs : pc[p] \in Holding}) <= 1
Current == \A p \in Procs : pc[p] \in Holding => mem[p] = acked
\* what a reader finds at any time
Visible == path # NoFile /\ acked > 0 => content[path] = acked
\* the name is free again when nobody holds it
Free == path # NoFile /\ (\A p \in Procs : pc[p] \notin Holding) => lock[path] = 0
=============================================================================
