------------------------------ MODULE DurusLog ------------------------------
(***************************************************************************)
(* How a FileStorage survives a crash: the file as a sequence of cells, the *)
(* operations in the order in which the code issues them, and everything    *)
(* that the disk may hold when the machine stops.                           *)
(*                                                                         *)
(* A commit k appends <<"len", k, 0>> (a length that no file can have),      *)
(* Recs cells <<"rec", k>>, then replaces the length by the true one,        *)
(* <<"len", k, 1>>, and forces the file to disk before it is acknowledged.    *)
(* A pack copies to a second file: <<"base", n>> stands for the records of    *)
(* commits 1..n; commits made meanwhile follow as one transaction            *)
(* <<"len", n, 1>> with all of them.  The file is forced to disk, linked     *)
(* to the old one's backup name, and renamed to the name of the database.    *)
(*                                                                         *)
(* The disk holds, for every file, some content that it had since it was    *)
(* last forced, cut at any size beyond the forced one; and the names of      *)
(* some moment since then.                                                  *)
(*                                                                         *)
(* The constants are design decisions.  With any of them FALSE the model     *)
(* checker finds the loss (checked by the thorough run); four of them were    *)
(* FALSE in the code as found.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxCommits, Recs, MaxCrashes, MaxPacks,
          SyncBeforeAck,     \* a commit is forced to disk before it is acknowledged
          SyncBeforeSwap,    \* the packed file is forced before it gets the name
          BadPlaceholder,    \* the placeholder is not a well formed length (0 is)
          CheckLast,         \* opening verifies that the last record is all there
          LinkFirst,         \* the old file keeps its name until it is replaced
          KeepExtra          \* commits made during a pack are copied to its file
VARIABLES file,      \* inode -> cells
          vers,      \* inode -> contents since it was last forced
          size,      \* inode -> cells at the last force
          cur,       \* inode with the name of the database, 0: none
          names,     \* values of cur since the last force
          next,      \* next commit
          step,      \* of the commit in progress: -1 none, 0..Recs records, Recs+1 patched
          acked,     \* last acknowledged commit
          pk,        \* state of the pack: "no", "copy", "tail", "synced", "linked"
          base,      \* commits in the base of the pack's file
          crashes, packs, inode,
          last       \* result of the last recovery
vars == <<file, vers, size, cur, names, next, step, acked, pk, base, crashes, packs, inode, last>>
Bad == 99            \* what recovery made of the file is no state at all

Init == /\ file = [i \in {1} |-> << <<"base", 0>> >>] /\ vers = [i \in {1} |-> {<< <<"base", 0>> >>}]
        /\ size = [i \in {1} |-> 1] /\ cur = 1 /\ names = {1} /\ next = 1 /\ step = -1 /\ acked = 0
        /\ pk = "no" /\ base = 0 /\ crashes = 0 /\ packs = 0 /\ inode = 1 /\ last = <<0, 0, 0>>

Write(i, content) == /\ file' = [file EXCEPT ![i] = content]
                     /\ vers' = [vers EXCEPT ![i] = @ \cup {content}]
\* forcing one file also forces the names (assumed of the file system)
Force(i) == /\ vers' = [vers EXCEPT ![i] = {file[i]}] /\ size' = [size EXCEPT ![i] = Len(file[i])]
            /\ names' = {cur}

----------------------------------------------------------------------------
\* a commit: Shelf.store(), FileStorage.end()
Begin == /\ step = -1 /\ next <= MaxCommits /\ pk \in {"no", "copy"} /\ cur # 0
         /\ Write(cur, Append(file[cur], <<"len", next, 0>>)) /\ step' = 0
         /\ UNCHANGED <<size, cur, names, next, acked, pk, base, crashes, packs, inode, last>>
Record == /\ step \in 0..(Recs-1)
          /\ Write(cur, Append(file[cur], <<"rec", next>>)) /\ step' = step + 1
          /\ UNCHANGED <<size, cur, names, next, acked, pk, base, crashes, packs, inode, last>>
Patch == /\ step = Recs
         /\ Write(cur, [file[cur] EXCEPT ![Len(file[cur]) - Recs] = <<"len", next, 1>>]) /\ step' = Recs + 1
         /\ UNCHANGED <<size, cur, names, next, acked, pk, base, crashes, packs, inode, last>>
Ack == /\ step = Recs + 1
       /\ IF SyncBeforeAck THEN Force(cur) ELSE UNCHANGED <<vers, size, names>>
       /\ acked' = next /\ next' = next + 1 /\ step' = -1
       /\ UNCHANGED <<file, cur, pk, base, crashes, packs, inode, last>>
----------------------------------------------------------------------------
\* a pack: FileStorage.get_packer()
PackStart == /\ pk = "no" /\ step = -1 /\ packs < MaxPacks /\ cur # 0
             /\ inode' = inode + 1
             /\ file' = inode' :> <<>> @@ file /\ vers' = inode' :> {<<>>} @@ vers /\ size' = inode' :> 0 @@ size
             /\ pk' = "copy" /\ base' = acked /\ packs' = packs + 1
             /\ UNCHANGED <<cur, names, next, step, acked, crashes, last>>
PackCopy == /\ pk = "copy" /\ step = -1
            /\ Write(inode, << <<"base", base>> >>) /\ pk' = "tail"
            /\ UNCHANGED <<size, cur, names, next, step, acked, base, crashes, packs, inode, last>>
\* the rest happens between two commits
PackTail == /\ pk = "tail"
            /\ IF base < acked /\ KeepExtra
               THEN Write(inode, file[inode] \o << <<"len", acked, 1>> >> \o [r \in 1..Recs |-> <<"rec", acked>>])
               ELSE UNCHANGED <<file, vers>>
            /\ pk' = "full" /\ UNCHANGED <<size, cur, names, next, step, acked, base, crashes, packs, inode, last>>
PackSync == /\ pk = "full" /\ pk' = "synced"
            /\ IF SyncBeforeSwap THEN Force(inode) ELSE UNCHANGED <<vers, size, names>>
            /\ UNCHANGED <<file, cur, next, step, acked, base, crashes, packs, inode, last>>
PackLink == /\ pk = "synced" /\ pk' = "linked"
            /\ IF LinkFirst THEN UNCHANGED <<cur, names>> ELSE cur' = 0 /\ names' = names \cup {0}
            /\ UNCHANGED <<file, vers, size, next, step, acked, base, crashes, packs, inode, last>>
PackSwap == /\ pk = "linked" /\ pk' = "no" /\ cur' = inode /\ names' = names \cup {inode}
            /\ UNCHANGED <<file, vers, size, next, step, acked, base, crashes, packs, inode, last>>
----------------------------------------------------------------------------
\* opening: the commits that are found in the cells, and the cells that are kept
RECURSIVE Parse(_, _, _)
Parse(c, n, found) ==        \* n cells are in order and hold commits up to found
  IF n = Len(c) THEN <<found, n>>
  ELSE LET len == c[n+1]
           rest == Len(c) - n - 1
       IN IF len[1] # "len" THEN <<Bad, n>>
          ELSE IF len[3] = 0
               THEN IF BadPlaceholder THEN <<found, n>>         \* not complete: removed
                    ELSE IF rest = 0 THEN <<found, n + 1>> ELSE <<Bad, n>>   \* records taken for transactions
          ELSE IF rest >= Recs THEN Parse(c, n + 1 + Recs, len[2])
          ELSE IF ~CheckLast /\ rest = Recs - 1 THEN <<Bad, n>>    \* taken for complete
          ELSE <<found, n>>
Recover(c) == IF c = <<>> \/ c[1][1] # "base" THEN <<Bad, 0>> ELSE Parse(c, 1, c[1][2])
Cut(c, n) == SubSeq(c, 1, n)
Crash ==
  /\ crashes < MaxCrashes
  /\ \E i \in names \cup {cur} :
       IF i = 0 THEN last' = <<Bad, acked, next>> /\ UNCHANGED <<file, vers, size, cur, names, next>>
       ELSE \E c \in vers[i] : \E n \in (IF size[i] < Len(c) THEN size[i] ELSE Len(c))..Len(c) :
              LET r == Recover(Cut(c, n)) IN
              /\ last' = <<r[1], acked, IF step = -1 THEN acked ELSE next>>
              /\ file' = [j \in {1} |-> Cut(c, r[2])] /\ vers' = [j \in {1} |-> {Cut(c, r[2])}]
              /\ size' = [j \in {1} |-> r[2]] /\ cur' = 1 /\ names' = {1} /\ next' = r[1] + 1
  /\ acked' = IF last'[1] = Bad THEN acked ELSE last'[1]
  /\ inode' = 1 /\ step' = -1 /\ pk' = "no" /\ base' = 0 /\ crashes' = crashes + 1
  /\ UNCHANGED packs
Next == Begin \/ Record \/ Patch \/ Ack \/ PackStart \/ PackCopy \/ PackTail \/ PackSync \/ PackLink \/ PackSwap \/ Crash
Spec == Init /\ [][last[1] # Bad /\ Next]_vars
----------------------------------------------------------------------------
\* C15, C16: what is found is the acknowledged state or that with the commit in progress
Durable == last[1] \in {last[2], last[3]}
\* C15: what is acknowledged is on disk whatever happens next
OnDisk == acked > 0 /\ last[1] # Bad =>
            \A i \in names \cup {cur} : i # 0 /\ \A c \in vers[i] :
              \A n \in (IF size[i] < Len(c) THEN size[i] ELSE Len(c))..Len(c) : Recover(Cut(c, n))[1] >= acked
\* C17: without a pack only the placeholder of the commit in progress changes
AppendOnly == [][ (crashes' = crashes /\ cur' = cur /\ cur # 0) =>
                    /\ Len(file'[cur]) >= Len(file[cur])
                    /\ \A i \in 1..Len(file[cur]) : file'[cur][i] = file[cur][i]
                                                    \/ (file[cur][i][1] = "len" /\ file[cur][i][2] > acked) ]_vars
=============================================================================
