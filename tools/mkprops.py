#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

TX = "durus/connection.py durus/client_storage.py durus/storage_server.py durus/persistent.py durus/_persistent.c"
prop("C01", "Reads in a transaction come from one committed state",
 "Within one transaction of a connection, every value read from persistent objects is either the connection's own uncommitted change or belongs to one single committed state of the database; if the values already used in the transaction cannot be combined with the requested one, ReadConflictError is raised and no value is returned.",
 "schedules histories configurations",
 "all interleavings of reads, writes, commits, aborts and packs of any number of clients of one storage server, all cache states, all object graphs, C and pure-Python base classes",
 "The tests run a handful of two-client scripts; the property quantifies over every interleaving of other clients' commits between any two reads and every ghost/loaded state of the cache.",
 TX, [("invalid oid set of a client, STATUS_INVALID on load", "storage_server.py:_send_load_response"),
      ("sync on read conflict", "connection.py:get_stored_pickle,_handle_invalidations")],
 ["attribute reads through Connection objects", "raised ReadConflictError"],
 [("invalid", "oids committed by others that the client has not been told of", "storage_server.py:_Client"),
  ("transaction_serial/_p_serial", "objects accessed in the current transaction", "connection.py:note_access")])
prop("C02", "No lost updates: conflicting commits are refused",
 "commit() with changes succeeds only if no object that the transaction read or changed has been changed by a commit of another connection since this transaction's view of the database was taken; otherwise it raises WriteConflictError and the database is left exactly as it was. The committed transactions are therefore serializable in commit order.",
 "schedules histories configurations",
 "all interleavings of transactions of several clients, including changes made without reading, objects read only as ghosts, commits that arrive while another commit is being prepared",
 "Tests contain a few fixed conflicting pairs; the guarantee ranges over all histories and over the instant at which the other commit happens.",
 TX, [("conflict check at commit", "client_storage.py:end, connection.py:_handle_invalidations"),
      ("invalidation of the other clients", "storage_server.py:handle_C")],
 ["result of Connection.commit()", "database contents before/after"])
prop("C03", "Commit and abort bring the connection up to date",
 "After commit() or abort() returns, everything the connection reads is the state of the database at that point: every commit acknowledged earlier to any connection is visible, and the connection's own committed changes are visible to every other connection after its next commit() or abort().",
 "schedules histories configurations",
 "all histories of commits by several clients, objects being cached, evicted, ghosts or referenced by the application at that time, all cache sizes",
 "Tests check freshness for single objects in two scripts; staleness appears only for particular combinations of cache state, invalidation batch and sync path.",
 TX, [("sync", "connection.py:_sync, storage_server.py:handle_S"), ("invalidations sent at commit", "client_storage.py:end")],
 ["attribute reads after commit()/abort()"])
prop("C04", "abort() discards everything and makes the next attempt possible",
 "abort() discards all uncommitted changes: every object that was stored before shows its committed state again, whether or not a conflict or another error happened before. After a refused commit and abort(), a fresh attempt with no interfering commit succeeds, and objects that were new in the refused commit are unsaved again and can be stored by a later commit.",
 "histories schedules",
 "all sequences of changes (attributes set, replaced and deleted, containers mutated, new objects linked), refused commits, read conflicts and aborts",
 "Abort is tested on one attribute of one object; the property concerns all mixtures of changed, new, accessed and invalidated objects.",
 "durus/connection.py durus/client_storage.py durus/persistent.py durus/_persistent.c",
 [("abort", "connection.py:abort"), ("reset of new objects", "connection.py:commit"), ("return of oids", "client_storage.py:end")],
 ["reads after abort", "_p_oid/_p_connection of new objects after a refused commit"])
prop("C05", "No spurious conflicts",
 "ReadConflictError and WriteConflictError are raised only if an object that the transaction read or changed was changed (or removed by a pack) by someone else in the meantime; transactions that touch disjoint objects both commit, in every order, and a connection whose objects nobody else changes never sees a conflict.",
 "schedules histories configurations",
 "all interleavings of several clients, after previous conflicts, aborts, packs and reconnections",
 "An implementation that raises too many conflicts passes the existing tests; only comparing with the exact conflict relation over many histories shows it.",
 TX, [("conflict relation", "connection.py:_handle_invalidations"), ("invalid sets cleared when reported", "storage_server.py:handle_C,handle_S")],
 ["conflict exceptions"])
prop("C06", "A commit that fails for any reason stores nothing",
 "If commit() raises any exception (an object that cannot be pickled, a reference to an object of another connection, an error raised by the storage before it accepts the transaction), the database is unchanged, no part of the attempt becomes part of a later commit unless it is still reachable then, and after removing the cause or aborting, later commits store complete and consistent data.",
 "fault_sequences histories inputs",
 "all mixes of changed and new objects, all positions of the failing object in the commit, all storages, retry or abort afterwards",
 "The tests have one unpicklable object in one position and do not look at later commits.",
 "durus/connection.py durus/serialize.py durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/client_storage.py",
 [("reset of new objects", "connection.py:commit"), ("begin() clears", "file_storage.py:begin"), ("connection check", "serialize.py:_persistent_id")],
 ["database contents", "later commits"])
prop("C07", "Commit stores exactly the changed and newly reachable objects",
 "A successful commit stores the current state of every changed object and of every new object reachable from them (through any chain of attributes, containers, shared references and cycles), and nothing else; each stored record lists exactly the objects its state refers to. Loaded back through any connection, the objects have the same classes, values and sharing structure.",
 "inputs histories configurations",
 "all object graphs (cycles, shared objects, self references, references from nested plain containers, objects with slots or __dict__), all storages",
 "Tests store trees of a few objects; graph shape and the order in which new objects are found are unbounded.",
 "durus/serialize.py durus/connection.py durus/persistent.py",
 [("new object discovery", "serialize.py:_persistent_id,gen_new_objects"), ("state", "persistent.py:__getstate__/__setstate__"), ("records", "serialize.py:pack_record")],
 ["records in the storage", "objects loaded by another connection"])
prop("C08", "Object ids are never given to two objects",
 "An oid assigned to a new object is not the oid of any object stored in the database, of any other new object of any client, or of an object some client has not yet been told is gone; this holds across concurrent clients, refused commits, packs, and closing and reopening the storage. The root object always keeps oid 0.",
 "histories schedules configurations",
 "all histories of allocation, commit, refused commit, pack, disconnect and reopen over all storages",
 "Tests allocate a few oids in one session of one storage.",
 "durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/shelf.py durus/storage_server.py durus/client_storage.py durus/storage.py",
 [("holes and names", "shelf.py:next_name"), ("allocated oids", "file_storage.py:new_oid"), ("oid batches", "storage_server.py:_new_oids, client_storage.py:new_oid")],
 ["oids returned by new_oid()", "oids of stored records"])
prop("C09", "The object cache is invisible",
 "Cache size, eviction and garbage collection never change what a program observes: one connection never has two live instances for one oid, an object with uncommitted changes or accessed in the current transaction is never dropped or reloaded with another state, and reloading gives the same values. After transactions end and the application drops its references, the number of cached objects returns to the target size.",
 "histories configurations",
 "all cache sizes, access patterns, and times of eviction and garbage collection",
 "Tests shrink a cache once; whether eviction is safe depends on the combination of object status, serial and reference structure.",
 "durus/connection.py durus/persistent.py durus/_persistent.c durus/serialize.py",
 [("shrink", "connection.py:Cache.shrink,_build_heap"), ("weak mapping", "connection.py:ObjectDictionary"), ("identity on load", "serialize.py:persistent_load")],
 ["object identity", "reads", "get_cache_count()"])
prop("C10", "Computed attributes are consistent with the transaction's view",
 "If every transaction that changes the data a ComputedAttribute depends on also invalidates it, then get() always returns the value computed from the caller's current view of the database: after the caller's own invalidation, after its abort, after it is brought up to date with commits of others, and after the attribute is evicted and reloaded. The value is computed at most once while nothing changes within a transaction.",
 "schedules histories",
 "all interleavings of get, invalidate, commit, abort by several clients and all cache states",
 "Tests use two connections in one script.",
 "durus/persistent.py durus/connection.py durus/storage_server.py",
 [("invalidate / get", "persistent.py:ComputedAttribute")],
 ["ComputedAttribute.get()"])
PK = "durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/shelf.py durus/storage_server.py"
prop("C11", "Packing never loses or alters reachable objects",
 "Packing a storage, whether at once or incrementally with commits, loads and allocations happening between any two of its steps, leaves every object reachable from the root after it with exactly its latest committed record, before and after the storage is reopened.",
 "schedules histories configurations",
 "all object graphs and all interleavings of pack steps with commits that add, change, link and unlink objects; FileStorage, FileStorage2, SqliteStorage",
 "Tests interleave one or two commits with a pack at fixed steps; the sqlite storage is not tested at all.",
 PK, [("mark with pack_extra", "file_storage.py:get_packer, file_storage2.py:_packer, sqlite_storage.py:get_packer")],
 ["load() of every reachable oid during and after the pack, and after reopen"])
prop("C12", "Packing removes garbage and reports what it removed",
 "A finished pack has removed every object that, from its start to its end, was reachable neither from the root nor from an object committed meanwhile, and the next sync() reports the oid of every removed object and of no object that still exists. A connection that still holds such a removed object never reads obsolete state from it after the next commit() or abort(): reading it raises ReadConflictError.",
 "schedules histories configurations",
 "all object graphs, all interleavings of pack steps with commits, all storages, one or several clients",
 "Tests check one removed object; which oids are reported depends on the oid range, on reuse and on the step at which commits happen.",
 PK + " durus/connection.py", [("invalid", "get_packer of each storage, sync()"), ("removed objects", "connection.py:load_state")],
 ["sync()", "load() of removed oids", "reads of ghosts"])
prop("C13", "Server packs run, finish, and do not disturb clients",
 "With gcbytes > 0 the server starts a pack once that many bytes have been committed since the last one and never before; with gcbytes = 0 only a client's pack() starts one. A pack that was started finishes while the server is idle, requests of clients are answered correctly at every step of it, and a second pack request while one runs is harmless.",
 "schedules histories configurations",
 "all interleavings of client requests with pack steps, pack requests at any time, all values of gcbytes, all storages",
 "Tests start one pack and wait for it.",
 "durus/storage_server.py durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py",
 [("packer steps in the select loop", "storage_server.py:serve"), ("bytes_since_pack", "storage_server.py:handle_C")],
 ["whether get_packer was called", "state of the storage after the server is idle", "client reads"])
LG = "durus/shelf.py durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/file.py"
prop("C14", "A reopened storage holds exactly the committed records",
 "Closing a storage and opening the same file again (read-write or read-only, any number of times, after any mixture of commits, overwrites, refused commits and packs) gives the same set of oids with the same records, the same objects for a new connection, and a storage that accepts further commits.",
 "histories inputs configurations",
 "all histories of commits and packs, records of any size including empty and very large ones, all storages",
 "Tests reopen after one or two transactions.",
 LG, [("shelf index", "shelf.py:Shelf.__init__,generate_shelf,OffsetMap"), ("DFS index", "file_storage2.py:_build_index,_write_index"), ("tables", "sqlite_storage.py")],
 ["gen_oid_record(), load() after reopen"])
prop("C15", "Commits are atomic and durable at every crash point",
 "If the process or machine stops at any point during commits, then after opening the file again (with repair=True if the plain open reports an error) the database is exactly the state of the last acknowledged commit or of the one in progress, never a mixture and never less than what was acknowledged; commit() returns only after the data has been forced to disk. A damaged tail is either reported as an error or removed, and the repaired file accepts new commits.",
 "crash_points histories fault_sequences",
 "all histories of commits, every prefix of the sequence of file operations, torn at any byte, with or without the writes since the last fsync",
 "The tests truncate one file at a few places; crash points and torn writes are not sampled.",
 LG, [("length patched last", "shelf.py:Shelf.store"), ("terminator", "file_storage2.py:_write_transaction"), ("repair", "shelf.py:read_transaction_offsets, file_storage2.py:_build_index"), ("fsync", "file.py:fsync")],
 ["file operations of the process", "contents after reopening each crash image"])
prop("C16", "A crash during a pack loses nothing",
 "If the process stops at any point of a pack (including the replacement of the file), opening the storage path again gives exactly the last committed state, including commits made during the pack; leftovers of the interrupted pack do not prevent opening, committing or packing again.",
 "crash_points schedules",
 "all object graphs, every prefix of the file operations of a pack, interleaved with commits, FileStorage, FileStorage2, SqliteStorage",
 "No test stops in the middle of a pack and reopens the path.",
 LG, [("pack file then rename", "file_storage.py:get_packer, file_storage2.py:_packer, file.py:rename")],
 ["contents after reopening each crash image"])
prop("C17", "Data files are append-only and truncation is detected",
 "Between packs a FileStorage or FileStorage2 file changes only by appending (a commit never alters the bytes of earlier commits), so a copy of the file cut off at any byte written after the last pack either opens as the database as of some earlier commit or is reported as damaged, and with repair becomes the last complete commit before the cut. A copy cut off inside the part that a pack wrote is reported as damaged (commits made during that pack may be missing instead). Opening a file read-only never modifies it.",
 "crash_points inputs histories",
 "all histories of commits and every truncation point of every file",
 "Tests cut files at a handful of offsets.",
 LG, [("append", "shelf.py:Shelf.store, file_storage2.py:end"), ("short read detection", "shelf.py:read_transaction_offsets, utils.py:read")],
 ["bytes of the file", "result of opening a cut copy"])
prop("C18", "One writer at a time; read-only is read-only",
 "While a FileStorage or FileStorage2 is open for writing, no other open for writing of the same path succeeds, also during and after a pack, and it succeeds again after close(). A storage opened read-only shows the committed state, refuses commits and packs, and leaves the file as it is, even while a writer has it open.",
 "histories configurations",
 "all sequences of open, commit, pack and close by two processes on one path",
 "Tests check one double open.",
 "durus/file.py durus/file_storage.py durus/file_storage2.py durus/shelf.py",
 [("flock", "file.py:obtain_lock,release_lock,rename"), ("readonly", "file.py:is_readonly")],
 ["success or failure of opens", "file bytes"])
prop("C19", "BTree is a correct sorted map",
 "For every sequence of operations a BTree gives the same results, lengths and iteration orders as a sorted dictionary: lookup, insertion, replacement, deletion (also of missing keys), minimum and maximum, forward and backward iteration, and ranges with open or closed ends in both directions.",
 "inputs programs histories",
 "all operation sequences, key sets, node degrees, trees built by deletions from any shape, trees saved and reloaded, trees saved before counts were kept",
 "Random tests sample small trees with one degree and check membership only; deletion has many cases that depend on the shape of the tree.",
 "durus/btree.py", [("insert / split", "btree.py:BNode.insert_item,split_child"), ("delete", "btree.py:BNode.delete"), ("ranges", "btree.py:items_from,items_range")],
 ["results of BTree methods"])
prop("C20", "BTree stays balanced and saves every node it changes",
 "After every operation all leaves of a BTree are at the same depth, every node except the root holds between degree-1 and 2*degree-1 items, and the length is known exactly; and after commit, another connection finds the very same tree, because every node that was changed was stored.",
 "inputs programs histories",
 "all operation sequences and node degrees, with commits, aborts and reloads at any point",
 "Tests look at depth for a few trees and never compare a stored tree with the one in memory after rebalancing.",
 "durus/btree.py durus/persistent.py", [("rebalancing", "btree.py:BNode.delete"), ("change notes", "btree.py:_p_note_change calls")],
 ["shape of the tree", "tree loaded by another connection"])
prop("C21", "Persistent containers behave like the built-ins and never lose a change",
 "PersistentDict, PersistentList and PersistentSet give the same results and contents as dict, list and set for every sequence of operations (including errors), and every operation that changes one makes it part of the next commit, while operations that only read do not cause a commit of the object.",
 "programs inputs histories",
 "all operation sequences of all public methods and operators, with commits, aborts and reloads (ghosts) at any point",
 "Each method is tested once or twice in memory; that each mutation is noted and survives commit or is undone by abort is not.",
 "durus/persistent_dict.py durus/persistent_list.py durus/persistent_set.py durus/persistent.py",
 [("_p_note_change in every mutator", "persistent_dict.py, persistent_list.py, persistent_set.py")],
 ["results, contents, contents seen by another connection"])
prop("C22", "Object states follow the ghost/saved/unsaved life cycle",
 "A persistent object is unsaved when new or changed, saved after a commit or load, and a ghost after abort, invalidation or eviction; a ghost loads its state exactly when an ordinary attribute is read, set or deleted, and setting or deleting any ordinary attribute always makes a stored object part of the next commit. The C and the pure-Python base classes behave identically.",
 "programs inputs configurations",
 "all sequences of attribute operations, status changes, commits and aborts on objects with __dict__, with slots, and with both; both implementations",
 "Tests check single transitions and never compare the two implementations.",
 "durus/persistent.py durus/_persistent.c durus/connection.py",
 [("attribute hooks", "_persistent.c:pb_getattro,pb_setattro; persistent.py:PersistentBase"), ("status", "persistent.py:PersistentObject")],
 ["_p_is_ghost/_p_is_saved/_p_is_unsaved, stored records"])
prop("C23", "A failing or misbehaving client harms nobody else",
 "A client that disconnects at any byte of any request, sends unknown commands or malformed or forged commits, or disappears before reading the reply is dropped without affecting others: its commit is applied completely (only if it was received completely and was valid) or not at all, other clients are told of whatever was applied, and the server keeps serving.",
 "fault_sequences schedules inputs",
 "every byte position of every request, every kind of malformed request, any state of the other clients",
 "The tests send one bad command.",
 "durus/storage_server.py durus/utils.py", [("client errors", "storage_server.py:serve"), ("complete reads", "utils.py:read"), ("commit", "storage_server.py:handle_C")],
 ["database contents", "reads and commits of the other clients", "server liveness"])
prop("C24", "Network fragmentation and the kind of storage do not matter",
 "A program gets the same results through a storage server as with a storage of its own, for every storage, however the network splits or delays the bytes of requests and replies, and whatever the sizes of records and batches are.",
 "schedules inputs configurations",
 "all splittings of the byte streams in both directions, record sizes from empty to large, batch sizes, all storages, all address kinds",
 "Tests run over loopback where messages arrive whole.",
 "durus/utils.py durus/client_storage.py durus/storage_server.py", [("read/write loops", "utils.py:read,write"), ("framing", "client_storage.py, storage_server.py")],
 ["results of storage operations"])
prop("C25", "Traversal and inspection tools report the actual database",
 "gen_oid_record, bulk_load, the crawler, gen_every_instance, gen_oid_class, get_census, gen_referring_oid_record, get_reference_index and touch_every_reference give exactly what the stored records imply (every reachable object exactly once and no removed one), for every storage and batch size; objects delivered by a crawl that spans commits or aborts are current, and a failed bulk load leaves the connection usable.",
 "inputs histories schedules configurations",
 "all object graphs, batch sizes, start objects, garbage, missing objects, commits of other clients during a crawl",
 "Tests run each tool once on a database of a few objects.",
 "durus/storage.py durus/connection.py durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/client_storage.py",
 [("traversal", "storage.py:gen_oid_record"), ("crawler", "connection.py:get_crawler"), ("bulk load", "client_storage.py:bulk_load")],
 ["results of the tools"])
prop("C26", "A Shelf is an exact, reopenable mapping",
 "A Shelf behaves as a mapping from 8-byte names to values for every sequence of stores, sizes and sets of initial items: get, contains, positions, iteration and items agree, also after reopening; next_name() never returns a name in use or returned before; a store that fails leaves the mapping as it was.",
 "inputs histories fault_sequences",
 "all sets of initial names (with any holes, in any order), all sequences of batches, value sizes, in memory files and disk files",
 "Tests use a few names near zero.",
 "durus/shelf.py durus/utils.py", [("offset map and holes", "shelf.py:OffsetMap"), ("memory index", "shelf.py:Shelf")],
 ["results of Shelf methods"])
prop("C27", "Byte, bit, word and integer arrays and integer sets are exact",
 "ByteArray, BitArray, WordArray, IntArray and IntSet hold exactly what was put in them, for every size, index (also negative where allowed), growth and neighbouring data in the same file; accesses out of range raise IndexError and change nothing, and reopening the file region gives the same contents.",
 "inputs histories",
 "all sizes, indices, values, growth steps and file positions",
 "Tests check a few sizes.",
 "durus/utils.py", [("arrays", "utils.py:ByteArray,BitArray,WordArray,IntArray,IntSet")],
 ["results of the methods"])
prop("C28", "Migration, conversion and command line tools preserve the database",
 "Renumbering a database (db_renumber.py), copying records with create_from_records(), converting a Python 2 database (db_to_py3k.py), renaming a class as the FAQ describes, changing the degree of BTree nodes, choosing the storage class from an existing file, and packing, serving or editing a file with the durus command keep exactly the same reachable object graph (classes, values, sharing, cycles and references to the root) except for what the tool is asked to change, and leave a storage that works (no oid in use is handed out). A renumbered database has oids without gaps; after a rename no record mentions the old class; a file of unknown format is refused.",
 "inputs configurations",
 "all object graphs and all pairs of storage formats",
 "No test runs these tools on a graph with cycles, garbage, or gaps between oids; most are not tested at all.",
 "bin/db_renumber.py bin/db_to_py3k.py durus/__main__.py durus/file_storage2.py durus/sqlite_storage.py durus/btree.py durus/connection.py",
 [("renumber", "bin/db_renumber.py:main"), ("convert", "bin/db_to_py3k.py:main"), ("detection", "__main__.py:get_storage_class"), ("copy", "create_from_records"), ("rename", "connection.py:touch_every_reference,gen_every_instance"), ("commands", "__main__.py:main")],
 ["object graph read from the result"])

prop("C29", "A server takes only a free address, and is reachable exactly there",
 "A server that starts on a TCP address, a Unix domain socket, an abstract Unix name or an inherited (systemd) socket is reachable there by every kind of client until it stops, and nowhere else; starting never takes the address from a server that runs, never removes a file with content or a directory, and always succeeds on a free address or where a killed server left its socket file. The socket gets the requested mode, owner and group and nothing else of the process changes, whether starting succeeds or fails; stopping removes the socket file. stop_durus() and wait_for_server() report what is true, and every address can be shown.",
 "histories configurations inputs",
 "all sequences of starting, failing to start, stopping, killing and replacing files over all kinds of addresses, all umasks, owners, groups and LISTEN_PID/LISTEN_FDS values",
 "Tests start servers only on free addresses, one at a time, and do not kill them.",
 "durus/storage_server.py durus/systemd_socket.py durus/client_storage.py durus/__main__.py",
 [("addresses", "storage_server.py:SocketAddress,UnixDomainSocketAddress.bind_socket"), ("inherited sockets", "systemd_socket.py:get_systemd_socket"), ("waiting", "storage_server.py:wait_for_server"), ("stopping", "__main__.py:stop_durus")],
 ["what answers at every address, what is in the file system"])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
