import json
P=[]
def p(id,title,st,over,qtext,why,files,mech,obs,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
p("C01","Every database class behaves as one key-value map",
 "For every database class, storage back end and tuning, any sequence of record operations (get, set, remove, append, compare-exchange, increment, rekey, callback processing of one, the first or all records, and their multi-record forms, plus count and clear) returns exactly the statuses and data that an ideal map from byte-string keys to byte-string values returns, and leaves exactly that map's contents. Synchronizing, rebuilding, closing and reopening at any point of the sequence change no record. This holds for arbitrary binary keys and values of any size, including empty ones.",
 ["inputs","histories","configurations"],"all operation sequences over all classes (hash, tree, skip after synchronization, tiny, baby, cache below capacity, std hash/tree, poly, shard), file back ends, update/compression/CRC modes, page and bucket sizes",
 "The unit tests run a few fixed scenarios per class with a handful of tunings; they cannot quantify over operation histories (free-block reuse, page split/merge chains, record relocation) crossed with configurations.",
 ["tkrzw_dbm.h","tkrzw_dbm_hash.cc","tkrzw_dbm_hash_impl.cc","tkrzw_dbm_tree.cc","tkrzw_dbm_tree_impl.cc","tkrzw_dbm_tiny.cc","tkrzw_dbm_baby.cc","tkrzw_dbm_cache.cc","tkrzw_dbm_std.cc","tkrzw_dbm_poly.cc","tkrzw_dbm_shard.cc","tkrzw_dbm_common_impl.cc"],
 [("bucket chains and free block pool","tkrzw_dbm_hash.cc HashDBMImpl::ProcessImpl"),("page split/merge and node caches","tkrzw_dbm_tree.cc TreeDBMImpl::ProcessImpl/DivideNodes/MergeNodes"),("generic operations over Process/ProcessMulti","tkrzw_dbm.h DBM::Set...Rekey")],
 ["public API return values","full scan after each phase"])
p("C02","Iterators and cursors visit exactly the stored records, in order",
 "An iterator over an unmodified database visits every record exactly once; in ordered databases the visit order is the order of the configured key comparator, forward and backward, and every jump (to the first, the last, or the first/last record at, above or below a key) lands exactly on the record the order defines. While records are being updated between iterator steps, an iterator never returns a record that is not stored, never misses a record that stays stored for the whole scan, and in ordered databases keeps its place relative to the order; updating or removing through the iterator affects exactly the record it points to.",
 ["inputs","histories","configurations"],"all interleavings of iterator steps and updates in one thread, for all key sets, comparators, page/bucket sizes and classes, including sharded merged iteration",
 "Unit tests iterate over small regular key sets with one or two removals; boundary positions (page ends, emptied pages, removed current records, comparators, shard merges) are a large product space.",
 ["tkrzw_dbm_hash.cc","tkrzw_dbm_tree.cc","tkrzw_dbm_baby.cc","tkrzw_dbm_tiny.cc","tkrzw_dbm_cache.cc","tkrzw_dbm_std.cc","tkrzw_dbm_skip.cc","tkrzw_dbm_shard.cc","tkrzw_key_comparators.cc"],
 [("iterator position tracking","*DBMIteratorImpl"),("iterator invalidation lists","iterators_ in each class"),("shard merge heap","tkrzw_dbm_shard.cc Iterator")],
 ["iterator API results"])
p("C03","Concurrent operations are linearizable",
 "When threads operate on one database object concurrently, every operation takes effect atomically at one instant between its call and its return, consistent with the results all threads observe. Multi-record processing, multi-record compare-exchange and rekeying within one database are indivisible: no other operation observes or interferes with a part of them; other multi-record operations are sequences of atomic operations. No update that returned success is lost, and the final contents agree with such an order.",
 ["schedules","configurations"],"all thread schedules of single- and multi-record operations with colliding keys, same bucket/page contention and internal reorganizations, on all thread-safe classes",
 "Unit tests run threads on mostly disjoint keys and only compare final counts; they do not check real-time-ordered results of racing operations.",
 ["tkrzw_dbm_hash.cc","tkrzw_dbm_tree.cc","tkrzw_dbm_tiny.cc","tkrzw_dbm_baby.cc","tkrzw_dbm_cache.cc","tkrzw_dbm_std.cc","tkrzw_dbm_skip.cc","tkrzw_dbm_shard.cc","tkrzw_thread_util.h"],
 [("database-wide shared mutex + per-record hash locks","tkrzw_dbm_hash.cc"),("page locks and reorganization","tkrzw_dbm_tree.cc"),("per-bucket / per-slot locks","tkrzw_dbm_tiny.cc tkrzw_dbm_cache.cc")],
 ["call/return events of public API"])
p("C04","A process crash loses no completed update of a hash database",
 "If a process using a file hash database dies at any point, reopening the database with default settings succeeds, reports it healthy, and yields exactly the records produced by all update operations that completed before the crash, with the interrupted operation either fully applied or not applied (clearing and the first creation of the file excepted). The record count agrees with the records, and the reopened database keeps behaving as a map. Both update modes (in-place and appending), and with or without restoration shortcuts.",
 ["crash_points","histories","configurations"],"every prefix of the file write sequence of every operation history (including synchronize, clear, rebuild and reopen), both update modes, all tunings",
 "The tests kill nothing: they simulate an unclean close at one or two hand-picked states; the crash point between any two file writes is never explored.",
 ["tkrzw_dbm_hash.cc","tkrzw_dbm_hash_impl.cc"],
 [("write order record-then-bucket-then-void","HashDBMImpl::ProcessImpl"),("restoration and shortcuts","HashDBMImpl::Open, HashDBM::RestoreDatabase, ValidateRecordsImpl, ReplayOperations, ExtractOffsets")],
 ["file content at each write boundary","contents after reopen"])
p("C05","Appending mode rolls back exactly to the last synchronization",
 "In appending update mode with the restore-to-last-synchronization setting, after a crash at any point a hash or tree database reopens to exactly the state of the last successful synchronization: nothing synchronized is missing and nothing newer is present, also when any subset of the writes issued since the last hard synchronization never reached the disk. Restoring with an explicit end offset equal to the file size at an earlier synchronized moment yields exactly the state of that moment.",
 ["crash_points","histories","fault_sequences"],"every crash point, every subset of unsynchronized writes lost or torn after the last hard synchronization, every recorded point in time",
 "Unit tests cover a few clean truncation points; loss of arbitrary unsynchronized writes is never simulated.",
 ["tkrzw_dbm_hash.cc","tkrzw_dbm_tree.cc","tkrzw_dbm_hash_impl.cc"],
 [("two-phase hard synchronization: data, then metadata","HashDBMImpl::Synchronize"),("append-only record region","HashDBMImpl::ProcessImpl"),("backward import with dead set","ImportFromFileBackwardImpl")],
 ["file writes and syncs through a recording file object","contents after restore"])
p("C06","Recovering a crashed tree database never fabricates or corrupts data",
 "After a process crash at any point, a tree database reopens with default settings as a healthy, consistent map: every record in it is a key with a value that was stored under that key at some time, keys are unique and in order, and the count matches; a crash with no update since the last synchronization loses nothing. The reopened database keeps behaving as an ordered map and keeps its comparator.",
 ["crash_points","histories","configurations"],"every prefix of the file write sequence of operation histories with page splits, merges, cache eviction, synchronization, and rebuild",
 "The tests only simulate an unclean close at chosen states with default-size pages.",
 ["tkrzw_dbm_tree.cc","tkrzw_dbm_hash.cc"],
 [("leaf salvage","TreeDBM::RestoreDatabase"),("page flush order","TreeDBMImpl::Flush*")],
 ["contents after reopen"])
p("C07","Whole-file databases are replaced atomically",
 "For the databases that write their whole file at synchronization or close (skip, tiny, baby, cache), a crash at any instant leaves on disk either exactly the previously synchronized contents or exactly the new ones, never a mixture or an unreadable file. Everything covered by a synchronization that returned success is found after reopening; with hard synchronization this also holds when unsynchronized file data is lost in the crash.",
 ["crash_points","histories","fault_sequences"],"every boundary between system calls of synchronize/close/rebuild/reopen histories",
 "No test stops the process between the writes, the flush and the rename.",
 ["tkrzw_dbm_skip.cc","tkrzw_dbm_tiny.cc","tkrzw_dbm_baby.cc","tkrzw_dbm_cache.cc","tkrzw_file_util.cc"],
 [("temporary file + rename","FinishStorage, ExportRecords")],
 ["system calls recorded by interposition","contents after reopen"])
p("C08","The update log replays to the same database",
 "For every database class with an update logger attached, each effective change (and nothing else) is logged with its final value before it becomes visible, in an order consistent with the changes to each record. Replaying the log on a copy of the starting contents reproduces the database, and replaying any already applied part again in order does not change the result; this holds for sequential and concurrent updates, through the message-queue log and its replay from files filtered by server, database index and time.",
 ["histories","schedules","configurations"],"all operation sequences and concurrent schedules on all classes with each logger implementation",
 "Unit tests log a few operations per class and compare literal strings; they do not relate the log to the database contents over arbitrary histories.",
 ["tkrzw_dbm_ulog.cc","tkrzw_dbm_ulog.h","tkrzw_dbm_hash.cc","tkrzw_dbm_tree.cc","tkrzw_dbm_tiny.cc","tkrzw_dbm_baby.cc","tkrzw_dbm_cache.cc","tkrzw_dbm_std.cc","tkrzw_dbm_shard.cc"],
 [("WriteSet/WriteRemove/WriteClear calls under the record lock","each ProcessImpl"),("log codec and apply","DBMUpdateLoggerMQ")],
 ["update logger callbacks","log files"])
p("C09","The message queue delivers every message once and in order",
 "Every message successfully written to a message queue is delivered exactly once to every reader whose minimum timestamp it satisfies, in write order with non-decreasing timestamps and unchanged contents, across file rotation, closing, reopening, process death of the writer, and any interleaving of concurrent writers and readers. A waiting reader returns when a message arrives or the queue is closed or its readers are canceled, and otherwise only after its timeout. Removing old files deletes only files whose messages are all older than the threshold.",
 ["histories","schedules","crash_points","configurations"],"all interleavings of writes, reads with all wait modes, rotations, reopenings and crash points; all minimum timestamps",
 "Unit tests use a few file sizes and one reader pattern; rotation boundaries, timestamps that go backwards, and crash/reopen are not combined.",
 ["tkrzw_message_queue.cc","tkrzw_message_queue.h"],
 [("rotation and metadata","MessageQueueImpl::WriteImpl/SynchronizeImpl/Open"),("reader file/offset tracking","MessageQueueReaderImpl::Read")],
 ["reader/writer API results"])
p("C10","Rebuilding and maintenance run online without losing updates",
 "While a database is being rebuilt, synchronized, copied or inspected by one thread, operations of other threads keep being accepted and none is lost, duplicated, or reverted: after the rebuild the contents reflect all completed operations, in memory and after reopening. A rebuild preserves records, order, and application metadata, and applies the requested tuning.",
 ["schedules","histories","configurations"],"all overlaps of rebuild/synchronize/copy with concurrent updates and scans; all tunings",
 "Unit tests run one rebuild against a fixed update loop and compare final counts only.",
 ["tkrzw_dbm_hash.cc","tkrzw_dbm_tree.cc","tkrzw_dbm_skip.cc"],
 [("rebuild with catch-up of updates made meanwhile","HashDBMImpl::RebuildImpl, TreeDBMImpl::Rebuild")],
 ["call/return events","contents after reopen"])
p("C11","Backups, exports and imports carry over a consistent state",
 "A copy of the database file made through the library while other threads update the database contains, when opened, exactly the records of one instant during the copy, including every update completed before it started (of one instant for each shard of a sharded database). Exporting to another database, to flat-record or text files and importing back reproduces exactly the exported records for arbitrary binary keys and values, imports following map semantics; a record exported while others update the database is the record of an instant during the export.",
 ["schedules","inputs","histories"],"all overlaps of copying with multi-record atomic updates; all record contents",
 "Unit tests copy quiescent databases and export simple text records.",
 ["tkrzw_dbm.h","tkrzw_dbm_common_impl.cc","tkrzw_file_util.cc"],
 [("copy under exclusive lock after flush","DBM::CopyFileData, Synchronize with FileProcessor"),("flat records and TSV escaping","tkrzw_dbm_common_impl.cc, tkrzw_file_util.cc FlatRecord")],
 ["opened copies and imported databases"])
p("C12","Asynchronous operations run exactly once and report their own results",
 "Every operation submitted to the asynchronous adapter is executed exactly once on the database, with the same effect and result as the synchronous operation, delivered through the future returned for it; with a single worker, operations take effect in submission order. Closing or destroying the adapter or a task queue completes or hands back every accepted task without hanging, and waiting on a future returns only after its operation finished or its timeout passed.",
 ["schedules","histories"],"all schedules of submitters, workers, post-processing and destruction; all operation kinds",
 "Unit tests submit a few operations and wait immediately, so queue, shutdown and multi-worker interleavings are not covered.",
 ["tkrzw_dbm_async.cc","tkrzw_dbm_async.h","tkrzw_thread_util.h"],
 [("task queue and workers","TaskQueue in tkrzw_thread_util"),("promise/future per operation","AsyncDBM")],
 ["futures","task execution events"])
p("C13","Locks exclude, upgrade and re-hash correctly under every schedule",
 "Every lock the library offers (spin, shared, slotted and hash-partitioned) guarantees that a writer is alone and that readers share only with readers, for every schedule; try-lock, upgrade and downgrade succeed only when that is preserved and never lose the lock. Locks on several records are acquired without deadlock, a partition change keeps every holder's exclusion valid, and every waiting thread eventually acquires a lock that is released.",
 ["schedules"],"all interleavings of lock, try-lock, unlock, upgrade, downgrade, multi-lock and rehash steps",
 "Unit tests hammer the locks statistically without upgrade/downgrade/rehash races and with one access pattern.",
 ["tkrzw_thread_util.h"],
 [("atomic counter protocol","SpinMutex, SpinSharedMutex, SpinWPSharedMutex"),("slot-wise locking","SlottedMutex"),("hash partition with epoch check","HashMutex, ScopedHashLock*")],
 ["lock API calls, critical section occupancy"])
p("C14","Bounded caches evict only the least recently used records",
 "A cache database and the cache containers never hold more entries than their capacity, evict only when full, and always evict the least recently used entry of the affected partition; entries within capacity are never lost. The other containers (linked hash map, tiered LRU, atomic set) keep exactly the entries, order and sizes their operations define.",
 ["histories","inputs","configurations"],"all operation sequences including updates, re-reads, removals, moves to first/last, rehashing and iterator use at capacity boundaries",
 "Unit tests check one eviction scenario with ascending keys.",
 ["tkrzw_dbm_cache.cc","tkrzw_containers.h"],
 [("per-slot LRU list","CacheSlot in tkrzw_dbm_cache.cc"),("LinkedHashMap, LRUCache, DoubleLRUCache, AtomicSet","tkrzw_containers.h")],
 ["container/database contents and order"])
p("C15","Secondary indices hold exactly the registered pairs",
 "An index over any supported storage returns, for every key, exactly the values registered for that key and not removed, and iterates over all pairs in key order and then value order, for arbitrary binary keys and values. Registering or removing a pair twice has the effect of once, and file-backed indices keep their pairs across reopening.",
 ["inputs","histories","configurations"],"all sequences of add, remove, lookup, check, jump and iteration on all index classes and comparators",
 "Unit tests use fixed decimal strings, so key/value pairs that only differ in their composition are never tried.",
 ["tkrzw_index.h"],
 [("pair serialization and pair comparators","tkrzw_index.h, tkrzw_key_comparators.cc")],
 ["index API results"])
p("C16","File objects behave as byte arrays, also under concurrency",
 "Every file class behaves as a resizable byte array: a read returns the last bytes written at each offset, the size is what was written, expanded or truncated, and closing and reopening keeps exactly that content, for any mix of offsets, sizes, growth strategies and access options. In the thread-safe classes concurrent appends and expansions never overlap and concurrent writes to disjoint ranges never disturb each other; a file opened for writing excludes other openers unless locking is disabled.",
 ["inputs","histories","schedules","configurations"],"all sequences of read/write/append/expand/truncate/rename/reopen with all access and allocation options; all schedules of concurrent writers",
 "Unit tests write short fixed patterns with default options.",
 ["tkrzw_file_pos.cc","tkrzw_file_mmap.cc","tkrzw_file_std.cc","tkrzw_file_poly.cc","tkrzw_file_util.cc"],
 [("size/truncation bookkeeping","AppendImpl/ExpandImpl/AllocateSpace"),("block alignment and mini pages for direct I/O","tkrzw_file_pos.cc"),("advisory file locks","AcquireFileLock")],
 ["file API results","raw file content"])
p("C17","A sharded database equals a single database",
 "A sharded database holds every record in exactly one shard, finds it again for every operation and after every reopening (also when the number of shards is detected from the files), and iterates over ordered shards in one global order in both directions. Aggregate operations (count, clear, rebuild, synchronize, copy, export, restore, rename) cover all shards, and multi-record conditional exchange is all-or-nothing across shards.",
 ["inputs","histories","configurations"],"all operation sequences, shard counts and shard classes",
 "Unit tests use one or two shard counts with a uniform key set.",
 ["tkrzw_dbm_shard.cc","tkrzw_hash_util.h","tkrzw_dbm_poly.cc"],
 [("shard selection","SecondaryHash"),("merge heap iterator","ShardDBM::Iterator"),("nested conditional exchange","ShardDBM::CompareExchangeMulti")],
 ["public API","individual shard files"])
p("C18","The skip database publishes updates in batches, in key order",
 "In the skip database updates become visible only at the next synchronization or reopening and then all at once; until then reads return the previous state. Publishing merges old and new records in key order with later values after earlier ones of the same key, applies removal and the chosen reducer exactly as defined to each key's value list, and keeps all records otherwise; access by index returns the records of that sequence. Merging other skip database files and building in sorted order give the same result as inserting their records one by one.",
 ["inputs","histories","configurations"],"all batches of insertions, updates and removals with duplicates, all reducers, sort-memory sizes, list parameters",
 "Unit tests use unique keys or one duplicate pattern with in-memory sorting.",
 ["tkrzw_dbm_skip.cc","tkrzw_dbm_skip_impl.cc"],
 [("record sorter and merge","RecordSorter, FinishStorage"),("skip links","SkipRecord::UpdatePastRecords/Search/SearchByIndex")],
 ["public API"])
p("C19","Misuse and read-only access never change data",
 "An operation that is not allowed in the current state (database not opened, opened twice, opened read-only, unhealthy, or held by another writer) fails with an error status, changes no record and no file byte, and leaves the object usable. A database opened read-only, with any sequence of calls including iterator updates, leaves its file unchanged, and failures such as a missing file or invalid argument never destroy an existing database.",
 ["histories","configurations","fault_sequences"],"all calls in all object states for all classes",
 "Unit tests check a few preconditions on a few methods.",
 ["tkrzw_dbm_hash.cc","tkrzw_dbm_tree.cc","tkrzw_dbm_skip.cc","tkrzw_dbm_tiny.cc","tkrzw_dbm_baby.cc","tkrzw_dbm_cache.cc","tkrzw_dbm_std.cc","tkrzw_dbm_poly.cc","tkrzw_dbm_shard.cc","tkrzw_index.h"],
 [("open_/writable_/healthy_ checks at method entry","each class")],
 ["statuses","file bytes before/after"])
p("C20","Damaged files are handled without crashing or inventing data",
 "Whatever bytes of a database file are altered or cut off, opening, reading, iterating, validating, rebuilding and restoring it terminate with a status instead of crashing or hanging. With record checksums enabled, every record returned after record-area damage is one that was stored; undamaged records remain retrievable by restoration.",
 ["fault_sequences","inputs","configurations"],"all single and multiple alterations and truncations of files of all classes and checksum modes",
 "Unit tests damage one or two chosen bytes.",
 ["tkrzw_dbm_hash.cc","tkrzw_dbm_hash_impl.cc","tkrzw_dbm_tree.cc","tkrzw_dbm_skip.cc","tkrzw_dbm_skip_impl.cc","tkrzw_message_queue.cc","tkrzw_dbm_common_impl.cc"],
 [("record header validation and CRC","HashRecord::ReadMetadataKey/CheckCRC"),("restoration","RestoreDatabase")],
 ["process exit, statuses, contents"])
p("C21","Signals between threads are never lost or misdelivered",
 "A thread that registers as a waiter before checking its condition is always woken by a signal sent after the condition changed: no interleaving loses a wake-up, a waiter with a timeout returns at the latest after it, and a keyed signal wakes the waiters of that key. A wait reports success only if a signal was sent after the waiter was registered, and one signal wakes as many waiters as requested.",
 ["schedules"],"all interleavings of waiter registration, wait, send (one/all/keyed) and timeouts",
 "Unit tests use sleeps to force the easy order of events.",
 ["tkrzw_thread_util.h"],
 [("registration counter and condition variable","WaitCounter, SignalBroker, KeySignalBroker, SlottedKeySignalBroker")],
 ["wait results"])
p("C22","The C interface is equivalent to the C++ interface",
 "Every operation of the C language interface has the same effect, result status and returned data as the corresponding C++ operation, for arbitrary binary data, and every object it returns is complete and independent of later operations. The thread-local last status always describes the last call.",
 ["inputs","histories"],"all operation sequences through the C interface on all database classes, iterators, asynchronous adapters, files and indices",
 "Unit tests call each function once or twice with text data.",
 ["tkrzw_langc.cc","tkrzw_langc.h"],
 [("thin wrappers over PolyDBM/ShardDBM/AsyncDBM/PolyIndex/PolyFile","tkrzw_langc.cc")],
 ["C API results"])
p("C23","Database attributes and settings persist and describe the database",
 "Tuning, key comparator, database type, opaque metadata, record count, file size and health reported by a database always describe its current file; they survive synchronization, rebuilding, reopening without tuning parameters, and restoration, and a setting given when opening an existing database never corrupts it. A database is reported unhealthy exactly when it was not closed properly, and automatic restoration is reported exactly when it happened.",
 ["histories","configurations","crash_points"],"all open/close/rebuild/restore sequences with all tunings",
 "Unit tests check single reopen cases with one tuning.",
 ["tkrzw_dbm_hash.cc","tkrzw_dbm_tree.cc","tkrzw_dbm_skip.cc","tkrzw_dbm_poly.cc"],
 [("metadata header","SaveMetadata/LoadMetadata")],
 ["Inspect, GetDatabaseType, GetOpaqueMetadata, IsHealthy, IsAutoRestored"])
p("C24","Searches return exactly the matching keys and lines",
 "Searching a database by containment, prefix, suffix, case-insensitive or word-wise containment, any of several patterns, or a regular expression returns keys of the database which match, without repetition: all of them, or as many as the given capacity. Searches above or below a key of an ordered database return the nearest keys in order; edit-distance searches return the least distant keys, nearest first. Searching a text file returns its matching lines in the order of the file under the same modes, whatever the line and file sizes.",
 ["inputs","histories","configurations"],"all key sets, texts, patterns, modes and capacities; all classes and file backends; direct, asynchronous and C interfaces",
 "Unit tests search a handful of regular ASCII keys with each mode once.",
 ["tkrzw_dbm_common_impl.cc","tkrzw_str_util.cc","tkrzw_str_util.h","tkrzw_containers.h","tkrzw_file_util.cc"],
 [("modes","SearchDBMModal, SearchTextFileModal"),("matchers","StrWordSearch, StrCaseWordSearch, StrCaseWordContainsBatchLower, EditDistanceLev, HeapByCostAdd"),("line reading","FileReader::ReadLine")],
 ["returned keys and lines, status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len(re.findall(r'[.;?!](?:\s|$)',x['statement'].replace(';',',')))
    print(x['id'],n,len(x['statement']))
