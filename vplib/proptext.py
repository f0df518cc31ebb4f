from .props import prop, NOT_APPLICABLE

PAGE = "src/storage/page/page_types"

prop("C01", "A B+ tree leaf is a sorted map with a fixed capacity",
     "At any time a B+ tree leaf holds each key at most once, in comparator order, paired with the value last stored under it. "
     "Insert, overwrite, remove-at-position and lookup act exactly like the same operations on a map, an insert into a full leaf is refused and changes nothing, and no operation disturbs other entries, the sibling link or the capacity. "
     "Writing a leaf to bytes and reading it back gives the same leaf.",
     ["inputs", "histories"], "every key type, total order, capacity, value and every sequence of operations on one leaf",
     "Unit tests insert a handful of integers into one or two capacities; order preservation and the frame must hold for every comparator, every position and every history.",
     [f"{PAGE}/b_plus_tree_leaf_page.rs"],
     [("binary search for the insertion point", "find_key_index"), ("insert-or-overwrite at that point", "insert_key_value, insert_key_value_with_overflow"), ("removal of key and value at one index", "remove_key_value_at")],
     ["btree_leaf"], ["btree_leaf"],
     "all op sequences of length 4 over 10 operations x 3 capacities x 2 orders, plus seeded random histories against BTreeMap; the only check of serialize/deserialize",
     ["the comparator implements a total order (Equal means identical)", "the byte form (serialize/deserialize, which call postcard) is checked by the bounded stand-in only"],
     "For all keys, values, orders and positions: find, insert, overflow insert, remove, set and the accessors are proved against a map view with full frame; the byte round trip is bounded only.")

prop("C02", "A B+ tree internal node routes every key to exactly one child",
     "A B+ tree internal node with n separators always has n+1 children and its separators are in strict comparator order. Looking a key up always yields the child whose range covers it. "
     "Inserting, removing, setting, borrowing from either sibling, merging with the right sibling and populating a new root keep every child exactly once in order, and lose or duplicate none; a refused operation changes nothing.",
     ["inputs", "histories"], "every key type, total order, capacity, child pointers and every sequence of operations on one internal node",
     "A lost or duplicated child makes whole subtrees unreachable; which step does it depends on capacity, on the position and on what the sibling holds, which a few fixed-size tests do not cover.",
     [f"{PAGE}/b_plus_tree_internal_page.rs"],
     [("separator search", "find_key_index, find_child_for_key"), ("separator insert/remove", "insert_key_value, remove_key_value_at"), ("rebalancing moves", "merge_with_right_sibling, borrow_from_left, borrow_from_right, populate_new_root")],
     ["btree_internal"], ["btree_internal"],
     "all op sequences of length 4 over 10 operations x 3 capacities x 2 orders x root or not, plus seeded random histories against an ordered list of separators and children",
     ["the comparator implements a total order (Equal means identical)", "callers of borrow and merge pass separators that fit between the two nodes (the index's parent separator)"],
     "For all keys, orders, positions and children: search, insert, remove, borrow, merge and root creation are proved against the sequence view with full frame.")

prop("C03", "A table page is an exact list of rows, in memory and on disk",
     "A table page behaves as a list of rows (metadata plus stored bytes), addressed by slot number. An accepted insert appends exactly one row and returns its identifier, an accepted update replaces exactly one row or one row's metadata, "
     "and a refused operation changes nothing; no operation alters or overlaps another row, the page's links or its counts of rows and deleted rows. After every change the byte image of the page can be read back to exactly the same page, and bytes that are not a table page are refused without a crash.",
     ["inputs", "histories", "crash_points"], "every tuple, metadata, slot and history of inserts, updates and metadata changes on one page, and every 4096-byte image",
     "Which rows collide depends on the order and sizes of earlier inserts and growing updates and on how far metadata has grown; tests write a few equal rows and read them back.",
     [f"{PAGE}/table_page.rs", "src/storage/table/tuple.rs", "src/common/rid.rs"],
     [("placing a row", "get_next_tuple_offset, insert_tuple, insert_tuple_with_rid"), ("replacing a row", "update_tuple, update_tuple_meta"), ("byte image", "serialize, deserialize, sync_image, set_data")],
     ["table_page"], ["table_page"],
     "all op sequences of length 4 over small/large/overlong rows and metadata changes, seeded random histories against a Vec model, reload after each step, damaged images",
     ["postcard is assumed: it encodes deterministically, reads its own encoding of a TupleMeta back whatever bytes follow, and a TupleMeta takes at most 33 bytes (varints of at most 10 bytes)",
      "update_tuple_in_place_unsafe (an unsafe function documented to skip every check) is outside the property",
      "the iterator chains computing the lowest row offset are replaced by a loop proved to compute that minimum; slices of arrays are modelled by byte-sequence splicing"],
     "For all tuples, metadata, slots and page states: insert, update, metadata update, lookups, link setters, reset, and serialize/deserialize/set_data are proved against a list-of-rows view; postcard's own round trip is assumed.")

prop("C04", "A reader sees only versions its isolation level allows, and the newest of those",
     "Reading a row returns the newest version the reader may see: its own last write, or else the newest version that was committed - for snapshot, repeatable-read and serializable readers committed no later than their snapshot, for read-committed readers at any time. "
     "Other transactions' uncommitted or rolled-back versions are never returned below read-uncommitted, a version the reader may see that is a deletion makes the row absent, and reading twice in one snapshot gives the same answer. Point reads and scans agree.",
     ["inputs", "histories"], "every isolation level, every version chain (any length, any mix of creators, commit stamps and deletions) and every history of transactions",
     "Which version is right depends on the whole chain and on who wrote and committed each link and when; tests build one or two versions.",
     ["src/storage/table/tuple.rs", "src/concurrency/transaction.rs", "src/storage/table/transactional_table_heap.rs", "src/storage/table/table_heap.rs"],
     [("one version", "TupleMeta::visibility_status, Transaction::is_tuple_visible"), ("walking the chain", "TransactionalTableHeap::get_tuple, get_visible_version, TableHeap::get_tuple_with_txn")],
     ["mvcc_read"], ["mvcc"],
     "all metadata/reader combinations at boundary timestamps; every length-4 order of begin/update/delete/commit/abort/gc over one row with mixed levels; seeded random histories, all readers and scans compared with a multi-version model after every step",
     ["the chain (undo link of a row, undo log of a link) and the page row are read through assumed contracts of TransactionManager::get_undo_link/get_undo_log* and TablePage::get_tuple (the latter proved in C03)",
      "locks around single fields are dropped: a transaction's state, read timestamp and level do not change during one read", "the walk is proved partially correct: that a version chain has an end is not proved"],
     "For every chain and reader: the answer is proved to be the newest version the isolation level allows, for both read paths; scans and histories are bounded.")

prop("C05", "Timestamps are issued once, in order; the watermark never passes a live snapshot",
     "Every begin and every commit gets a timestamp larger than all timestamps given before. A transaction that committed before another began is inside its snapshot, one that committed after is outside. "
     "While any transaction runs the watermark is exactly the oldest running snapshot, and when none runs it is never larger than the next timestamp. A transaction ends once: after commit or abort neither changes its state, stamps or the watermark again.",
     ["inputs", "histories"], "every history of begin, commit and abort",
     "A repeated or reordered stamp, or a watermark one too high, shows only when particular transactions overlap.",
     ["src/concurrency/watermark.rs", "src/concurrency/transaction.rs", "src/concurrency/transaction_manager.rs"],
     [("issuing timestamps", "Watermark::get_next_ts, update_commit_ts"), ("watermark", "add_txn, remove_txn, update_watermark"), ("transaction life cycle", "Transaction::begin, commit, abort")],
     ["watermark"], ["watermark", "mvcc"],
     "seeded random histories of the watermark against a set model, every life cycle of one transaction up to 6 steps beside other snapshots, and the transaction histories of C04 with timestamp order, watermark bound and finality checked after every step",
     ["the atomic counter is treated as a plain cell and the fields' locks are dropped: every caller holds the manager's write lock on the watermark", "timestamps stay below 2^64-1", "HashSet as specified by vstd; its minimum is an assumed contract"],
     "For all states: every Watermark function and Transaction begin/commit/abort are proved; interleavings of threads are not explored.")

prop("C06", "A transaction's writes take effect all together or not at all",
     "A committed transaction's rows all carry its one commit timestamp. Aborting puts back, for every row it wrote, exactly the version the transaction found when it first wrote the row (content, creator, commit stamp, deletion mark and history), however often it wrote it, and makes rows it inserted disappear. "
     "A write records the version it replaces before it replaces it, is refused on a finished transaction or over another transaction's uncommitted version, and garbage collection never takes away a version a running transaction may still need.",
     ["inputs", "histories", "crash_points"], "every history of inserts, updates, deletes, commits, aborts and collections over any rows",
     "What has to be restored depends on how often and in which order the row was written; tests abort after a single write.",
     ["src/concurrency/transaction_manager.rs", "src/storage/table/transactional_table_heap.rs", "src/concurrency/transaction.rs"],
     [("writing", "TransactionalTableHeap::insert_tuple, update_tuple, delete_tuple"), ("commit and abort", "TransactionManager::commit, abort, mark_insert_aborted, rollback_tuple"), ("collection", "garbage_collection, is_still_needed")],
     ["mvcc_write"], ["mvcc"],
     "the transaction histories of C04 with aborts, repeated writes and collections; committed state compared through fresh readers of every level",
     ["effects on pages, undo logs, version links and the write set are facts produced by assumed contracts of the calls that do them (page and log manager functions); each row is in a write set once",
      "logs of a chain name the row they belong to (proved for the logs written here, assumed for the chain found)", "async/await and locks are dropped: one transaction's commit or abort runs alone", "an undo log a transaction wrote itself is still there when it aborts (bounded)"],
     "For every row, chain and write set: what commit, abort, insert, update and delete store, link, log and stamp is proved; collection beyond is_still_needed and whole histories are bounded.")

prop("C07", "The buffer pool's replacer evicts exactly the LRU-K victim, never a pinned frame",
     "The replacer hands out only frames that were recorded and are currently evictable (unpinned), and gives none back exactly when there is no such frame. Among the evictable frames it picks one with fewer than K recorded accesses first (fewest accesses, then earliest first access), "
     "otherwise the one whose K-th most recent access is oldest. A frame keeps exactly its last K accesses and its pin state across every other operation; evicting, pinning and removing change no other frame, and the counts of tracked and evictable frames are exact.",
     ["inputs", "histories"], "every K, every set of frames and every history of accesses, pins, unpins, removals and evictions",
     "The victim depends on the whole access history of all frames; evicting a pinned frame corrupts a page in use, and the tests check a few short fixed patterns.",
     ["src/buffer/lru_k_replacer.rs"],
     [("access history", "record_access"), ("pin state and queue of candidates", "set_evictable, remove"), ("choice of the victim", "evict")],
     ["lru_k"], ["lru_k"],
     "every sequence of 4 operations over three frames for K = 1..3, then draining; seeded random histories over up to 8 frames, K = 0..4, against an access-list model",
     ["the two locks inside the replacer are dropped (each operation runs alone; the buffer pool holds the replacer's lock)", "std map and deque calls without a vstd contract (get_mut, entry, position, front, get, remove) are assumed contracts whose bodies are those calls",
      "the clock may return any value; an access counter stays below 2^64"],
     "For every state: eviction order, pin state, history window and frame are proved for all functions of the replacer; interleavings of threads are not explored.")

LM = "src/concurrency/lock_manager.rs"
prop("C08", "Two transactions never hold conflicting locks, and a held lock stays held",
     "On any table or row two transactions hold locks together only if the documented compatibility matrix allows their modes. A granted request (a positive answer) is held from then on, exactly in the mode asked for or in one that includes it, until its holder releases it; nobody else's action weakens or drops it. "
     "Releasing gives up every mode the transaction held or waited for on that resource and grants every waiting request that no longer has anyone in its way; after a transaction is released as a whole, nothing of it is left anywhere and no waiter is left behind that could run.",
     ["inputs", "histories"], "every set of tables, rows and transactions, and every history of lock, upgrade, unlock and forced release",
     "A conflict needs a particular order of grants, upgrades and releases by several transactions; tests lock and unlock by one or two transactions in straight-line order.",
     [LM],
     [("compatibility", "LockCompatibilityChecker::are_compatible, covers"), ("one resource's queue", "LockRequestQueue::grant_lock, compatible_with_existing_locks, grant_waiting, remove_txn"),
      ("all resources and the lock sets", "LockStateManager::grant_table_lock, grant_row_lock, release_table_lock, release_row_lock, force_release_txn"), ("entry points", "LockManager::lock_table, lock_row, unlock_table, unlock_row, force_release_txn, unlock_all")],
     ["lock_state"], ["locks:tables-exhaustive,random-history"],
     "every sequence of three lock requests by three transactions in any mode, then a release and further requests; seeded random histories over tables and rows with up to 4 transactions, all queues compared with a model after each step",
     ["the mutexes around the lock tables are dropped: each operation runs alone (interleavings inside one operation are not explored)", "a row is always named together with the table it belongs to",
      "std map, set and deque calls without a vstd contract are assumed contracts whose bodies are those calls; RID's derived Hash and Eq agree"],
     "For every state: no conflicting holders, lock sets that say exactly who holds what, held locks kept, complete release and granting of waiters are proved for every function from the queue up to the lock manager's entry points.")

prop("C09", "Locking follows the isolation level's two-phase and multi-granularity rules",
     "Whether a lock request is permitted follows the documented table of isolation level, phase and mode; a finished transaction takes no locks and a refused request changes neither the locks nor the transaction. A row lock is taken only under a table lock that backs it (S under S, IS or SIX; X under X, IX or SIX), never as an intention lock, and a violation aborts the transaction. "
     "A table is not unlocked before its rows and only a held lock is unlocked, again at the price of an abort. Unlocking moves the transaction into its shrinking phase exactly when the isolation level says so for the modes given up, and never revives a finished one.",
     ["inputs", "histories"], "every isolation level, transaction state, lock mode, set of held locks and history",
     "Two-phase locking is only as strong as its weakest combination; tests try a handful of the level/state/mode combinations and one or two locks held.",
     [LM, "src/concurrency/transaction.rs"],
     [("rules per level", "LockValidator::validate_lock_request, validate_read_uncommitted, validate_read_committed, validate_repeatable_read"), ("row locks need a table lock", "LockManager::lock_row"), ("unlock order and phase change", "LockManager::unlock_table, unlock_row, finish_unlock")],
     ["lock_rules"], ["locks:validator,tables-exhaustive,random-history"],
     "all level/state/mode combinations of the validator; the histories of C08 with the rules checked at every step",
     ["the mutexes around the lock tables and the transaction's fields are dropped (each operation runs alone)", "a row is always named together with the table it belongs to", "which transactions hold what is the state proved in C08"],
     "For every level, state, mode and lock set: the outcome and the transaction's next state are proved for the validator and for all locking entry points; message-level error kinds are proved for the abort rules only.")

prop("C10", "A deadlock is found, and only the newest transaction of the circle is aborted",
     "The detector reports a deadlock exactly when the waits-for graph has a circle, and the victim is the highest transaction id on one such circle. A request that has to wait adds waits-for edges to exactly the transactions in its way, at least one and never to itself; a granted request adds none, and edges of a transaction disappear when it is granted, unlocks or is released. "
     "Only the transaction chosen as victim is aborted by it, and the notice stays until that transaction has seen it.",
     ["inputs", "histories"], "every waits-for graph and every history of waits and releases",
     "Missing one circle blocks its transactions for ever, a false one aborts innocent work; which graphs arise depends on the history, and tests use circles of two or three.",
     [LM],
     [("search for a circle", "DeadlockDetector::has_cycle, find_cycle_in_graph, dfs_cycle"), ("edges", "DeadlockDetector::add_edge, remove_edge, LockRequestQueue::blockers, LockManager::lock_table, lock_row, finish_unlock, force_release_txn"), ("abort of the victim", "LockManager::check_deadlock")],
     ["deadlock"], ["locks:detector,deadlock"],
     "all graphs on three vertices, seeded random graphs on up to 10 vertices against reachability; rings and chains of 2 to 4 waiting transactions on tables and rows with the real detection thread; upgrades beside other holders",
     ["the background thread's loop (search a copy of the graph, store the victim) is checked by the bounded stand-in only", "the mutexes are dropped (each operation runs alone)", "the iterator chain computing the highest id on the path is an assumed contract whose body is that chain",
      "edges of a transaction that still waits to one that has released in the meantime are kept until the waiter is granted (not claimed)"],
     "For every graph: detection is proved sound and complete with the highest victim and terminating; the edges every locking operation adds and removes are proved; timing of the background thread is bounded only.")

LG, LI, LE, WM = "src/recovery/log_manager.rs", "src/recovery/log_iterator.rs", "src/recovery/log_record.rs", "src/recovery/wal_manager.rs"
EX, IOI, DM = "src/storage/disk/async_disk/io/executor.rs", "src/storage/disk/async_disk/io/io_impl.rs", "src/storage/disk/async_disk/manager.rs"
prop("C11", "The log gives back the records appended; cut anywhere, it gives its whole ones",
     "Appending a record adds exactly its bytes at the end of the log file and reports the offset it went to; a record read at its offset, and the sequence of records an iterator or reader returns, equal what was appended, in order, whatever the record's kind and size. "
     "When the file ends inside a record (a crash while appending), the reader returns exactly the records that are whole and then stops; it never returns a torn one and never an invented one. Page reads and writes, log reads and writes touch exactly the byte range they name.",
     ["inputs", "crash_points"], "every sequence of records and every length the file can be cut to",
     "Recovery believes whatever the reader returns; the bytes at which a crash cuts the log and the sizes of records are unbounded, tests read back a few records of a complete log.",
     [LI, LE, LG, EX, IOI, DM],
     [("record bytes", "LogRecord::to_bytes, from_bytes and the constructors"), ("appending", "AsyncDiskManager::write_log, AsyncIOEngine::append_log_direct, IOOperationExecutor::execute_append_log"), ("reading", "LogIterator::next, collect; LogManager::read_log_record_static; IOOperationExecutor::execute_read_log")],
     ["io_exec", "wal_log", "wal_flush"], ["wal:records,cuts"],
     "seeded records of every kind (tuples to 4000 characters) encoded and decoded; logs of 1 to 8 records (to about 60 kB) cut at the last 70 byte positions and a sample of the rest, read by iterator, by offset and one by one",
     ["std and tokio files are assumed to behave as a byte sequence with a position (inc_file.rs)", "serde/postcard: decoding what was encoded gives an equal record (axiom_postcard; run by the stand-in)", "records up to 1,000,000 bytes, the reader's own limit; longer ones are outside the claim", "an operation handed to the I/O queue is run once and answered with its own result (C13)",
      "locks around the two files are dropped: one operation runs at a time", "the raw memory behind AlignedBuffer is an assumed contract"],
     "Every executor operation, the append path, the iterator and the reader by offset are proved over a byte-sequence file; the crash theorem (any prefix of a log parses to its whole records and the iterator returns those) is a lemma over the same contracts.")
prop("C12", "Log sequence numbers are consecutive, and nothing lost is ever called persistent",
     "Each append gets the next LSN, its record carries that LSN, and records reach the log file in LSN order without gaps. A commit returns only once the persistent LSN covers its record (or the log was stopped). "
     "The persistent LSN never covers a record that is not in the file, flushed and synced as the policy asks, also when writing some batch fails in between; records still queued at shutdown are written.",
     ["histories", "schedules", "crash_points"], "every sequence of appends by every kind of record, every way the flusher batches them, every write or sync that fails",
     "Durability of a commit is exactly this order; it depends on batching, on which write fails and on when, none of which unit tests control.",
     [LG, WM, DM, EX],
     [("numbering", "LogManager::append_log_record, WALManager::write_*_record"), ("batching", "LogManager::run_flush_thread (its task)"), ("writing a batch", "LogManager::perform_flush")],
     ["io_exec", "wal_flush"], ["wal:appends,drain,lost"],
     "1 to 6 threads appending 10 to 700 records each through the WAL manager with the real flush task, the file parsed at every commit's return; shutdown with up to 300 queued records; a file-size limit that makes the device refuse bytes for a while",
     ["tokio's channel hands out what was put in, in order (assumed contract)", "atomics are sequentially consistent cells; the value of persistent_lsn a waiter reads is one the flush task stored", "append_log_record takes the log manager exclusively, as its signature says", "what fsync does to the device is assumed; fsync policy Never makes no claim about the device",
      "a commit whose log was stopped returns its LSN as well: the interface has no error to return (not claimed)"],
     "Proved for every batch split and every failing write: the flush task's body, perform_flush, appending and the WAL manager's records; schedules are exercised by the stand-in.")

CT, ST, QU, WK = "src/storage/disk/async_disk/io/completion.rs", "src/storage/disk/async_disk/io/operation_status.rs", "src/storage/disk/async_disk/io/queue.rs", "src/storage/disk/async_disk/io/worker.rs"
prop("C13", "Every I/O request runs at most once and is answered with its own result",
     "An operation handed to the I/O engine is taken from the queue by urgency (highest priority first, then earliest submitted), run at most once, and the caller gets the result of its own run: a success is only ever reported with the data that run gave. "
     "A finished operation (completed, failed, cancelled or timed out) never changes again, is not run afterwards and is never reported as success unless it succeeded; an operation still waiting is never forgotten. Whoever waits for an operation is told its outcome, also when it ended before or while the waiter was starting to listen.",
     ["schedules", "histories"], "every order of submissions, completions, cancellations, timeouts and waiters",
     "Every page read and write and every log record goes through this queue; a mixed-up or doubled operation corrupts data silently, and which interleaving happens is up to the runtime.",
     [CT, ST, QU, WK, IOI],
     [("tracking", "CompletionTracker::*, OperationStatus::*"), ("queue", "IOQueueManager::*, IOOperation::cmp"), ("worker", "IOWorkerManager::process_operation"), ("engine", "AsyncIOEngine::enqueue_tracked_operation, await_operation, clear_queue, cancel_all_pending_operations and the read/write/sync calls")],
     ["io_engine", "io_exec"], ["io_engine"],
     "2,000 seeded tracker calls against a reference; the queue's order on random priorities; several hundred concurrent page and log operations on a real file with 1 to 8 workers; operations cancelled in the queue; up to 2,000 announcements while waiters listen",
     ["tokio's one-shot and broadcast channels deliver only what was sent on them and a channel with a living sender is not closed (assumed contracts)", "std's BinaryHeap pops a greatest element and HashMap::retain keeps what its closure keeps (the closure is under contract)",
      "locks are dropped; between looking at an operation and completing it the tracker may have changed in any way the tracker's own contracts allow (vp_others)", "clocks are arbitrary: which operations count as timed out is unconstrained", "the worker's select loop, starting and stopping of workers and metrics are exercised by the stand-in only"],
     "Proved over every history: the ghost id in each channel ties an answer to its operation, and success may be sent only with what a run of that very operation gave.")

CD = "src/storage/disk/async_disk/cache/"
prop("C14", "A cache returns the bytes last stored, keeps its size, and evicts by its policy",
     "What a cache returns for a key is the value last stored for it, never an older one and never another key's; it never holds more entries than its capacity, and a full cache makes room by dropping exactly one entry, the one its policy names "
     "(FIFO: the earliest stored; LFU: one with the fewest uses; LRU: the least recently used; LRU-K: fewest accesses first, then the earliest of its last K). "
     "In the three-tier page cache whatever copies of a page are left after storing it hold the stored bytes, in every tier; reading, promoting, prefetching and maintenance never change or invent a page's bytes.",
     ["histories", "inputs", "schedules"], "every sequence of inserts, reads, removals and evictions, and every way the tiers' locks are taken",
     "A stale copy in any tier silently undoes a write the user was told about; which tier holds a page depends on its whole access history.",
     [CD + x for x in ("fifo.rs", "lfu.rs", "lru_k.rs", "cache_manager.rs", "lru.rs", "heap_lfu.rs")],
     [("FIFO", "FIFOCache::*"), ("LFU", "LFUCache::*"), ("LRU-K", "LRUKCache::*"), ("page cache", "CacheManager::store_page, get_page, get_page_with_metrics, evict_if_needed"), ("LRU and heap LFU", "LRUCore::*, HeapLFUCache::* (stand-in only)")],
     ["cache_tiers"], ["cache"],
     "400 seeded histories of 80 calls on each cache at capacities 0 to 5 against a reference; 1,600 histories of 120 calls on the page cache; 6 threads storing and reading at once",
     ["LRUCore (raw pointers) and HeapLFUCache are exercised by the stand-in only: not proved", "an Arc is its contents; each tier's section runs under its lock, and a section that finds the lock taken is skipped (vp_chance)", "which pages are admitted and into which tier is unconstrained: admission, temperature, prefetch bookkeeping, deduplication hashes and metrics touch no tier (by inspection)",
      "clocks are arbitrary; use counts stay below 2^64", "k_distance_rank, access_history and CacheManager::new (floating-point shares) are exercised by the stand-in only"],
     "Proved for all histories: every method of the FIFO, LFU and LRU-K caches and the page cache's store, read and eviction over them.")

prop("C15", "A page's last write is what every later read returns, buffered or on disk",
     "Once a page write is accepted by the disk manager, every later read of that page (single, batch or scheduled; served by a cache, by the write buffer or by the disk) returns those bytes until another write of the page is accepted. "
     "A page leaves the write buffer only when its bytes, or newer ones, are on disk: a full buffer, a failed flush, a write straight to disk or a flush meeting new writes loses no page and puts no older version over a newer one. "
     "An accepted page has exactly the page size; a write that is refused leaves what the page holds as it was; force_flush_all and shutdown that report success leave nothing staged.",
     ["histories", "inputs", "fault_sequences", "schedules"], "every sequence of writes, batch writes, reads, flushes and scheduled operations, every failure of a disk write, and every cache content",
     "Lost page updates corrupt tables silently; they depend on how a write meets a half-full buffer, a flush under way and a failing disk, which no sampled test arranges.",
     ["src/storage/disk/async_disk/" + x for x in ("manager.rs", "memory/write_manager.rs", "memory/write_staging_buffer.rs", "memory/flush_coordinator.rs", "memory/durability_manager.rs", "memory/coalescing/engine.rs", "scheduler.rs")],
     [("staging", "WriteStagingBuffer::buffer_write, staged_page, restage, drain_buffer"), ("flush decisions", "FlushCoordinator::should_flush, try_start_flush, complete_flush; DurabilityManager::*"), ("write manager", "WriteManager::buffer_write, flush_internal, flush, force_flush, staged_page, restage"),
      ("disk manager", "AsyncDiskManager::write_page, read_page, read_pages_batch, write_pages_batch, flush, force_flush_all, shutdown, schedule_*")],
     ["page_store"], ["page_store"],
     "784 cases of seeded histories against a reference map: staging and flush sizes, disk faults, caches on and off, scheduler on and off, tasks writing, reading and flushing at once",
     ["futures run to completion and the sections under the page_order lock are atomic: the lock is a ghost value and each disk or cache access requires it held", "the I/O engine has the contract proved as C13, the page cache the one proved as C14 (stated only for a cache of positive size)", "a scheduled task is refused, or run and answered, or run with the answer lost",
      "byte vectors are their contents; fewer than 2^48 pages staged; batch_size > 0; write_buffer_size_mb <= 2^40", "AsyncDiskManager::new, the scheduler's queues and workers, and the coalescing clean-up are exercised by the stand-in only", "the DurabilityProvider implementations only sync the file (by inspection)"],
     "Proved for all histories: every step from the write buffer to the disk and back keeps the page's newest accepted bytes readable.")

prop("C16", "The buffer pool gives every page as last written, and drops only what is on disk",
     "Fetching a page (alone or in a batch) returns a guard for that very page, of the kind asked for, holding the bytes last written to it, whether it stayed in memory or was evicted and read back; a page of another kind or never given out is refused. "
     "A page leaves memory only when its bytes are on disk or it was deleted; a page somebody holds is never evicted, deleted or replaced, and the pin count is the number of guards. New pages get ids never given out before; every frame is either free or holds exactly the page the table says. "
     "A page stays dirty until what it holds has been written, so a flush or shutdown that reports success left nothing unwritten; a frame is refused only when every page is held or cannot be written.",
     ["histories", "inputs", "fault_sequences"], "every sequence of new, fetch, write, release, delete, flush, batch load and shutdown calls on any pool size, every replacer content, and every disk write or read that fails",
     "Every table and index reads its pages through this pool; a page dropped before it was written, or a frame holding another page than the table says, corrupts data far from the cause and only under memory pressure.",
     ["src/buffer/buffer_pool_manager_async.rs", "src/storage/page/page_guard.rs", "src/storage/page/page_impl.rs", "src/buffer/lru_k_replacer.rs"],
     [("guards", "PageGuard::new, new_for_new_page, write, get_page, drop; BufferPoolManager::unpin_page"), ("frames", "get_available_frame, evict_old_page, evict_page_if_necessary, update_page_metadata, reset_frame, delete_page, deallocate_page"),
      ("pages", "new_page, new_page_with_options, fetch_page, load_page_from_disk, load_pages_batch, install_loaded_page, create_page_from_data, write_page"), ("disk", "write_page_to_disk_async/sync, flush_page_async, flush_all_pages_async/durable, flush_dirty_pages_batch_async, shutdown")],
     ["buffer_pool"], ["buffer_pool"],
     "240 seeded histories of 30 to 120 calls on pools of 1 to 6 frames against a reference map, half with a disk that refuses writes at times; 4 tasks on three clones of a pool with a flusher; every kind of page built, marked and given whole images",
     ["operations of one pool are not interleaved with each other (a fetch racing an eviction is outside the claim); during a disk write only holders change pages, and only those they hold", "a guard is dropped where its scope ends (by inspection)", "the replacer has the contract proved as C07, the disk manager the one proved as C15 (a page read has at most the page size)",
      "every kind of page keeps its kind byte and its id, accepts a whole image and returns it (run by the stand-in on six kinds); constructors give a page with the id asked for", "Clone (clones share the page id counter) is exercised by the stand-in; the Arc::try_unwrap branch of shutdown, which no caller can reach while the pool keeps its own handle, is dropped", "fewer than 2^31 guards per page and 2^64 page ids",
      "a fetch waiting for the disk is assumed to end (run by the stand-in)"],
     "Proved for all histories: an inductive invariant over frames, table, free list, replacer and guards (wf), kept by every operation of the pool, and per-operation statements of what is returned and what is on disk.")

EX = "src/sql/execution/expressions/"
prop("C17", "Values compare, group and sort consistently; conditions are three-valued",
     "=, <>, <, <=, > and >= between two values tell one story: numbers of different types compare by the number they stand for in the wider of the two types (integers exactly), text and times by their order, NULL on either side gives unknown, <> is the opposite of =, a < b is b > a, and of two scalars that compare exactly one of <, =, > holds. "
     "Equality for grouping, DISTINCT and hashing is an equivalence under which equal values hash alike (NULL with NULL, 0.0 with -0.0, NaN with NaN), and the sort order puts NULL first and agrees with it. "
     "AND, OR, NOT, BETWEEN, IN, ANY, ALL, LIKE, IS [NOT] NULL/TRUE/FALSE/UNKNOWN, IS DISTINCT FROM, CASE, COALESCE and unary minus give what SQL's three-valued logic says of their operands' values, the same on one row and on a joined pair of rows, in which every sub-expression sees both rows; negation that does not fit the type is an error.",
     ["inputs"], "every pair of values of every type and every operand value (NULL, extremes, mixed types) of the expressions named, on one row and on a pair of rows",
     "WHERE, JOIN, GROUP BY and ORDER BY return wrong rows silently when one of the type pairs or NULL cases disagrees with the others; there are thousands of combinations and tests sample a few.",
     ["src/types_db/value.rs", "src/types_db/types.rs"] + [EX + x + "_expression.rs" for x in ("abstract", "logic", "comparison", "between", "binary_op", "all", "any", "in", "like", "is_distinct", "is_check", "unary_op", "case", "coalesce", "column_value", "constant_value")],
     [("comparisons", "Value::compare_equals, compare_not_equals, compare_less_than, compare_less_than_equals, compare_greater_than, compare_greater_than_equals"), ("grouping and order", "Value: PartialEq::eq, Hash::hash, PartialOrd::partial_cmp, Ord"),
      ("conditions", "LogicExpression, ComparisonExpression, BetweenExpression, BinaryOpExpression, AllExpression, AnyExpression, InExpression, LikeExpression, IsDistinctExpression, IsCheckExpression, UnaryOpExpression, CaseExpression, CoalesceExpression ::evaluate, evaluate_join and their helpers"),
      ("dispatch", "Expression::evaluate, evaluate_join; ColumnRefExpression, ConstantExpression ::evaluate, evaluate_join")],
     ["value_cmp", "value_eq", "value_logic", "value_in", "value_dispatch"], ["values:pairs,triples,compare,logic,ranges,minus,like"],
     "every pair of a pool of values of all kinds with extremes; 60,000 triples; 12,000 ranges and lists; every expression on a row and on the same row split in two; LIKE against a reference matcher on 4,000 texts and patterns with multi-byte characters and escapes",
     ["f32 and f64 are opaque: their comparison is antisymmetric, undefined exactly on NaN, equal floats differ only as the two zeros, i32 is exact in f64", "the derived == and order of the value enum mean what #[derive] says; Vec and Option compare element by element", "a number carries its own type (what Value::new establishes), in lists too",
      "evaluating a sub-expression is a function of it and the row or rows", "comparing two kinds that are neither equal nor both numeric goes through cast_to, which is unconstrained; so are arithmetic, string concatenation and LIKE's matcher (stand-in only)",
      "vectors and structs: equality only, no order is claimed", "NULL IN an empty list is unconstrained"],
     "Proved for all values: each comparison, the grouping equality, hash and order against one definition, the laws between them as lemmas, and every listed expression's evaluate and evaluate_join.")

prop("C18", "Arithmetic gives the exact number or an error, never a wrapped one",
     "+, -, * and / of two integers give the exact result in the wider of their two types (division towards zero), or an error when it does not fit or the divisor is zero; no operand values panic and none wrap. "
     "An operation with a DECIMAL is done in double precision, one between a FLOAT and an integer or FLOAT in single precision, with division by zero an error; the operands keep their order (a - b is never b - a). "
     "A condition gives the same on one row and on a joined pair of rows. % of two integers of one type is the remainder with the sign of the left, NULL for a zero divisor. NULL plus anything is NULL where SUM adds up.",
     ["inputs"], "every pair of values of every numeric type and every operator, on one row and on a pair of rows",
     "A sum or product that wraps, or a difference taken the wrong way round in a join, is a wrong number in a query result that nothing else would catch; the failing operands are extremes and type pairs tests do not list.",
     ["src/types_db/value.rs", EX + "arithmetic_expression.rs", EX + "binary_op_expression.rs"],
     [("values", "Value::add, subtract, multiply, divide, modulo, is_zero, as_integer, as_bigint, as_smallint, as_tinyint, as_decimal, new_with_type; in_range"), ("expressions", "ArithmeticExpression::evaluate, evaluate_join, compute; BinaryOpExpression::evaluate_arithmetic")],
     ["value_arith"], ["values:arith"],
     "every pair of 90 numbers (extremes of every type, zeros, NaN, random) under the five operators through both expressions, on a row and on the same row split in two, against 128-bit arithmetic",
     ["f32 and f64 are opaque: their +, -, *, / and the conversions to them are functions of their operands", "the standard library's checked_div and wrapping_rem divide towards zero (vstd specifies checked_add, checked_sub and checked_mul)", "a number carries its own type (what Value::new establishes)",
      "conversions from float, text and other kinds to an integer are unconstrained (they do not occur on typed numbers)", "an ArithmeticExpression has two children (what its constructor indexes)", "Value::add and the others may refuse two different types; what they return is exact all the same"],
     "Proved for all values: every type pair and operator of both expressions and of Value's own operators.")

XE = "src/sql/execution/executors/"
prop("C19", "LIMIT, OFFSET, DISTINCT, WHERE, ORDER BY, TOP-N: exactly SQL's rows or the error",
     "Over any input of rows: LIMIT n gives the first n and stops there, OFFSET n all but the first n, DISTINCT the first row of each group of equal rows (NULL with NULL), WHERE the rows whose condition is true (neither false nor unknown), in the order they came. "
     "ORDER BY gives every row once, sorted by its keys in the directions asked, NULL first and NaN last when ascending; TOP-N gives the n rows with the greatest keys, greatest first. "
     "After the end there are no more rows. No error of the input, a condition or a sort key is lost: it is returned in the place of the rows from there on (ORDER BY and TOP-N: of all rows), and no partial answer looks complete.",
     ["inputs"], "every sequence of input rows of any types (NULL, NaN, ties, duplicates), every count, every list of keys and directions, and every place where the input, a key or the condition fails",
     "These operators end every query: a row lost, repeated or out of order, or an error read as the end of the rows, is a wrong answer that looks right.",
     [XE + x + "_executor.rs" for x in ("limit", "offset", "distinct", "filter", "sort", "topn")] + ["src/sql/execution/plans/" + x + "_plan.rs" for x in ("limit", "offset", "sort", "topn")] + ["src/types_db/value.rs", EX + "filter_expression.rs"],
     [("operators", "LimitExecutor, OffsetExecutor, DistinctExecutor, FilterExecutor, SortExecutor, TopNExecutor: new, init, next and their helpers"), ("order", "Value::partial_cmp, TupleWithKeys::cmp, SortExecutor::compare_keys")],
     ["rows_stream", "rows_sort", "value_eq"], ["rows:limit,distinct,filter,sort,topn"],
     "15,000 seeded inputs per operator (0 to 60 rows of 1 to 4 columns of eight types, repeated rows, NULL, NaN, both zeros, inputs, keys and conditions that fail) against plain lists",
     ["an executor below gives its rows one by one, then either the end (again and again) or an error; what it gives does not depend on being asked", "a key or condition evaluates to a function of the row", "the standard library: slice::sort_by is a stable sort for a total order, BinaryHeap gives its least element first and into_sorted_vec gives it in order, HashSet<Vec<Value>> is a set under == and hash (which C17 proves to agree)",
      "RwLock and Arc are read as what they hold", "a number carries its own type (what Value::new establishes)", "HAVING (which goes through FilterExecutor with its own kind) is outside the claim"],
     "Proved for all inputs: each operator's next against the sequence of rows it still has to give, loops by invariants over the input's remaining rows; the order by keys is proved total and transitive, which is what the sort and the heap need.")
