#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, **kw):
    assert len(title) <= 80, (id, len(title))
    if "observe_at" in kw:
        kw["observe_at"] = [x.strip() for x in kw["observe_at"].split(";")]
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
CC = "src/concurrency_control/"
IF = CC + "interface/"

prop("C01", "Committed transactions of all kinds are serializable",
 "For every concurrent execution, the committed short, long and read-only transactions are equivalent to some one-at-a-time execution in which every value they read is the one written last before them. A short transaction that begins after another transaction was reported committed is never placed before it in that order.",
 ["schedules", "programs", "configurations"],
 "all interleavings of operations, epoch changes and background commit work, for all sets of short, long and read-only transactions over any storages, with and without the waiting-bypass and log-buffering switches",
 "Each existing test fixes two or three transactions and one interleaving with epoch sleeps and asserts single statuses; none of them checks an equivalence to a serial order, and the number of interleavings of mixed transaction kinds is far beyond hand-written cases.",
 [IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp", IF+"long_tx/helper.cpp", IF+"long_tx/search.cpp", CC+"read_by.cpp", CC+"wp_meta.cpp", CC+"ongoing_tx.cpp", CC+"tid.cpp"],
 "read validation of short transactions, order decision of long transactions against older long transactions, protection of committed reads, version chains",
 observe_at="client boundary: every begin/read/write/commit call with unique written values")

prop("C02", "Range reads and absence observations admit no phantoms",
 "A key that a committed transaction observed as absent, through a point read, a failed update or delete, a successful insert, or a range scan that did not return it, is absent at that transaction's place in the serial order, and every key returned by a scan is present there. This holds for both scan implementations, every range shape and every transaction kind.",
 ["schedules", "programs", "inputs", "configurations"],
 "all interleavings of scans and absence observations with inserts, deletes and re-inserts by other transactions, for all ranges, endpoint kinds, limits and directions",
 "Existing phantom tests use a handful of keys, one conflicting insert at a fixed place and the default scan implementation; index node splits, emptied nodes, ranges partly read, and conflicts hitting only one edge of the range are not reached.",
 [IF+"scan/open_scan.cpp", IF+"scan/next.cpp", IF+"scan/read_kv_from_scan.cpp", CC+"include/local_set.h", CC+"read_by.cpp", IF+"long_tx/helper.cpp", IF+"long_tx/termination.cpp", IF+"insert.cpp"],
 "index node version checks of short transactions; recorded read ranges checked by later writers for long transactions",
 observe_at="client boundary: scan calls with their ranges and every returned key/value, statuses of point operations")

prop("C03", "Read-only transactions read one committed snapshot and always commit",
 "All reads and scans of one read-only transaction return the state left by one and the same prefix of the committed transactions, however long the transaction lives and whatever runs beside it. Once readable it is never refused by conflicts, its commit succeeds, and it never makes another transaction fail or wait.",
 ["schedules", "histories"],
 "all histories of short and long commits, aborts, deletes, reclamation and epoch changes around a read-only transaction of any length",
 "Existing tests read one or two keys right after the snapshot exists; they do not hold snapshots across many epochs of updates, deletes and reclamation, nor relate several keys written by one transaction.",
 [IF+"read_only_tx/read_only_tx.cpp", IF+"read_only_tx/search.cpp", CC+"epoch.cpp", CC+"garbage.cpp", CC+"include/version.h", IF+"scan/next.cpp"],
 "safe snapshot epoch choice, version chain traversal, reclamation watermark",
 observe_at="client boundary: multi-key invariants written together with unique transaction stamps")

prop("C04", "Inside a transaction every operation follows the keyed-map model",
 "Without interference, each search, insert, update, upsert, delete and scan returns exactly the status, key and value that a sequential map containing the committed data plus the transaction's own earlier writes would give. After commit the database equals that map.",
 ["programs", "inputs", "configurations"],
 "all sequences of operations in one transaction or one transaction after another, of any kind allowed to write, for all keys and values including empty, binary and long ones",
 "Existing tests cover pairs of operations on one key; chains such as delete, insert, update, delete, insert on own and committed records, write sets past the size where the representation changes, and both transaction kinds are unbounded in number.",
 [IF+"insert.cpp", IF+"update.cpp", IF+"upsert.cpp", IF+"delete.cpp", IF+"search.cpp", IF+"helper.cpp", CC+"local_set.cpp", IF+"scan/read_kv_from_scan.cpp"],
 "write set lookup and combination of operations on one key, existence checks",
 observe_at="client boundary: status and value of every call compared with a reference map")

prop("C05", "Aborted transactions leave no trace",
 "No write of a transaction that was aborted by its user, by a conflict, or by a failed commit is ever seen by any other transaction, survives a restart, or changes the result of later operations on the same keys. No transaction ever reads a value of another transaction that is not committed.",
 ["schedules", "programs", "histories"],
 "all interleavings in which transactions abort at any operation or at commit, voluntarily or not, including aborted inserts competing with other inserts of the same key",
 "Existing tests abort one transaction and read one key afterwards; aborted placeholders shared with other inserters, aborts during waiting, and restarts after aborts are not combined.",
 [IF+"termination.cpp", IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp", IF+"insert.cpp", CC+"session.cpp", "src/datastore/limestone/lpwal.cpp"],
 "discarding local write sets, neutralising inserted placeholders, log buffer filled only after validation",
 observe_at="client boundary: unique values of aborted transactions searched for in every later read, scan, log entry and recovered state")

prop("C06", "Scans return exactly the keys in range, in order, once each",
 "An open scan walked to its end returns every visible key inside the given range exactly once in ascending order (the greatest key first for a right-to-left scan), with the value of the same record for key and value reads, and nothing outside the range. Both scan implementations, all endpoint kinds, size limits and several simultaneously open scans agree with that.",
 ["inputs", "programs", "configurations"],
 "all key sets, ranges, endpoint kinds, limits and directions, with the transaction's own pending inserts, updates and deletes inside the range, for all transaction kinds",
 "Existing scan tests use few short keys and a fixed set of ranges on one implementation; interplay of own pending writes, tombstones, long or prefix-sharing keys, empty ranges and limits is combinatorial.",
 [IF+"scan/open_scan.cpp", IF+"scan/next.cpp", IF+"scan/read_kv_from_scan.cpp", IF+"scan/close_scan.cpp", IF+"scan/scannable_total_index_size.cpp", CC+"include/scan.h", "src/index/yakushima/include/interface.h"],
 "cursor over cached or iterated index entries, skipping of invisible records, handle management",
 observe_at="client boundary: the returned sequence compared with a reference ordered map")

prop("C07", "Every commit request ends with one truthful outcome",
 "Each commit request is answered exactly once, by its callback or its return, with success or an abort reason; a transaction that must wait for older ones is answered once those have ended. A success answer means all its writes are visible to transactions begun afterwards and a failure answer means none ever are.",
 ["schedules", "programs", "configurations"],
 "all orders of begin, commit and abort of long transactions with overlapping write areas, mixed with short ones, with one or several background workers and with the waiting-bypass switches on or off",
 "Existing tests wait on two or three long transactions in fixed orders; lost or doubled notifications depend on races between committing clients, background workers and ending transactions.",
 [CC+"bg_work/bg_commit.cpp", IF+"termination.cpp", IF+"long_tx/termination.cpp", CC+"ongoing_tx.cpp", "src/database/thread_pool.cpp"],
 "waiting list of long transactions, background resolver, callback hand-over",
 observe_at="commit callbacks counted per request; later reads")

prop("C08", "Declared write and read areas of long transactions are enforced",
 "A long transaction can write only to storages it declared and can read only what its declared read area admits; violations are refused with the documented status and have no effect. While its declaration is active, no short transaction commits a write to, or a read of, a declared storage that the long transaction's order could invalidate.",
 ["programs", "schedules", "inputs"],
 "all declarations of write and read areas over any number of storages, all operations by long and short transactions before, at and after the declaration becomes active and after it ends",
 "Existing tests check one declaration against one operation; many concurrent declarations on one storage, ends in any order, and reuse of declaration slots are not reached.",
 [CC+"wp.cpp", CC+"wp_meta.cpp", CC+"wp_lock.cpp", CC+"read_plan.cpp", IF+"tx_begin.cpp", IF+"helper.cpp", IF+"long_tx/helper.cpp"],
 "write preserve table per storage, read area check, epoch at which declarations take effect",
 observe_at="client boundary: statuses of operations against a model of active declarations")

prop("C09", "Long transactions get priority by age and always finish",
 "Among running long transactions the oldest never has to wait for younger ones and is reported as having highest priority, and short transactions cannot starve or abort it. When all clients stop issuing new work and end their transactions, every request completes.",
 ["schedules", "programs"],
 "all sets of long transactions with overlapping or disjoint areas, any order of begin, commit and abort, and any background load of short and read-only transactions",
 "Existing tests check priority for two transactions; dependency chains of several long transactions, with some aborted in the middle, are not enumerated.",
 [CC+"ongoing_tx.cpp", IF+"long_tx/termination.cpp", CC+"bg_work/bg_commit.cpp", IF+"tx_begin.cpp"],
 "ordered list of running long transactions, wait conditions at commit",
 observe_at="client boundary: waiting answers, priority queries and abort reasons")

prop("C10", "Crash recovery restores a transaction-consistent durable prefix",
 "After a crash at any moment, restarting on the surviving log yields a database in which every transaction is present completely or not at all, a transaction is present only if everything it depends on is, and every transaction reported durable before the crash is present. Recovery of the same log is repeatable and the recovered database accepts new work.",
 ["crash_points", "schedules", "histories", "configurations"],
 "all crash points between any two log events, for all concurrent histories of short and long transactions, including repeated crashes and restarts, with any number of recovery threads",
 "Existing recovery tests shut down at fixed places after waiting for the log; they never cut the log between two entries of concurrent sessions or compare the result with the dependencies of the history.",
 ["src/datastore/limestone/lpwal.cpp", CC+"include/lpwal.h", "src/datastore/limestone/datastore.cpp", "src/datastore/limestone/limestone_api_helper.cpp", IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp", IF+"start_up.cpp", CC+"epoch.cpp"],
 "per-session log buffers flushed per epoch, log session begin/end against the log store's epoch, replay of the snapshot",
 observe_at="boundary to the log store (every call) and reads after restart")

prop("C11", "A clean shutdown followed by a restart preserves the database",
 "After an orderly shutdown that waits for logging, a restart in recovery mode yields exactly the committed records, storages, storage options and sequences of the previous run; deleted ones do not come back. A start in fresh mode never exposes earlier data and repeated start and stop cycles keep working.",
 ["histories", "programs", "configurations"],
 "all histories of record, storage and sequence changes over any number of start and stop cycles, with any number of recovery threads",
 "Existing tests run one cycle with a few records; deletes and re-creates spread over several cycles, ids continuing across restarts, and ordering of same-epoch changes of one key are not covered.",
 [IF+"start_up.cpp", IF+"shut_down.cpp", "src/datastore/limestone/datastore.cpp", IF+"storage.cpp", CC+"sequence.cpp"],
 "flush at shutdown, rebuild of index, storage table and sequences at start",
 observe_at="client boundary: full contents before shutdown and after restart")

prop("C12", "The log holds exactly the committed changes, ordered like commits",
 "Every record change of every committed transaction reaches the log exactly once with the right storage, key, value, kind and large-object references, and nothing else does. For any key the versions attached to its log entries order them as the transactions that wrote them are ordered.",
 ["schedules", "programs"],
 "all concurrent histories of short and long transactions, with any combination of operations on one key inside a transaction, any epoch placement and both buffering settings",
 "Existing tests look at a few log entries of one transaction; they do not compare all entries of concurrent transactions with the order in which they took effect.",
 [CC+"include/lpwal.h", "src/datastore/limestone/lpwal.cpp", IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp", "src/datastore/limestone/limestone_api_helper.cpp"],
 "construction of log entries at commit, version numbers (epoch, order inside the epoch), flush",
 observe_at="boundary to the log store: every added or removed entry with its version")

prop("C13", "Durability is reported only when true, in order, and always eventually",
 "A transaction is reported durable, by its state or by a durability notification covering its marker, only after all its changes are safe in the log, and every committed transaction is eventually so reported. Markers given to registered callbacks never decrease.",
 ["schedules", "histories"],
 "all interleavings of commits, log flushes, epoch changes and persistence notifications, including sessions that idle, leave, or are reused right after commit",
 "Existing tests wait until some callback arrives; they never check at each notification that the log already contains everything the marker covers.",
 ["src/datastore/limestone/lpwal.cpp", CC+"include/lpwal.h", CC+"transaction_state.cpp", "src/database/tx_state_notification.cpp", "src/datastore/limestone/datastore.cpp", CC+"epoch.cpp"],
 "minimum of unflushed epochs, persistent callback, marker handed out at commit",
 observe_at="boundary to the log store at the instant of each notification; commit callbacks; state queries")

prop("C14", "Sequences follow the newest committed version, also after restart",
 "Reading a sequence returns the value of the highest version among committed and durable updates, never of an aborted one, and successive reads never go back. After a restart it returns the highest version that was durable, deleted sequences are gone and ids of living ones are not handed out again.",
 ["schedules", "programs", "crash_points"],
 "all orders of create, update, read and delete of sequences by short and long transactions in the same or different epochs, with commits, aborts and crashes anywhere",
 "Existing tests update one sequence from one transaction kind and restart cleanly; different transaction kinds, versions out of order and changes in one epoch are not combined.",
 [CC+"sequence.cpp", "src/include/sequence.h", IF+"long_tx/termination.cpp", IF+"short_tx/termination.cpp", "src/datastore/limestone/datastore.cpp"],
 "per-epoch sequence map, log entries of sequences and their versions",
 observe_at="client boundary and recovered values")

prop("C15", "Storages are created, found, listed and deleted consistently",
 "At any time names, ids and listings of storages agree with the creations and deletions that completed: a name or id is bound to at most one living storage, data of different storages never mix, and data of a deleted storage never reappear under any name or id. Options set on a storage are returned unchanged, before and after restart.",
 ["programs", "schedules", "inputs"],
 "all sequences and concurrent interleavings of storage creation (with and without chosen ids), deletion, lookup, listing and option changes, with records inside and across restarts",
 "Existing tests create and delete a few storages one after another; concurrent creation of the same name or id, re-creation after deletion, and id choice colliding with generated ids are not covered.",
 [IF+"storage.cpp", "src/include/storage.h", CC+"wp.cpp", "src/datastore/limestone/datastore.cpp"],
 "storage id generator, name map, metadata storage, per-storage page metadata",
 observe_at="client boundary against a reference model; linearizability for concurrent calls")

prop("C16", "Sessions are exclusive, reusable and bounded",
 "Entering hands out a session that no one else holds, up to the fixed capacity and then the limit error; leaving makes it available again, ends an open transaction without effect, and a second leave is refused. A reused session shows nothing of its former use.",
 ["schedules", "programs"],
 "all concurrent sequences of enter and leave around transactions of every kind and stage, at and below capacity",
 "Existing tests enter up to the limit from one thread; concurrent claims, leaving with open transactions of each kind and reuse straight after are not explored.",
 [IF+"session_management.cpp", CC+"session_table.cpp", CC+"session.cpp", CC+"include/session.h"],
 "session table scan with compare-and-swap, cleanup of session state",
 observe_at="client boundary: ownership bookkeeping of tokens")

prop("C17", "Transaction states only move forward and end in the true outcome",
 "The state shown through a transaction's state handle follows the documented diagram without going back, shows the kinds and waits the transaction really has, and ends as aborted if and only if the transaction aborted and as durable after it committed. Handles stay valid until released and are refused afterwards.",
 ["schedules", "histories"],
 "all moments of querying during the life of short, long and read-only transactions, including commits waiting for others, background commit and session reuse",
 "Existing tests query at fixed points of single transactions; queries racing with background commit, epoch change and session reuse are not reached.",
 [CC+"transaction_state.cpp", "include/shirakami/transaction_state.h", IF+"termination.cpp", IF+"tx_begin.cpp", "src/datastore/limestone/datastore.cpp"],
 "state object updated by client, background and epoch threads",
 observe_at="client boundary: sequence of observed states per handle")

prop("C18", "Transaction ids are unique and abort reasons name the true cause",
 "No two transactions in one database run get the same transaction id. When an operation or commit ends a transaction, the result information names a reason of that class with the storage and key actually involved, and a committed or running transaction never shows an abort reason of another one.",
 ["programs", "schedules", "histories"],
 "all transactions of all sessions over time, and all ways in which a transaction can be ended",
 "Existing tests provoke each reason once in isolation on a fresh session; stale information after session reuse and ids across many sessions and transactions are not covered.",
 [CC+"result_info.cpp", "include/shirakami/result_info.h", IF+"tx_id.cpp", "include/shirakami/tx_id.h", IF+"api_result.cpp", CC+"session.cpp"],
 "result info stored per session, transaction counter in the session",
 observe_at="client boundary: ids of all transactions, result info after each ended transaction")

prop("C19", "Time advances: new snapshots keep including what was committed",
 "Whatever clients do, logical time keeps advancing and never goes back, and a read-only transaction begun after another one could read sees a snapshot no older. Once a commit is reported and no older long transaction runs, read-only transactions begun a bounded number of epochs later include it.",
 ["schedules", "configurations"],
 "all loads of open, idle, long-running and waiting transactions and all epoch lengths",
 "Existing tests sleep a fixed time in quiet systems; they do not check progress under idle open transactions or ordering of snapshots taken in different sessions.",
 [CC+"epoch.cpp", CC+"include/epoch.h", IF+"short_tx/termination.cpp", IF+"tx_begin.cpp", CC+"session_table.cpp"],
 "epoch thread, refresh of per-session epochs, safe snapshot computation",
 observe_at="epochs announced to the log store; values seen by successive read-only transactions")

prop("C20", "Reclamation frees dead data and never data still visible",
 "Versions and records are physically removed only when no running or future transaction can read them, so no transaction ever misses or misreads data because of reclamation. Under endless update and delete traffic with transactions that end, memory and index entries for dead data stay bounded.",
 ["schedules", "histories"],
 "all interleavings of reclamation with readers, writers, re-inserts of removed keys and long-lived snapshots, over unbounded time",
 "Existing tests run reclamation on a few records with pauses; races between removal of a key and its re-insertion, and growth over long runs, are not observed.",
 [CC+"garbage.cpp", CC+"include/garbage.h", CC+"record.cpp", CC+"include/version.h", IF+"insert.cpp", CC+"session.cpp"],
 "garbage collector threads, watermark epochs, unhooking keys from the index",
 observe_at="client boundary values, address sanitizer on record memory, counts of index entries and heap bytes")

prop("C21", "No memory error or undefined behaviour under any legal use",
 "Under every legal or documented-as-refused use of the interface, from any number of threads, the engine performs no access to freed or foreign memory, no undefined arithmetic, and does not crash, abort or hang. All memory obtained during a run is released by shutdown.",
 ["schedules", "programs", "inputs"],
 "all programs over the public interface with hostile sizes, orders and concurrency",
 "The existing suite runs under address sanitizer only with its own fixed scenarios; unusual combinations of operations, waiting transactions at shutdown and long concurrent runs are not executed.",
 ["src", "include"],
 "manual memory management of records, versions, scan caches, session state and callbacks",
 observe_at="address, leak and undefined-behaviour sanitizers around the whole engine")

prop("C22", "Shared state is synchronised: concurrent use causes no torn values",
 "Operations issued concurrently through different sessions never observe a half-written key, value, version or state: each value read is byte for byte one that some transaction wrote, and unsynchronised conflicting accesses to shared engine data do not occur.",
 ["schedules"],
 "all thread interleavings of operations in different sessions together with epoch, reclamation, logging and background commit threads",
 "Data races need particular timings; the existing suite is not run under a race detector and checks values of single keys only.",
 ["src"],
 "lock bits in version words, atomics and mutexes between client and background threads",
 observe_at="thread sanitizer on the whole engine; self-describing values checked at every read")

prop("C23", "Data access of one transaction from several threads is safe",
 "When several threads issue data access calls for the same transaction, the results and the final effect are those of some order of these calls, and the transaction commits or aborts as one. No call is lost, applied twice or mixed with another.",
 ["schedules", "programs"],
 "all interleavings of searches, writes and scans from several threads inside one short, long or read-only transaction, followed by one commit or abort",
 "Existing strand tests run one or two operation kinds per test with few threads and look for crashes; they do not compare with an order of the calls.",
 [CC+"include/session.h", CC+"local_set.cpp", IF+"upsert.cpp", IF+"insert.cpp", IF+"search.cpp", CC+"include/scan.h"],
 "locks on local read, write and node sets and on operation versus termination",
 observe_at="client boundary: per-thread results and the state after commit")

prop("C24", "Misuse is refused with the documented status and has no effect",
 "Calls without a begun transaction, with unknown storages, invalid handles, over-long keys, writes in read-only transactions, nested begins and invalid options are refused with their documented warning and change nothing. A warning leaves the transaction usable and an error status means it has ended.",
 ["inputs", "programs"],
 "all sequences of legal and illegal calls in any state of a session",
 "Existing tests try each misuse once from a fresh session; misuse in the middle of other work, after errors, while waiting for commit or on reused handles is not covered.",
 [IF+"helper.cpp", IF+"tx_begin.cpp", IF+"termination.cpp", IF+"scan/close_scan.cpp", IF+"scan/open_scan.cpp", IF+"storage.cpp", CC+"transaction_state.cpp"],
 "argument checks at each entry point, implicit abort on errors",
 observe_at="client boundary: statuses against a model of session state, contents afterwards")
