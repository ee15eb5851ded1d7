"""Which drivers decide which property, how much of them, and which violation tags count."""

ASSUMPTIONS = [
    "the index and the log store are replaced by stand-ins with the same interface (see DESIGN.md)",
    "schedules are sampled: random interleavings, pauses injected at basic blocks of the engine, OS threads",
]


HOOKS = None  # /repo carries no hooks: everything is observed at its public interface and in the stand-ins


def owns(plan, tag):
    # "stuck": the engine refused what it must always be able to do; nothing holds then
    return tag in plan["tags"] or tag == "stuck"


def litmus(profiles, cases, procs, variant="plain", **kw):
    def f(tier, Job):
        n = cases * 5 if tier == "quick" else cases * 60
        return [Job(variant, "litmus", dict({"profile": profiles}, **kw), n) for _ in range(procs)]
    return f


def driver(name, cases, procs, variant="plain", **kw):
    def f(tier, Job):
        n = cases if tier == "quick" else cases * 12
        return [Job(variant, name, kw, n) for _ in range(procs)]
    return f


def join(*fs):
    def f(tier, Job):
        out = []
        for x in fs:
            out += x(tier, Job)
        return out
    return f


LRULE = ("one evaluation = one small concurrent program of random transactions over few keys, run against the engine "
         "under a chosen interleaving, with its complete history decided exactly; non-trivial = at least two "
         "overlapping transactions touch a common key or range and one of them writes; distinct = different hash of "
         "programs, statuses, values read (by writer) and outcomes")

PLANS = {
    "C01": {
        "technique": "offline serializability checking of recorded histories",
        "note": "Exact decision of each recorded history (search over serial orders with values, scans, absence and existence answers). Small programs, sampled schedules with injected pauses; not exhaustive.",
        "tags": {"ser", "phantom", "dirty", "status", "rtx", "scan", "twin"},
        "jobs": join(litmus("mix,short", 4000, 3), litmus("ltxmix,ltx,mix,young", 3000, 3), litmus("ring,ring_fast", 5000, 3), driver("burst", 150, 2), driver("twin", 300, 1)),
        "rule": LRULE + "; also one burst = up to 60 steps of one client with several sessions, many within one epoch, "
                        "whose contents are known at every commit; one twin = one key created by several clients at the same moment",
        "need": ["committed_short", "committed_long", "aborted_short", "aborted_long", "pauses_taken", "threaded_cases",
                 "readers_committed", "short_after_long_within_an_epoch", "met_in_index"],
    },
    "C02": {
        "technique": "offline serializability checking, focus on ranges and absent keys",
        "note": "As C01 with programs built around ranges and absent keys over small leaves so that splits and removals of index nodes happen in most cases.",
        "tags": {"phantom", "ser", "scan", "dirty", "status"},
        "jobs": join(litmus("phantom,phantom_short", 4000, 4), litmus("phantom,scan", 3000, 4), litmus("hollow,ring,ring_fast", 5000, 3)),
        "rule": LRULE,
        "need": ["committed_short", "committed_long", "scan_items", "pauses_taken"],
    },
    "C03": {
        "technique": "offline snapshot checking of recorded histories",
        "note": "Every read-only transaction must fit one position of the serial order of all committed transactions, and its answers must not change; sampled schedules.",
        "tags": {"rtx", "dirty", "ser", "phantom", "snap", "torn", "scan", "status"},
        "jobs": join(litmus("rtx", 3500, 7), driver("stress", 500, 1)),
        "rule": LRULE,
        "need": ["committed_rtx", "committed_short", "committed_long", "pauses_taken"],
    },
    "C04": {
        "technique": "model-based checking of every answer",
        "note": "Each answer of each operation is compared with a map model; programs are random, one transaction at a time.",
        "tags": {"status", "ser", "phantom", "dirty", "scan", "rtx"},
        "jobs": litmus("single", 6000, 8),
        "rule": LRULE.replace("at least two overlapping transactions touch a common key or range and one of them writes",
                              "a transaction with answered operations; transactions of a case do not overlap"),
        "need": ["committed_short", "committed_long"],
    },
    "C05": {
        "technique": "offline history checking with unique values",
        "note": "Every value ever read must come from a committed transaction or the reader itself; final contents are compared with the committed effects; sampled schedules and abort points.",
        "tags": {"dirty", "ser", "phantom", "status", "rtx", "scan", "twin"},
        "jobs": join(litmus("abort", 4000, 8), driver("twin", 300, 2)),
        "rule": LRULE + "; one twin = one key created by several clients at the same moment, some of which abort",
        "need": ["met_in_index", "nobody", "aborted_short", "aborted_long", "committed_short", "committed_long", "pauses_taken"],
    },
    "C06": {
        "technique": "model-based checking of every scan plus serializability checking",
        "note": "Scan results against bounds, order, limits and own writes, and inside the serial order; sampled.",
        "tags": {"scan", "ser", "phantom", "status", "dirty", "rtx"},
        "jobs": join(litmus("scan", 4000, 5), litmus("single,scan", 4000, 3)),
        "rule": LRULE,
        "need": ["scan_items", "committed_short", "committed_long", "committed_rtx"],
    },
    "C07": {
        "technique": "exactly-once monitor on commit answers, cross-checked with database contents",
        "note": "Each commit request is followed to its single answer, and the answer is compared with what later transactions see; sampled schedules.",
        "tags": {"callback", "dirty", "ser", "phantom", "status", "state"},
        "jobs": join(litmus("mix,ltxmix", 3500, 5), litmus("reason,state", 3500, 3)),
        "rule": LRULE,
        "need": ["callbacks_checked", "committed_long", "aborted_long", "aborted_short"],
    },
    "C08": {
        "technique": "monitor of declared areas at the client boundary plus serializability checking",
        "note": "Accesses inside and outside declared areas with the statuses required of them; sampled.",
        "tags": {"area", "ser", "phantom", "status", "dirty", "priority"},
        "jobs": litmus("area", 3500, 8),
        "rule": LRULE,
        "need": ["area_ops", "short_ops_on_preserved", "committed_long"],
    },
    "C09": {
        "technique": "monitor of waiting, priority answers and abort reasons by age, plus offline serializability checking",
        "note": "Up to six overlapping long transactions, some aborted, with short and read-only ones around: the oldest is told so, its commit is answered at once and it is not aborted; younger ones are told an older one runs; everything ends. Sampled schedules.",
        "tags": {"ser", "phantom", "priority", "callback", "status"},
        "jobs": litmus("ltx,ltxmix", 3500, 8),
        "rule": LRULE,
        "need": ["committed_long", "aborted_long", "pauses_taken", "priority_first", "priority_later", "oldest_commits", "oldest_lives", "ltx_waited"],
    },
    "C10": {
        "technique": "crash injection at the log boundary with offline history checking",
        "note": "The log is cut at durable epochs inside recorded concurrent histories; what the restarted engine shows must be explained by a dependency-closed subset of the history that contains everything reported durable. Sampled histories, crash points at every kind of epoch boundary.",
        "tags": {"recover", "crash", "crash_rec", "crash_ddl", "durable"},
        "jobs": join(driver("recover", 2400, 6), litmus("log,logstate", 1200, 1), driver("model", 500, 1)),
        "level": "fault_enumeration",
        "rule": "one evaluation = one crash (log cut at a durable epoch, restart, contents compared) or one recorded history with all its crash images; non-trivial = the history has committed writes; distinct = different hash of history and crash epoch",
        "need": ["crashes", "partial_recoveries", "crash_images_checked", "crash_images_partial", "crashes_losing_work"],
    },
    "C11": {
        "technique": "model-based checking across restarts",
        "note": "One client works through the whole interface with hostile names, keys and values; after each orderly restart the complete contents are compared with a reference model. Sampled programs.",
        "tags": {"restart_rec", "restart_ddl", "restart_seq", "rec", "ddl", "seq", "status"},
        "jobs": driver("model", 1300, 8),
        "rule": "one evaluation = one comparison of the complete contents with the model, before and after a restart; non-trivial = contents changed since the last one; distinct = different hash of the changes",
        "need": ["clean_restarts", "comparisons", "committed", "user_aborts"],
    },
    "C12": {
        "technique": "monitor at the log boundary with offline order checking",
        "note": "Every entry handed to the log store is attributed to the committed transaction that wrote it, exactly once; a serial order explaining the history must agree with the versions of all entries. Sampled schedules.",
        "tags": {"log", "crash"},
        "jobs": join(litmus("log,logstate", 2000, 8), driver("logrun", 60, 1)),
        "rule": LRULE + "; also one run = 300 to 900 commits of one client on up to three keys, many within one epoch",
        "need": ["log_entries_checked", "log_orders_checked", "long_runs_within_an_epoch", "committed_short", "committed_long", "pauses_taken"],
    },
    "C13": {
        "technique": "monitor of durability reports against the log store",
        "note": "At each durable state and each notification the log store's durable epoch is compared with the entries of the transaction; all committed transactions must be reported in the end. Sampled schedules, some with a log store that stalls.",
        "tags": {"durable", "crash"},
        "jobs": litmus("logstate,log", 2000, 8),
        "rule": LRULE,
        "need": ["durable_states_checked", "committed_short", "committed_long", "pauses_taken"],
    },
    "C14": {
        "technique": "offline checking of recorded sequence reads and updates, restarts and crashes",
        "note": "Concurrent short and long transactions update sequences with unique versions out of order; each read, the final values, the values after orderly restarts and after crashes are checked against the recorded updates. Sampled schedules.",
        "tags": {"seq", "restart_seq", "crash_seq"},
        "jobs": join(driver("seq", 9000, 6), driver("model", 700, 2, focus="seq")),
        "rule": "one evaluation = one phase of concurrent transactions on shared sequences with all reads checked, or one crash; distinct = different hash of versions, outcomes, values read and crash epoch",
        "need": ["updates_committed", "updates_overtaken", "seq_user_aborts", "crashes", "clean_restarts", "sequence_reads", "long_committed", "short_committed"],
    },
    "C15": {
        "technique": "model-based checking and linearizability search of storage operations",
        "note": "Storages with chosen and generated ids, hostile names and options are created, changed, filled and deleted, and compared with a reference model, also across restarts and crashes. Calls of concurrent clients must be explained by some order of them. Sampled programs and schedules.",
        "tags": {"ddl", "restart_ddl", "crash_ddl", "rec", "restart_rec", "status"},
        "jobs": join(driver("model", 1300, 5, focus="ddl"), driver("ddl", 6000, 3)),
        "rule": "one evaluation = one comparison of all storages, options and contents with the model, or one set of overlapping storage calls with an order of them searched; non-trivial = something changed since the last one or calls overlapped; distinct = different hash of the changes or of calls and answers",
        "need": ["clean_restarts", "comparisons", "crashes", "committed", "overlapping_phases", "storage_calls", "own_reads", "own_writes"],
    },
    "C16": {
        "technique": "exactly-once and ownership monitor of sessions under concurrent clients",
        "note": "Concurrent clients take and give back sessions in every state (idle, transaction open, commit pending, state handle held), at and beyond the limit, across restarts; capacity, ownership, freshness of a new session, fate of the transaction left behind and usability afterwards are checked. Sampled schedules.",
        "tags": {"session"},
        "jobs": join(driver("session", 1200, 6), driver("session", 250, 2, "asan")),
        "rule": "one evaluation = one phase of concurrent clients taking, using and giving back sessions with the contents and capacity compared afterwards; distinct = different hash of calls and answers",
        "need": ["entered", "limit_reported", "left_idle", "left_with_commit_requested", "second_leaves", "fresh_probes", "capacity_measured", "states_after_leave", "contents_verified", "restarts_with_open_transactions", "sessions_all_busy"],
    },
    "C17": {
        "technique": "online monitor of state sequences",
        "note": "Every handle is polled during the whole life of its transaction and the sequence checked against the allowed transitions and the known outcome; sampled.",
        "tags": {"state", "callback"},
        "jobs": litmus("state", 3500, 8),
        "rule": LRULE,
        "need": ["state_waiting_commit_seen", "state_waiting_start_seen", "state_sequences", "state_last_ABORTED", "committed_long", "aborted_long"],
    },
    "C18": {
        "technique": "monitor comparing reported reasons and ids with the recorded history",
        "note": "Each abort reason must fit what the history contains; ids must be unique and stable; sampled.",
        "tags": {"reason", "txid"},
        "jobs": join(litmus("reason", 4000, 6), driver("session", 700, 2)),
        "rule": LRULE,
        "need": ["reasons_checked", "aborted_long", "aborted_short", "ids_checked", "quiet_results_checked", "sessions_all_busy"],
    },
    "C19": {
        "technique": "online monitor of epochs and of the age of snapshots",
        "note": "With transactions of every kind left open, idle or waiting, clients committing in loops, storages changing and a stalled log store, epochs must grow one by one, started transactions must become usable and read-only and long transactions must include every commit older than a fixed number of epochs; snapshots of different sessions never go back. Sampled loads.",
        "tags": {"time", "order"},
        "jobs": join(driver("time", 700, 6), driver("stress", 400, 2)),
        "rule": "one evaluation = one load of open, idle, waiting and committing clients with all its snapshots judged, or one run of free running clients with all pairs of snapshots compared; distinct = different hash of actions and answers",
        "need": ["epoch_switches", "freshness_checked", "fresh_with_short_open", "fresh_with_younger_long_open", "fresh_with_older_long_open", "fresh_with_read_only_open", "commits_waiting", "starts_checked", "watched", "order_comparisons", "cases_with_stalled_log"],
    },
    "C20": {
        "technique": "memory accounting over repeated rounds; checksummed values and held views under reclamation",
        "note": "Rounds of identical work in 21 modes must not leave more memory or index entries behind than a small part of the work, counted in allocations, not in time. Free running clients check self-describing values, held snapshots, owned keys and sums while reclamation runs, also with address sanitizer.",
        "tags": {"growth", "torn", "snap", "lost", "order"},
        "jobs": join(driver("growth", 63, 4), driver("stress", 500, 4), driver("stress", 60, 2, "asan")),
        "rule": "one evaluation = one series of rounds of identical work with memory and index entries compared, or one run of free running clients with every value, held view and final contents judged; distinct = different hash of mode and sizes, or of values seen",
        "need": ["rounds", "rounds_with_open_view", "units", "held_rereads", "held_long_committed", "held_read_only_committed", "own_committed", "values_checked", "final_checks"],
    },
    "C21": {
        "technique": "address, leak and undefined behaviour sanitizers over all drivers",
        "note": "All drivers run in a build with address, leak and undefined behaviour sanitizers; leaks are judged after engine shutdown. Sampled schedules.",
        "tags": {"torn"},
        "jobs": join(driver("twin", 200, 1, "asan", _leaks="1"), litmus("mix,ltxmix,scan,abort,rtx", 200, 1, "asan", _leaks="1", per_engine="40"), litmus("phantom,area,state,reason,log", 200, 1, "asan", _leaks="1", per_engine="40"),
                     driver("misuse", 4000, 1, "asan", _leaks="1"), driver("session", 200, 1, "asan", _leaks="1"),
                     driver("strand", 600, 1, "asan", _leaks="1"), driver("stress", 120, 1, "asan", _leaks="1"),
                     driver("model", 100, 1, "asan", _leaks="1"), driver("seq", 400, 1, "asan", _leaks="1"),
                     driver("recover", 100, 1, "asan", _leaks="1"), driver("ddl", 400, 1, "asan", _leaks="1"), driver("time", 60, 1, "asan", _leaks="1")),
        "rule": "one evaluation = one case of a driver (concurrent program, misuse sequence, session phase, crash and restart, ...) run to its end under the sanitizers; distinct = different hash of what the clients observed",
        "need": ["committed_short", "committed_long", "refused_calls", "entered", "crashes", "clean_restarts", "values_checked", "capacity_measured", "met_in_index"],
    },
    "C22": {
        "technique": "thread sanitizer over all concurrent drivers; checksummed values",
        "note": "All concurrent drivers run in a build with thread sanitizer; the optimistic reads of record payloads which are validated afterwards are the only suppressed accesses and are covered by checksummed values. Sampled schedules.",
        "tags": {"torn"},
        "jobs": join(litmus("mix,ltxmix,scan,abort,rtx", 90, 1, "tsan", threaded="100", per_engine="30"), litmus("phantom,area,state,reason,log", 90, 1, "tsan", threaded="100"),
                     driver("session", 100, 1, "tsan", threaded="100", per_engine="30"), driver("strand", 300, 1, "tsan"), driver("stress", 60, 1, "tsan"), driver("stress", 500, 1), driver("twin", 100, 1, "tsan"),
                     driver("seq", 300, 1, "tsan"), driver("time", 60, 1, "tsan"), driver("model", 60, 1, "tsan"), driver("ddl", 200, 1, "tsan"), driver("recover", 60, 1, "tsan")),
        "rule": "one evaluation = one case of a concurrent driver run to its end under the sanitizer; distinct = different hash of what the clients observed",
        "need": ["committed_short", "committed_long", "entered", "values_checked", "overlapping_calls_on_one_key", "updates_committed"],
    },
    "C23": {
        "technique": "linearizability search over the calls of threads sharing one transaction; thread and address sanitizers",
        "note": "Two to eight threads work in one transaction; some order of their calls must explain all answers and the contents after the commit. The same programs run under thread and address sanitizer. Sampled schedules.",
        "tags": {"strand"},
        "jobs": join(driver("strand", 5000, 5), driver("strand", 400, 1, "asan"), driver("strand", 200, 2, "tsan")),
        "rule": "one evaluation = one transaction used by several threads, with an order of its calls searched; non-trivial = overlapping calls; distinct = different hash of calls and answers",
        "need": ["committed", "calls", "overlapping_calls_on_one_key", "orders_searched", "scans", "bulk", "failing"],
    },
    "C24": {
        "technique": "model-based checking of refusals",
        "note": "Sequences of calls out of order, with unknown tokens, storages and handles, in wrong states and with extreme arguments; each must be answered by a defined refusal and leave contents and other transactions as they were. Also with address sanitizer. Sampled sequences.",
        "tags": {"misuse"},
        "jobs": join(driver("misuse", 24000, 6), driver("misuse", 4000, 2, "asan")),
        "rule": "one evaluation = one sequence of calls by several sessions, many of them wrong, with each answer compared with the allowed ones and contents verified; distinct = different hash of calls and answers",
        "need": ["calls", "refused_calls", "contents_verified"],
    },
}
