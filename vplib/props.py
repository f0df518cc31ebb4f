"""The registry of properties: what each check runs, and the texts of properties.jsonl and MANIFEST.json."""
import json

PROPS = {}
NOT_APPLICABLE = [
 dict(id="C20", title="An index answers every lookup and range scan exactly, under concurrent changes",
  statement="A lookup in an index returns exactly the row stored under the key, and a range scan exactly the entries of the range in key order, while other threads insert and delete, split and merge nodes, and after the index is opened again. A unique index never holds a key twice.",
  over=["schedules", "histories", "inputs"], quant="every history of inserts, deletes, lookups and scans by any number of threads, every tree shape and node capacity, and every reopening",
  why="The tests run a few hundred keys, mostly from one thread; the states in which two threads meet in the same split or merge are not sampled.",
  files=["src/storage/index/b_plus_tree_index.rs", "src/storage/index/latch_crabbing.rs"], mech=[("latch crabbing over guarded pages", "src/storage/index/latch_crabbing.rs")],
  reason="The tree lives in pages behind Arc<RwLock<Page>> and the buffer pool, reached through type-erased guards and latched in changing sets; its heap is shared by threads, and the Rust verifier here (Verus) has no contract for these library locks that would carry the tree's invariant between threads without rewriting the code around ghost tokens, which would prove another program. The nodes themselves are under contract in C01 and C02, the pages below them in C16."),
 dict(id="C21", title="What committed is there after a crash, and what did not commit is not",
  statement="After a crash at any moment and a restart, the tables hold exactly the effects of the transactions whose commit was acknowledged, and nothing of any other. A second crash while recovering changes nothing about that.",
  over=["crash_points", "histories"], quant="every history of transactions and every point of a crash, including during recovery and inside a page or log write",
  why="The recovery tests write a log by hand and replay it once; no test crashes the system it tests.",
  files=["src/recovery/log_recovery.rs", "src/recovery/wal_manager.rs", "src/storage/table/transactional_table_heap.rs"], mech=[("redo and undo passes over the log", "src/recovery/log_recovery.rs")],
  reason="The property does not hold of this code by design, and no contract can be proved of it: changes to table rows write no log records (only begin, commit and abort do), so there is nothing to recover them from. Making it hold is new functionality, not a small repair. What the log itself promises is C11 and C12."),
 dict(id="C22", title="No thread of the engine waits for ever on another",
  statement="Every call of the engine returns: no set of threads inside it wait for each other's latches, channels or notifications in a circle, and no wake-up is lost.",
  over=["schedules"], quant="every schedule of any number of threads calling any part of the engine",
  why="A test sees the schedules it happens to run; a circle needs one that is rare.",
  files=["src/buffer/buffer_pool_manager_async.rs", "src/concurrency/lock_manager.rs", "src/storage/disk/async_disk/scheduler.rs"], mech=[("lock order by convention; condition variables and channels", "src/concurrency/lock_manager.rs")],
  reason="A liveness property over the scheduler, library locks, tokio tasks and channels. Contracts discharged function by function speak of states before and after a call, and the verifier has no notion of a fair scheduler; an order of locks could be made an obligation only with wrapped lock types in place of the ones the code uses. The deadlocks between transactions, which are data and not threads, are C10."),
 dict(id="C23", title="A SQL statement returns what the SQL standard says",
  statement="For every statement the engine accepts, the rows returned are those the statement means over the tables' contents, whichever plan runs it: joins pair every matching row, groups aggregate all their rows, and an error anywhere is an error of the statement.",
  over=["programs", "inputs"], quant="every accepted statement, every content of the tables, every plan",
  why="Tests compare a few dozen statements on a few rows.",
  files=["src/sql/planner/query_planner.rs", "src/sql/execution/execution_engine.rs", "src/sql/execution/executors"], mech=[("planner and executors", "src/sql/planner/query_planner.rs")],
  reason="The planner, the execution engine and everything above them do not compile at this commit (they use an older interface of the SQL parser crate than the one here), so no change to them can be built or tested, and there is no whole path from a statement to rows to put under contract. The parts which do compile and which every query ends in are C17 (comparison and conditions), C18 (arithmetic) and C19 (row operators)."),
]
T = "contract-based deductive verification (Verus) of functions extracted from /repo on every run"

def prop(id, title, statement, over, quant, why, files, mech, specs, harness, bounded, assumptions, note, state=None, observe=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, specs=specs,
                     harness=harness, bounded=bounded, assumptions=assumptions, note=note, level="proof", state=state or [], observe=observe or [])

from . import proptext  # noqa: E402,F401

def write_all(here):
    with open(f"{here}/properties.jsonl", "w") as f:
        for p in list(PROPS.values()):
            o = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            if p["state"]:
                o["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                o["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(o) + "\n")
        for n in NOT_APPLICABLE:
            o = dict(id=n["id"], title=n["title"], statement=n["statement"], quantifier=dict(over=n["over"], text=n["quant"]),
                     why_tests_cant=n["why"], anchors=dict(files=n["files"], mechanism=[dict(name=a, where=b) for a, b in n["mech"]]))
            f.write(json.dumps(o) + "\n")
    m = dict(version=1, setup_cmd="python3 vp.py setup",
             hooks=dict(guard="none", enable="no change to /repo is needed: the harness package is laid out from /repo's files as they are", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd=f"python3 vp.py check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 vp.py check {p['id']}",
                          evidence_file=f"evidence/{p['id']}.json", technique=T, level=p["level"], level_note=p["note"]) for p in PROPS.values()],
             not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NOT_APPLICABLE])
    with open(f"{here}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
