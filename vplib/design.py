"""Writes DESIGN.md: the text below, the registry of properties, the planted bugs and the findings file."""
import glob, json, os, re
from .props import PROPS, NOT_APPLICABLE
from . import extract

HEAD = """# DESIGN

Written by `python3 vp.py manifest` from `vplib/design.py`, `vplib/proptext.py`, `seeded/*/meta.json` and `known_findings.json`.

## The subject

OxidizeLabs/ferrite is a relational database in Rust: pages and a buffer pool over an asynchronous disk engine with caches and write buffering, a
write-ahead log, B+ tree and hash pages, multi-version transactions with a lock manager, and SQL execution above them. At the pinned commit the full crate
does not compile; `/opt/vp/subset.py` lays out the part that does (and that the 2039 stable tests cover). Everything here works on that part.

## Method

Each property is a set of contracts (pre- and postconditions, loop and data invariants, frames, ghost state, lemmas) on the real functions, discharged by
**Verus (Z3)** function by function, a caller seeing only its callees' contracts, with no bound on inputs, histories or iterations.

* **Extraction on every run.** `specs/*.rs` hold contracts only. `vplib/extract.py` takes the executable text of each function from /repo's current files,
  drops comments, attributes, log macros and visibility, applies the rewrites the template declares (each listed in the evidence under `extraction_drops`),
  splices in contracts, invariants and ghost code, and writes `.build/gen/SPEC.rs`, which Verus checks. No function body is kept in /verif.
* **What rewrites do.** Verus takes a subset of Rust. The usual rewrites: a lock guard becomes the guarded value (`self.x.read()` -> `self.x`), `&self` of a
  type whose state sits behind locks becomes `&mut self`, `async`/`.await` disappear (a future runs to completion), `Arc<T>` is its contents,
  `for x in v` becomes an indexed `while`, let-chains and reference patterns are unfolded, iterator chains become calls of small assumed functions whose
  contract states exactly the chain's meaning. Calls into std, tokio, serde/postcard and into components proved elsewhere get assumed contracts
  (`external_body`), all listed under `trusted_base`. Contracts proved for another property are included with `//@assumed SPEC` and not proved twice.
* **Shared state.** Where a lock is released between two steps, the value is havocked under the invariant the other parties keep (`vp_others`), so
  the proof covers what other tasks may do in between; where the code holds one lock for the whole operation it is a sequential proof.
* **Judging.** A failed obligation is a violation. The stand-in (below) is then searched for an input that shows it on the real code; if there is one, the
  replay file names it, otherwise the replay file carries the verifier's output and the line ends `no-failing-input-found`.
  A function the front end can no longer take (a helper without contract, an unsupported construct, a lost anchor) is *undecided*: reported as
  UNDECIDED-PROOF, not counted as proved, and left to the stand-in; it never raises an alarm by itself. So rewriting code without changing what it does stays quiet.
* **Vacuity.** A second generated file puts `assert(false)` at the start of every function and loop body; each must fail, or the check ends with an error.
* **Bounded stand-in.** `harness/*.rs` are programs built against /repo's real code (laid out as /opt/vp/subset.py does, in `.build`), with a reference model
  and seeded histories. They replay violations, cover functions outside the verifier's reach, run what the assumed contracts claim, and exercise
  schedules. They are labelled bounded in the evidence and never counted as proved. `VERIF_TIER=thorough` runs 20 times as many cases and gives the solver 3 times the resources.
* **Machine arithmetic** is checked: Verus proves the absence of overflow, of out-of-range indexing and of division by zero in all executable text it verifies; counters
  that could only overflow after 2^31 or 2^64 steps are bounded by explicit preconditions, listed as assumptions.
* **Termination** is proved where a loop has an obvious measure, otherwise partial correctness only (`exec_allows_no_decreases_clause`, listed under `trusted_base`).

`python3 vp.py check ID` runs one property, `vp.py show SPEC` prints one template's obligations, `vp.py replay FILE` reruns a violation, `vp.py setup` builds all stand-ins.

No hooks were needed in /repo. Defects found were repaired there in `fix:` commits (listed at the end).
"""

HOW = {
"C01": "A leaf's key and value vectors are specified by a sequence view with the invariant *equal length, strictly increasing in the comparator's order, at most max entries*; the comparator is any total order (`inc_order.rs`, with lemmas about search in sorted sequences). find_key_index is proved by binary-search invariants, insert, overflow insert, remove and the setters against the map/sequence view with a full frame. Tests cannot reach every order, position and capacity.",
"C02": "An internal node is n separators and n+1 children; every mutator is proved to produce exactly the sequence the operation means (children as a whole, so none is lost or doubled), borrow and merge over both nodes at once; a refused call leaves the node equal to what it was.",
"C03": "A table page is a list of rows plus its byte image. The contracts state which bytes belong to which row, header and slot (non-overlap is part of the invariant), what each mutator does to the list, and that the image after every change deserializes to the same page; deserialize is proved total on arbitrary 4096 bytes. Bytes and slices are spliced sequences (`inc_bytes.rs`).",
"C04": "visibility_status, is_tuple_visible and both chain walks are proved against a single recursive specification of 'the newest version this reader may see', for chains of any length.",
"C05": "Watermark and timestamp functions are proved against the multiset of running snapshots; begin/commit/abort of the transaction manager are proved to issue strictly growing stamps and to leave finished transactions alone.",
"C06": "The write side: insert, update, delete, rollback and garbage collection are proved over the same version-chain view: rolling back restores exactly the version the transaction found, and is_still_needed is proved to keep every version a running snapshot can read.",
"C07": "The replacer's frames are a map from frame to access history and evictable flag; evict is proved to return a frame the LRU-K rule names, with the rule as a spec function over histories.",
"C08": "Lock queues and the bookkeeping of held locks are one state with an inductive invariant: granted requests are pairwise compatible, books and queues agree, and nothing grantable waits. Every operation (request, upgrade, release, force release) is proved to keep it.",
"C09": "Which locks may be taken and released when (two-phase rules per isolation level, table/row hierarchy) is proved as the exact condition under which the validator and the manager accept.",
"C10": "The waits-for graph is a ghost edge set derived from the queues; the detector is proved to report a cycle when and only when one exists and to choose its victim on the cycle; DFS is proved with ghost sets.",
"C11": "The log file is a byte sequence. Writing appends exactly the framed record, and the iterator and reader by offset are proved to return exactly the records of the parse; a lemma gives the crash theorem: any prefix of the file parses to its whole records.",
"C12": "The flush task's body is proved as a function over the channel's contents: what is stored in persistent_lsn covers only records written and synced, for every way of batching and every failing write.",
"C13": "Each operation has a ghost id tying its result to its own run; the tracker's state machine, the queue's order and the worker are proved over it; between any two locked sections the tracker may change as its own contracts allow.",
"C14": "Each cache is proved against a map view plus the ghost order its policy is about; the tiers' contract states that every copy left after a store holds the stored bytes.",
"C15": "The newest accepted bytes of a page are a ghost map; the invariant says each page's newest bytes are where the next read looks first (cache, then write buffer, then disk), and every step (stage, drain, restage, write, fail) keeps it. Access under the page_order lock is a ghost token each disk or cache access must show.",
"C16": "Pages are cells of a ghost heap; the invariant `wf` ties frames, page table, free list, replacer and guards, `kept` says no page's bytes are lost between pool and disk, and every operation states what it returns and what it leaves. Eviction, failing writes and concurrent changes by page holders during a disk write are inside the proof.",
"C17": "One spec function says how two numbers, texts, times or flags stand to each other; the six compare functions, ==, hash and partial_cmp are each proved to be it, and lemmas prove the laws (symmetry, transitivity of =, one of <, =, >, agreement of hash and order with ==). Floats are opaque with the IEEE facts as axioms. Each expression's evaluate and evaluate_join is proved to be Kleene logic over what its children give; the dispatch of Expression is proved to hand every kind of child the rows its parent got.",
"C18": "One spec function gives the number that a op b stands for: over the mathematical integers, None where it does not fit the wider type. ArithmeticExpression's table of 36 type pairs by 4 operators, Value's own operators and BinaryOpExpression's use of them are each proved to return it or an error. Float operators are uninterpreted functions, so swapped operands or a conversion of the wrong side fail.",
"C19": "An executor is a ghost pair: the rows it has yet to give, and whether an error comes after them. Each operator's pair is defined from its child's (take, skip, first of equals, sieve; a permutation sorted by keys; the greatest n), and next is proved to give the head of it and keep the rest. That the value order is total and transitive is a lemma of its own (value_eq), without which sorting has no unique meaning.",
}

def functions(spec, here):
    fs = []
    p = f"{here}/specs/{spec}.rs"
    s = open(p).read()
    while True:
        s2 = re.sub(r"(?m)^//@include (\S+)$", lambda m: open(f"{here}/specs/{m[1]}").read(), s)
        if s2 == s: break
        s = s2
    assumed = False
    for ln in s.split("\n"):
        if ln.startswith("//@assumed"): assumed = True
        elif ln.startswith("//@proved"): assumed = False
        elif ln.startswith("//@fn") and (not assumed or " prove" in ln): fs.append(ln.split()[2])
    return fs

def write(here):
    o = [HEAD, "\n## Properties\n"]
    for p in PROPS.values():
        o.append(f"### {p['id']} {p['title']}\n")
        o.append(p["statement"] + "\n")
        o.append(f"*Quantified over:* {p['quant']}.\n")
        if p["id"] in HOW: o.append("*How it is decided.* " + HOW[p["id"]] + "\n")
        o.append(f"*Result.* {p['note']}\n")
        n = {s: len(functions(s, here)) for s in p["specs"]}
        o.append("*Contracts:* " + ", ".join(f"`specs/{s}.rs` ({k} functions)" for s, k in n.items()) + "; anchored in " + "; ".join(f"{a}: {b}" for a, b in p["mech"]) + ".\n")
        if p["harness"]: o.append("*Bounded stand-in* (not proved): " + ", ".join(f"`harness/{h.partition(':')[0]}.rs`" for h in p["harness"]) + ": " + p["bounded"] + ".\n")
        o.append("*Left unchecked:* " + "; ".join(p["assumptions"]) + ".\n")
    o.append("## Not applicable\n")
    for n in NOT_APPLICABLE: o.append(f"* **{n['id']} {n['title']}** - {n['reason']}")
    o.append("\n" + TAIL)
    o.append("\n## Planted bugs\n\nEach is in `seeded/ID` (patch, demonstration, meta). Written from the property and the code alone; every one listed compiles, passes the stable tests and was run against the checks.\n")
    o.append("| change | property | needs | caught by |\n|---|---|---|---|")
    for f in sorted(glob.glob(f"{here}/seeded/*/meta.json")):
        m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
        o.append(f"| {i} | {m['property']} | {m['needs']} | {CAUGHT.get(i, m['property'])} |")
    o.append("\n" + MISSED)
    k = json.load(open(f"{here}/known_findings.json"))
    o.append("\n## Findings\n\nKnown, not repaired: " + ("none." if not k["known"] else ""))
    for x in k["known"]: o.append(f"* {x['property']}: {x['what']}")
    o.append("\nRepaired in /repo (`fix:` commits):\n")
    for x in k["fixed"]: o.append("* " + x.replace("fixed: property=", ""))
    open(f"{here}/DESIGN.md", "w").write("\n".join(o) + "\n")

TAIL = ""
CAUGHT = {}
MISSED = ""
