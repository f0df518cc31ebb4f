// Lock manager against a model of queues; deadlock detector against reachability.
#[path = "common.rs"]
#[macro_use]
mod common;
use common::*;
use ferrite::common::exception::LockError;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::{DeadlockDetector, LockManager, LockMode, LockValidator};
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use LockMode::*;

const MODES: [LockMode; 5] = [IntentionShared, IntentionExclusive, Shared, SharedIntentionExclusive, Exclusive];
const LEVELS: [IsolationLevel; 5] = [IsolationLevel::ReadUncommitted, IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable, IsolationLevel::Snapshot];
const STATES: [TransactionState; 6] = [TransactionState::Running, TransactionState::Growing, TransactionState::Shrinking, TransactionState::Tainted, TransactionState::Aborted, TransactionState::Committed];
fn ix(m: LockMode) -> usize { MODES.iter().position(|x| *x == m).unwrap() }
fn compat(a: LockMode, b: LockMode) -> bool {
    const T: [[u8; 5]; 5] = [[1, 1, 1, 1, 0], [1, 1, 0, 0, 0], [1, 0, 1, 0, 0], [1, 0, 0, 0, 0], [0, 0, 0, 0, 0]];
    T[ix(a)][ix(b)] == 1
}
// b asks for nothing beyond a: whatever a tolerates, b tolerates
fn covers(a: LockMode, b: LockMode) -> bool { MODES.iter().all(|m| !compat(*m, a) || compat(*m, b)) && !(a == IntentionExclusive && b == Shared) && !(a == Shared && b == IntentionExclusive) }

// None: allowed
fn rule(l: IsolationLevel, s: TransactionState, m: LockMode) -> bool {
    use IsolationLevel as L;
    use TransactionState as S;
    if matches!(s, S::Aborted | S::Tainted | S::Committed) { return false; }
    let shrinking = s == S::Shrinking;
    match l {
        L::ReadUncommitted => matches!(m, Exclusive | IntentionExclusive) && !shrinking,
        L::ReadCommitted => !shrinking || matches!(m, Shared | IntentionShared),
        L::RepeatableRead | L::Serializable => !shrinking,
        L::Snapshot => true,
    }
}
fn shrinks(l: IsolationLevel, modes: &[LockMode]) -> bool {
    match l { IsolationLevel::ReadUncommitted | IsolationLevel::ReadCommitted => modes.contains(&Exclusive), _ => modes.contains(&Exclusive) || modes.contains(&Shared) }
}
fn row_needs(table: LockMode, row: LockMode) -> bool {
    match row { Exclusive => matches!(table, Exclusive | IntentionExclusive | SharedIntentionExclusive), _ => matches!(table, Shared | IntentionShared | SharedIntentionExclusive) }
}

#[derive(Clone, Debug, Default)]
struct Q { q: Vec<(u64, LockMode, bool)>, up: Option<u64> }
impl Q {
    fn held(&self, t: u64) -> Vec<LockMode> { self.q.iter().filter(|e| e.0 == t && e.2).map(|e| e.1).collect() }
    fn conflicts(&self, t: u64, m: LockMode) -> bool { self.q.iter().any(|e| e.2 && e.0 != t && !compat(e.1, m)) }
    fn free(&self, t: u64, m: LockMode) -> bool { (self.up.is_none() || self.up == Some(t)) && !self.conflicts(t, m) }
    fn ask(&mut self, t: u64, m: LockMode) -> bool {
        let h = self.held(t);
        if h.contains(&m) { return true; }
        if h.iter().any(|a| covers(*a, m)) || self.free(t, m) {
            self.q.push((t, m, true));
            if self.up == Some(t) { self.up = None; }
            return true;
        }
        if !h.is_empty() && self.up.is_none() { self.up = Some(t); }
        self.q.push((t, m, false));
        false
    }
    fn drop_txn(&mut self, t: u64) {
        self.q.retain(|e| e.0 != t);
        if self.up == Some(t) { self.up = None; }
        loop {
            let Some(i) = (0..self.q.len()).find(|i| !self.q[*i].2 && self.free(self.q[*i].0, self.q[*i].1)) else { break };
            self.q[i].2 = true;
            if self.up == Some(self.q[i].0) { self.up = None; }
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op { Table(usize, LockMode, u64), Row(usize, LockMode, u64, u32), UnTable(usize, LockMode, u64), UnRow(usize, LockMode, u64, u32), Force(usize), State(usize, TransactionState) }

type View = BTreeMap<u64, Vec<(u64, String, bool)>>;
fn view(lm: &LockManager) -> View {
    let mut v = View::new();
    let mut cur = 0;
    for l in lm.debug_state().lines() {
        if let Some(t) = l.strip_prefix("Table ") { cur = t.trim_end_matches(':').parse().unwrap(); }
        else if let Some(r) = l.trim().strip_prefix("Txn:") {
            let p: Vec<&str> = r.split(' ').collect();
            v.entry(cur).or_default().push((p[0].parse().unwrap(), p[1].trim_start_matches("Mode:").to_string(), p[2].ends_with("true")));
        }
    }
    v
}
fn name(m: LockMode) -> String { format!("{m:?}") }

fn history(lm: &LockManager, base: u64, levels: &[IsolationLevel], ops: &[Op]) -> Res {
    lm.unlock_all().unwrap();
    let txns: Vec<Arc<Transaction>> = levels.iter().enumerate().map(|(i, l)| { let t = Arc::new(Transaction::new(base + i as u64, *l)); t.set_state(TransactionState::Growing); t }).collect();
    let mut tables: BTreeMap<u64, Q> = BTreeMap::new();
    let mut rows: BTreeMap<(u64, u32), Q> = BTreeMap::new();
    // the table each row belongs to: row (p, s) is in table p / 10
    let rid = |t: u64, s: u32| RID::new(t * 10 + 7, s);
    for (n, op) in ops.iter().enumerate() {
        let at = format!("step {n} {op:?}");
        match *op {
            Op::State(i, s) => txns[i].set_state(s),
            Op::Table(i, m, o) => {
                let (t, s) = (base + i as u64, txns[i].get_state());
                let g = lm.lock_table(txns[i].clone(), m, o);
                if !rule(levels[i], s, m) {
                    ckp!("C09", g.is_err(), "{at}: a request the isolation level forbids in state {s:?} got {g:?}");
                    ckp!("C09", txns[i].get_state() == s, "{at}: state: got {:?}, want {:?}", txns[i].get_state(), s);
                } else {
                    let w = tables.entry(o).or_default().ask(t, m);
                    if !w && txns[i].get_state() == TransactionState::Aborted && matches!(g, Ok(false)) { continue; }
                    ckp!("C09", g.is_ok(), "{at}: a permitted request got {g:?}");
                    ckp!("C08", matches!(g, Ok(x) if x == w), "{at}: got {g:?}, want {w}");
                    ckp!("C09", txns[i].get_state() == s, "{at}: state: got {:?}, want {:?}", txns[i].get_state(), s);
                }
            }
            Op::Row(i, m, o, r) => {
                let (t, s) = (base + i as u64, txns[i].get_state());
                let g = lm.lock_row(txns[i].clone(), m, o, rid(o, r));
                if !rule(levels[i], s, m) {
                    ckp!("C09", g.is_err(), "{at}: a request the isolation level forbids in state {s:?} got {g:?}");
                } else if !matches!(m, Shared | Exclusive) {
                    ckp!("C09", matches!(g, Err(LockError::IntentionLockOnRow)) && txns[i].get_state() == TransactionState::Aborted, "{at}: intention lock on a row got {g:?}, state {:?}", txns[i].get_state());
                } else if !tables.get(&o).is_some_and(|q| q.held(t).iter().any(|h| row_needs(*h, m))) {
                    ckp!("C09", matches!(g, Err(LockError::TableLockNotPresent)) && txns[i].get_state() == TransactionState::Aborted, "{at}: row lock without the table lock it needs got {g:?}, state {:?}", txns[i].get_state());
                } else {
                    let w = rows.entry((o, r)).or_default().ask(t, m);
                    if !w && txns[i].get_state() == TransactionState::Aborted && matches!(g, Ok(false)) { continue; }
                    ckp!("C09", g.is_ok(), "{at}: a permitted request got {g:?}");
                    ckp!("C08", matches!(g, Ok(x) if x == w), "{at}: got {g:?}, want {w}");
                    ckp!("C09", txns[i].get_state() == s, "{at}: state: got {:?}, want {:?}", txns[i].get_state(), s);
                }
            }
            Op::UnTable(i, m, o) => {
                let (t, s) = (base + i as u64, txns[i].get_state());
                let g = lm.unlock_table(txns[i].clone(), m, o);
                let h = tables.get(&o).map(|q| q.held(t)).unwrap_or_default();
                if h.is_empty() {
                    ckp!("C09", matches!(g, Err(LockError::NoLockHeld)), "{at}: unlocking a table that is not locked got {g:?}");
                } else if rows.iter().any(|(k, q)| k.0 == o && !q.held(t).is_empty()) {
                    ckp!("C09", matches!(g, Err(LockError::TableUnlockedBeforeRows)) && txns[i].get_state() == TransactionState::Aborted, "{at}: a table was unlocked before its rows: {g:?}, state {:?}", txns[i].get_state());
                } else {
                    ck!(matches!(g, Ok(true)), "{at}: got {g:?}");
                    tables.get_mut(&o).unwrap().drop_txn(t);
                    let mut ms = h.clone();
                    ms.push(m);
                    let fin = matches!(s, TransactionState::Aborted | TransactionState::Committed | TransactionState::Tainted);
                    ckp!("C09", txns[i].get_state() == if fin || !shrinks(levels[i], &ms) { s } else { TransactionState::Shrinking }, "{at}: state: got {:?}, want {:?}", txns[i].get_state(), if fin || !shrinks(levels[i], &ms) { s } else { TransactionState::Shrinking });
                }
            }
            Op::UnRow(i, m, o, r) => {
                let (t, s) = (base + i as u64, txns[i].get_state());
                let g = lm.unlock_row(txns[i].clone(), m, o, rid(o, r));
                let h = rows.get(&(o, r)).map(|q| q.held(t)).unwrap_or_default();
                if h.is_empty() {
                    ckp!("C09", matches!(g, Err(LockError::NoLockHeld)), "{at}: unlocking a row that is not locked got {g:?}");
                } else {
                    ck!(matches!(g, Ok(true)), "{at}: got {g:?}");
                    rows.get_mut(&(o, r)).unwrap().drop_txn(t);
                    let mut ms = h.clone();
                    ms.push(m);
                    let fin = matches!(s, TransactionState::Aborted | TransactionState::Committed | TransactionState::Tainted);
                    ckp!("C09", txns[i].get_state() == if fin || !shrinks(levels[i], &ms) { s } else { TransactionState::Shrinking }, "{at}: state: got {:?}, want {:?}", txns[i].get_state(), if fin || !shrinks(levels[i], &ms) { s } else { TransactionState::Shrinking });
                }
            }
            Op::Force(i) => {
                let (t, s) = (base + i as u64, txns[i].get_state());
                ckp!("C08", lm.force_release_txn(t).is_ok(), "{at}: failed");
                for q in tables.values_mut().chain(rows.values_mut()) { if q.q.iter().any(|e| e.0 == t) { q.drop_txn(t); } }
                ckp!("C09", txns[i].get_state() == s, "{at}: state: got {:?}, want {:?}", txns[i].get_state(), s);
            }
        }
        let got = view(lm);
        for (o, q) in &got {
            for a in q { for b in q { if a.2 && b.2 && a.0 != b.0 {
                let f = |x: &String| *MODES.iter().find(|m| name(**m) == *x).unwrap();
                ckp!("C08", compat(f(&a.1), f(&b.1)), "{at}: table {o}: transactions {} and {} hold {} and {}", a.0 - base, b.0 - base, a.1, b.1);
            } } }
        }
        for (o, q) in &tables {
            let mut w: Vec<(u64, String, bool)> = q.q.iter().map(|e| (e.0, name(e.1), e.2)).collect();
            let mut g = got.get(o).cloned().unwrap_or_default();
            w.sort();
            w.dedup();
            g.sort();
            g.dedup();
            let show = |v: &[(u64, String, bool)]| v.iter().map(|e| (e.0 - base, e.1.clone(), e.2)).collect::<Vec<_>>();
            ckp!("C08", show(&g) == show(&w), "{at}: requests of table {o}: got {:?}, want {:?}", show(&g), show(&w));
        }
    }
    // what a transaction holds at the end, seen from outside: another one asks for every row
    for ((o, r), q) in &rows {
        let probe = Arc::new(Transaction::new(base + 900, IsolationLevel::Snapshot));
        let can = tables.get(o).map(|q| q.free(base + 900, IntentionExclusive)).unwrap_or(true);
        if !can || !matches!(lm.lock_table(probe.clone(), IntentionExclusive, *o), Ok(true)) { continue; }
        let g = lm.lock_row(probe.clone(), Exclusive, *o, rid(*o, *r));
        let w = q.free(base + 900, Exclusive);
        ckp!("C08", matches!(g, Ok(x) if x == w) || (!w && probe.get_state() == TransactionState::Aborted), "at the end: exclusive lock on row {r} of table {o} by a newcomer got {g:?}, want {w} (queue {:?})", q);
        lm.force_release_txn(base + 900).unwrap();
    }
    Ok(())
}

// some vertex on a cycle; and all vertices from which a cycle through themselves exists
fn on_cycle(g: &BTreeMap<u64, BTreeSet<u64>>) -> BTreeSet<u64> {
    let mut out = BTreeSet::new();
    for v in g.keys() {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<u64> = g[v].iter().copied().collect();
        while let Some(x) = todo.pop() { if seen.insert(x) { if let Some(e) = g.get(&x) { todo.extend(e.iter().copied()); } } }
        if seen.contains(v) { out.insert(*v); }
    }
    out
}
// can v be the highest vertex of a cycle: a cycle through v using only vertices <= v
fn highest_of_cycle(g: &BTreeMap<u64, BTreeSet<u64>>, v: u64) -> bool {
    let sub: BTreeMap<u64, BTreeSet<u64>> = g.iter().filter(|(k, _)| **k <= v).map(|(k, e)| (*k, e.iter().copied().filter(|x| *x <= v).collect())).collect();
    on_cycle(&sub).contains(&v)
}
fn detector(edges: &[(u64, u64)], cut: &[u64]) -> Res {
    let d = DeadlockDetector::new();
    let mut g: BTreeMap<u64, BTreeSet<u64>> = BTreeMap::new();
    for (a, b) in edges { d.add_edge(*a, *b); g.entry(*a).or_default().insert(*b); }
    for c in cut { d.remove_edge(*c); g.remove(c); }
    let mut v = u64::MAX;
    let h = d.has_cycle(&mut v);
    ckeq!(h, !on_cycle(&g).is_empty(), "cycle reported");
    if h { ck!(highest_of_cycle(&g, v), "victim {v} is not the highest transaction of any cycle in {g:?}"); }
    Ok(())
}

// n transactions: each holds one resource and (if closed) waits for the next one's
fn ring(n: usize, closed: bool, rows: bool, order: &[usize]) -> Res {
    let lm = LockManager::new();
    let tx: Vec<Arc<Transaction>> = (0..n).map(|i| { let t = Arc::new(Transaction::new(i as u64 + 1, IsolationLevel::RepeatableRead)); t.set_state(TransactionState::Growing); t }).collect();
    let ask = |i: usize, r: usize| if rows { lm.lock_row(tx[i].clone(), Exclusive, 1, RID::new(9, r as u32)) } else { lm.lock_table(tx[i].clone(), Exclusive, r as u64 + 1) };
    for i in 0..n {
        if rows { ck!(matches!(lm.lock_table(tx[i].clone(), IntentionExclusive, 1), Ok(true)), "table lock"); }
        ck!(matches!(ask(i, i), Ok(true)), "first lock of {i}");
    }
    let last = if closed { n } else { n - 1 };
    for &i in order { if i < last { let g = ask(i, (i + 1) % n); ck!(matches!(g, Ok(false)), "{i} got {g:?}"); } }
    let until = std::time::Instant::now() + std::time::Duration::from_millis(if closed { 20_000 } else { 180 });
    while std::time::Instant::now() < until {
        std::thread::sleep(std::time::Duration::from_millis(20));
        for i in 0..last {
            let g = ask(i, (i + 1) % n);
            ck!(matches!(g, Ok(false)), "{i} got {g:?} while {} holds the lock", (i + 1) % n);
            if tx[i].get_state() == TransactionState::Aborted {
                ck!(closed, "transaction {i} was chosen as a deadlock victim although nobody waits in a circle");
                ck!(i == n - 1, "victim {i} is not the highest transaction");
                for j in 0..n { if j != i { ck!(tx[j].get_state() == TransactionState::Growing, "transaction {j} changed state"); } }
                // releasing the victim lets the others through
                lm.force_release_txn(i as u64 + 1).unwrap();
                if n >= 2 { let g = ask(n - 2, n - 1); ck!(matches!(g, Ok(true)), "after the victim was released, {} got {g:?}", n - 2); }
                return Ok(());
            }
        }
    }
    ck!(!closed, "a circle of {n} waiting transactions was not broken in 20 s");
    Ok(())
}

// two holders of a weaker lock; one asks for more and waits: no deadlock
fn upgrade_waits(held: LockMode, wanted: LockMode) -> Res {
    if compat(held, wanted) || !compat(held, held) { return Ok(()); }
    let lm = LockManager::new();
    let tx: Vec<Arc<Transaction>> = (1..=2).map(|i| { let t = Arc::new(Transaction::new(i, IsolationLevel::RepeatableRead)); t.set_state(TransactionState::Growing); t }).collect();
    for t in &tx { ck!(matches!(lm.lock_table(t.clone(), held, 1), Ok(true)), "held"); }
    for _ in 0..8 {
        let g = lm.lock_table(tx[1].clone(), wanted, 1);
        ck!(matches!(g, Ok(false)), "upgrade {held:?} to {wanted:?} beside another holder got {g:?}");
        ck!(tx[1].get_state() == TransactionState::Growing, "the waiting transaction was aborted as if it waited for itself");
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    ck!(matches!(lm.unlock_table(tx[0].clone(), held, 1), Ok(true)), "unlock");
    let g = lm.lock_table(tx[1].clone(), wanted, 1);
    ck!(matches!(g, Ok(true)), "after the other holder left, {wanted:?} got {g:?}");
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    if c.group("validator") {
        let v = LockValidator::new();
        for l in LEVELS { for s in STATES { for m in MODES {
            c.case(format!("level={l:?} state={s:?} mode={m:?}"), || {
                let t = Transaction::new(1, l);
                t.set_state(s);
                let g = v.validate_lock_request(&t, m);
                ck!(g.is_ok() == rule(l, s, m), "got {g:?}");
                ckeq!(t.get_state(), s, "state");
                Ok(())
            });
        } } }
    }
    let mut base = 1000u64;
    if c.group("tables-exhaustive") {
        let lm = LockManager::new();
        let lv = [IsolationLevel::RepeatableRead, IsolationLevel::Snapshot, IsolationLevel::Snapshot];
        // two or three requests by up to three transactions, then one leaves, then another asks
        let mut asks = vec![];
        for i in 0..3 { for m in MODES { asks.push(Op::Table(i, m, 1)); } }
        for a in 0..5usize { for b in 0..15 { for d in 0..15 { for e in 0..6 {
            let tail = match e { 0 => Op::UnTable(0, Exclusive, 1), 1 => Op::UnTable(1, Shared, 1), 2 => Op::Force(0), 3 => Op::Force(1), 4 => Op::Table(1, Exclusive, 1), _ => Op::Table(0, Exclusive, 1) };
            let ops = [asks[a], asks[b], asks[d], tail, Op::Table(2, Shared, 1), Op::Force(0), Op::Force(1)];
            base += 1000;
            c.case(format!("ops={ops:?}"), || history(&lm, base, &lv, &ops));
        } } } }
    }
    if c.group("random-history") {
        let lm = LockManager::new();
        let mut r = Rng::new(c.seed);
        for k in 0..c.n(6000) {
            let nt = 2 + r.usize(3);
            let lv: Vec<IsolationLevel> = (0..nt).map(|_| if k % 3 == 0 { IsolationLevel::Snapshot } else { *r.pick(&LEVELS) }).collect();
            let n = 1 + r.usize(30);
            let ops: Vec<Op> = (0..n).map(|_| {
                let (i, m, o, s) = (r.usize(nt), *r.pick(&MODES), 1 + r.below(2), r.below(2) as u32);
                let rm = if r.chance(1, 12) { m } else { *r.pick(&[Shared, Exclusive]) };
                match r.below(20) { 0..=8 => Op::Table(i, m, o), 9..=13 => Op::Row(i, rm, o, s), 14..=15 => Op::UnTable(i, m, o), 16..=17 => Op::UnRow(i, rm, o, s), 18 => Op::Force(i), _ => if r.chance(1, 4) { Op::State(i, *r.pick(&STATES)) } else { Op::Force(i) } }
            }).collect();
            base += 1000;
            c.case(format!("levels={lv:?} ops={ops:?}"), || history(&lm, base, &lv, &ops));
        }
    }
    if c.group("detector") {
        // every graph on 3 vertices, with the vertex numbers permuted
        for bits in 0..512u32 {
            for p in [[1u64, 2, 3], [3, 1, 2], [2, 3, 1]] {
                let e: Vec<(u64, u64)> = (0..9).filter(|i| bits >> i & 1 == 1).map(|i| (p[i / 3], p[i % 3])).collect();
                c.case(format!("edges={e:?}"), || detector(&e, &[]));
            }
        }
        let mut r = Rng::new(c.seed ^ 77);
        for _ in 0..c.n(4000) {
            let v = 2 + r.below(9);
            let n = r.usize(14);
            let e: Vec<(u64, u64)> = (0..n).map(|_| (r.below(v), r.below(v))).collect();
            let cut: Vec<u64> = (0..r.usize(3)).map(|_| r.below(v)).collect();
            c.case(format!("edges={e:?} cut={cut:?}"), || detector(&e, &cut));
        }
    }
    if c.group("deadlock") {
        for n in 2..=4usize { for rows in [false, true] {
            let fwd: Vec<usize> = (0..n).collect();
            let rev: Vec<usize> = (0..n).rev().collect();
            c.case(format!("ring n={n} rows={rows}"), || ring(n, true, rows, &fwd));
            c.case(format!("ring reversed n={n} rows={rows}"), || ring(n, true, rows, &rev));
            c.case(format!("chain n={n} rows={rows}"), || ring(n, false, rows, &rev));
        } }
        for h in MODES { for w in [Shared, IntentionExclusive, SharedIntentionExclusive, Exclusive] { c.case(format!("upgrade {h:?} to {w:?}"), || upgrade_waits(h, w)); } }
    }
    c.done();
}
