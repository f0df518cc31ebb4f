//@source wm src/concurrency/watermark.rs
//@source tx src/concurrency/transaction.rs
//@source cfg src/common/config.rs
//@opt strings=vp_string()
//@opt rlimit=40
//@rewrite /AtomicU64/VpCell/
//@rewrite /Timestamp::from\(/(/
//@rewrite /\*self\.active_txns\.iter\(\)\.min\(\)\.unwrap\(\)/vp_min(&self.active_txns)/
//@rewrite /RwLock<(\w+)>/\1/
//@rewrite /Mutex<Vec<Arc<UndoLog>>>/Vec<Arc<UndoLog>>/
//@rewrite /\*self\.(\w+)\.read\(\)/self.\1/
//@rewrite /\*self\.(\w+)\.write\(\) =/self.\1 =/
//@rewrite /let mut (\w+) = self\.(\w+)\.write\(\);\s*\*\w+ =/self.\2 =/
//@rewrite /let mut logs = self\.undo_logs\.lock\(\)\.unwrap\(\);/let logs = &mut self.undo_logs;/
//@rewrite /self\.undo_logs\.lock\(\)\.unwrap\(\)/self.undo_logs/
//@rewrite /&self\b(?=[,)])/&mut self/
use vstd::prelude::*;
use std::collections::HashSet;
use std::sync::Arc;
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;
global size_of usize == 8;
//@type cfg TxnId
//@type cfg Timestamp
#[verifier::external_body] pub fn vp_string() -> String { String::new() }
// std's AtomicU64 as a plain cell: every caller holds the manager's write lock on the watermark
pub enum Ordering { SeqCst, Acquire, Release, AcqRel, Relaxed }
pub struct VpCell { pub v: u64 }
impl VpCell {
    pub fn new(v: u64) -> (r: VpCell) ensures r.v == v, { VpCell { v } }
    pub fn load(&self, o: Ordering) -> (r: u64) ensures r == self.v, { self.v }
    pub fn store(&mut self, x: u64, o: Ordering) ensures final(self).v == x, { self.v = x; }
    pub fn fetch_add(&mut self, n: u64, o: Ordering) -> (r: u64) requires old(self).v + n <= u64::MAX, ensures r == old(self).v, final(self).v == old(self).v + n, { let r = self.v; self.v = self.v + n; r }
    pub fn fetch_max(&mut self, n: u64, o: Ordering) -> (r: u64) ensures r == old(self).v, final(self).v == if n > old(self).v { n } else { old(self).v }, { let r = self.v; if n > r { self.v = n; } r }
    pub fn compare_exchange(&mut self, c: u64, n: u64, a: Ordering, b: Ordering) -> (r: Result<u64, u64>)
        ensures old(self).v == c ==> r == Ok::<u64, u64>(c) && final(self).v == n, old(self).v != c ==> r == Err::<u64, u64>(old(self).v) && final(self).v == old(self).v,
    { if self.v == c { self.v = n; Ok(c) } else { Err(self.v) } }
}
pub open spec fn is_min(s: Set<u64>, m: u64) -> bool { s.contains(m) && forall|x: u64| #[trigger] s.contains(x) ==> m <= x }
#[verifier::external_body]
pub fn vp_min(s: &HashSet<Timestamp>) -> (r: Timestamp) requires exists|x: u64| s@.contains(x), ensures is_min(s@, r), { *s.iter().min().unwrap() }
//@struct wm Watermark
impl Watermark {
// timestamps are handed out once, in order; the watermark never passes a registered snapshot
pub open spec fn wf(&self) -> bool {
    &&& self.active_txns@.len() > 0 ==> is_min(self.active_txns@, self.watermark)
    &&& self.active_txns@.len() == 0 ==> self.watermark <= self.next_ts.v
    &&& forall|x: u64| #[trigger] self.active_txns@.contains(x) ==> x < self.next_ts.v
}
pub open spec fn same_active(&self, o: &Self) -> bool { self.active_txns@ == o.active_txns@ }
//@fn wm Watermark::new
ensures res.wf(), res.active_txns@ == Set::<u64>::empty(), res.next_ts.v == 1, res.watermark == 1,
//@endfn
//@fn wm Watermark::get_next_ts
requires old(self).wf(), old(self).next_ts.v < u64::MAX,
ensures final(self).wf(), res == old(self).next_ts.v, final(self).next_ts.v == res + 1, final(self).same_active(old(self)), final(self).watermark == old(self).watermark,
//@endfn
//@fn wm Watermark::update_watermark
requires forall|x: u64| #[trigger] old(self).active_txns@.contains(x) ==> x < old(self).next_ts.v,
ensures final(self).wf(), final(self).same_active(old(self)), final(self).next_ts.v == old(self).next_ts.v,
    final(self).active_txns@.len() == 0 ==> final(self).watermark == final(self).next_ts.v,
//@endfn
//@fn wm Watermark::add_txn
requires old(self).wf(), ts < old(self).next_ts.v,
ensures final(self).wf(), final(self).active_txns@ == old(self).active_txns@.insert(ts), final(self).next_ts.v == old(self).next_ts.v,
//@endfn
//@fn wm Watermark::remove_txn
requires old(self).wf(),
ensures final(self).wf(), final(self).active_txns@ == old(self).active_txns@.remove(ts), final(self).next_ts.v == old(self).next_ts.v,
    final(self).active_txns@.len() == 0 ==> final(self).watermark == final(self).next_ts.v,
//@endfn
//@fn wm Watermark::update_commit_ts
requires old(self).wf(),
ensures final(self).wf(), final(self).same_active(old(self)), final(self).next_ts.v >= old(self).next_ts.v, ts < u64::MAX ==> final(self).next_ts.v == if ts + 1 > old(self).next_ts.v { (ts + 1) as u64 } else { old(self).next_ts.v },
//@loop 0
invariant_except_break current == self.next_ts.v, self.next_ts.v == old(self).next_ts.v,
invariant self.active_txns@ == old(self).active_txns@, self.watermark == old(self).watermark,
ensures self.next_ts.v == if desired > old(self).next_ts.v { desired } else { old(self).next_ts.v },
decreases 1int,
//@endfn
//@fn wm Watermark::get_watermark
ensures res == old(self).watermark, *final(self) == *old(self),
//@endfn
//@fn wm Watermark::get_next_ts_and_register
requires old(self).wf(), old(self).next_ts.v < u64::MAX,
ensures final(self).wf(), res == old(self).next_ts.v, final(self).next_ts.v == res + 1, final(self).active_txns@ == old(self).active_txns@.insert(res), !old(self).active_txns@.contains(res),
//@endfn
//@fn wm Watermark::unregister_txn
requires old(self).wf(),
ensures final(self).wf(), final(self).active_txns@ == old(self).active_txns@.remove(ts), res == final(self).watermark,
//@endfn
//@fn wm Watermark::update_commit_ts_and_get_watermark
requires old(self).wf(),
ensures final(self).wf(), final(self).same_active(old(self)), res == final(self).watermark, final(self).next_ts.v >= old(self).next_ts.v,
//@endfn
//@fn wm Watermark::clone_watermark
//@rewrite /self\.active_txns\.clone\(\)/vp_set_clone(&self.active_txns)/
ensures res.active_txns@ == old(self).active_txns@, res.watermark == old(self).watermark, res.next_ts.v == old(self).next_ts.v, *final(self) == *old(self),
//@endfn
}
#[verifier::external_body] pub fn vp_set_clone(s: &HashSet<Timestamp>) -> (r: HashSet<Timestamp>) ensures r@ == s@, { s.clone() }
//@enum tx TransactionState attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@enum tx IsolationLevel attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@struct tx UndoLink attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
#[verifier::external_body] pub struct UndoLog;
//@struct tx Transaction drop=thread_id,write_set,scan_predicates,prev_lsn
pub open spec fn over(s: TransactionState) -> bool { s == TransactionState::Committed || s == TransactionState::Aborted }
impl Transaction {
pub open spec fn rest(&self, o: &Self) -> bool { self.txn_id == o.txn_id && self.isolation_level == o.isolation_level && self.undo_logs@ == o.undo_logs@ }
//@fn tx Transaction::get_state
ensures res == old(self).state, *final(self) == *old(self),
//@endfn
//@fn tx Transaction::set_state
ensures final(self).state == state, final(self).rest(old(self)), final(self).read_ts == old(self).read_ts, final(self).commit_ts == old(self).commit_ts,
//@endfn
//@fn tx Transaction::read_ts
ensures res == old(self).read_ts, *final(self) == *old(self),
//@endfn
//@fn tx Transaction::set_read_ts
ensures final(self).read_ts == ts, final(self).rest(old(self)), final(self).state == old(self).state, final(self).commit_ts == old(self).commit_ts,
//@endfn
//@fn tx Transaction::commit_ts
ensures res == old(self).commit_ts, *final(self) == *old(self),
//@endfn
//@fn tx Transaction::set_commit_ts
ensures final(self).commit_ts == ts, final(self).rest(old(self)), final(self).state == old(self).state, final(self).read_ts == old(self).read_ts,
//@endfn
//@fn tx Transaction::set_tainted
ensures final(self).state == TransactionState::Tainted, final(self).rest(old(self)), final(self).read_ts == old(self).read_ts, final(self).commit_ts == old(self).commit_ts,
//@endfn
//@fn tx Transaction::append_undo_log
ensures res == (UndoLink { prev_txn: old(self).txn_id, prev_log_idx: old(self).undo_logs@.len() as usize }), final(self).undo_logs@ == old(self).undo_logs@.push(log),
    final(self).state == old(self).state, final(self).read_ts == old(self).read_ts, final(self).commit_ts == old(self).commit_ts, final(self).txn_id == old(self).txn_id,
//@endfn
//@fn tx Transaction::modify_undo_log
requires log_idx < old(self).undo_logs@.len(),
ensures final(self).undo_logs@ == old(self).undo_logs@.update(log_idx as int, new_log), final(self).state == old(self).state, final(self).read_ts == old(self).read_ts, final(self).commit_ts == old(self).commit_ts, final(self).txn_id == old(self).txn_id,
//@endfn
//@fn tx Transaction::get_undo_log_num
ensures res == old(self).undo_logs@.len(), *final(self) == *old(self),
//@endfn
//@fn tx Transaction::begin
requires old(watermark).wf(), old(watermark).next_ts.v < u64::MAX,
ensures final(watermark).wf(), final(self).read_ts == old(watermark).next_ts.v, final(watermark).next_ts.v == old(watermark).next_ts.v + 1, final(watermark).active_txns@ == old(watermark).active_txns@.insert(final(self).read_ts),
    final(self).state == TransactionState::Running, final(self).rest(old(self)), final(self).commit_ts == old(self).commit_ts,
//@endfn
//@fn tx Transaction::commit
requires old(watermark).wf(), old(watermark).next_ts.v < u64::MAX,
ensures final(watermark).wf(), res == final(self).commit_ts, final(self).rest(old(self)), final(self).read_ts == old(self).read_ts,
    over(old(self).state) ==> *final(self) == *old(self) && *final(watermark) == *old(watermark),
    !over(old(self).state) ==> final(self).state == TransactionState::Committed && res == old(watermark).next_ts.v && final(watermark).next_ts.v == res + 1
        && final(watermark).active_txns@ == old(watermark).active_txns@.remove(old(self).read_ts),
//@endfn
//@fn tx Transaction::abort
requires old(watermark).wf(),
ensures final(watermark).wf(), final(self).rest(old(self)), final(self).read_ts == old(self).read_ts, final(self).commit_ts == old(self).commit_ts, final(watermark).next_ts.v == old(watermark).next_ts.v,
    over(old(self).state) ==> *final(self) == *old(self) && *final(watermark) == *old(watermark),
    !over(old(self).state) ==> final(self).state == TransactionState::Aborted && final(watermark).active_txns@ == old(watermark).active_txns@.remove(old(self).read_ts),
//@endfn
}
// no timestamp repeats: a snapshot taken after a commit is later than the commit, one taken before is earlier
pub proof fn lemma_no_reuse(a: Watermark, ts: u64) requires a.wf(), a.active_txns@.contains(ts), ensures a.watermark <= ts, ts < a.next_ts.v, { assert(a.active_txns@.len() > 0) by { if a.active_txns@.len() == 0 { assert(a.active_txns@ =~= Set::empty()); } } }
fn main() {}
}
