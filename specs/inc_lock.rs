//@source lm src/concurrency/lock_manager.rs
//@source rid src/common/rid.rs
//@source ex src/common/exception.rs
//@source cfg src/common/config.rs
//@source tx src/concurrency/transaction.rs
//@opt rlimit=60
//@rewrite /Arc<Mutex<(HashMap<\w+, )Arc<Mutex<LockRequestQueue>>>>/\1LockRequestQueue>/
//@rewrite /Mutex<(HashMap<\w+, )Arc<Mutex<LockRequestQueue>>>>/\1LockRequestQueue>/
//@rewrite /Mutex<(HashMap<\w+, TxnLockState>)>/\1/
//@rewrite /Arc<Mutex<LockRequest>>/LockRequest/
//@rewrite /Mutex::new\((HashMap::new\(\))\)/\1/
//@rewrite /Arc::new\(Mutex::new\(/((/
//@rewrite /self\.cv\.notify_all\(\);//
//@rewrite /cv: Arc::new\(Condvar::new\(\)\),//
//@rewrite /for existing_req in &self\.request_queue \{/let mut vp_n: usize = 0; while vp_n < self.request_queue.len() { let existing_req = vd_at(&self.request_queue, vp_n); vp_n = vp_n + 1;/
//@rewrite /existing_req\.lock\(\)/existing_req/
//@rewrite /request\.lock\(\)\.granted = true;/let mut request = request; request.granted = true;/
//@rewrite /\b(request|queue|req)\.lock\(\)/\1/
//@rewrite /self\s*\.request_queue\s*\.retain\(\|req\| req\.get_txn_id\(\) != txn_id\)/rq_retain_others(&mut self.request_queue, txn_id)/
//@rewrite /self\.request_queue\[i\]\.lock\(\)\.clone\(\)/rq_clone(vd_at(&self.request_queue, i))/
//@rewrite /self\.request_queue\[i\]\.lock\(\)\.granted = true;/vd_mut_at(&mut self.request_queue, i).granted = true;/
//@rewrite /drop\(\w+\);//
//@rewrite /request\.clone\(\)/rq_clone(&request)/
//@rewrite /txn_locks\s*\.entry\(((?:[^()]|\(\))*)\)\s*\.or_insert_with\(\|\| /hm_entry_or(&mut *txn_locks, \1, /
//@rewrite /(table_locks|row_locks)\s*\.entry\((\w+)\)\s*\.or_insert_with\(\|\| /hm_entry_or(&mut *\1, \2, /
//@rewrite /txn_locks\.get_mut\(/hm_get_mut(&mut *txn_locks, /
//@rewrite /\b(table_locks|table_locks_map|row_locks)\.get\(/hm_get_mut(&mut *\1, /
//@rewrite /lock_state\.row_locks\.retain\(\|\(_vp, held\)\| \*held != rid\)/hs_drop_row(&mut lock_state.row_locks, rid)/
//@rewrite /lock_state\.row_locks\.retain\(\|\(_, held\)\| \*held != rid\)/hs_drop_row(&mut lock_state.row_locks, rid)/
//@rewrite /(table_locks_map|row_locks)\.keys\(\)\.copied\(\)\.collect\(\)/hm_keys(&*\1)/
//@rewrite /for request in &granted \{/let mut vp_g: usize = 0; while vp_g < granted.len() { let request = &granted[vp_g]; vp_g = vp_g + 1;/
//@rewrite /for request in queue_guard\.grant_waiting\(\) \{/let granted = queue_guard.grant_waiting(); let mut vp_g: usize = 0; while vp_g < granted.len() { let request = rq_clone(&granted[vp_g]); vp_g = vp_g + 1;/
//@rewrite /for (rid|oid) in (rids|oids) \{/let mut vp_k: usize = 0; while vp_k < \2.len() { let \1 = \2[vp_k]; vp_k = vp_k + 1;/
//@rewrite /([\w.]*txn_lock_sets)\.lock\(\)/&mut \1/
//@rewrite /([\w.]*table_lock_map)\.lock\(\)/&mut \1/
//@rewrite /([\w.]*row_locks)\.lock\(\)/&mut \1/
//@rewrite /RwLock<TransactionState>/TransactionState/
//@rewrite /\*self\.state\.(read|write)\(\)/self.state/
//@rewrite /Arc<Mutex<(HashMap<TxnId, Vec<TxnId>>|Option<TxnId>)>>/\1/
//@rewrite /Mutex<(HashMap<TxnId, Vec<TxnId>>)>/\1/
//@rewrite /waits_for\.entry\((\w+)\)\.or_default\(\)\.push\(/hm_entry_or(&mut *waits_for, \1, Vec::new()).push(/
//@rewrite /([\w.]*(?:waits_for|latest_abort_txn))\.lock\(\)/&mut \1/
//@rewrite /txn: Arc<Transaction>/txn: &mut Transaction/
//@rewrite /check_deadlock\(txn\.clone\(\)\)/check_deadlock(&mut *txn)/
//@rewrite /validate_lock_request\(&txn,/validate_lock_request(&*txn,/
//@rewrite /finish_unlock\(&txn,/finish_unlock(&mut *txn,/
//@rewrite /for blocker in ((?:[^{}])*) \{/let vp_bs = \1; let mut vp_b: usize = 0; while vp_b < vp_bs.len() { let blocker = vp_bs[vp_b]; vp_b = vp_b + 1;/
//@rewrite /for request in &released\.granted \{/let mut vp_r: usize = 0; while vp_r < released.granted.len() { let request = &released.granted[vp_r]; vp_r = vp_r + 1;/
//@rewrite /for request in self\.lock_state_manager\.force_release_txn\(txn_id\)\? \{/let vp_rel = self.lock_state_manager.force_release_txn(txn_id)?; let mut vp_r: usize = 0; while vp_r < vp_rel.len() { let request = &vp_rel[vp_r]; vp_r = vp_r + 1;/
//@rewrite /queue_guard\s*\.request_queue\s*\.iter\(\)\s*\.any\(\|req\| \{(.*?)\n\}\) \}/let mut vp_any = false; let mut vp_n: usize = 0; while vp_n < queue_guard.request_queue.len() { let req = vd_at(&queue_guard.request_queue, vp_n); vp_n = vp_n + 1; let vp_hit = { \1 }; if vp_hit { vp_any = true; } } vp_any }/
//@rewrite /released\.modes\.contains\(&(LockMode::\w+)\)/vec_has(&released.modes, \1)/
use vstd::prelude::*;
use std::collections::{HashMap, HashSet, VecDeque};
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vp_keys::rid_key, vp_keys::pair_key};
global size_of usize == 8;
//@type cfg TxnId
//@type cfg TableOidT
//@type cfg PageId
//@const cfg INVALID_TXN_ID
//@include inc_maps.rs
#[verifier::external_body]
pub fn vd_at<T>(s: &VecDeque<T>, i: usize) -> (r: &T) requires i < s@.len(), ensures *r == s@[i as int], { &s[i] }
#[verifier::external_body]
pub fn vd_mut_at<'a, T>(s: &'a mut VecDeque<T>, i: usize) -> (r: &'a mut T)
    requires i < old(s)@.len(),
    ensures *r == old(s)@[i as int], final(s)@ == old(s)@.update(i as int, *final(r)),
{ &mut s[i] }
//@struct rid RID attr=#[derive(PartialEq,Eq,Hash,Clone,Copy,Structural)]
pub mod vp_keys {
    use vstd::prelude::*;
    // the derived Hash and Eq of these keys agree
    #[verifier::external_body]
    pub broadcast proof fn rid_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<super::RID>() {}
    #[verifier::external_body]
    pub broadcast proof fn pair_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<(super::TableOidT, super::RID)>() {}
}
//@enum tx IsolationLevel attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@enum tx TransactionState attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@struct tx Transaction drop=thread_id,undo_logs,write_set,scan_predicates,prev_lsn,commit_ts,read_ts
impl Transaction {
//@fn tx Transaction::get_transaction_id
ensures res == self.txn_id,
//@endfn
//@fn tx Transaction::get_isolation_level
ensures res == self.isolation_level,
//@endfn
//@fn tx Transaction::get_state
ensures res == self.state,
//@endfn
//@fn tx Transaction::set_state
//@rewrite /&self\b(?=[,)])/&mut self/
ensures final(self).state == state, final(self).txn_id == old(self).txn_id, final(self).isolation_level == old(self).isolation_level,
//@endfn
}
#[verifier::external_body]
pub fn vec_has(v: &Vec<LockMode>, m: LockMode) -> (r: bool) ensures r == v@.contains(m), { v.contains(&m) }
//@enum lm LockMode attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@struct lm LockRequest
//@struct lm LockRequestQueue drop=cv
//@enum ex LockError
//@struct lm TxnLockState
//@struct lm ReleasedLocks
//@struct lm LockStateManager
//@struct lm LockValidator
//@struct lm DeadlockDetector drop=enable_detection,detection_thread
//@struct lm LockManager
// ---- the documented compatibility matrix
pub open spec fn compat(a: LockMode, b: LockMode) -> bool {
    match a {
        LockMode::IntentionShared => b != LockMode::Exclusive,
        LockMode::IntentionExclusive => b == LockMode::IntentionShared || b == LockMode::IntentionExclusive,
        LockMode::Shared => b == LockMode::IntentionShared || b == LockMode::Shared,
        LockMode::SharedIntentionExclusive => b == LockMode::IntentionShared,
        LockMode::Exclusive => false,
    }
}
// w asks for nothing that holding h does not give
pub open spec fn includes(h: LockMode, w: LockMode) -> bool {
    h == w || match h {
        LockMode::Exclusive => true,
        LockMode::SharedIntentionExclusive => w != LockMode::Exclusive,
        LockMode::Shared | LockMode::IntentionExclusive => w == LockMode::IntentionShared,
        LockMode::IntentionShared => false,
    }
}
pub type Entries = Seq<LockRequest>;
pub open spec fn grants(e: LockRequest, t: TxnId) -> bool { e.granted && e.txn_id == t }
pub open spec fn holds(s: Entries, t: TxnId) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] grants(s[i], t) }
pub open spec fn holds_as(s: Entries, t: TxnId, m: LockMode) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] grants(s[i], t) && s[i].lock_mode == m }
pub open spec fn covered(s: Entries, t: TxnId, m: LockMode) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] grants(s[i], t) && includes(s[i].lock_mode, m) }
pub open spec fn clashes(e: LockRequest, t: TxnId, m: LockMode) -> bool { e.granted && e.txn_id != t && !compat(e.lock_mode, m) }
// nobody else holds the resource in a mode that conflicts with m
pub open spec fn free(s: Entries, t: TxnId, m: LockMode) -> bool { forall|i: int| 0 <= i < s.len() ==> !#[trigger] clashes(s[i], t, m) }
// no two transactions hold conflicting locks
pub open spec fn peace(s: Entries) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i].granted && #[trigger] s[j].granted && s[i].txn_id != s[j].txn_id ==> compat(s[i].lock_mode, s[j].lock_mode) }
// every entry is about this resource
pub open spec fn on(s: Entries, oid: TableOidT, r: Option<RID>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).rid == r && s[i].oid == oid }
// the table a row belongs to (callers pass a row together with its table)
pub uninterp spec fn table_of(r: RID) -> TableOidT;
pub type Sets = Map<TxnId, TxnLockState>;
pub open spec fn lt(m: Sets, t: TxnId, oid: TableOidT) -> bool { m.contains_key(t) && m[t].table_locks@.contains(oid) }
pub open spec fn lr(m: Sets, t: TxnId, oid: TableOidT, r: RID) -> bool { m.contains_key(t) && m[t].row_locks@.contains((oid, r)) }
impl LockRequestQueue {
pub open spec fn s(&self) -> Entries { self.request_queue@ }
pub open spec fn open_to(&self, t: TxnId) -> bool { self.upgrading == INVALID_TXN_ID || self.upgrading == t }
// every waiting request has to wait
pub open spec fn settled(&self) -> bool { forall|i: int| 0 <= i < self.s().len() && !(#[trigger] self.s()[i]).granted ==> !(self.open_to(self.s()[i].txn_id) && free(self.s(), self.s()[i].txn_id, self.s()[i].lock_mode)) }
}
pub open spec fn no_trace(s: Entries, t: TxnId) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).txn_id != t }
// nobody but t lost a lock
pub open spec fn others_keep(a: Entries, b: Entries, t: TxnId) -> bool { forall|u: TxnId, m: LockMode| u != t && #[trigger] holds_as(a, u, m) ==> holds_as(b, u, m) }
impl LockStateManager {
pub open spec fn tq(&self, oid: TableOidT) -> Entries { if self.table_lock_map@.contains_key(oid) { self.table_lock_map@[oid].s() } else { Seq::empty() } }
pub open spec fn rq(&self, r: RID) -> Entries { if self.row_locks@.contains_key(r) { self.row_locks@[r].s() } else { Seq::empty() } }
// no two transactions hold conflicting locks; the lock sets say exactly who holds what
pub open spec fn inv(&self) -> bool {
    &&& forall|o: TableOidT| peace(#[trigger] self.tq(o)) && on(self.tq(o), o, None)
    &&& forall|r: RID| peace(#[trigger] self.rq(r)) && on(self.rq(r), table_of(r), Some(r))
    &&& forall|t: TxnId, o: TableOidT| #[trigger] lt(self.txn_lock_sets@, t, o) == holds(self.tq(o), t)
    &&& forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(self.txn_lock_sets@, t, o, r) == (o == table_of(r) && holds(self.rq(r), t))
}
}
pub open spec fn others(s: Entries, t: TxnId) -> Entries { s.filter(|e: LockRequest| e.txn_id != t) }
