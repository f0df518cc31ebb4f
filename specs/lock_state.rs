//@include inc_lock.rs
//@include inc_lock_state.rs
//@assumed lock_rules
//@include inc_lock_validator.rs
//@assumed deadlock
//@include inc_lock_detector.rs
//@proved
impl LockManager {
pub open spec fn inv(&self) -> bool { self.lock_state_manager.inv() }
pub open spec fn tq(&self, o: TableOidT) -> Entries { self.lock_state_manager.tq(o) }
pub open spec fn rq(&self, r: RID) -> Entries { self.lock_state_manager.rq(r) }
//@fn lm LockManager::lock_table
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures final(self).inv(), final(self).lock_state_manager.row_locks@ == old(self).lock_state_manager.row_locks@,
    forall|o: TableOidT| o != oid ==> #[trigger] final(self).tq(o) == old(self).tq(o),
    forall|t: TxnId, m: LockMode| #[trigger] holds_as(old(self).tq(oid), t, m) ==> holds_as(final(self).tq(oid), t, m),
    res == Ok::<bool, LockError>(true) ==> holds_as(final(self).tq(oid), old(txn).txn_id, lock_mode) && free(old(self).tq(oid), old(txn).txn_id, lock_mode),
    res.is_err() ==> final(self).lock_state_manager == old(self).lock_state_manager,
//@before /let granted = queue_guard\.grant_lock/
let ghost s0 = old(self).tq(oid); let ghost rq0 = request; let ghost me = txn.txn_id;
//@after /let granted = queue_guard\.grant_lock\(rq_clone\(&request\)\);/
let ghost s1 = queue_guard.s();
proof { lemma_covered(s0, me, lock_mode); lemma_holds_push(s0, LockRequest { granted, ..rq0 }); lemma_as_holds(s0); lemma_as_holds(s1); }
//@loop 0
invariant true,
decreases vp_bs@.len() - vp_b,
//@before /return Ok\(false\);/
proof {
    let sm = self.lock_state_manager;
    assert(sm.tq(oid) == s1);
    assert forall|t: TxnId| #[trigger] holds(s1, t) == (holds(s0, t) || (granted && t == me)) by { if granted { assert(holds(s1, me)); } }
    assert forall|t: TxnId, o: TableOidT| #[trigger] lt(sm.txn_lock_sets@, t, o) == (lt(old(self).lock_state_manager.txn_lock_sets@, t, o) || (granted && t == me && o == oid)) by {}
    assert forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(sm.txn_lock_sets@, t, o, r) == lr(old(self).lock_state_manager.txn_lock_sets@, t, o, r) by {}
    lemma_table(old(self).lock_state_manager, sm, oid);
}
//@before /Ok\(granted\)\s*\Z/
proof {
    let sm = self.lock_state_manager;
    assert(sm.tq(oid) == s1);
    assert forall|t: TxnId| #[trigger] holds(s1, t) == (holds(s0, t) || (granted && t == me)) by { if granted { assert(holds(s1, me)); } }
    assert forall|t: TxnId, o: TableOidT| #[trigger] lt(sm.txn_lock_sets@, t, o) == (lt(old(self).lock_state_manager.txn_lock_sets@, t, o) || (granted && t == me && o == oid)) by {}
    assert forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(sm.txn_lock_sets@, t, o, r) == lr(old(self).lock_state_manager.txn_lock_sets@, t, o, r) by {}
    lemma_table(old(self).lock_state_manager, sm, oid);
}
//@endfn
//@fn lm LockManager::lock_row
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /&mut self\.lock_state_manager\.(table_lock_map|row_locks)/&self.lock_state_manager.\1/
//@rewrite /hm_get_mut\(&mut \*(table_locks|row_locks), /\1.get(/
requires old(self).inv(), oid == table_of(rid),
ensures final(self).inv(), final(self).lock_state_manager.table_lock_map@ == old(self).lock_state_manager.table_lock_map@,
    forall|r: RID| r != rid ==> #[trigger] final(self).rq(r) == old(self).rq(r),
    forall|t: TxnId, m: LockMode| #[trigger] holds_as(old(self).rq(rid), t, m) ==> holds_as(final(self).rq(rid), t, m),
    res == Ok::<bool, LockError>(true) ==> holds_as(final(self).rq(rid), old(txn).txn_id, lock_mode) && free(old(self).rq(rid), old(txn).txn_id, lock_mode),
    res.is_err() ==> final(self).lock_state_manager == old(self).lock_state_manager,
//@loop 0
invariant true,
decreases queue_guard.s().len() - vp_n,
//@loop 1
invariant true,
decreases vp_bs@.len() - vp_b,
//@endfn
//@fn lm LockManager::unlock_table
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures final(self).inv(), final(self).lock_state_manager.row_locks@ == old(self).lock_state_manager.row_locks@,
    forall|o: TableOidT| o != oid ==> #[trigger] final(self).tq(o) == old(self).tq(o),
    res.is_ok() ==> res == Ok::<bool, LockError>(true) && no_trace(final(self).tq(oid), old(txn).txn_id) && final(self).lock_state_manager.table_lock_map@[oid].settled() && others_keep(old(self).tq(oid), final(self).tq(oid), old(txn).txn_id),
    res.is_err() ==> forall|o: TableOidT| #[trigger] final(self).tq(o) == old(self).tq(o),
//@endfn
//@fn lm LockManager::unlock_row
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures final(self).inv(), final(self).lock_state_manager.table_lock_map@ == old(self).lock_state_manager.table_lock_map@,
    forall|r: RID| r != rid ==> #[trigger] final(self).rq(r) == old(self).rq(r),
    res.is_ok() ==> res == Ok::<bool, LockError>(true) && no_trace(final(self).rq(rid), old(txn).txn_id) && final(self).lock_state_manager.row_locks@[rid].settled() && others_keep(old(self).rq(rid), final(self).rq(rid), old(txn).txn_id),
    res.is_err() ==> forall|r: RID| #[trigger] final(self).rq(r) == old(self).rq(r),
//@endfn
//@fn lm LockManager::finish_unlock nopub
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /txn: &Transaction/txn: &mut Transaction/
ensures final(self).lock_state_manager == old(self).lock_state_manager, final(txn).txn_id == old(txn).txn_id,
//@loop 0
invariant self.lock_state_manager == old(self).lock_state_manager,
decreases released.granted@.len() - vp_r,
//@endfn
//@fn lm LockManager::force_release_txn
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures final(self).inv(), res.is_ok(),
    forall|o: TableOidT| no_trace(#[trigger] final(self).tq(o), txn_id), forall|r: RID| no_trace(#[trigger] final(self).rq(r), txn_id),
    forall|o: TableOidT| others_keep(#[trigger] old(self).tq(o), final(self).tq(o), txn_id), forall|r: RID| others_keep(#[trigger] old(self).rq(r), final(self).rq(r), txn_id),
    forall|o: TableOidT| #[trigger] final(self).lock_state_manager.table_lock_map@.contains_key(o) ==> final(self).lock_state_manager.table_lock_map@[o].settled(),
    forall|r: RID| #[trigger] final(self).lock_state_manager.row_locks@.contains_key(r) ==> final(self).lock_state_manager.row_locks@[r].settled(),
//@beforeloop 0
let ghost sm1 = self.lock_state_manager;
//@loop 0
invariant self.lock_state_manager == sm1,
decreases vp_rel@.len() - vp_r,
//@endfn
//@fn lm LockManager::unlock_all
//@rewrite /&self\b(?=[,)])/&mut self/
ensures final(self).inv(), res.is_ok(), forall|o: TableOidT| #[trigger] final(self).tq(o) == Seq::<LockRequest>::empty(), forall|r: RID| #[trigger] final(self).rq(r) == Seq::<LockRequest>::empty(),
//@endfn
}
fn main() {}
}
