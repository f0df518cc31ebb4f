//@include inc_lock.rs
//@assumed lock_state
//@include inc_lock_state.rs
//@proved
//@include inc_lock_validator.rs
//@assumed deadlock
//@include inc_lock_detector.rs
//@proved
// a row lock needs one of these on the row's table
pub open spec fn backs(table: LockMode, row: LockMode) -> bool {
    match row {
        LockMode::Shared => table == LockMode::Shared || table == LockMode::IntentionShared || table == LockMode::SharedIntentionExclusive,
        LockMode::Exclusive => table == LockMode::Exclusive || table == LockMode::IntentionExclusive || table == LockMode::SharedIntentionExclusive,
        _ => false,
    }
}
pub open spec fn backed(s: Entries, t: TxnId, row: LockMode) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] grants(s[i], t) && backs(s[i].lock_mode, row) }
pub open spec fn on_rows(m: LockMode) -> bool { m == LockMode::Shared || m == LockMode::Exclusive }
// giving up such a lock ends the growing phase
pub open spec fn ends_growing(l: IsolationLevel, shared: bool, exclusive: bool) -> bool {
    match l { IsolationLevel::ReadCommitted | IsolationLevel::ReadUncommitted => exclusive, _ => shared || exclusive }
}
pub open spec fn after_unlock(l: IsolationLevel, s: TransactionState, shared: bool, exclusive: bool) -> TransactionState { if ends_growing(l, shared, exclusive) && !ended(s) { TransactionState::Shrinking } else { s } }
pub open spec fn put(t: Transaction, s: TransactionState) -> Transaction { Transaction { state: s, ..t } }
pub open spec fn any_row(m: Sets, t: TxnId, o: TableOidT) -> bool { exists|r: RID| #[trigger] lr(m, t, o, r) }
pub open spec fn granted_or_victim(res: Result<bool, LockError>, a: Transaction, b: Transaction) -> bool {
    match res { Ok(g) => b == a || (!g && b == put(a, TransactionState::Aborted)), Err(_) => false }
}
impl LockManager {
pub open spec fn inv(&self) -> bool { self.lock_state_manager.inv() }
pub open spec fn tq(&self, o: TableOidT) -> Entries { self.lock_state_manager.tq(o) }
pub open spec fn rq(&self, r: RID) -> Entries { self.lock_state_manager.rq(r) }
pub open spec fn sets(&self) -> Sets { self.lock_state_manager.txn_lock_sets@ }
//@fn lm LockManager::lock_table
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures
    !may_ask(old(txn).isolation_level, old(txn).state, lock_mode) ==> res.is_err() && *final(txn) == *old(txn) && final(self).lock_state_manager == old(self).lock_state_manager,
    may_ask(old(txn).isolation_level, old(txn).state, lock_mode) ==> granted_or_victim(res, *old(txn), *final(txn)),
//@before /let granted = queue_guard\.grant_lock/
proof { assert(peace(old(self).tq(oid))); }
//@loop 0
invariant true,
decreases vp_bs@.len() - vp_b,
//@endfn
//@fn lm LockManager::lock_row
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /&mut self\.lock_state_manager\.(table_lock_map|row_locks)/&self.lock_state_manager.\1/
//@rewrite /hm_get_mut\(&mut \*(table_locks|row_locks), /\1.get(/
requires old(self).inv(), oid == table_of(rid),
ensures
    !may_ask(old(txn).isolation_level, old(txn).state, lock_mode) ==> res.is_err() && *final(txn) == *old(txn) && final(self).lock_state_manager == old(self).lock_state_manager,
    may_ask(old(txn).isolation_level, old(txn).state, lock_mode) && !on_rows(lock_mode) ==> (res matches Err(LockError::IntentionLockOnRow)) && *final(txn) == put(*old(txn), TransactionState::Aborted) && final(self).lock_state_manager == old(self).lock_state_manager,
    may_ask(old(txn).isolation_level, old(txn).state, lock_mode) && on_rows(lock_mode) && !backed(old(self).tq(oid), old(txn).txn_id, lock_mode) ==> (res matches Err(LockError::TableLockNotPresent)) && *final(txn) == put(*old(txn), TransactionState::Aborted) && final(self).lock_state_manager == old(self).lock_state_manager,
    may_ask(old(txn).isolation_level, old(txn).state, lock_mode) && on_rows(lock_mode) && backed(old(self).tq(oid), old(txn).txn_id, lock_mode) ==> granted_or_victim(res, *old(txn), *final(txn)),
//@loop 0
invariant on_rows(lock_mode), vp_n <= queue_guard.s().len(), vp_any == (exists|i: int| 0 <= i < vp_n && #[trigger] grants(queue_guard.s()[i], txn.txn_id) && backs(queue_guard.s()[i].lock_mode, lock_mode)),
decreases queue_guard.s().len() - vp_n,
//@loopstart 0
let ghost c0 = grants(queue_guard.s()[vp_n as int], txn.txn_id);
//@loop 1
invariant true,
decreases vp_bs@.len() - vp_b,
//@endfn
//@fn lm LockManager::unlock_table
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures
    !lt(old(self).sets(), old(txn).txn_id, oid) ==> (res matches Err(LockError::NoLockHeld)) && *final(txn) == put(*old(txn), TransactionState::Aborted) && final(self).lock_state_manager == old(self).lock_state_manager,
    lt(old(self).sets(), old(txn).txn_id, oid) && any_row(old(self).sets(), old(txn).txn_id, oid) ==> (res matches Err(LockError::TableUnlockedBeforeRows)) && *final(txn) == put(*old(txn), TransactionState::Aborted) && final(self).lock_state_manager == old(self).lock_state_manager,
    lt(old(self).sets(), old(txn).txn_id, oid) && !any_row(old(self).sets(), old(txn).txn_id, oid) ==> res == Ok::<bool, LockError>(true)
        && *final(txn) == put(*old(txn), after_unlock(old(txn).isolation_level, old(txn).state, lock_mode == LockMode::Shared || holds_as(old(self).tq(oid), old(txn).txn_id, LockMode::Shared), lock_mode == LockMode::Exclusive || holds_as(old(self).tq(oid), old(txn).txn_id, LockMode::Exclusive))),
//@before /if !row_locks\.is_empty\(\)/
proof {
    if any_row(old(self).sets(), old(txn).txn_id, oid) { let r = choose|r: RID| #[trigger] lr(old(self).sets(), old(txn).txn_id, oid, r); assert(row_locks@.contains(r)); }
    if !row_locks@.is_empty() { let r = row_locks@.choose(); assert(row_locks@.contains(r)); assert(lr(old(self).sets(), old(txn).txn_id, oid, r)); }
}
//@endfn
//@fn lm LockManager::unlock_row
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures
    !lr(old(self).sets(), old(txn).txn_id, oid, rid) ==> (res matches Err(LockError::NoLockHeld)) && *final(txn) == put(*old(txn), TransactionState::Aborted) && final(self).lock_state_manager == old(self).lock_state_manager,
    lr(old(self).sets(), old(txn).txn_id, oid, rid) ==> res == Ok::<bool, LockError>(true)
        && *final(txn) == put(*old(txn), after_unlock(old(txn).isolation_level, old(txn).state, lock_mode == LockMode::Shared || holds_as(old(self).rq(rid), old(txn).txn_id, LockMode::Shared), lock_mode == LockMode::Exclusive || holds_as(old(self).rq(rid), old(txn).txn_id, LockMode::Exclusive))),
//@endfn
//@fn lm LockManager::finish_unlock nopub
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /txn: &Transaction/txn: &mut Transaction/
ensures *final(txn) == put(*old(txn), after_unlock(old(txn).isolation_level, old(txn).state, lock_mode == LockMode::Shared || released.modes@.contains(LockMode::Shared), lock_mode == LockMode::Exclusive || released.modes@.contains(LockMode::Exclusive))),
//@loop 0
invariant true,
decreases released.granted@.len() - vp_r,
//@endfn
}
fn main() {}
}
