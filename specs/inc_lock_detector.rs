pub type Graph = Map<TxnId, Vec<TxnId>>;
// a waits for b
pub open spec fn edge(g: Graph, a: TxnId, b: TxnId) -> bool { g.contains_key(a) && g[a]@.contains(b) }
impl DeadlockDetector {
//@fn lm DeadlockDetector::add_edge
//@rewrite /&self\b(?=[,)])/&mut self/
ensures forall|a: TxnId, b: TxnId| #[trigger] edge(final(self).waits_for@, a, b) == (edge(old(self).waits_for@, a, b) || (a == t1 && b == t2)), final(self).latest_abort_txn == old(self).latest_abort_txn,
//@after /push\(t2\);/
proof {
    let s = if old(self).waits_for@.contains_key(t1) { old(self).waits_for@[t1]@ } else { Seq::empty() };
    assert forall|b: TxnId| #[trigger] s.push(t2).contains(b) == (s.contains(b) || b == t2) by {
        if s.contains(b) { let i = choose|i: int| 0 <= i < s.len() && s[i] == b; assert(s.push(t2)[i] == b); }
        assert(s.push(t2)[s.len() as int] == t2);
    }
    assert(self.waits_for@[t1]@ == s.push(t2));
}
//@endfn
//@fn lm DeadlockDetector::remove_edge
//@rewrite /&self\b(?=[,)])/&mut self/
ensures forall|a: TxnId, b: TxnId| #[trigger] edge(final(self).waits_for@, a, b) == (edge(old(self).waits_for@, a, b) && a != t1), final(self).latest_abort_txn == old(self).latest_abort_txn,
//@endfn
}
impl LockManager {
//@fn lm LockManager::check_deadlock
//@rewrite /&self\b(?=[,)])/&mut self/
ensures
    final(self).lock_state_manager == old(self).lock_state_manager, final(self).deadlock_detector.waits_for == old(self).deadlock_detector.waits_for,
    final(txn).txn_id == old(txn).txn_id, final(txn).isolation_level == old(txn).isolation_level,
    match res { Ok(v) => v == (old(self).deadlock_detector.latest_abort_txn == Some(old(txn).txn_id)), Err(_) => false },
    final(txn).state == (if res == Ok::<bool, LockError>(true) { TransactionState::Aborted } else { old(txn).state }),
    final(self).deadlock_detector.latest_abort_txn == (if res == Ok::<bool, LockError>(true) { None } else { old(self).deadlock_detector.latest_abort_txn }),
//@endfn
}
