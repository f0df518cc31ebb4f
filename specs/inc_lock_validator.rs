// ---- the documented rules: which requests each isolation level permits in which phase
pub open spec fn ended(s: TransactionState) -> bool { s == TransactionState::Aborted || s == TransactionState::Committed || s == TransactionState::Tainted }
pub open spec fn may_ask(l: IsolationLevel, s: TransactionState, m: LockMode) -> bool {
    !ended(s) && match l {
        IsolationLevel::ReadUncommitted => (m == LockMode::Exclusive || m == LockMode::IntentionExclusive) && s != TransactionState::Shrinking,
        IsolationLevel::ReadCommitted => s == TransactionState::Shrinking ==> m == LockMode::Shared || m == LockMode::IntentionShared,
        IsolationLevel::RepeatableRead | IsolationLevel::Serializable => s != TransactionState::Shrinking,
        IsolationLevel::Snapshot => true,
    }
}
impl LockValidator {
//@fn lm LockValidator::validate_lock_request
ensures res.is_ok() == may_ask(txn.isolation_level, txn.state, lock_mode),
//@endfn
//@fn lm LockValidator::validate_read_uncommitted nopub
requires !ended(txn.state),
ensures res.is_ok() == may_ask(IsolationLevel::ReadUncommitted, txn.state, lock_mode),
//@endfn
//@fn lm LockValidator::validate_read_committed nopub
ensures res.is_ok() == may_ask(IsolationLevel::ReadCommitted, txn.state, lock_mode),
//@endfn
//@fn lm LockValidator::validate_repeatable_read nopub
ensures res.is_ok() == may_ask(IsolationLevel::RepeatableRead, txn.state, _lock_mode),
//@endfn
}
