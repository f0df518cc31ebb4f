use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@type cfg PageId
//@type cfg TxnId
//@type cfg Timestamp
//@type cfg TimeStampOidT
//@type cfg TableOidT
//@const cfg INVALID_TS
//@const cfg INVALID_TXN_ID
//@enum tu TupleVisibility attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@enum tx IsolationLevel attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@enum tx TransactionState attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@struct rid RID attr=#[derive(Clone,Copy,PartialEq,Eq,Structural)]
impl RID {
//@fn rid RID::get_page_id
ensures res == self.page_id,
//@endfn
}
#[verifier::external_body] pub fn vp_string() -> String { String::new() }
pub enum TupleError { UndoLogIndexMissing, UndoLogIndexOverflow(u64), UndoLogIndexU64Overflow(usize) }
impl TupleError { #[verifier::external_body] pub fn to_string(&self) -> String { String::new() } }
pub trait VpTsOpt { spec fn ts(&self) -> Option<u64>;
    fn vp_none_or_after(&self, read_ts: u64) -> (b: bool) ensures b == (match self.ts() { None => true, Some(c) => c > read_ts });
    fn vp_some_upto(&self, read_ts: u64) -> (b: bool) ensures b == (match self.ts() { None => false, Some(c) => c <= read_ts }); }
impl VpTsOpt for Option<u64> { open spec fn ts(&self) -> Option<u64> { *self }
    fn vp_none_or_after(&self, read_ts: u64) -> (b: bool) { match *self { None => true, Some(c) => c > read_ts } }
    fn vp_some_upto(&self, read_ts: u64) -> (b: bool) { match *self { None => false, Some(c) => c <= read_ts } } }
//@struct tu TupleMeta attr=#[derive(Clone,Copy)]
// what a reader may see of one version: its own writes, and what committed no later than its snapshot
pub open spec fn seen(m: TupleMeta, me: u64, read_ts: u64) -> bool { m.creator_txn_id == me || (m.commit_timestamp matches Some(c) && c <= read_ts) }
pub open spec fn status(m: TupleMeta, me: u64, read_ts: u64) -> TupleVisibility { if !seen(m, me, read_ts) { TupleVisibility::Invisible } else if m.deleted { TupleVisibility::Deleted } else { TupleVisibility::Visible } }
impl TupleMeta {
//@fn tu TupleMeta::new
ensures res == (TupleMeta { creator_txn_id: txn_id, commit_timestamp: None, deleted: false, undo_log_idx: None }),
//@endfn
//@fn tu TupleMeta::new_with_delete
ensures res == (TupleMeta { creator_txn_id: txn_id, commit_timestamp: None, deleted, undo_log_idx: None }),
//@endfn
//@fn tu TupleMeta::get_creator_txn_id
ensures res == self.creator_txn_id,
//@endfn
//@fn tu TupleMeta::get_commit_timestamp
ensures res == self.commit_timestamp,
//@endfn
//@fn tu TupleMeta::set_commit_timestamp
ensures *final(self) == (TupleMeta { commit_timestamp: Some(ts), ..*old(self) }),
//@endfn
//@fn tu TupleMeta::set_commit_timestamp_opt
ensures *final(self) == (TupleMeta { commit_timestamp: ts, ..*old(self) }),
//@endfn
//@fn tu TupleMeta::is_committed
ensures res == self.commit_timestamp.is_some(),
//@endfn
//@fn tu TupleMeta::is_deleted
ensures res == self.deleted,
//@endfn
//@fn tu TupleMeta::set_deleted
ensures *final(self) == (TupleMeta { deleted, ..*old(self) }),
//@endfn
//@fn tu TupleMeta::set_creator_txn_id
ensures *final(self) == (TupleMeta { creator_txn_id: txn_id, ..*old(self) }),
//@endfn
//@fn tu TupleMeta::visibility_status
ensures res == status(*self, txn_id, read_ts),
//@endfn
//@fn tu TupleMeta::is_applicable_to
ensures res == seen(*self, txn_id, read_ts),
//@endfn
//@fn tu TupleMeta::is_visible_to
ensures res == (seen(*self, txn_id, read_ts) && !self.deleted),
//@endfn
//@fn tu TupleMeta::set_undo_log_idx
//@rewrite /u64::try_from\(idx\)\.map_err\(\|_vp\| TupleError::UndoLogIndexU64Overflow\(idx\)\)\?/(idx as u64)/
ensures res.is_ok(), *final(self) == (TupleMeta { undo_log_idx: Some(idx as u64), ..*old(self) }),
//@endfn
//@fn tu TupleMeta::clear_undo_log_idx
ensures *final(self) == (TupleMeta { undo_log_idx: None, ..*old(self) }),
//@endfn
//@fn tu TupleMeta::has_undo_log_idx
ensures res == self.undo_log_idx.is_some(),
//@endfn
}
//@struct tx UndoLink attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
impl UndoLink {
pub open spec fn valid(self) -> bool { self.prev_txn != u64::MAX && self.prev_log_idx != usize::MAX }
//@fn tx UndoLink::is_valid
ensures res == self.valid(),
//@endfn
}
#[verifier::external_body] pub struct Tuple;
//@struct tx UndoLog
// the version an undo log keeps
pub open spec fn kept(l: UndoLog) -> TupleMeta {
    TupleMeta { creator_txn_id: l.prev_version.prev_txn, commit_timestamp: if l.ts == INVALID_TS { None } else { Some(l.ts) },
                deleted: if l.original_rid.is_some() { false } else { l.is_deleted }, undo_log_idx: if l.prev_version.valid() { Some(l.prev_version.prev_log_idx as u64) } else { None } }
}
//@struct tx Transaction drop=thread_id,undo_logs,write_set,scan_predicates,prev_lsn,commit_ts
// a single version under an isolation level
pub open spec fn level_sees(t: Transaction, m: TupleMeta) -> bool {
    match t.isolation_level { IsolationLevel::ReadUncommitted => true, IsolationLevel::ReadCommitted => m.creator_txn_id == t.txn_id || m.commit_timestamp.is_some(),
        _ => seen(m, t.txn_id, t.read_ts) }
}
pub open spec fn horizon(t: Transaction) -> u64 { if t.isolation_level == IsolationLevel::ReadCommitted { u64::MAX } else { t.read_ts } }
impl Transaction {
//@fn tx Transaction::get_transaction_id
ensures res == self.txn_id,
//@endfn
//@fn tx Transaction::get_isolation_level
ensures res == self.isolation_level,
//@endfn
//@fn tx Transaction::read_ts
ensures res == self.read_ts,
//@endfn
//@fn tx Transaction::get_state
ensures res == self.state,
//@endfn
//@fn tx Transaction::is_tuple_visible
ensures res == (level_sees(*self, *meta) && !meta.deleted),
//@endfn
}
