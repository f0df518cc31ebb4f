//@source tu src/storage/table/tuple.rs
//@source tx src/concurrency/transaction.rs
//@source tm src/concurrency/transaction_manager.rs
//@source tt src/storage/table/transactional_table_heap.rs
//@source rid src/common/rid.rs
//@source cfg src/common/config.rs
//@opt strings=vp_string()
//@opt rlimit=60
//@rewrite /RwLock<(\w+)>/\1/
//@rewrite /\*self\.(\w+)\.read\(\)/self.\1/
//@rewrite /Arc::from\(/Arc::new(/
//@rewrite /\.is_none_or\(\|commit_ts\| commit_ts > read_ts\)/.vp_none_or_after(read_ts)/
//@rewrite /\.is_some_and\(\|ts\| ts <= read_ts\)/.vp_some_upto(read_ts)/
//@rewrite /vec!\[true; (\w+)\.get_column_count\(\)\]/vp_all_true(\1.get_column_count())/
//@rewrite /for \(table_oid, rid\) in write_set \{/let mut vp_n: usize = 0;\nwhile vp_n < write_set.len() {\nlet (table_oid, rid) = write_set[vp_n];\nvp_n = vp_n + 1;/
//@rewrite /for \(table_oid, rid\) in txn\.get_write_set\(\) \{/let write_set = txn.get_write_set();\nfor vp_i in 0..write_set.len() {\nlet (table_oid, rid) = write_set[vp_i];/
//@rewrite /\.fetch_page::<TablePage>\(/.fetch_page(/
//@rewrite /if let Ok\(\(_, _\)\) = page\.get_tuple\(&rid, true\)\s*&& let Err\(e\) = page\.update_tuple_meta\(meta, &rid\)\s*\{/if page.get_tuple(&rid, true).is_ok() { page.update_tuple_meta(meta, &rid);/
//@include inc_mvcc.rs
impl Tuple { pub uninterp spec fn cols(&self) -> nat; #[verifier::external_body] pub fn get_column_count(&self) -> (r: usize) ensures r == self.cols(), { unimplemented!() } }
#[verifier::external_body] pub fn vp_all_true(n: usize) -> (r: Vec<bool>) ensures r@ == Seq::new(n as nat, |i: int| true), { vec![true; n] }
pub trait VpUnit { spec fn fine(&self) -> bool; fn vp_unit(self) -> (r: Result<(), String>) ensures r.is_ok() == self.fine(); }
impl VpUnit for Result<RID, String> { open spec fn fine(&self) -> bool { self.is_ok() } fn vp_unit(self) -> (r: Result<(), String>) { match self { Ok(_) => Ok(()), Err(e) => Err(e) } } }
#[verifier::external_body] pub struct BufferPoolManager;
#[verifier::external_body] pub struct LockManager;
#[verifier::external_body] pub struct LockError;
pub enum LockMode { Shared, Exclusive, IntentionShared, IntentionExclusive, SharedIntentionExclusive }
impl LockManager { #[verifier::external_body] pub fn lock_table(&self, txn: Arc<Transaction>, m: LockMode, oid: TableOidT) -> (r: Result<bool, LockError>) { unimplemented!() } }
// ---- what happened, as facts produced by the calls which do it.  One call of the function under proof is considered;
// the state it reads (newest versions, undo links, logs of other steps) is the state it starts in, as each row is handled once.
pub uninterp spec fn logged(link: UndoLink, log: UndoLog) -> bool;             // appended to the transaction's undo logs
pub uninterp spec fn linked(rid: RID, link: Option<UndoLink>) -> bool;        // made the head of the row's version chain
pub uninterp spec fn stored(rid: RID, m: TupleMeta, t: Tuple) -> bool;         // became the row's newest version
pub uninterp spec fn stamped(rid: RID, m: TupleMeta) -> bool;                  // row metadata alone replaced
pub uninterp spec fn recorded(oid: TableOidT, rid: RID) -> bool;              // is in the transaction's write set
pub uninterp spec fn given_up(rid: RID) -> bool;                               // the page could not be had or refused the change
// the rows and the transaction of this call
pub uninterp spec fn row_of(rid: RID) -> Option<(TupleMeta, Tuple)>;
pub open spec fn row_m(rid: RID) -> TupleMeta { match row_of(rid) { Some(x) => x.0, None => arbitrary() } }
pub open spec fn row_t(rid: RID) -> Tuple { match row_of(rid) { Some(x) => x.1, None => arbitrary() } }
pub uninterp spec fn me() -> u64;
pub uninterp spec fn my_commit_ts() -> u64;
pub uninterp spec fn head_of(rid: RID) -> Option<UndoLink>;
pub uninterp spec fn log_of(link: UndoLink) -> Option<UndoLog>;
pub uninterp spec fn work() -> Seq<(TableOidT, RID)>;
pub uninterp spec fn mode() -> int;            // 0 write, 1 commit, 2 abort
pub open spec fn prev_of(m: TupleMeta) -> UndoLink { UndoLink { prev_txn: m.creator_txn_id, prev_log_idx: match m.undo_log_idx { Some(i) => i as usize, None => usize::MAX } } }
// a log which keeps version (m, t): readers and abort get exactly that version back from it
pub open spec fn keeps(l: UndoLog, m: TupleMeta, t: Tuple, rid: RID) -> bool {
    l.prev_version == prev_of(m) && l.ts == (match m.commit_timestamp { Some(c) => c, None => INVALID_TS }) && *l.tuple == t && l.original_rid == Some(rid)
    && l.modified_fields@.len() == t.cols()
}
pub proof fn lemma_keeps(l: UndoLog, m: TupleMeta, t: Tuple, rid: RID)
    requires keeps(l, m, t, rid), !m.deleted, m.creator_txn_id != INVALID_TXN_ID, m.commit_timestamp != Some(INVALID_TS), m.undo_log_idx != Some(u64::MAX),
    ensures kept(l) == m,
{}
impl Transaction {
    #[verifier::external_body] pub fn append_undo_log(&self, log: Arc<UndoLog>) -> (r: UndoLink) ensures r.prev_txn == self.txn_id, logged(r, *log), newest(r), { unimplemented!() }
    #[verifier::external_body] pub fn get_undo_log_num(&self) -> (r: usize) ensures forall|l: UndoLink| #[trigger] newest(l) ==> r == l.prev_log_idx + 1, { unimplemented!() }
    #[verifier::external_body] pub fn append_write_set(&self, oid: TableOidT, rid: RID) ensures recorded(oid, rid), { unimplemented!() }
    #[verifier::external_body] pub fn get_write_set(&self) -> (r: Vec<(TableOidT, RID)>) ensures r@ == work(), { unimplemented!() }
    pub uninterp spec fn cts(&self) -> u64;
    pub uninterp spec fn committed_as(&self, ts: u64) -> bool;
    #[verifier::external_body] pub fn commit(&self, w: &mut VpWatermark) -> (r: u64) requires self.state != TransactionState::Aborted && self.state != TransactionState::Committed, ensures r == my_commit_ts(), self.committed_as(my_commit_ts()), { unimplemented!() }
    #[verifier::external_body] pub fn commit_ts(&self) -> (r: u64) ensures r == self.cts(), self.committed_as(my_commit_ts()) ==> r == my_commit_ts(), { unimplemented!() }
    pub uninterp spec fn state_set(&self, s: TransactionState) -> bool;
    #[verifier::external_body] pub fn set_state(&self, s: TransactionState) requires mode() == 2 ==> s == TransactionState::Aborted, ensures self.state_set(s), { unimplemented!() }
}
pub uninterp spec fn newest(l: UndoLink) -> bool;
impl UndoLog {
//@fn tx UndoLog::new_for_delete extern=validate_invariants
//@rewrite /Self::validate_invariants\([^;]*\);//
//@rewrite /debug_assert!\([^;]*\);//
requires is_deleted, modified_fields@.len() == tuple.cols(),
ensures res == (UndoLog { is_deleted, modified_fields, tuple, ts, prev_version, original_rid: Some(rid) }),
//@endfn
}
impl TupleMeta {
//@fn tu TupleMeta::try_get_undo_log_idx_opt
//@rewrite /usize::try_from\(raw\)\s*\.map\(Some\)\s*\.map_err\(\|_vp\| TupleError::UndoLogIndexOverflow\(raw\)\)/Ok(Some(raw as usize))/
ensures res matches Ok(o), (match res { Ok(o) => o, _ => None }) == (match self.undo_log_idx { Some(i) => Some(i as usize), None => None::<usize> }),
//@endfn
}
#[verifier::external_body] pub struct VpWatermark;
impl VpWatermark { #[verifier::external_body] pub fn remove_txn(&mut self, ts: u64) ensures unregistered(ts), { unimplemented!() } }
pub uninterp spec fn unregistered(ts: u64) -> bool;
pub uninterp spec fn no_table(oid: TableOidT) -> bool;
#[verifier::external_body] pub struct VpTxnMap;
impl VpTxnMap { #[verifier::external_body] pub fn insert(&mut self, id: TxnId, t: Arc<Transaction>) -> Option<Arc<Transaction>> { unimplemented!() } }
#[verifier::external_body] pub struct VpTxnMapLock;
impl VpTxnMapLock { #[verifier::external_body] pub fn write(&self) -> VpTxnMap { unimplemented!() } }
#[verifier::external_body] pub struct VpWmLock;
impl VpWmLock { #[verifier::external_body] pub fn write(&self) -> VpWatermark { unimplemented!() } }
pub struct VpState { pub txn_map: VpTxnMapLock, pub running_txns: VpWmLock }
pub struct TransactionManager { pub state: Arc<VpState> }
#[verifier::external_body] pub struct TransactionContext;
impl TransactionContext {
    pub uninterp spec fn txn(&self) -> Transaction;
    #[verifier::external_body] pub fn get_transaction(&self) -> (r: Arc<Transaction>) ensures *r == self.txn(), { unimplemented!() }
    #[verifier::external_body] pub fn get_transaction_manager(&self) -> (r: Arc<TransactionManager>) { unimplemented!() }
    #[verifier::external_body] pub fn get_lock_manager(&self) -> (r: Arc<LockManager>) { unimplemented!() }
}
#[verifier::external_body] pub struct TPage;
impl TPage {
    pub uninterp spec fn id(&self) -> PageId;
    #[verifier::external_body] pub fn get_tuple(&self, rid: &RID, allow_deleted: bool) -> (r: Result<(TupleMeta, Tuple), String>)
        ensures r.is_ok() == (row_of(*rid) matches Some(x) && (allow_deleted || !x.0.deleted)), r matches Ok(x) ==> row_of(*rid) == Some(x), r.is_err() && allow_deleted ==> given_up(*rid), { unimplemented!() }
    #[verifier::external_body] pub fn update_tuple_meta(&mut self, m: TupleMeta, rid: &RID) -> (r: Result<(), String>) requires self.id() == rid.page_id, may_stamp(*rid, m), ensures final(self).id() == old(self).id(), r.is_ok() ==> stamped(*rid, m), r.is_err() ==> given_up(*rid), { unimplemented!() }
}
#[verifier::external_body] pub struct PageGuard;
impl PageGuard { pub uninterp spec fn id(&self) -> PageId;
    #[verifier::external_body] pub fn write(&self) -> (r: TPage) ensures r.id() == self.id(), { unimplemented!() } }
impl BufferPoolManager { #[verifier::external_body] pub fn fetch_page(&self, id: PageId) -> (r: Option<PageGuard>) ensures r matches Some(g) ==> g.id() == id, r is None ==> forall|rid: RID| rid.page_id == id ==> #[trigger] given_up(rid), { unimplemented!() } }
#[verifier::external_body] pub struct TableHeap;
impl TableHeap {
    #[verifier::external_body] pub fn get_bpm(&self) -> Arc<BufferPoolManager> { unimplemented!() }
    #[verifier::external_body] pub fn get_tuple_internal(&self, rid: RID, allow_deleted: bool) -> (r: Result<(Arc<TupleMeta>, Arc<Tuple>), String>)
        ensures r matches Ok((m, t)) ==> row_of(rid) == Some((*m, *t)) && (allow_deleted || !m.deleted), { unimplemented!() }
    #[verifier::external_body] pub fn update_tuple_internal(&self, meta: Arc<TupleMeta>, tuple: &Tuple, rid: RID) -> (r: Result<RID, String>)
        requires may_store(rid, *meta, *tuple), ensures r.is_ok() ==> stored(rid, *meta, *tuple) && r == Ok::<RID, String>(rid), { unimplemented!() }
    #[verifier::external_body] pub fn insert_tuple_internal(&self, meta: Arc<TupleMeta>, tuple: &Tuple) -> (r: Result<RID, String>)
        requires fresh_meta(*meta), ensures r matches Ok(rid) ==> stored(rid, *meta, *tuple), { unimplemented!() }
    #[verifier::external_body] pub fn update_tuple(&self, meta: Arc<TupleMeta>, tuple: &Tuple, rid: RID, c: Option<Arc<TransactionContext>>) -> (r: Result<RID, String>)
        requires c is None, may_store(rid, *meta, *tuple), ensures r.is_ok() ==> stored(rid, *meta, *tuple), r.is_err() ==> given_up(rid), { unimplemented!() }
}
pub open spec fn fresh_meta(m: TupleMeta) -> bool { m == (TupleMeta { creator_txn_id: me(), commit_timestamp: None, deleted: false, undo_log_idx: None }) }
// a write makes a new uncommitted version of mine, whose head log keeps the version it replaces
pub open spec fn may_store(rid: RID, m: TupleMeta, t: Tuple) -> bool {
    if mode() == 0 {
        m.creator_txn_id == me() && m.commit_timestamp is None && row_of(rid) is Some
        && exists|l: UndoLink, g: UndoLog| #[trigger] logged(l, g) && linked(rid, Some(l)) && l.prev_txn == me() && m.undo_log_idx == Some(l.prev_log_idx as u64) && keeps(g, row_m(rid), row_t(rid), rid)
    } else { mode() == 2 && restores(rid, m) && exists|g: UndoLog| #[trigger] found(rid, g) && !born(g) && *g.tuple == t }
}
pub open spec fn may_stamp(rid: RID, m: TupleMeta) -> bool {
    if mode() == 1 { row_of(rid) matches Some(x) && x.0.creator_txn_id == me() && m == (TupleMeta { commit_timestamp: Some(my_commit_ts()), ..x.0 }) }
    else { mode() == 2 && (restores(rid, m) || (m == dead_row() && inserted(rid))) }
}
pub open spec fn dead_row() -> TupleMeta { TupleMeta { creator_txn_id: me(), commit_timestamp: None, deleted: true, undo_log_idx: None } }
// ---- abort: the version the transaction found when it first wrote the row
pub open spec fn mine_next(l: UndoLog) -> bool { l.prev_version.valid() && l.prev_version.prev_txn == me() }
pub open spec fn first_of(l: UndoLog, n: nat) -> Option<UndoLog> decreases n {
    if !mine_next(l) { Some(l) } else { match log_of(l.prev_version) { None => Some(l), Some(p) => if n == 0 { None } else { first_of(p, (n - 1) as nat) } } } }
pub open spec fn found(rid: RID, l: UndoLog) -> bool { head_of(rid) matches Some(h) && log_of(h) matches Some(g) && exists|n: nat| #[trigger] first_of(g, n) == Some(l) }
pub open spec fn born(l: UndoLog) -> bool { l.ts == INVALID_TS && l.prev_version.prev_txn == me() }
pub open spec fn inserted(rid: RID) -> bool { head_of(rid) is None || exists|l: UndoLog| #[trigger] found(rid, l) && born(l) }
pub open spec fn restores(rid: RID, m: TupleMeta) -> bool { exists|l: UndoLog| #[trigger] found(rid, l) && !born(l) && m == kept(l) }
pub open spec fn next_of(l: UndoLog) -> Option<UndoLink> { if l.prev_version.valid() { Some(l.prev_version) } else { None } }
pub open spec fn may_link(rid: RID, k: Option<UndoLink>) -> bool {
    if mode() == 0 { k is Some && exists|g: UndoLog| #[trigger] logged(k->0, g) && row_of(rid) is Some && keeps(g, row_m(rid), row_t(rid), rid) }
    else { mode() == 2 && exists|l: UndoLog| #[trigger] found(rid, l) && k == if born(l) { None } else { next_of(l) } }
}
// every log of the chain of a row names the row
pub open spec fn logs_name(rid: RID) -> bool { (head_of(rid) matches Some(h) ==> (log_of(h) matches Some(g) ==> own_named(g, rid))) }
pub open spec fn own_named(g: UndoLog, rid: RID) -> bool { forall|n: nat| (#[trigger] first_of(g, n)) matches Some(l) ==> (l.original_rid matches Some(r) ==> r == rid) }
pub struct TransactionalTableHeap { pub table_heap: Arc<TableHeap>, pub table_oid: TableOidT }
impl TransactionalTableHeap {
//@fn tt TransactionalTableHeap::get_table_heap
ensures res == self.table_heap,
//@endfn
//@fn tt TransactionalTableHeap::rollback_tuple
//@rewrite /\.map\(\|_vp\| \(\)\)/.vp_unit()/
requires may_store(rid, *meta, *tuple),
ensures res.is_ok() ==> stored(rid, *meta, *tuple), res.is_err() ==> given_up(rid),
//@endfn
//@fn tt TransactionalTableHeap::insert_tuple
requires mode() == 0, me() == txn_ctx.txn().txn_id,
ensures res matches Ok(rid) ==> txn_ctx.txn().state == TransactionState::Running && fresh_meta(*meta) && stored(rid, *meta, *tuple) && recorded(self.table_oid, rid),
//@endfn
//@fn tt TransactionalTableHeap::update_tuple
requires mode() == 0, me() == txn_ctx.txn().txn_id, meta.creator_txn_id == me(), row_of(rid) matches Some(x) ==> x.1.cols() == tuple.cols(),
ensures res matches Ok(r) ==> r == rid && txn_ctx.txn().state == TransactionState::Running && recorded(self.table_oid, rid)
    && row_of(rid) is Some && !row_m(rid).deleted && (row_m(rid).creator_txn_id == me() || row_m(rid).commit_timestamp is Some)
    && exists|m: TupleMeta| #[trigger] stored(rid, m, *tuple) && m.creator_txn_id == me() && m.commit_timestamp is None && !m.deleted,
//@before /let undo_link = /
let ghost g0 = undo_log;
//@before /txn_manager\.update_undo_link/
proof { assert(logged(undo_link, g0)); assert(g0.prev_version == prev_of(row_m(rid)));  assert(g0.original_rid == Some(rid));
assert(g0.ts == (match row_m(rid).commit_timestamp { Some(c) => c, None => INVALID_TS })); assert(*g0.tuple == row_t(rid)); assert(g0.modified_fields@.len() == row_t(rid).cols()); assert(keeps(g0, row_m(rid), row_t(rid), rid)); assert(row_of(rid) is Some); assert(mode() == 0); let k = Some(undo_link); assert(logged(k->0, g0)); assert(exists|g: UndoLog| #[trigger] logged(k->0, g)); assert(exists|g: UndoLog| #[trigger] logged(k->0, g) && row_of(rid) is Some); assert(exists|g: UndoLog| #[trigger] logged(k->0, g) && row_of(rid) is Some && keeps(g, row_m(rid), row_t(rid), rid)); assert(may_link(rid, k)); }
//@endfn
//@fn tt TransactionalTableHeap::delete_tuple
requires mode() == 0, me() == txn_ctx.txn().txn_id,
ensures res matches Ok(_) ==> txn_ctx.txn().state == TransactionState::Running && recorded(self.table_oid, rid)
    && row_of(rid) is Some && !row_m(rid).deleted && (row_m(rid).creator_txn_id == me() || row_m(rid).commit_timestamp is Some)
    && exists|m: TupleMeta| #[trigger] stored(rid, m, row_t(rid)) && m.creator_txn_id == me() && m.commit_timestamp is None && m.deleted,
//@before /let undo_link = /
let ghost g0 = undo_log;
//@before /txn_manager\.update_undo_link/
proof { assert(logged(undo_link, g0)); assert(g0.prev_version == prev_of(row_m(rid)));  assert(g0.original_rid == Some(rid));
assert(g0.ts == (match row_m(rid).commit_timestamp { Some(c) => c, None => INVALID_TS })); assert(*g0.tuple == row_t(rid)); assert(g0.modified_fields@.len() == row_t(rid).cols()); assert(keeps(g0, row_m(rid), row_t(rid), rid)); assert(row_of(rid) is Some); assert(mode() == 0); let k = Some(undo_link); assert(logged(k->0, g0)); assert(exists|g: UndoLog| #[trigger] logged(k->0, g)); assert(exists|g: UndoLog| #[trigger] logged(k->0, g) && row_of(rid) is Some); assert(exists|g: UndoLog| #[trigger] logged(k->0, g) && row_of(rid) is Some && keeps(g, row_m(rid), row_t(rid), rid)); assert(may_link(rid, k)); }
//@endfn
}
pub open spec fn commit_done(oid: TableOidT, rid: RID) -> bool { no_table(oid) || given_up(rid) || (row_of(rid) is Some && row_m(rid).creator_txn_id != me()) || exists|m: TupleMeta| #[trigger] stamped(rid, m) }
pub open spec fn log_lost(rid: RID) -> bool { head_of(rid) matches Some(h) && log_of(h) is None }
pub open spec fn abort_done(oid: TableOidT, rid: RID) -> bool {
    no_table(oid) || given_up(rid) || log_lost(rid) || (inserted(rid) && exists|m: TupleMeta| #[trigger] stamped(rid, m))
    || (exists|m: TupleMeta, t: Tuple| #[trigger] stored(rid, m, t)) && (exists|k: Option<UndoLink>| #[trigger] linked(rid, k)) }
pub open spec fn over(s: TransactionState) -> bool { s == TransactionState::Committed || s == TransactionState::Aborted }
impl TransactionManager {
    #[verifier::external_body] pub fn get_undo_link(&self, rid: RID) -> (r: Option<UndoLink>) ensures r == head_of(rid), { unimplemented!() }
    #[verifier::external_body] pub fn get_undo_log(&self, link: UndoLink) -> (r: Result<Arc<UndoLog>, String>) ensures r.is_ok() == log_of(link).is_some(), r matches Ok(l) ==> log_of(link) == Some(*l), { unimplemented!() }
    #[verifier::external_body] pub fn update_undo_link(&self, rid: RID, k: Option<UndoLink>, c: Option<u8>) -> (r: bool) requires c is None, may_link(rid, k), ensures linked(rid, k), { unimplemented!() }
    #[verifier::external_body] pub fn get_table_heap(&self, oid: TableOidT) -> (r: Option<Arc<TransactionalTableHeap>>) ensures r is None ==> no_table(oid), { unimplemented!() }
    #[verifier::external_body] pub fn prune_completed_transactions(&self) { unimplemented!() }
//@fn tm TransactionManager::commit extern=get_table_heap,prune_completed_transactions
requires mode() == 1, me() == txn.txn_id,
ensures res == (txn.state != TransactionState::Aborted),
    !over(txn.state) ==> txn.committed_as(my_commit_ts()) && forall|i: int| 0 <= i < work().len() ==> commit_done((#[trigger] work()[i]).0, work()[i].1),
//@sig
pub fn commit(&self, txn: Arc<Transaction>, _bpm: Arc<BufferPoolManager>) -> bool
//@loop 0
invariant mode() == 1, me() == txn.txn_id, write_set@ == work(), txn.committed_as(my_commit_ts()), forall|i: int| 0 <= i < vp_i ==> commit_done((#[trigger] work()[i]).0, work()[i].1),
//@endfn
//@fn tm TransactionManager::mark_insert_aborted
requires mode() == 2, me() == txn.txn_id, inserted(rid),
ensures given_up(rid) || exists|m: TupleMeta| #[trigger] stamped(rid, m),
//@endfn
//@fn tm TransactionManager::abort attr=#[verifier::exec_allows_no_decreases_clause] extern=get_table_heap,prune_completed_transactions,get_undo_link,get_undo_log,update_undo_link
//@rewrite /Ok\(log\) => undo_log = log,/Ok(log) => { undo_log = log; }/
requires mode() == 2, me() == txn.txn_id, forall|i: int| 0 <= i < work().len() ==> logs_name((#[trigger] work()[i]).1),
ensures
    !over(txn.state) ==> txn.state_set(TransactionState::Aborted) && unregistered(txn.read_ts) && forall|i: int| 0 <= i < work().len() ==> abort_done((#[trigger] work()[i]).0, work()[i].1),
//@loop 0
invariant mode() == 2, me() == txn.txn_id, write_set@ == work(), vp_n <= write_set.len(), forall|i: int| 0 <= i < vp_n ==> abort_done((#[trigger] work()[i]).0, work()[i].1), forall|i: int| 0 <= i < work().len() ==> logs_name((#[trigger] work()[i]).1),
//@afterloop 0
;
//@beforeloop 1
let ghost mut k: nat = 0;
let ghost g0 = match log_of(undo_link) { Some(g) => g, None => arbitrary() };
//@loop 1
invariant_except_break
    forall|n: nat| #[trigger] first_of(*undo_log, n) == first_of(g0, (n + k) as nat),
invariant
    log_of(undo_link) == Some(g0), head_of(rid) == Some(undo_link), me() == txn.txn_id, mode() == 2, write_set@ == work(), 1 <= vp_n <= work().len(), work()[vp_n - 1] == (table_oid, rid), logs_name(rid),
    forall|i: int| 0 <= i < vp_n - 1 ==> abort_done((#[trigger] work()[i]).0, work()[i].1), forall|i: int| 0 <= i < work().len() ==> logs_name((#[trigger] work()[i]).1),
ensures found(rid, *undo_log), undo_log.original_rid matches Some(r) ==> r == rid,
//@loopstart 1
proof { assert(first_of(*undo_log, 0) == first_of(g0, (0 + k) as nat)); }
//@before /undo_log = log;/
proof { assert forall|n: nat| #[trigger] first_of(*log, n) == first_of(g0, (n + (k + 1)) as nat) by { assert(first_of(*undo_log, (n + 1) as nat) == first_of(g0, (n + 1 + k) as nat)); }
    k = k + 1; }
//@endfn
//@fn tm TransactionManager::is_still_needed
ensures
    !over(txn.state) ==> res,
    txn.state == TransactionState::Committed ==> res == (txn.cts() == 0 || txn.cts() >= watermark),
    txn.state == TransactionState::Aborted ==> res == (txn.read_ts >= watermark),
//@endfn
}
fn main() {}
}
