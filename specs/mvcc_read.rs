//@source tu src/storage/table/tuple.rs
//@source tx src/concurrency/transaction.rs
//@source th src/storage/table/table_heap.rs
//@source tt src/storage/table/transactional_table_heap.rs
//@source rid src/common/rid.rs
//@source cfg src/common/config.rs
//@opt strings=vp_string()
//@opt rlimit=40
//@rewrite /RwLock<(\w+)>/\1/
//@rewrite /\*self\.(\w+)\.read\(\)/self.\1/
//@rewrite /Arc::from\(/Arc::new(/
//@rewrite /Timestamp::MAX/u64::MAX/
//@rewrite /while let Some\(ref undo_link\) = current_link \{/while current_link.is_some() {\nlet undo_link = current_link.unwrap();/
//@rewrite /\.is_none_or\(\|commit_ts\| commit_ts > read_ts\)/.vp_none_or_after(read_ts)/
//@rewrite /\.is_some_and\(\|ts\| ts <= read_ts\)/.vp_some_upto(read_ts)/
//@rewrite /warn!\((?:[^()]|\([^()]*\))*\);//
//@include inc_mvcc.rs
#[verifier::external_body] pub struct TransactionManager;
impl TransactionManager {
    pub uninterp spec fn link_of(&self, rid: RID) -> Option<UndoLink>;
    pub uninterp spec fn log_of(&self, link: UndoLink) -> Option<UndoLog>;
    #[verifier::external_body] pub fn get_undo_link(&self, rid: RID) -> (r: Option<UndoLink>) ensures r == self.link_of(rid), { unimplemented!() }
    #[verifier::external_body] pub fn get_undo_log_optional(&self, link: UndoLink) -> (r: Option<Arc<UndoLog>>) ensures r.is_some() == self.log_of(link).is_some(), r matches Some(l) ==> self.log_of(link) == Some(*l), { unimplemented!() }
    #[verifier::external_body] pub fn get_undo_log(&self, link: UndoLink) -> (r: Result<Arc<UndoLog>, String>) ensures r.is_ok() == self.log_of(link).is_some(), r matches Ok(l) ==> self.log_of(link) == Some(*l), { unimplemented!() }
}
#[verifier::external_body] pub struct TransactionContext;
impl TransactionContext {
    pub uninterp spec fn txn(&self) -> Transaction;
    pub uninterp spec fn tm(&self) -> TransactionManager;
    #[verifier::external_body] pub fn get_transaction(&self) -> (r: Arc<Transaction>) ensures *r == self.txn(), { unimplemented!() }
    #[verifier::external_body] pub fn get_transaction_manager(&self) -> (r: Arc<TransactionManager>) ensures *r == self.tm(), { unimplemented!() }
}
// ---- the answer of a read: newest version in the chain the reader may see
pub enum Answer { Row(TupleMeta, Arc<Tuple>), Absent }
pub open spec fn of(m: TupleMeta, t: Arc<Tuple>, me: u64, ts: u64) -> Option<Answer> {
    match status(m, me, ts) { TupleVisibility::Visible => Some(Answer::Row(m, t)), TupleVisibility::Deleted => Some(Answer::Absent), TupleVisibility::Invisible => None } }
pub open spec fn next_of(l: UndoLog) -> Option<UndoLink> { if l.prev_version.valid() { Some(l.prev_version) } else { None } }
// None: the chain goes on past `fuel` versions
pub open spec fn walk(tm: TransactionManager, link: Option<UndoLink>, me: u64, ts: u64, fuel: nat) -> Option<Answer> decreases fuel {
    match link { None => Some(Answer::Absent), Some(k) => if fuel == 0 { None } else {
        match tm.log_of(k) { None => Some(Answer::Absent), Some(l) => match of(kept(l), l.tuple, me, ts) { Some(a) => Some(a), None => walk(tm, next_of(l), me, ts, (fuel - 1) as nat) } } } } }
pub open spec fn chain(tm: TransactionManager, rid: RID, me: u64, ts: u64, m: TupleMeta, t: Arc<Tuple>, a: Answer) -> bool {
    match of(m, t, me, ts) { Some(b) => a == b, None => exists|n: nat| #[trigger] walk(tm, tm.link_of(rid), me, ts, n) == Some(a) } }
pub open spec fn answer(r: Result<(Arc<TupleMeta>, Arc<Tuple>), String>) -> Answer { match r { Ok((m, t)) => Answer::Row(*m, t), Err(_) => Answer::Absent } }
// the answer under an isolation level, given the newest version
pub open spec fn reads(tm: TransactionManager, rid: RID, tx: Transaction, m: TupleMeta, t: Arc<Tuple>, a: Answer) -> bool {
    match tx.isolation_level {
        IsolationLevel::ReadUncommitted => a == if m.deleted { Answer::Absent } else { Answer::Row(m, t) },
        _ => chain(tm, rid, tx.txn_id, horizon(tx), m, t, a),
    } }
// two walks that both come to an end agree: the answer is a function of the chain
pub proof fn lemma_walk_fun(tm: TransactionManager, link: Option<UndoLink>, me: u64, ts: u64, a: nat, b: nat)
    requires walk(tm, link, me, ts, a).is_some(), walk(tm, link, me, ts, b).is_some(), ensures walk(tm, link, me, ts, a) == walk(tm, link, me, ts, b), decreases a
{ if a > 0 && b > 0 { match link { None => {}, Some(k) => match tm.log_of(k) { None => {}, Some(l) => { if of(kept(l), l.tuple, me, ts).is_none() { lemma_walk_fun(tm, next_of(l), me, ts, (a - 1) as nat, (b - 1) as nat); } } } } } }
// no committed-after, no foreign uncommitted version is ever the answer of a snapshot read
pub proof fn lemma_walk_sound(tm: TransactionManager, link: Option<UndoLink>, me: u64, ts: u64, n: nat)
    ensures walk(tm, link, me, ts, n) matches Some(Answer::Row(m, t)) ==> seen(m, me, ts) && !m.deleted, decreases n
{ if n > 0 { match link { None => {}, Some(k) => match tm.log_of(k) { None => {}, Some(l) => { lemma_walk_sound(tm, next_of(l), me, ts, (n - 1) as nat); } } } } }
pub proof fn lemma_reads_sound(tm: TransactionManager, rid: RID, tx: Transaction, m: TupleMeta, t: Arc<Tuple>, a: Answer)
    requires reads(tm, rid, tx, m, t, a),
    ensures a matches Answer::Row(v, u) ==> !v.deleted && level_sees(tx, v),
{
    if tx.isolation_level != IsolationLevel::ReadUncommitted {
        let ts = horizon(tx);
        if of(m, t, tx.txn_id, ts).is_none() { let n = choose|n: nat| #[trigger] walk(tm, tm.link_of(rid), tx.txn_id, ts, n) == Some(a); lemma_walk_sound(tm, tm.link_of(rid), tx.txn_id, ts, n); }
    }
}
#[verifier::external_body] pub struct TPage;
impl TPage { pub uninterp spec fn row(&self, rid: RID) -> Option<(TupleMeta, Tuple)>;
    #[verifier::external_body] pub fn get_tuple(&self, rid: &RID, allow_deleted: bool) -> (r: Result<(TupleMeta, Tuple), String>)
        ensures r.is_ok() == (self.row(*rid) matches Some(x) && (allow_deleted || !x.0.deleted)), r matches Ok(x) ==> self.row(*rid) == Some(x), { unimplemented!() } }
#[verifier::external_body] pub struct PageGuard;
impl PageGuard { pub uninterp spec fn page(&self) -> TPage;
    #[verifier::external_body] pub fn read(&self) -> (r: &TPage) ensures *r == self.page(), { unimplemented!() } }
#[verifier::external_body] pub struct TableHeap;
impl TableHeap {
    pub uninterp spec fn page(&self, id: PageId) -> Option<TPage>;
    pub open spec fn row(&self, rid: RID) -> Option<(TupleMeta, Tuple)> { match self.page(rid.page_id) { None => None, Some(p) => p.row(rid) } }
    #[verifier::external_body] pub fn get_page(&self, id: PageId) -> (r: Result<PageGuard, String>) ensures r.is_ok() == self.page(id).is_some(), r matches Ok(g) ==> self.page(id) == Some(g.page()), { unimplemented!() }
//@fn th TableHeap::get_tuple_internal extern=get_page
ensures res.is_ok() == (self.row(rid) matches Some(x) && (allow_deleted || !x.0.deleted)), res matches Ok((m, t)) ==> self.row(rid) == Some((*m, *t)),
//@endfn
//@fn th TableHeap::get_tuple_with_txn extern=get_page attr=#[verifier::exec_allows_no_decreases_clause]#[verifier::loop_isolation(false)]
ensures
    self.row(rid) is None ==> res.is_err(),
    self.row(rid) matches Some((m, t)) ==> (m.creator_txn_id == txn_ctx.txn().txn_id && answer(res) == (if m.deleted { Answer::Absent } else { Answer::Row(m, Arc::new(t)) })) || (m.creator_txn_id != txn_ctx.txn().txn_id && reads(txn_ctx.tm(), rid, txn_ctx.txn(), m, Arc::new(t), answer(res))),
//@beforeloop 0
let ghost start = current_link;
let ghost mut k: nat = 0;
//@loop 0
invariant
    *txn_manager == txn_ctx.tm(), start == txn_ctx.tm().link_of(rid), txn_id == txn_ctx.txn().txn_id, read_ts == horizon(txn_ctx.txn()), forall|n: nat| #[trigger] walk(txn_ctx.tm(), current_link, txn_id, read_ts, n) == walk(txn_ctx.tm(), start, txn_id, read_ts, (n + k) as nat),
//@loopstart 0
proof { assert(walk(txn_ctx.tm(), current_link, txn_id, read_ts, 0) == walk(txn_ctx.tm(), start, txn_id, read_ts, (0 + k) as nat)); assert(walk(txn_ctx.tm(), current_link, txn_id, read_ts, 1) == walk(txn_ctx.tm(), start, txn_id, read_ts, (1 + k) as nat)); }
let ghost cl = current_link;
//@afterloop 0
proof { assert(walk(txn_ctx.tm(), current_link, txn_id, read_ts, 0) == walk(txn_ctx.tm(), start, txn_id, read_ts, (0 + k) as nat)); assert(walk(txn_ctx.tm(), start, txn_id, read_ts, k) == Some(Answer::Absent)); }
//@loopend 0
proof {
    assert forall|n: nat| #[trigger] walk(txn_ctx.tm(), current_link, txn_id, read_ts, n) == walk(txn_ctx.tm(), start, txn_id, read_ts, (n + (k + 1)) as nat) by {
        assert(walk(txn_ctx.tm(), cl, txn_id, read_ts, (n + 1) as nat) == walk(txn_ctx.tm(), start, txn_id, read_ts, (n + 1 + k) as nat));
    }
    k = k + 1;
}
//@endfn
}
pub struct TransactionalTableHeap { pub table_heap: Arc<TableHeap> }
impl TransactionalTableHeap {
//@fn tt TransactionalTableHeap::get_visible_version attr=#[verifier::exec_allows_no_decreases_clause]#[verifier::loop_isolation(false)]
requires txn.isolation_level != IsolationLevel::ReadUncommitted,
ensures chain(*txn_manager, rid, txn.txn_id, horizon(*txn), *meta, tuple, answer(res)),
//@beforeloop 0
let ghost start = current_link;
let ghost mut k: nat = 0;
//@loop 0
invariant
    forall|n: nat| #[trigger] walk(*txn_manager, current_link, txn_id, read_ts, n) == walk(*txn_manager, start, txn_id, read_ts, (n + k) as nat),
//@loopstart 0
proof { assert(walk(*txn_manager, current_link, txn_id, read_ts, 0) == walk(*txn_manager, start, txn_id, read_ts, (0 + k) as nat)); assert(walk(*txn_manager, current_link, txn_id, read_ts, 1) == walk(*txn_manager, start, txn_id, read_ts, (1 + k) as nat)); }
let ghost cl = current_link;
//@afterloop 0
proof { assert(walk(*txn_manager, current_link, txn_id, read_ts, 0) == walk(*txn_manager, start, txn_id, read_ts, (0 + k) as nat)); assert(walk(*txn_manager, start, txn_id, read_ts, k) == Some(Answer::Absent)); }
//@loopend 0
proof {
    assert forall|n: nat| #[trigger] walk(*txn_manager, current_link, txn_id, read_ts, n) == walk(*txn_manager, start, txn_id, read_ts, (n + (k + 1)) as nat) by {
        assert(walk(*txn_manager, cl, txn_id, read_ts, (n + 1) as nat) == walk(*txn_manager, start, txn_id, read_ts, (n + 1 + k) as nat));
    }
    k = k + 1;
}
//@before /continue;/
proof {
    assert forall|n: nat| #[trigger] walk(*txn_manager, current_link, txn_id, read_ts, n) == walk(*txn_manager, start, txn_id, read_ts, (n + (k + 1)) as nat) by {
        assert(walk(*txn_manager, cl, txn_id, read_ts, (n + 1) as nat) == walk(*txn_manager, start, txn_id, read_ts, (n + 1 + k) as nat));
    }
    k = k + 1;
}
//@endfn
//@fn tt TransactionalTableHeap::get_tuple
ensures
    self.table_heap.row(rid) is None ==> res.is_err(),
    self.table_heap.row(rid) matches Some((m, t)) ==> reads(txn_ctx.tm(), rid, txn_ctx.txn(), m, Arc::new(t), answer(res)),
//@endfn
}
fn main() {}
}
