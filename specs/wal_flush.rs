use vstd::prelude::*;
use std::sync::Arc;
verus! {
broadcast use vstd::std_specs::vec::group_vec_axioms;
global size_of usize == 8;
//@include inc_bytes.rs
//@include inc_file.rs
//@include inc_exec.rs
//@include inc_wal.rs
//@source lm src/recovery/log_manager.rs
//@source wm src/recovery/wal_manager.rs
//@source tx src/concurrency/transaction.rs
//@rewrite /Arc<LogRecord>/LogRecord/
//@rewrite /Arc::new\((LogRecord::\w+\(.*?\))\)(?=;)/\1/
//@rewrite /Arc<LogManagerState>/LogManagerState/
//@rewrite /Arc<RwLock<LogManager>>/LogManager/
//@rewrite /Mutex<Option<mpsc::Receiver<LogRecord>>>/Option<Receiver>/
//@rewrite /mpsc::Sender<LogRecord>/Sender/
//@rewrite /AtomicBool/VpFlag/
//@rewrite /tokio::sync::mpsc::error:://
//@rewrite /thread::sleep\(Duration::from_\w+\(\d+\)\);//
//@rewrite /RwLock<(\w+)>/\1/
//@rewrite /\*self\.(\w+)\.read\(\)/self.\1/
//@rewrite /let mut log_manager = self\.log_manager\.write\(\)/let log_manager = &mut self.log_manager/
//@rewrite /\bfn (write_\w+_record|perform_flush)(\s*\(\s*)&self\b/fn \1\2&mut self/
//@assumed io_exec
impl IOOperationExecutor {
//@fn exec IOOperationExecutor::execute_operation_type
requires op_ok(*old(self), operation_type),
ensures done(*old(self), operation_type, *final(self), res),
//@endfn
}
//@assumed wal_log
//@include inc_wal_fns.rs
//@proved
impl Clone for LogRecord { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
pub struct VpFlag { pub v: bool }
impl VpFlag { pub fn store(&mut self, x: bool, o: Ordering) ensures final(self).v == x, { self.v = x; } }
// the queue between appenders and the flush thread (tokio's mpsc): sent keeps everything ever accepted, got everything ever handed out
pub enum TrySendError<T> { Full(T), Closed(T) }
pub struct RecvError;
pub struct Sender { pub sent: Ghost<Seq<LogRecord>> }
impl Sender {
    #[verifier::external_body]
    pub fn try_send(&mut self, r: LogRecord) -> (res: Result<(), TrySendError<LogRecord>>)
        ensures res is Ok ==> final(self).sent@ == old(self).sent@.push(r), res matches Err(TrySendError::Full(b)) ==> b == r, res is Err ==> final(self).sent@ == old(self).sent@, res matches Err(TrySendError::Closed(b)) ==> closed_once(),
    { unimplemented!() }
}
pub uninterp spec fn closed_once() -> bool;
// records are sent in the order of their LSNs (append_log_record), so they arrive in that order
pub open spec fn in_order(s: Seq<LogRecord>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].lsn.v < #[trigger] s[j].lsn.v }
pub open spec fn queued(r: LogRecord) -> bool { storable(r) && r.lsn.v != INVALID_LSN }
pub struct Receiver { pub got: Ghost<Seq<LogRecord>> }
impl Receiver {
    pub open spec fn next(&self, o: &Self, r: LogRecord) -> bool { self.got@ == o.got@.push(r) && queued(r) && (in_order(o.got@) ==> in_order(self.got@)) }
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (res: Result<LogRecord, RecvError>) ensures res matches Ok(r) ==> final(self).next(old(self), r), res is Err ==> final(self).got@ == old(self).got@, { unimplemented!() }
    // timeout(interval, receiver.recv()): a record, the end of the channel, or nothing for now
    #[verifier::external_body]
    pub fn vp_recv_timeout(&mut self) -> (res: Result<Option<LogRecord>, RecvError>) ensures res matches Ok(Some(r)) ==> final(self).next(old(self), r), !(res matches Ok(Some(_))) ==> final(self).got@ == old(self).got@, { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_max_lsn(v: &Vec<LogRecord>) -> (r: u64) requires v@.len() > 0, ensures exists|i: int| 0 <= i < v@.len() && r == v@[i].lsn.v, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i].lsn.v <= r, { unimplemented!() }
// what another thread last stored; a value read stays a fact about the past
pub uninterp spec fn was_persistent(v: u64) -> bool;
pub uninterp spec fn was_stopped() -> bool;
#[verifier::external_body] pub fn vp_persistent(c: &VpCell) -> (r: u64) ensures was_persistent(r), { unimplemented!() }
#[verifier::external_body] pub fn vp_stopped(c: &VpFlag) -> (r: bool) ensures r ==> was_stopped(), { unimplemented!() }
//@const lm MAX_LOG_RECORD_SIZE
//@struct lm LogManagerState drop=flush_thread
//@struct lm LogManager drop=runtime_handle
pub open spec fn pre(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
impl LogManagerState {
    pub open spec fn log(&self) -> Seq<u8> { self.disk_manager.log() }
    pub open spec fn ok(&self) -> bool { self.disk_manager.io_engine.executor.page_ok() }
    pub open spec fn on_disk(&self, b: Seq<u8>) -> bool { self.disk_manager.config.fsync_policy is Never || pre(b, self.disk_manager.lf().synced@) }
}
// the first n records received are in the log behind log0, on the device, and the persistent LSN is the last of them
pub open spec fn safe_at(s: LogManagerState, log0: Seq<u8>, p0: u64, got: Seq<LogRecord>, n: int) -> bool {
    &&& 0 <= n <= got.len()
    &&& s.persistent_lsn.v == (if n == 0 { p0 } else { got[n - 1].lsn.v })
    &&& pre(log0 + laid(got.take(n)), s.log())
    &&& n > 0 ==> s.on_disk(log0 + laid(got.take(n)))
}
pub proof fn lemma_laid_add(a: Seq<LogRecord>, b: Seq<LogRecord>) ensures laid(a + b) == laid(a) + laid(b), decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(laid(a) + laid(b) =~= laid(a)); }
    else { lemma_laid_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(laid(a + b) =~= laid(a) + laid(b)); }
}
// a batch written as a whole: everything received is in the log and called persistent
pub proof fn lemma_batch(s0: LogManagerState, s: LogManagerState, l: Seq<u8>, p: u64, g0: Seq<LogRecord>, g: Seq<LogRecord>)
    requires s0.log() == l + laid(g0), g0.len() < g.len(), g.take(g0.len() as int) == g0, s.log() == s0.log() + laid(g.subrange(g0.len() as int, g.len() as int)), s.disk_manager.durable(), s.persistent_lsn.v == g.last().lsn.v,
    ensures s.log() == l + laid(g), safe_at(s, l, p, g, g.len() as int),
{
    assert(g0 + g.subrange(g0.len() as int, g.len() as int) =~= g);
    lemma_laid_add(g0, g.subrange(g0.len() as int, g.len() as int));
    assert(s.log() =~= l + laid(g)); assert(g.take(g.len() as int) =~= g);
}
// a batch that failed: what was persistent before still is, and nothing more is called persistent
pub proof fn lemma_lost(s0: LogManagerState, s: LogManagerState, l: Seq<u8>, p: u64, g0: Seq<LogRecord>, g: Seq<LogRecord>)
    requires safe_at(s0, l, p, g0, g0.len() as int), g0.len() <= g.len(), g.take(g0.len() as int) == g0, s.persistent_lsn == s0.persistent_lsn, pre(s0.log(), s.log()), s.disk_manager.lf().synced == s0.disk_manager.lf().synced, s.disk_manager.config == s0.disk_manager.config,
    ensures safe_at(s, l, p, g, g0.len() as int),
{
    assert(g0.take(g0.len() as int) =~= g0);
    if g0.len() > 0 { assert(g[g0.len() - 1] == g.take(g0.len() as int)[g0.len() - 1]); }
}
impl LogManager {
//@fn lm LogManager::perform_flush
//@rewrite /state: &LogManagerState/state: &mut LogManagerState/
//@rewrite /let disk_manager = Arc::clone\(&state\.disk_manager\);//
//@hole /async \{/ Self::write_all_of(&mut state.disk_manager, records)
requires old(state).ok(), forall|i: int| 0 <= i < records@.len() ==> storable(#[trigger] records@[i]),
ensures final(state).ok(), final(state).disk_manager.config == old(state).disk_manager.config, final(state).next_lsn == old(state).next_lsn, final(state).sender == old(state).sender,
    res ==> final(state).log() == old(state).log() + laid(records@) && final(state).stop_flag == old(state).stop_flag,
    res && records@.len() > 0 ==> final(state).disk_manager.durable() && (max_lsn != INVALID_LSN ==> final(state).persistent_lsn.v == max_lsn),
    res && records@.len() == 0 ==> *final(state) == *old(state),
    !res ==> !healthy() && final(state).stop_flag.v && final(state).persistent_lsn == old(state).persistent_lsn && pre(old(state).log(), final(state).log()) && final(state).disk_manager.lf().synced == old(state).disk_manager.lf().synced,
//@start
proof { if records@.len() == 0 { assert(state.log() + laid(records@) =~= state.log()); } }
//@endfn
//@fn lm LogManager::perform_flush
//@at /async \{/
//@rewrite /for record in records \{/let mut vp_n: usize = 0; while vp_n < records.len() { let record = &records[vp_n]; vp_n += 1; /
//@rewrite /\(&record\)/(record)/
requires old(disk_manager).io_engine.executor.page_ok(), records@.len() > 0, forall|i: int| 0 <= i < records@.len() ==> storable(#[trigger] records@[i]),
ensures final(disk_manager).kept(old(disk_manager)),
    res is Ok ==> final(disk_manager).log() == old(disk_manager).log() + laid(records@) && final(disk_manager).durable(),
    res is Err ==> !healthy() && pre(old(disk_manager).log(), final(disk_manager).log()) && final(disk_manager).lf().synced == old(disk_manager).lf().synced,
//@loop 0
invariant vp_n <= records@.len(), disk_manager.kept(old(disk_manager)), disk_manager.io_engine.executor.page_ok(), disk_manager.lf().synced == old(disk_manager).lf().synced,
    forall|i: int| 0 <= i < records@.len() ==> storable(#[trigger] records@[i]),
    disk_manager.log() == old(disk_manager).log() + laid(records@.take(vp_n as int)), vp_n > 0 ==> disk_manager.lf().flushed@,
    pre(old(disk_manager).log(), disk_manager.log()),
decreases records@.len() - vp_n,
//@loopstart 0
let ghost l0 = disk_manager.log(); let ghost n0 = vp_n as int;
//@loopend 0
proof {
    assert(records@.take(n0 + 1).drop_last() =~= records@.take(n0)); assert(records@.take(n0 + 1).last() == records@[n0]);
    assert(disk_manager.log() =~= old(disk_manager).log() + laid(records@.take(n0 + 1)));
}
//@beforeloop 0
proof { assert(records@.take(0) =~= Seq::empty()); assert(disk_manager.log() + laid(records@.take(0)) =~= disk_manager.log()); }
//@afterloop 0
proof { assert(records@.take(records@.len() as int) =~= records@); }
//@sig
pub fn write_all_of(disk_manager: &mut AsyncDiskManager, records: Vec<LogRecord>) -> IoResult<()>
//@endfn
//@fn lm LogManager::run_flush_thread attr=#[verifier::exec_allows_no_decreases_clause]
//@at /self\.runtime_handle\.spawn\(async move \{/
//@rewrite /state\.stop_flag\.load\(Ordering::SeqCst\)/vp_stopped(&state.stop_flag)/
//@rewrite /timeout\(flush_interval, receiver\.recv\(\)\)/receiver.vp_recv_timeout()/
//@rewrite /let flush_interval = Duration::from_millis\(10\);//
//@rewrite /while let Ok\(record\) = receiver\.try_recv\(\) \{/loop { let Ok(record) = receiver.try_recv() else { break };/
//@rewrite /Self::perform_flush\(&state,/Self::perform_flush(state,/
//@rewrite /final_records\s*\.iter\(\)\s*\.map\(\|r\| r\.get_lsn\(\)\)\s*\.max\(\)\s*\.unwrap_or\(INVALID_LSN\)/vp_max_lsn(&final_records)/
requires old(state).ok(), old(receiver).got@.len() == 0,
ensures exists|n: int| #[trigger] safe_at(*final(state), old(state).log(), old(state).persistent_lsn.v, final(receiver).got@, n) && (healthy() ==> n == final(receiver).got@.len() && final(state).log() == old(state).log() + laid(final(receiver).got@)),
//@loop 0
invariant state.ok(), state.disk_manager.config == old(state).disk_manager.config, in_order(receiver.got@), forall|i: int| 0 <= i < receiver.got@.len() ==> queued(#[trigger] receiver.got@[i]),
    state.log() == old(state).log() + laid(receiver.got@), safe_at(*state, old(state).log(), old(state).persistent_lsn.v, receiver.got@, receiver.got@.len() as int),
//@loopstart 0
let ghost g0 = receiver.got@; let ghost s0 = *state;
//@loopend 0
proof { if receiver.got@.len() > g0.len() { lemma_batch(s0, *state, old(state).log(), old(state).persistent_lsn.v, g0, receiver.got@); } }
//@before /return;/
proof { lemma_lost(s0, *state, old(state).log(), old(state).persistent_lsn.v, g0, receiver.got@); assert(safe_at(*state, old(state).log(), old(state).persistent_lsn.v, receiver.got@, g0.len() as int)); }
//@loop 1
invariant *state == s0, in_order(receiver.got@), forall|i: int| 0 <= i < receiver.got@.len() ==> queued(#[trigger] receiver.got@[i]), g0.len() < receiver.got@.len(), receiver.got@.take(g0.len() as int) == g0,
    records_to_flush@ == receiver.got@.subrange(g0.len() as int, receiver.got@.len() as int), max_lsn_in_batch == receiver.got@.last().lsn.v,
//@loopstart 1
let ghost g1 = receiver.got@;
//@beforeloop 1
proof { assert(receiver.got@.take(g0.len() as int) =~= g0); assert(records_to_flush@ =~= receiver.got@.subrange(g0.len() as int, receiver.got@.len() as int)); }
//@after /records_to_flush\.push\(record\);/
proof { assert(receiver.got@.take(g0.len() as int) =~= g0); assert(records_to_flush@ =~= receiver.got@.subrange(g0.len() as int, receiver.got@.len() as int)); }
//@after /let is_commit = record\.is_commit\(\);/
proof { let m = receiver.got@.len() as int; assert(receiver.got@[m - 2] == g1.last()); assert(receiver.got@[m - 2].lsn.v < receiver.got@[m - 1].lsn.v); assert(receiver.got@.take(g0.len() as int) =~= g0); assert(records_to_flush@.push(record) =~= receiver.got@.subrange(g0.len() as int, receiver.got@.len() as int)); }
//@beforeloop 2
let ghost g0 = receiver.got@; let ghost s0 = *state;
proof { assert(receiver.got@.take(g0.len() as int) =~= g0); assert(final_records@ =~= receiver.got@.subrange(g0.len() as int, receiver.got@.len() as int)); }
//@loop 2
invariant *state == s0, in_order(receiver.got@), forall|i: int| 0 <= i < receiver.got@.len() ==> queued(#[trigger] receiver.got@[i]), g0.len() <= receiver.got@.len(), receiver.got@.take(g0.len() as int) == g0,
    final_records@ == receiver.got@.subrange(g0.len() as int, receiver.got@.len() as int),
//@loopend 2
proof { assert(receiver.got@.take(g0.len() as int) =~= g0); assert(final_records@ =~= receiver.got@.subrange(g0.len() as int, receiver.got@.len() as int)); }
//@before /\Z/
proof {
    let (l, p) = (old(state).log(), old(state).persistent_lsn.v);
    if receiver.got@.len() > g0.len() {
        if state.log() == s0.log() + laid(receiver.got@.subrange(g0.len() as int, receiver.got@.len() as int)) && state.persistent_lsn.v == receiver.got@.last().lsn.v && state.disk_manager.durable() { lemma_batch(s0, *state, l, p, g0, receiver.got@); assert(safe_at(*state, l, p, receiver.got@, receiver.got@.len() as int)); }
        else { lemma_lost(s0, *state, l, p, g0, receiver.got@); assert(safe_at(*state, l, p, receiver.got@, g0.len() as int)); }
    } else { assert(receiver.got@ =~= g0); assert(safe_at(*state, l, p, receiver.got@, g0.len() as int)); }
}
//@sig
pub fn flush_thread(state: &mut LogManagerState, receiver: &mut Receiver)
//@endfn
//@fn lm LogManager::append_log_record attr=#[verifier::exec_allows_no_decreases_clause]
//@rewrite /\blog_record: LogRecord/mut log_record: LogRecord/
//@rewrite /while \{\s*(let persisted = [^;]*;)\s*([^;{}]*)\}\s*\{/loop { \1 if !(\2) { break; }/
//@rewrite /self\.state\.persistent_lsn\.load\(Ordering::SeqCst\)/vp_persistent(&self.state.persistent_lsn)/
//@rewrite /self\.state\.stop_flag\.load\(Ordering::SeqCst\)/vp_stopped(&self.state.stop_flag)/
requires old(self).state.next_lsn.v < u64::MAX,
ensures res == old(self).state.next_lsn.v, final(self).state.next_lsn.v == old(self).state.next_lsn.v + 1,
    queued_as(*old(self), *final(self), log_record, res), commit_waits(log_record.log_record_type, res),
//@loop 0
invariant_except_break *self == (LogManager { state: LogManagerState { next_lsn: self.state.next_lsn, ..old(self).state }, ..*old(self) }), record_to_send == log_record,
invariant self.state.next_lsn.v == old(self).state.next_lsn.v + 1, log_record == (LogRecord { lsn: VpCell { v: lsn }, ..log_record0 }), lsn == old(self).state.next_lsn.v,
ensures queued_as(*old(self), *self, log_record0, lsn),
//@loop 1
invariant self.state.next_lsn.v == old(self).state.next_lsn.v + 1, queued_as(*old(self), *self, log_record0, lsn), lsn == old(self).state.next_lsn.v,
ensures commit_waits(LogRecordType::Commit, lsn),
//@start
let ghost log_record0 = log_record;
//@endfn
//@fn lm LogManager::get_next_lsn
ensures res == self.state.next_lsn.v,
//@endfn
//@fn lm LogManager::get_persistent_lsn
ensures res == self.state.persistent_lsn.v,
//@endfn
//@fn lm LogManager::set_persistent_lsn
ensures *final(self) == (LogManager { state: LogManagerState { persistent_lsn: VpCell { v: lsn }, ..old(self).state }, ..*old(self) }),
//@endfn
//@fn lm LogManager::parse_log_record
//@rewrite /data\.iter\(\)\.all\(\|&b\| b == 0\)/vp_zeros(data)/
ensures res matches Some(r) ==> data@.len() >= 4 && dec::<LogRecord>(data@.subrange(4, data@.len() as int)) == Some(r),
    res is None ==> data@.len() < 4 || all_zero(data@) || dec::<LogRecord>(data@.subrange(4, data@.len() as int)) is None,
//@endfn
//@fn lm LogManager::read_log_record_static
//@rewrite /let size = match (disk_manager\.read_log_sized\(offset, 4\)) \{/let vp_h = \1; let size = match vp_h {/
//@rewrite /Ok\((\w+)\) if ([^{}>]*) => \{\s*([^{}]*)\},\s*Ok\(_\) => (return None),/Ok(\1) => { if \2 { \3 } else { \4; } },/
//@rewrite /disk_manager: AsyncDiskManager/disk_manager: &mut AsyncDiskManager/
//@rewrite /i32::from_le_bytes\(\[header\[0\], header\[1\], header\[2\], header\[3\]\]\)/vp_i32_from(&header)/
requires old(disk_manager).io_engine.executor.page_ok(),
ensures final(disk_manager).kept_log(old(disk_manager)),
    forall|r: LogRecord| healthy() && #[trigger] whole(old(disk_manager).log(), offset as int, r) ==> res == Some(r),
    res matches Some(r) ==> bytes_of_record(old(disk_manager).log(), offset as int, r),
//@after /let vp_h = [^;]*;/
assert(disk_manager.kept_log(old(disk_manager)));
//@before /match disk_manager.read_log_sized\(offset, size/
proof {
    let (l, o) = (disk_manager.log(), offset as int);
    assert(size == size_at(l, o));
    if o + size <= l.len() { assert(l.subrange(o, o + size).subrange(4, size as int) =~= l.subrange(o + 4, o + size)); }
}
//@endfn
}
pub open spec fn all_zero(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }
#[verifier::external_body] pub fn vp_zeros(d: &[u8]) -> (r: bool) ensures r == all_zero(d@), { unimplemented!() }
// the record comes from the whole bytes its header announces, at this offset
pub open spec fn bytes_of_record(log: Seq<u8>, off: int, r: LogRecord) -> bool { off + size_at(log, off) <= log.len() && 4 <= size_at(log, off) && dec::<LogRecord>(log.subrange(off + 4, off + size_at(log, off))) == Some(r) }
// the record joins the queue behind all earlier ones under its own LSN, and nothing else changes
pub open spec fn queued_as(o: LogManager, f: LogManager, r: LogRecord, lsn: Lsn) -> bool {
    &&& f == (LogManager { state: LogManagerState { next_lsn: f.state.next_lsn, sender: f.state.sender, ..o.state }, ..o })
    &&& f.state.sender.sent@ == o.state.sender.sent@.push(LogRecord { lsn: VpCell { v: lsn }, ..r }) || (closed_once() && f.state.sender.sent@ == o.state.sender.sent@)
}
// a commit record's append ends only once the persistent LSN covered it, or the flushing stopped
pub open spec fn commit_waits(k: LogRecordType, lsn: Lsn) -> bool { k == LogRecordType::Commit ==> was_stopped() || exists|v: u64| #[trigger] was_persistent(v) && v != INVALID_LSN && v >= lsn }
pub struct Transaction { pub txn_id: TxnId, pub prev_lsn: Lsn }
impl Transaction {
//@fn tx Transaction::get_transaction_id
ensures res == self.txn_id,
//@endfn
//@fn tx Transaction::get_prev_lsn
ensures res == self.prev_lsn,
//@rewrite /\*self\.prev_lsn\.read\(\)/self.prev_lsn/
//@endfn
}
//@struct wm WALManager
// one more record in the queue, of this kind, under the LSN returned
pub open spec fn logged(o: WALManager, f: WALManager, k: LogRecordType, t: TxnId, prev: Lsn, lsn: Lsn) -> bool {
    let n = o.log_manager.state.sender.sent@.len(); let s = f.log_manager.state.sender.sent@;
    &&& lsn == o.log_manager.state.next_lsn.v && f.log_manager.state.next_lsn.v == lsn + 1
    &&& f.log_manager == (LogManager { state: LogManagerState { next_lsn: f.log_manager.state.next_lsn, sender: f.log_manager.state.sender, ..o.log_manager.state }, ..o.log_manager })
    &&& closed_once() && s == o.log_manager.state.sender.sent@ || s.len() == n + 1 && s.take(n as int) == o.log_manager.state.sender.sent@ && s[n as int].lsn.v == lsn && fresh(LogRecord { lsn: VpCell { v: INVALID_LSN }, ..s[n as int] }, t, prev, k)
    &&& commit_waits(k, lsn)
}
pub proof fn lemma_push<T>(s: Seq<T>) ensures forall|x: T| #[trigger] s.push(x).take(s.len() as int) == s { assert forall|x: T| #[trigger] s.push(x).take(s.len() as int) == s by { assert(s.push(x).take(s.len() as int) =~= s); } }
impl WALManager {
//@fn wm WALManager::write_commit_record
requires old(self).log_manager.state.next_lsn.v < u64::MAX,
ensures logged(*old(self), *final(self), LogRecordType::Commit, txn.txn_id, txn.prev_lsn, res),
//@start
proof { lemma_push(self.log_manager.state.sender.sent@); }
//@endfn
//@fn wm WALManager::write_abort_record
requires old(self).log_manager.state.next_lsn.v < u64::MAX,
ensures logged(*old(self), *final(self), LogRecordType::Abort, txn.txn_id, txn.prev_lsn, res),
//@start
proof { lemma_push(self.log_manager.state.sender.sent@); }
//@endfn
//@fn wm WALManager::write_begin_record
requires old(self).log_manager.state.next_lsn.v < u64::MAX,
ensures logged(*old(self), *final(self), LogRecordType::Begin, txn.txn_id, INVALID_LSN, res),
//@start
proof { lemma_push(self.log_manager.state.sender.sent@); }
//@endfn
//@fn wm WALManager::write_update_record
requires old(self).log_manager.state.next_lsn.v < u64::MAX,
ensures logged(*old(self), *final(self), LogRecordType::Update, txn.txn_id, txn.prev_lsn, res), ({
    let n = old(self).log_manager.state.sender.sent@.len(); let s = final(self).log_manager.state.sender.sent@;
    s.len() > n ==> s[n as int].update_rid == Some(rid) && s[n as int].old_tuple == Some(old_tuple) && s[n as int].new_tuple == Some(new_tuple)
}),
//@start
proof { lemma_push(self.log_manager.state.sender.sent@); }
//@endfn
}
fn main() {}
}
