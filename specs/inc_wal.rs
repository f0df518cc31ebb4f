//@source rec src/recovery/log_record.rs
//@source it src/recovery/log_iterator.rs
//@source mgr src/storage/disk/async_disk/manager.rs
//@source dcfg src/storage/disk/async_disk/config.rs
//@source eng src/storage/disk/async_disk/io/io_impl.rs
//@rewrite /Arc<RwLock<AsyncIOEngine>>/AsyncIOEngine/
//@rewrite /Arc<IOOperationExecutor>/IOOperationExecutor/
//@rewrite /Arc<AsyncDiskManager>/AsyncDiskManager/
//@rewrite /\.io_engine\s*\.read\(\)/.io_engine/
//@rewrite /AtomicU64/VpCell/
//@rewrite /&bytes\[4\.\.\]/vp_slice_of(bytes, 4, bytes.len())/
//@rewrite /&\((\w+) as i32\)\.to_le_bytes\(\)/&vp_le_i32(\1 as i32)/
//@rewrite /postcard::Error::DeserializeUnexpectedEnd/postcard::Error/
//@rewrite /matches!\(self\.config\.fsync_policy, FsyncPolicy::Never\)/vp_never(&self.config)/
//@rewrite /e\.kind\(\) == ErrorKind::UnexpectedEof/e.says_eof()/
//@rewrite /e\.to_string\(\)\s*\.to_lowercase\(\)\s*\.contains\("eof"\)/e.says_eof()/
//@rewrite /let size_bytes: \[u8;\s*4\] = header_bytes\s*\.as_slice\(\)\s*\.try_into\(\)\s*\.unwrap\(\);//
//@rewrite /i32::from_le_bytes\(size_bytes\)/vp_i32_from(&header_bytes)/
//@rewrite /header_bytes\.as_slice\(\) == \[0u8;\s*4\]/vp_all_zero(&header_bytes)/
//@rewrite /let offset_bytes: \[u8;\s*8\] = bytes\[0\.\.8\]\s*\.try_into\(\)\s*\.(?:expect\([^)]*\)|unwrap\(\));//
//@rewrite /u64::from_le_bytes\(offset_bytes\)/vp_u64_at(&bytes, 0, 8)/
//@rewrite /while let (Some\(\w+\)) = self\.next\(\) \{/loop { let \1 = self.next() else { break };/
//@rewrite /priorities::\w+/vp_prio()/
//@rewrite /let io_engine = self\.io_engine;/let io_engine = &mut self.io_engine;/
//@rewrite /data\.to_vec\(\)/vp_to_vec(data)/
//@type cfg TxnId
//@type cfg Lsn
//@const cfg INVALID_LSN
pub enum Ordering { SeqCst, Acquire, Release, AcqRel, Relaxed }
pub struct VpCell { pub v: u64 }
impl VpCell {
    pub fn new(v: u64) -> (r: VpCell) ensures r.v == v, { VpCell { v } }
    pub fn load(&self, o: Ordering) -> (r: u64) ensures r == self.v, { self.v }
    pub fn store(&mut self, x: u64, o: Ordering) ensures final(self).v == x, { self.v = x; }
    pub fn fetch_add(&mut self, n: u64, o: Ordering) -> (r: u64) requires old(self).v + n <= u64::MAX, ensures r == old(self).v, final(self).v == old(self).v + n, { let r = self.v; self.v = self.v + n; r }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RID { pub x: u64 }
pub struct Tuple { pub x: Ghost<int> }
impl Clone for Tuple { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
//@enum rec LogRecordType attr=#[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct rec LogRecord
// four bytes of an i32, and back
pub uninterp spec fn le_i32(x: i32) -> Seq<u8>;
pub uninterp spec fn i32_of(s: Seq<u8>) -> i32;
pub axiom fn axiom_le_i32(x: i32) ensures le_i32(x).len() == 4, i32_of(le_i32(x)) == x;
#[verifier::external_body] pub fn vp_le_i32(x: i32) -> (r: Vec<u8>) ensures r@ == le_i32(x), r@.len() == 4, { x.to_le_bytes().to_vec() }
#[verifier::external_body] pub fn vp_i32_from(s: &Vec<u8>) -> (r: i32) requires s@.len() == 4, ensures r == i32_of(s@), { unimplemented!() }
#[verifier::external_body] pub fn vp_all_zero(s: &Vec<u8>) -> bool { unimplemented!() }
// serde and postcard: what was encoded decodes to an equal record (trusted; run by the bounded stand-in)
pub axiom fn axiom_postcard(r: LogRecord) requires encodable(r), ensures dec::<LogRecord>(enc(r)) == Some(r);
pub open spec fn rec_bytes(r: LogRecord) -> Seq<u8> { le_i32((4 + enc(r).len()) as i32) + enc(r) }
pub open spec fn storable(r: LogRecord) -> bool { encodable(r) && 0 < enc(r).len() && 4 + enc(r).len() <= 1_000_000 && r.log_record_type != LogRecordType::Invalid }
// the bytes of a log which holds exactly rs
pub open spec fn laid(rs: Seq<LogRecord>) -> Seq<u8> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { laid(rs.drop_last()) + rec_bytes(rs.last()) } }
// a whole record at an offset of the log
pub open spec fn size_at(log: Seq<u8>, off: int) -> int { i32_of(log.subrange(off, off + 4)) as int }
pub open spec fn whole(log: Seq<u8>, off: int, r: LogRecord) -> bool {
    &&& 0 <= off && off + 4 <= log.len()
    &&& 4 <= size_at(log, off) <= 1_000_000 && off + size_at(log, off) <= log.len()
    &&& dec::<LogRecord>(log.subrange(off + 4, off + size_at(log, off))) == Some(r)
    &&& r.log_record_type != LogRecordType::Invalid
}
// the log ends here, or inside the record that starts here
pub open spec fn ends(log: Seq<u8>, off: int) -> bool { off + 4 > log.len() || (0 < size_at(log, off) <= 1_000_000 && off + size_at(log, off) > log.len()) }
pub open spec fn any_whole(log: Seq<u8>, off: int) -> bool { exists|r: LogRecord| whole(log, off, r) }
pub open spec fn rec_at(log: Seq<u8>, off: int) -> LogRecord { choose|r: LogRecord| whole(log, off, r) }
pub open spec fn parse(log: Seq<u8>, off: int) -> Seq<LogRecord> decreases log.len() - off {
    if any_whole(log, off) { seq![rec_at(log, off)] + parse(log, off + size_at(log, off)) } else { Seq::empty() }
}
// records from off up to the end or a torn last record, nothing else
pub open spec fn clean(log: Seq<u8>, off: int) -> bool decreases log.len() - off {
    if any_whole(log, off) { clean(log, off + size_at(log, off)) } else { 0 <= off && ends(log, off) }
}
pub proof fn lemma_one(log: Seq<u8>, off: int, r: LogRecord, s: LogRecord) requires whole(log, off, r), whole(log, off, s), ensures r == s {}
//@enum dcfg FsyncPolicy
//@struct dcfg DiskManagerConfig drop=compression_algorithm,durability_level,hot_cache_ratio,warm_cache_ratio,cpu_affinity
pub enum VpPolicy { Never, OnFlush, PerWrite, Periodic }
//@struct eng AsyncIOEngine drop=queue_manager,worker_manager,completion_tracker
//@struct mgr AsyncDiskManager drop=write_manager,cache_manager,scheduler,metrics_collector,is_shutting_down,background_tasks
pub struct Duration { pub ns: u64 }
#[verifier::external_body] pub fn vp_never(c: &DiskManagerConfig) -> (r: bool) ensures r == (c.fsync_policy is Never), { matches!(c.fsync_policy, FsyncPolicy::Never) }
impl AsyncIOEngine {
    pub open spec fn log(&self) -> Seq<u8> { self.executor.log_file.bytes@ }
}
impl AsyncDiskManager {
    pub open spec fn log(&self) -> Seq<u8> { self.io_engine.executor.log_file.bytes@ }
    pub open spec fn lf(&self) -> File { self.io_engine.executor.log_file }
    pub open spec fn kept(&self, o: &Self) -> bool { self.config == o.config && self.io_engine.executor.db_same(&o.io_engine.executor) && self.io_engine.executor.cfg_same(&o.io_engine.executor) && (self.io_engine.executor.page_ok() == o.io_engine.executor.page_ok()) }
    pub open spec fn kept_log(&self, o: &Self) -> bool { self.kept(o) && self.io_engine.executor.log_same(&o.io_engine.executor) }
    // as much as the policy asks for is on the device
    pub open spec fn durable(&self) -> bool { self.config.fsync_policy is Never || self.lf().synced@ == self.log() }
}
#[verifier::external_body] pub fn vp_prio() -> u8 { unimplemented!() }
#[verifier::external_body] pub fn vp_to_vec(d: &[u8]) -> (r: Vec<u8>) ensures r@ == d@, { d.to_vec() }
