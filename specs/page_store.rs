//@source s src/storage/disk/async_disk/memory/write_staging_buffer.rs
//@source fc src/storage/disk/async_disk/memory/flush_coordinator.rs
//@source dm src/storage/disk/async_disk/memory/durability_manager.rs
//@source ce src/storage/disk/async_disk/memory/coalescing/engine.rs
//@source w src/storage/disk/async_disk/memory/write_manager.rs
//@source m src/storage/disk/async_disk/manager.rs
//@source sch src/storage/disk/async_disk/scheduler.rs
//@source c src/storage/disk/async_disk/config.rs
//@source cmp src/storage/disk/async_disk/compression.rs
//@source cfg src/common/config.rs
//@opt strings=vp_string()
//@opt rlimit=60
//@rewrite /\.await//
//@rewrite /&\[PageId\]/&Vec<PageId>/
//@rewrite /&\[\(PageId, Vec<u8>\)\]/&Vec<(PageId, Bytes)>/
//@rewrite /&\[u8\]/&Bytes/
//@rewrite /\bVec<u8>/Bytes/
//@rewrite /oneshot::Sender<IoResult<Bytes>>/Answer/
//@rewrite /Arc<(?:Mutex|RwLock)<(\w+)>>/\1/
//@rewrite /Arc<(\w+)>/\1/
//@rewrite /\bAtomicUsize\b/usize/
//@rewrite /\bAtomicBool\b/bool/
//@rewrite /(?:usize|bool)::new\((\w+)\)/\1/
//@rewrite /Arc::new\(Mutex::new\((.*?)\)\);$/\1;/
//@rewrite /Arc::new\((?:Mutex|RwLock)::new\(([\s\S]*?)\)\);/\1;/
//@rewrite /Arc::new\((\w+::new\([\s\S]*?\))\);/\1;/
//@rewrite /std::time::(Duration|Instant)/\1/
//@rewrite /(\w+)\.load\(Ordering::\w+\)/\1/
//@rewrite /(self\s*\.buffer\s*\.\w+)\s*\.fetch_add\((\w+), Ordering::Relaxed\);/\1 = vp_plus(\1, \2);/
//@rewrite /(self\s*\.(?:\w+\s*\.)?\w+)\s*\.store\((\w+), Ordering::\w+\);/\1 = \2;/
//@rewrite /self\s*\.flush_in_progress\s*\.compare_exchange\((\w+), (\w+), Ordering::\w+, Ordering::\w+\)\s*\.is_ok\(\)/vp_exchange(&mut self.flush_in_progress, \1, \2)/
//@rewrite /\*self\.last_\w+\.lock\(\) = Instant::now\(\);//
//@rewrite /self\.pending_syncs\s*\.fetch_add\(pages\.len\(\), Ordering::Relaxed\);//
//@rewrite /let last_sync = \*self\.last_sync_time\.lock\(\);/let last_sync = Instant::now();/
//@rewrite /last_sync\.elapsed\(\) >= duration/vp_chance()/
//@rewrite /(?:std::io::|io::)?(?:IoError|Error)::(?:new|other)\((?:\s*(?:io::)?ErrorKind::\w+,)?\s*(?:vp_string\(\)|"[^"]*")\s*,?\s*\)/vp_err()/
//@rewrite /<P>\(/(/
//@rewrite /provider: &P/provider: &mut Disk/
//@rewrite /where P: DurabilityProvider,//
//@rewrite /let mut (\w+) = self\.(buffer_manager|coalescing_engine)\.(?:lock|write)\(\);/let \1 = &mut self.\2;/
//@rewrite /let (\w+) = self\.(buffer_manager|coalescing_engine)\.(?:lock|read)\(\);/let \1 = &self.\2;/
//@rewrite /self\.buffer_manager\.lock\(\)/self.buffer_manager/
//@rewrite /tokio::time::sleep\(Duration::from_millis\(\d+\)\);//
//@rewrite /\bfn (try_start_flush|complete_flush|restage|try_coalesce_write|flush|force_flush|flush_internal|buffer_write|read_page\w*|schedule_\w+|direct_\w+|write_page\w*|stage_page|flush_writes_with_durability|try_write_pages_to_disk|read_pages_batch|sync|sync_log|sync_log_direct|force_flush_all|sync_data)(\s*\(\s*)&self\b/fn \1\2&mut self/
//@rewrite /(\w+)\.retain\(\|\((\w+), _\)\| \*\2 != (\w+)\)/vp_retain_other(&mut \1, \3)/
//@rewrite /self\.buffer\.buffer\.drain\(\)\.collect\(\)/hm_drain(&mut self.buffer.buffer)/
//@rewrite /self\s*\.buffer\s*\.buffer\s*\.get\(&page_id\)\s*\.map\(\|d\| d\.len\(\)\)\s*\.unwrap_or\(0\)/vp_size_at(&self.buffer.buffer, page_id)/
//@rewrite /self\.buffer\.buffer\.get\(&page_id\)\.map\(\|data\| (\{[\s\S]*\n\})\)/match self.buffer.buffer.get(&page_id) { Some(data) => Some(\1), None => None }/
//@rewrite /\*self\.access_frequencies\.entry\(page_id\)\.or_insert\(0\) \+= 1;//
//@rewrite /let utilization = if [\s\S]*?\};//
//@rewrite /let compression_ratio =[^;]*;//
//@rewrite /utilization_percent: utilization, compression_ratio,//
//@rewrite /let (?:start_time|elapsed) = [^;]*;//
//@rewrite /let elapsed_ns = [^;]*;//
//@rewrite /let _ = elapsed_ns;//
//@rewrite /let mut total_bytes = 0;//
//@rewrite /total_bytes \+= data\.len\(\) as u64;//
//@rewrite /for data in &chunk_results \{\s*\}//
//@rewrite /self\.update_batch_\w+\([^;]*\);//
//@rewrite /self\.metrics_collector\s*\.(?:record_\w+|get_live_metrics)\([^;]*;//
//@rewrite /\(page_id, &self\.metrics_collector\)/(page_id)/
//@rewrite /if self\.config\.cache_size_mb > 0 && let Some\(data\) = (self\s*\.cache_manager\s*\.get_page_with_metrics\(page_id\)) \{/if let Some(data) = (if self.config.cache_size_mb > 0 { \1 } else { None }) {/
//@rewrite /let _?order = self\.page_order\.(read|write)\(\);/self.io_engine.vp_\1();/
//@rewrite /drop\(order\);/self.io_engine.vp_free();/
//@rewrite /drop\(io_engine\);//
//@rewrite /let io_engine = self\.io_engine\.read\(\);//
//@rewrite /(?<![.\w])io_engine\.(write_page|sync\w*|read_page)\(/self.io_engine.\1(/
//@rewrite /self\.io_engine\.read\(\)/self.io_engine/
//@rewrite /self\.write_manager\.staged_page\(([^()]*)\)/self.write_manager.staged_page(\1, &self.io_engine)/
//@rewrite /self\.cache_manager\.store_page\((\w+), ([\w.]+(?:\(\))?)\);/self.cache_manager.store_page(\1, \2, &self.io_engine);/
//@rewrite /\.force_flush\(self\)/.force_flush(&mut self.io_engine)/
//@rewrite /, self\)/, &mut self.io_engine)/
//@rewrite /self\.scheduler\.submit_task\(task\)/vp_submit(&mut self.io_engine, task, &mut receiver)/
//@rewrite /let \(sender, receiver\) = oneshot::channel\(\);/let sender = Answer; let mut receiver: Option<IoResult<Bytes>> = None;/
//@rewrite /match receiver \{/match vp_wait(receiver) {/
//@rewrite /priority: IOPriority::\w+, creation_time: [^,]*,//
//@rewrite /priority, creation_time: start_time,//
//@rewrite /, start_time: Instant\b//
//@rewrite /, start_time\)/)/
//@rewrite /io_engine: &RwLock<AsyncIOEngine>, task: IOTask\)/io_engine: &mut Disk, task: IOTask, vp_out: &mut Option<IoResult<Bytes>>)/
//@rewrite /let engine = io_engine\.read\(\);//
//@rewrite /\bengine\.(read_page|write_page|sync)\(/io_engine.\1(/
//@rewrite /Self::(\w+_in_order)\(&engine, /Self::\1(io_engine, /
//@rewrite /engine: &AsyncIOEngine/io_engine: &mut Disk/
//@rewrite /\bAsyncIOEngine\b/Disk/
//@rewrite /(io_engine\.write_page\(page_id, &data\)|io_engine\.sync\(\)|Self::write_pages_in_order\([^()]*\))\s*\.map\(\|_vp\| Vec::new\(\)\)/vp_empty(\1)/
//@rewrite /let _ = callback\.send\(result\);/callback.send(vp_out, result);/
//@rewrite /let mut all = Vec::with_capacity\([^;]*\);/let mut all = Bytes::new();/
//@rewrite /super::config::FsyncPolicy/FsyncPolicy/
//@rewrite /Vec::with_capacity\([^()]*(?:\(\))?\)/Vec::new()/
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::seq_lib::group_seq_properties};
global size_of usize == 8;
#[verifier::external_body] pub fn vp_string() -> String { String::new() }
//@type cfg PageId
//@const cfg DB_PAGE_SIZE
pub struct IoError { pub x: u8 }
pub type IoResult<T> = Result<T, IoError>;
#[verifier::external_body] pub fn vp_err() -> IoError { unimplemented!() }
#[verifier::external_body] pub fn vp_chance() -> bool { true }
#[derive(Clone, Copy)]
pub struct Duration { pub ns: u64 }
impl Duration { pub fn from_millis(ms: u64) -> Duration { Duration { ns: ms } }
    #[verifier::external_body] pub fn vp_ge(&self, o: &Duration) -> bool { true } }
#[derive(Clone, Copy)]
pub struct Instant { pub t: u64 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() } }
// a byte vector: it is its contents
#[verifier::external_body]
pub struct Bytes { v: Vec<u8> }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), { self.v.len() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { self.v.is_empty() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Bytes) ensures r == *self, { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: Bytes) ensures final(self)@ == old(self)@ + o@, { unimplemented!() }
}
#[verifier::external_body]
pub proof fn axiom_bytes(a: Bytes, b: Bytes) requires a.view() == b.view(), ensures a == b, {}
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
pub open spec fn page(b: Bytes) -> bool { b@.len() == DB_PAGE_SIZE }
pub type Pages = Vec<(PageId, Bytes)>;
#[verifier::external_body] pub fn vp_dup(v: &Vec<(PageId, Bytes)>) -> (r: Vec<(PageId, Bytes)>) ensures r@ == v@, { v.clone() }
#[verifier::external_body] pub fn vp_dup_ids(v: &Vec<PageId>) -> (r: Vec<PageId>) ensures r@ == v@, { v.clone() }

// --- lists of pages: written in order, a later entry of a page replaces an earlier one
pub open spec fn pend(l: Seq<(PageId, Bytes)>) -> Map<PageId, Bytes> decreases l.len() { if l.len() == 0 { Map::empty() } else { pend(l.drop_last()).insert(l.last().0, l.last().1) } }
pub open spec fn once(l: Seq<(PageId, Bytes)>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0 }
pub open spec fn sized(l: Seq<(PageId, Bytes)>) -> bool { forall|i: int| 0 <= i < l.len() ==> page((#[trigger] l[i]).1) }
pub proof fn lemma_pend(l: Seq<(PageId, Bytes)>)
    ensures forall|i: int| 0 <= i < l.len() ==> pend(l).contains_key((#[trigger] l[i]).0),
        forall|p: PageId| #[trigger] pend(l).contains_key(p) ==> exists|i: int| 0 <= i < l.len() && l[i].0 == p && l[i].1 == pend(l)[p],
        once(l) ==> forall|i: int| 0 <= i < l.len() ==> pend(l)[(#[trigger] l[i]).0] == l[i].1,
    decreases l.len(),
{
    if l.len() > 0 {
        let d = l.drop_last();
        lemma_pend(d);
        assert forall|i: int| 0 <= i < l.len() implies pend(l).contains_key((#[trigger] l[i]).0) && (once(l) ==> pend(l)[l[i].0] == l[i].1) by { if i < d.len() { assert(d[i] == l[i]); if once(l) { assert(once(d)); assert(l[i].0 != l[l.len() - 1].0); } } }
        assert forall|p: PageId| #[trigger] pend(l).contains_key(p) implies exists|i: int| 0 <= i < l.len() && l[i].0 == p && l[i].1 == pend(l)[p] by {
            if p == l.last().0 { assert(l[l.len() - 1].0 == p); } else { assert(pend(d).contains_key(p)); let i = choose|i: int| 0 <= i < d.len() && d[i].0 == p && d[i].1 == pend(d)[p]; assert(l[i] == d[i]); }
        }
    }
}
pub proof fn lemma_pend_take(l: Seq<(PageId, Bytes)>, n: int)
    requires 0 <= n < l.len(), ensures pend(l.take(n + 1)) == pend(l.take(n)).insert(l[n].0, l[n].1),
{ assert(l.take(n + 1).drop_last() =~= l.take(n)); assert(l.take(n + 1).last() == l[n]); }
#[verifier::external_body]
pub fn vp_retain_other(v: &mut Vec<(PageId, Bytes)>, p: PageId)
    ensures final(v)@ == old(v)@.filter(|e: (PageId, Bytes)| e.0 != p),
{ v.retain(|(k, _)| *k != p) }
pub proof fn lemma_filter(l: Seq<(PageId, Bytes)>, p: PageId)
    requires once(l), sized(l),
    ensures ({ let f = l.filter(|e: (PageId, Bytes)| e.0 != p); once(f) && sized(f) && pend(f) == pend(l).remove(p) && !pend(f).contains_key(p) && f.len() <= l.len() && (forall|i: int| 0 <= i < f.len() ==> l.contains(#[trigger] f[i])) }),
    decreases l.len(),
{
    let keep = |e: (PageId, Bytes)| e.0 != p;
    let f = l.filter(keep);
    reveal(Seq::filter);
    if l.len() == 0 {
        assert(f =~= l);
        assert(pend(f) =~= pend(l).remove(p));
    } else {
        let d = l.drop_last();
        assert(once(d));
        assert(sized(d));
        lemma_filter(d, p);
        let g = d.filter(keep);
        lemma_pend(l); lemma_pend(d); lemma_pend(g);
        if keep(l.last()) {
            assert(f == g.push(l.last()));
            assert(f.drop_last() =~= g);
            assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).0 != l.last().0 by { assert(d.contains(g[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == g[i]; assert(l[j] == d[j]); assert(l[j].0 != l[l.len() - 1].0); }
            assert forall|i: int| 0 <= i < f.len() implies l.contains(#[trigger] f[i]) by { if i < g.len() { assert(d.contains(g[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == g[i]; assert(l[j] == f[i]); } else { assert(l[l.len() - 1] == f[i]); } }
            assert(sized(f)) by { assert forall|i: int| 0 <= i < f.len() implies page((#[trigger] f[i]).1) by { assert(l.contains(f[i])); } }
            assert(pend(f) =~= pend(l).remove(p));
        } else {
            assert(f == g);
            assert forall|i: int| 0 <= i < f.len() implies l.contains(#[trigger] f[i]) by { assert(d.contains(g[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == g[i]; assert(l[j] == f[i]); }
            assert(pend(f) =~= pend(l).remove(p));
        }
    }
}

// --- the disk: assumed contract of the I/O engine (proved in C13); `order` is how page_order is held
#[verifier::external_body]
pub struct Disk { x: u8 }
impl Disk {
    pub uninterp spec fn at(&self, p: PageId) -> Bytes;
    pub uninterp spec fn synced(&self) -> bool;
    pub uninterp spec fn order(&self) -> int;
    pub open spec fn same(&self, o: &Disk) -> bool { (forall|p: PageId| #[trigger] self.at(p) == o.at(p)) && self.order() == o.order() }
    #[verifier::external_body] pub fn vp_none(&mut self) ensures final(self).order() == 0, final(self).synced() == old(self).synced(), forall|p: PageId| #[trigger] final(self).at(p) == old(self).at(p), { unimplemented!() }
    #[verifier::external_body] pub fn vp_free(&mut self) ensures final(self).order() == 0, final(self).synced() == old(self).synced(), forall|p: PageId| #[trigger] final(self).at(p) == old(self).at(p), { unimplemented!() }
    #[verifier::external_body] pub fn vp_read(&mut self) requires old(self).order() == 0, ensures final(self).order() == 1, final(self).synced() == old(self).synced(), forall|p: PageId| #[trigger] final(self).at(p) == old(self).at(p), { unimplemented!() }
    #[verifier::external_body] pub fn vp_write(&mut self) requires old(self).order() == 0, ensures final(self).order() == 2, final(self).synced() == old(self).synced(), forall|p: PageId| #[trigger] final(self).at(p) == old(self).at(p), { unimplemented!() }
    #[verifier::external_body] pub fn read_page(&mut self, p: PageId) -> (r: IoResult<Bytes>) requires old(self).order() >= 1,
        ensures final(self).same(old(self)), final(self).synced() == old(self).synced(), r matches Ok(d) ==> d == old(self).at(p) && page(d), { unimplemented!() }
    #[verifier::external_body] pub fn write_page(&mut self, p: PageId, d: &Bytes) -> (r: IoResult<()>) requires old(self).order() == 2,
        ensures final(self).order() == old(self).order(), forall|q: PageId| q != p ==> #[trigger] final(self).at(q) == old(self).at(q), r is Ok ==> final(self).at(p) == *d, { unimplemented!() }
    #[verifier::external_body] pub fn sync(&mut self) -> (r: IoResult<()>) ensures final(self).same(old(self)), r is Ok ==> final(self).synced(), r is Err ==> final(self).synced() == old(self).synced(), { unimplemented!() }
    #[verifier::external_body] pub fn sync_log(&mut self) -> (r: IoResult<()>) ensures final(self).same(old(self)), final(self).synced() == old(self).synced(), { unimplemented!() }
    // stopping the engine once nothing is queued (C13): the files stay as they are
    #[verifier::external_body] pub fn cancel_all_pending_operations(&mut self, why: &str) -> (n: usize) ensures final(self).same(old(self)), final(self).synced() == old(self).synced(), { unimplemented!() }
    #[verifier::external_body] pub fn clear_queue(&mut self) -> (n: usize) ensures final(self).same(old(self)), final(self).synced() == old(self).synced(), { unimplemented!() }
    #[verifier::external_body] pub fn stop(&mut self) ensures final(self).same(old(self)), final(self).synced() == old(self).synced(), { unimplemented!() }
    // AsyncDiskManager as DurabilityProvider: sync_data is its sync, sync_log its sync_log
    pub fn sync_data(&mut self) -> (r: IoResult<()>) ensures final(self).same(old(self)), r is Ok ==> final(self).synced(), { self.sync() }
}
// every page of m as m has it, every other page as b has it
pub open spec fn laid(a: &Disk, m: Map<PageId, Bytes>, b: &Disk) -> bool { forall|p: PageId| #[trigger] b.at(p) == if m.contains_key(p) { m[p] } else { a.at(p) } }
pub open spec fn outside(a: &Disk, m: Map<PageId, Bytes>, b: &Disk) -> bool { forall|p: PageId| !m.contains_key(p) ==> #[trigger] b.at(p) == a.at(p) }

// --- staging buffer
//@struct s WriteBufferStats drop=utilization_percent,compression_ratio
//@struct s CompressedWriteBuffer drop=compression_ratio
//@struct s WriteStagingBuffer
//@enum cmp CompressionAlgorithm
pub open spec fn firsts(s: Seq<(PageId, Bytes)>) -> Seq<PageId> { s.map_values(|e: (PageId, Bytes)| e.0) }
#[verifier::external_body]
pub fn hm_drain(m: &mut HashMap<PageId, Bytes>) -> (r: Vec<(PageId, Bytes)>)
    ensures final(m)@ == Map::<PageId, Bytes>::empty(), once(r@), r@.len() == old(m)@.len(), forall|i: int| 0 <= i < r@.len() ==> old(m)@.contains_key((#[trigger] r@[i]).0) && old(m)@[r@[i].0] == r@[i].1,
        forall|p: PageId| #[trigger] old(m)@.contains_key(p) ==> exists|i: int| 0 <= i < r@.len() && r@[i].0 == p,
{ m.drain().collect() }
pub fn vp_size_at(m: &HashMap<PageId, Bytes>, p: PageId) -> (r: usize) ensures r == if m@.contains_key(p) { m@[p]@.len() } else { 0 }, { match m.get(&p) { Some(d) => d.len(), None => 0 } }
// no staging buffer ever has 2^48 entries
#[verifier::external_body] pub fn vp_fits(m: &HashMap<PageId, Bytes>) ensures m@.len() < 0x1_0000_0000_0000, {}
pub fn vp_plus(a: usize, b: usize) -> (r: usize) requires a + b <= usize::MAX, ensures r == a + b, { a + b }
pub fn vp_exchange(a: &mut bool, from: bool, to: bool) -> (r: bool) ensures r == (*old(a) == from), *final(a) == (if r { to } else { *old(a) }), { if *a == from { *a = to; true } else { false } }
impl WriteStagingBuffer {
    pub closed spec fn staged(&self) -> Map<PageId, Bytes> { self.buffer.buffer@ }
    pub closed spec fn fixed(&self, o: &Self) -> bool { self.buffer.compression_enabled == o.buffer.compression_enabled && self.buffer.max_buffer_size == o.buffer.max_buffer_size }
    pub closed spec fn wf(&self) -> bool {
        &&& self.buffer.dirty_pages == self.staged().len()
        &&& self.buffer.buffer_size_bytes == DB_PAGE_SIZE * self.staged().len()
        &&& forall|p: PageId| #[trigger] self.staged().contains_key(p) ==> page(self.staged()[p])
    }
    pub closed spec fn limit(&self) -> int { self.buffer.max_buffer_size as int }
//@fn s WriteStagingBuffer::new ret=r
//@rewrite /compression_ratio: AtomicU64::new\(\d+\),//
    ensures r.wf(), r.staged() == Map::<PageId, Bytes>::empty(), r.limit() == max_buffer_size,
//@endfn
//@fn s WriteStagingBuffer::compress_lz4 ret=r
    ensures r == *data,
//@endfn
//@fn s WriteStagingBuffer::compress_zstd ret=r
    ensures r == *data,
//@endfn
//@fn s WriteStagingBuffer::compress_data ret=r
    ensures r == *data,
//@endfn
//@fn s WriteStagingBuffer::decompress_data ret=r
    ensures r == *compressed,
//@endfn
//@fn s WriteStagingBuffer::buffer_write ret=r
    requires old(self).wf(), page(data),
    ensures final(self).wf(), final(self).fixed(old(self)), r is Ok,
        r == Ok::<bool, IoError>(true) ==> final(self).staged() == old(self).staged().insert(page_id, data),
        r == Ok::<bool, IoError>(false) ==> final(self).staged() == old(self).staged(),
        r == Ok::<bool, IoError>(true) ==> DB_PAGE_SIZE * final(self).staged().len() <= old(self).limit() || (old(self).staged().contains_key(page_id)),
//@start
    vp_fits(&self.buffer.buffer);
//@endfn
//@fn s WriteStagingBuffer::staged_page ret=r
    requires self.wf(), ensures r == (if self.staged().contains_key(page_id) { Some(self.staged()[page_id]) } else { None::<Bytes> }),
//@endfn
//@fn s WriteStagingBuffer::restage
//@rewrite /for \(page_id, data\) in pages \{/let mut vp_n: usize = 0; while vp_n < pages.len() { let (page_id, data) = (pages[vp_n].0, pages[vp_n].1.clone()); vp_n += 1;/
    requires old(self).wf(), once(pages@), sized(pages@),
    ensures final(self).wf(), final(self).fixed(old(self)), final(self).staged() == pend(pages@).union_prefer_right(old(self).staged()),
//@loop 0
        invariant vp_n <= pages@.len(), self.wf(), self.fixed(old(self)), once(pages@), sized(pages@), self.staged() == pend(pages@.take(vp_n as int)).union_prefer_right(old(self).staged()),
        decreases pages@.len() - vp_n,
//@loopstart 0
        vp_fits(&self.buffer.buffer);
        proof {
            let l = pages@; let k = vp_n as int;
            lemma_pend_take(l, k); lemma_pend(l.take(k)); lemma_pend(l.take(k + 1));
            assert(!pend(l.take(k)).contains_key(l[k].0)) by { if pend(l.take(k)).contains_key(l[k].0) { let i = choose|i: int| 0 <= i < l.take(k).len() && l.take(k)[i].0 == l[k].0 && l.take(k)[i].1 == pend(l.take(k))[l[k].0]; assert(l[i].0 == l[k].0); } }
            assert(pend(l.take(k + 1)).union_prefer_right(old(self).staged()) =~= if old(self).staged().contains_key(l[k].0) { self.staged() } else { self.staged().insert(l[k].0, l[k].1) });
        }
//@beforeloop 0
    proof { assert(pages@.take(0) =~= Seq::<(PageId, Bytes)>::empty()); assert(pend(pages@.take(0)).union_prefer_right(old(self).staged()) =~= old(self).staged()); }
//@afterloop 0
    proof { assert(pages@.take(vp_n as int) =~= pages@); }
//@endfn
//@fn s WriteStagingBuffer::drain_buffer ret=r
//@rewrite /let pages = hm_drain/let pages: Vec<(PageId, Bytes)> = hm_drain/
    requires old(self).wf(),
    ensures final(self).wf(), final(self).fixed(old(self)), final(self).staged() == Map::<PageId, Bytes>::empty(), once(r@), sized(r@), pend(r@) == old(self).staged(),
//@after /last_flush = Instant::now\(\);/
    proof {
        lemma_pend(pages@);
        let m = old(self).staged();
        assert forall|i: int| 0 <= i < pages@.len() implies page((#[trigger] pages@[i]).1) by { assert(m.contains_key(pages@[i].0)); }
        assert forall|p: PageId| #[trigger] m.contains_key(p) implies pend(pages@).contains_key(p) by { let i = choose|i: int| 0 <= i < pages@.len() && pages@[i].0 == p; assert(pend(pages@).contains_key(pages@[i].0)); }
        assert(pend(pages@) =~= m);
    }
//@endfn
//@fn s WriteStagingBuffer::is_empty ret=r
    ensures r == (self.staged().len() == 0),
//@endfn
//@fn s WriteStagingBuffer::get_stats ret=r
    requires self.wf(), ensures r.dirty_pages == self.staged().len(), r.buffer_size_bytes == DB_PAGE_SIZE * self.staged().len(), r.max_buffer_size == self.limit(),
//@endfn
}

// --- flush coordination
//@enum fc FlushDecision
//@struct fc FlushCoordinator drop=last_flush
impl FlushCoordinator {
    pub closed spec fn busy(&self) -> bool { self.flush_in_progress }
    pub closed spec fn fixed(&self, o: &Self) -> bool { self.flush_threshold == o.flush_threshold && self.flush_interval == o.flush_interval }
    pub closed spec fn threshold(&self) -> int { self.flush_threshold as int }
//@fn fc FlushCoordinator::new ret=r
//@rewrite /last_flush: Mutex::new\(Instant::now\(\)\),//
    ensures !r.busy(), r.threshold() == flush_threshold,
//@endfn
//@fn fc FlushCoordinator::should_flush ret=r
//@rewrite /time_since_last_flush >= self\.flush_interval/time_since_last_flush.vp_ge(&self.flush_interval)/
    ensures dirty_pages >= self.threshold() ==> r is ThresholdFlush, r is NoFlush || r is ThresholdFlush || r is IntervalFlush,
//@endfn
//@fn fc FlushCoordinator::try_start_flush ret=r
    ensures r == !old(self).busy(), final(self).busy(), final(self).fixed(old(self)),
//@endfn
//@fn fc FlushCoordinator::complete_flush
    ensures !final(self).busy(), final(self).fixed(old(self)),
//@endfn
}

// --- durability
//@enum c FsyncPolicy
//@enum c DurabilityLevel
impl Clone for FsyncPolicy { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for DurabilityLevel { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
//@struct dm DurabilityResult
//@struct dm DurabilityManager drop=pending_syncs,last_sync_time
impl DurabilityManager {
    pub closed spec fn level(&self) -> DurabilityLevel { self.durability_level }
    pub closed spec fn policy(&self) -> FsyncPolicy { self.fsync_policy }
//@fn dm DurabilityManager::new ret=r
//@rewrite /pending_syncs: 0,//
//@rewrite /pending_syncs: usize::new\(0\),//
//@rewrite /last_sync_time: Mutex::new\(Instant::now\(\)\),//
    ensures r.level() == durability_level, r.policy() == fsync_policy,
//@endfn
//@fn dm DurabilityManager::should_sync_pages ret=r
    ensures r is Ok, self.policy() is OnFlush || self.policy() is PerWrite ==> r == Ok::<bool, IoError>(true), self.policy() is Never ==> r == Ok::<bool, IoError>(false),
//@endfn
//@fn dm DurabilityManager::apply_durability ret=r
    ensures final(provider).same(old(provider)),
        // what is reported as synced is synced, and the strongest level always syncs
        r matches Ok(x) ==> (x.sync_performed ==> final(provider).synced()) && (pages@.len() > 0 && self.level() is Durable ==> final(provider).synced())
            && (pages@.len() > 0 && self.level() is Sync && (self.policy() is OnFlush || self.policy() is PerWrite) ==> final(provider).synced()),
//@endfn
}

// --- coalescing
//@enum ce CoalesceResult
//@struct ce CoalescingEngine drop=size_analyzer,last_cleanup_metrics
impl CoalescingEngine {
    #[verifier::external_body] fn simple_cleanup(&mut self) { }
    #[verifier::external_body] pub fn new(coalesce_window: Duration, max_coalesce_size: usize) -> Self { unimplemented!() }
//@fn ce CoalescingEngine::try_coalesce_write ret=r extern=simple_cleanup
    ensures data@.len() > 0 ==> r is Ok,
        r matches Ok(x) ==> (match x { CoalesceResult::NoCoalesce(d) => d == data, CoalesceResult::Coalesced(d) => d == data, CoalesceResult::Merged(d) => d == data }),
//@endfn
}

// --- write manager
//@struct w WriteManager
//@struct c DiskManagerConfig drop=hot_cache_ratio,warm_cache_ratio,cpu_affinity
// what the buffer and a list of pages on their way out hold together, the buffer's being the newer
pub open spec fn together(l: Seq<(PageId, Bytes)>, m: Map<PageId, Bytes>) -> Map<PageId, Bytes> { pend(l).union_prefer_right(m) }
pub open spec fn neat(l: Seq<(PageId, Bytes)>) -> bool { once(l) && sized(l) }
pub open spec fn taken(r: Option<Vec<(PageId, Bytes)>>) -> Seq<(PageId, Bytes)> { match r { Some(l) => l@, None => Seq::empty() } }
impl WriteManager {
    pub closed spec fn staged(&self) -> Map<PageId, Bytes> { self.buffer_manager.staged() }
    pub closed spec fn wf(&self) -> bool { self.buffer_manager.wf() && !self.flush_coordinator.busy() }
    pub closed spec fn fixed(&self, o: &Self) -> bool { self.buffer_manager.fixed(&o.buffer_manager) && self.flush_coordinator.fixed(&o.flush_coordinator) && self.durability_manager == o.durability_manager }
//@fn w WriteManager::new ret=r extern=new
    requires config.write_buffer_size_mb <= 0x100_0000_0000,
    ensures r.wf(), r.staged() == Map::<PageId, Bytes>::empty(),
//@endfn
//@fn w WriteManager::try_coalesce_write ret=r
    ensures page(data) ==> r == Ok::<Bytes, IoError>(data), final(self).staged() == old(self).staged(), old(self).wf() ==> final(self).wf(), final(self).fixed(old(self)),
//@endfn
//@fn w WriteManager::staged_page ret=r
//@rewrite /fn staged_page\(&self, page_id: PageId\) -> Option<Bytes>/fn staged_page(&self, page_id: PageId, vp_d: &Disk) -> Option<Bytes>/
    requires self.wf(), vp_d.order() >= 1, ensures r == (if self.staged().contains_key(page_id) { Some(self.staged()[page_id]) } else { None::<Bytes> }),
//@endfn
//@fn w WriteManager::restage
    requires old(self).buffer_manager.wf(), once(pages@), sized(pages@),
    ensures old(self).wf() ==> final(self).wf(), final(self).buffer_manager.wf(), final(self).flush_coordinator == old(self).flush_coordinator, final(self).fixed(old(self)), final(self).staged() == together(pages@, old(self).staged()),
//@endfn
//@fn w WriteManager::flush_internal ret=r
    requires old(self).buffer_manager.wf(),
    ensures final(self).buffer_manager.wf(), final(self).flush_coordinator == old(self).flush_coordinator, final(self).fixed(old(self)), final(provider).same(old(provider)),
        r matches Ok(l) ==> final(self).staged() == Map::<PageId, Bytes>::empty() && once(l@) && sized(l@) && pend(l@) == old(self).staged(),
        r is Err ==> final(self).staged() == old(self).staged(),
//@before /if let Err\(e\) =/
    proof { assert(pend(pages_to_flush@).union_prefer_right(Map::<PageId, Bytes>::empty()) =~= pend(pages_to_flush@)); }
//@endfn
//@fn w WriteManager::flush ret=r
    requires old(self).buffer_manager.wf(),
    ensures final(self).buffer_manager.wf(), final(self).flush_coordinator.busy() == old(self).flush_coordinator.busy(), final(self).fixed(old(self)), final(provider).same(old(provider)),
        r matches Ok(l) ==> neat(l@) && together(l@, final(self).staged()) == old(self).staged(),
        r is Err ==> final(self).staged() == old(self).staged(),
//@before /if !self\.flush_coordinator/
    proof { assert(pend(Seq::<(PageId, Bytes)>::empty()).union_prefer_right(self.staged()) =~= self.staged()); assert forall|m: Map<PageId, Bytes>| #[trigger] m.union_prefer_right(Map::<PageId, Bytes>::empty()) == m by { assert(m.union_prefer_right(Map::<PageId, Bytes>::empty()) =~= m); } }
//@endfn
//@fn w WriteManager::force_flush ret=r
    requires old(self).buffer_manager.wf(),
    ensures final(self).buffer_manager.wf(), final(self).flush_coordinator.busy() == old(self).flush_coordinator.busy(), final(self).fixed(old(self)), final(provider).same(old(provider)),
        !old(self).flush_coordinator.busy() && r is Ok ==> final(self).staged() == Map::<PageId, Bytes>::empty(),
        r matches Ok(l) ==> once(l@) && sized(l@) && final(self).staged() == Map::<PageId, Bytes>::empty() && pend(l@) == old(self).staged(),
        r is Err ==> final(self).staged() == old(self).staged(),
//@loop 0
        invariant_except_break self.flush_coordinator.busy() == old(self).flush_coordinator.busy(),
        invariant retry_count <= 100, self.buffer_manager.wf(), self.staged() == old(self).staged(), self.fixed(old(self)), provider.same(old(provider)),
        ensures self.flush_coordinator.busy(), !old(self).flush_coordinator.busy(),
        decreases 101 - retry_count,
//@endfn
//@fn w WriteManager::buffer_write ret=r
    requires old(self).wf(), page(data),
    ensures final(self).wf(), final(self).fixed(old(self)), final(provider).same(old(provider)),
        // nothing is lost and nothing else appears: what is still staged and what goes out are all that was staged and the new page
        r matches Ok(l) ==> neat(taken(l)) && together(taken(l), final(self).staged()) == old(self).staged().insert(page_id, data),
        r is Err ==> final(self).staged() == old(self).staged() || final(self).staged() == old(self).staged().insert(page_id, data),
//@before /vp_retain_other/
    proof { lemma_filter(pages@, page_id); lemma_pend(pages@); }
    let ghost vp_l = pages@;
//@after /pages\.push\(\(page_id, coalesced_data\)\);/
    proof {
        let f = vp_l.filter(|e: (PageId, Bytes)| e.0 != page_id);
        assert(pages@.drop_last() =~= f);
        lemma_pend(f);
        assert(pend(pages@) == pend(f).insert(page_id, data));
        assert(once(pages@)) by { assert forall|i: int, j: int| 0 <= i < j < pages@.len() implies (#[trigger] pages@[i]).0 != (#[trigger] pages@[j]).0 by { if j == f.len() { assert(pend(f).contains_key(f[i].0)); } else { assert(f[i].0 != f[j].0); } } }
        assert(sized(pages@));
        assert(together(pages@, self.staged()) =~= old(self).staged().insert(page_id, data));
    }
//@before /Ok\(flushed_pages\)/
    proof {
        assert forall|l: Seq<(PageId, Bytes)>| l.len() == 0 implies #[trigger] pend(l) == Map::<PageId, Bytes>::empty() by { }
        lemma_pend(taken(flushed_pages));
        assert(together(taken(flushed_pages), self.staged()) =~= old(self).staged().insert(page_id, data));
    }
//@endfn
//@fn w WriteManager::should_flush ret=r
    requires self.wf(),
//@endfn
//@fn w WriteManager::get_buffer_stats ret=r
    requires self.wf(), ensures r.dirty_pages == self.staged().len(),
//@endfn
//@fn w WriteManager::apply_durability ret=r
    ensures final(provider).same(old(provider)), r matches Ok(x) ==> (x.sync_performed ==> final(provider).synced()),
//@endfn
}

// --- the page cache: assumed contract of the tiers (proved in C14)
#[verifier::external_body]
pub struct CacheManager { x: u8 }
impl CacheManager {
    pub uninterp spec fn has(&self, p: PageId, d: Bytes) -> bool;
    #[verifier::external_body] pub fn store_page(&mut self, p: PageId, d: Bytes, vp_d: &Disk) requires vp_d.order() >= 1,
        ensures forall|q: PageId, e: Bytes| #[trigger] final(self).has(q, e) ==> (if q == p { e == d } else { old(self).has(q, e) }), { unimplemented!() }
    #[verifier::external_body] pub fn get_page_with_metrics(&mut self, p: PageId) -> (r: Option<Bytes>)
        ensures forall|q: PageId, e: Bytes| #[trigger] final(self).has(q, e) ==> old(self).has(q, e), r matches Some(d) ==> old(self).has(p, d), { unimplemented!() }
}
//@enum c IOPriority
//@enum sch IOTaskType
//@struct sch IOTask drop=priority,creation_time
// the answer channel of a task: what is sent is what the waiter gets
pub struct Answer;
impl Answer { pub fn send(self, out: &mut Option<IoResult<Bytes>>, r: IoResult<Bytes>) ensures *final(out) == Some(r), { *out = Some(r); } }
pub struct Gone;
pub fn vp_wait(a: Option<IoResult<Bytes>>) -> (r: Result<IoResult<Bytes>, Gone>) ensures r == (match a { Some(x) => Ok::<IoResult<Bytes>, Gone>(x), None => Err(Gone) }), { match a { Some(x) => Ok(x), None => Err(Gone) } }
pub fn vp_empty(r: IoResult<()>) -> (o: IoResult<Bytes>) ensures o is Ok == r is Ok, { match r { Ok(_) => Ok(Bytes::new()), Err(e) => Err(e) } }
// pages read one after another
pub open spec fn joined(d: &Disk, ids: Seq<PageId>) -> Seq<u8> decreases ids.len() { if ids.len() == 0 { Seq::empty() } else { joined(d, ids.drop_last()) + d.at(ids.last())@ } }
pub open spec fn task_ok(t: IOTaskType, d: &Disk) -> bool { match t { IOTaskType::Read(_) => d.order() >= 1, IOTaskType::BatchRead(_) => d.order() >= 1, IOTaskType::Prefetch(_) => d.order() >= 1, IOTaskType::Write(_, _) => d.order() == 2, IOTaskType::BatchWrite(_) => d.order() == 2, _ => true } }
// what running a task does to the disk and answers
pub open spec fn task_done(a: &Disk, t: IOTaskType, b: &Disk, r: IoResult<Bytes>) -> bool {
    &&& b.order() == a.order()
    &&& match t {
        IOTaskType::Read(p) => b.same(a) && b.synced() == a.synced() && (r matches Ok(d) ==> d == a.at(p) && page(d)),
        IOTaskType::BatchRead(l) => b.same(a) && b.synced() == a.synced() && (r matches Ok(d) ==> d@ == joined(a, l@) && forall|i: int| 0 <= i < l@.len() ==> page(a.at(#[trigger] l@[i]))),
        IOTaskType::Prefetch(l) => b.same(a) && b.synced() == a.synced() && (r matches Ok(d) ==> d@ == joined(a, l@)),
        IOTaskType::Write(p, d) => (forall|q: PageId| q != p ==> #[trigger] b.at(q) == a.at(q)) && (r is Ok ==> b.at(p) == d),
        IOTaskType::BatchWrite(l) => outside(a, pend(l@), b) && (r is Ok ==> laid(a, pend(l@), b)),
        IOTaskType::Flush => b.same(a) && (r is Ok ==> b.synced()),
        IOTaskType::Sync => b.same(a) && (r is Ok ==> b.synced()),
    }
}
// handing a task to the scheduler: refused, run and answered, or run with the answer lost
pub fn vp_submit(d: &mut Disk, task: IOTask, out: &mut Option<IoResult<Bytes>>) -> (r: Result<(), IoError>)
    requires task.completion_callback is Some, task_ok(task.task_type, old(d)), *old(out) is None,
    ensures r is Err ==> *final(d) == *old(d), r is Ok ==> (*final(out) matches Some(x) ==> task_done(old(d), task.task_type, final(d), x)) && (*final(out) is None ==> exists|x: IoResult<Bytes>| task_done(old(d), task.task_type, final(d), x)),
{
    if vp_chance() { return Err(vp_err()); }
    let mut got: Option<IoResult<Bytes>> = None;
    AsyncDiskManager::run_scheduled_task(d, task, &mut got);
    if vp_chance() { *out = got; }
    Ok(())
}
#[verifier::external_body]
pub fn vp_flatten(v: Vec<Option<Bytes>>) -> (r: Vec<Bytes>) ensures (forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] is Some) ==> r@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == v@[i]->0, { unimplemented!() }
pub fn vp_next(c: &Vec<Bytes>, at: &mut usize) -> (r: Option<Bytes>) requires *old(at) <= c@.len(), ensures r == (if *old(at) < c@.len() { Some(c@[*old(at) as int]) } else { None::<Bytes> }), *final(at) == (if *old(at) < c@.len() { *old(at) + 1 } else { *old(at) as int }), { if *at < c.len() { let r = c[*at].clone(); *at = *at + 1; Some(r) } else { None } }
// slices of a list, n at a time, in order
pub open spec fn flat<T>(c: Seq<Vec<T>>) -> Seq<T> decreases c.len() { if c.len() == 0 { Seq::empty() } else { flat(c.drop_last()) + c.last()@ } }
#[verifier::external_body]
pub fn vp_chunks<T: Clone>(v: &Vec<T>, n: usize) -> (r: Vec<Vec<T>>) requires n > 0, ensures flat(r@) == v@, { unimplemented!() }
pub proof fn lemma_flat_take<T>(c: Seq<Vec<T>>, n: int) requires 0 <= n < c.len(), ensures flat(c.take(n + 1)) == flat(c.take(n)) + c[n]@, { assert(c.take(n + 1).drop_last() =~= c.take(n)); }
#[verifier::external_body]
pub fn vp_bchunks(b: &Bytes, n: usize) -> (r: Vec<Bytes>) requires n > 0, ensures b@.len() % (n as nat) == 0 ==> r@.len() == b@.len() / (n as nat) && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == b@.subrange(i * n, i * n + n), { unimplemented!() }
pub proof fn lemma_joined(d: &Disk, l: Seq<PageId>, k: int)
    requires 0 <= k < l.len(), forall|i: int| 0 <= i < l.len() ==> page(d.at(#[trigger] l[i])),
    ensures joined(d, l).len() == DB_PAGE_SIZE * l.len(), joined(d, l).subrange(k * DB_PAGE_SIZE, k * DB_PAGE_SIZE + DB_PAGE_SIZE) == d.at(l[k])@,
    decreases l.len(),
{
    let e = l.drop_last();
    assert forall|i: int| 0 <= i < e.len() implies page(d.at(#[trigger] e[i])) by { assert(e[i] == l[i]); }
    assert(page(d.at(l[l.len() - 1])));
    if e.len() > 0 { lemma_joined(d, e, 0); }
    assert(joined(d, e).len() == DB_PAGE_SIZE * e.len());
    if k < e.len() {
        lemma_joined(d, e, k);
        assert(joined(d, l).subrange(k * DB_PAGE_SIZE, k * DB_PAGE_SIZE + DB_PAGE_SIZE) =~= joined(d, e).subrange(k * DB_PAGE_SIZE, k * DB_PAGE_SIZE + DB_PAGE_SIZE));
    } else {
        assert(joined(d, l).subrange(k * DB_PAGE_SIZE, k * DB_PAGE_SIZE + DB_PAGE_SIZE) =~= d.at(l[k])@);
    }
}

#[verifier::external_body] pub fn vp_extend(a: &mut Vec<Bytes>, b: Vec<Bytes>) ensures final(a)@ == old(a)@ + b@, { a.extend(b) }
pub open spec fn is_prefix_of(a: Seq<(PageId, Bytes)>, b: Seq<(PageId, Bytes)>) -> bool { a.len() <= b.len() && a == b.take(a.len() as int) }
pub open spec fn laid_of(m: Map<PageId, Bytes>, o: &AsyncDiskManager, p: PageId) -> Bytes { if m.contains_key(p) { m[p] } else { o.cur(p) } }
pub proof fn lemma_pend_prefix(a: Seq<(PageId, Bytes)>, b: Seq<(PageId, Bytes)>)
    requires is_prefix_of(a, b), ensures forall|p: PageId| #[trigger] pend(a).contains_key(p) ==> pend(b).contains_key(p),
{
    lemma_pend(a); lemma_pend(b);
    assert forall|p: PageId| #[trigger] pend(a).contains_key(p) implies pend(b).contains_key(p) by { let i = choose|i: int| 0 <= i < a.len() && a[i].0 == p && a[i].1 == pend(a)[p]; assert(b.take(a.len() as int)[i] == b[i]); assert(pend(b).contains_key(b[i].0)); }
}
pub proof fn lemma_flat_prefix(c: Seq<Vec<(PageId, Bytes)>>, n: int)
    requires 0 <= n <= c.len(), ensures is_prefix_of(flat(c.take(n)), flat(c)), decreases c.len(),
{
    if n == c.len() { assert(c.take(n) =~= c); assert(flat(c).take(flat(c).len() as int) =~= flat(c)); }
    else { let d = c.drop_last(); lemma_flat_prefix(d, n); assert(d.take(n) =~= c.take(n)); assert(flat(c).take(flat(c.take(n)).len() as int) =~= flat(d).take(flat(c.take(n)).len() as int)); }
}
pub proof fn lemma_step(b: Seq<(PageId, Bytes)>, c: Seq<(PageId, Bytes)>, n: int, all: Seq<(PageId, Bytes)>)
    requires 0 <= n < c.len(), is_prefix_of(b + c, all),
    ensures pend(b + c.take(n + 1)) == pend(b + c.take(n)).insert(c[n].0, c[n].1), is_prefix_of(b + c.take(n), all), is_prefix_of(b + c.take(n + 1), all), pend(all).contains_key(c[n].0),
{
    let x = b + c.take(n + 1);
    assert(x.drop_last() =~= b + c.take(n)); assert(x.last() == c[n]);
    assert forall|m: int| 0 <= m <= c.len() implies is_prefix_of(#[trigger] (b + c.take(m)), all) by { let y = b + c.take(m); assert forall|i: int| 0 <= i < y.len() implies y[i] == all[i] by { assert(y[i] == (b + c)[i]); assert((b + c)[i] == all.take((b + c).len() as int)[i]); } assert(y =~= all.take(y.len() as int)); }
    lemma_pend_prefix(b + c.take(n + 1), all);
    assert(is_prefix_of(b + c.take(n), all)); assert(is_prefix_of(b + c.take(n + 1), all));
    assert(pend(x).contains_key(c[n].0));
}
// the pages of a list that are not staged
pub open spec fn missing(m: Map<PageId, Bytes>, ids: Seq<PageId>) -> Seq<PageId> decreases ids.len() { if ids.len() == 0 { Seq::empty() } else { let b = missing(m, ids.drop_last()); if m.contains_key(ids.last()) { b } else { b.push(ids.last()) } } }
pub proof fn lemma_missing(m: Map<PageId, Bytes>, ids: Seq<PageId>, n: int)
    requires 0 <= n < ids.len(),
    ensures missing(m, ids.take(n + 1)) == (if m.contains_key(ids[n]) { missing(m, ids.take(n)) } else { missing(m, ids.take(n)).push(ids[n]) }),
        missing(m, ids.take(n + 1)).len() <= missing(m, ids).len(),
        !m.contains_key(ids[n]) ==> missing(m, ids.take(n)).len() < missing(m, ids).len() && missing(m, ids)[missing(m, ids.take(n)).len() as int] == ids[n],
    decreases ids.len() - n,
{
    assert(ids.take(n + 1).drop_last() =~= ids.take(n));
    if n + 1 == ids.len() { assert(ids.take(n + 1) =~= ids); }
    else {
        lemma_missing_prefix(m, ids, n + 1);
        let a = missing(m, ids.take(n + 1)); let k = a.len() as int;
        assert(missing(m, ids).take(k) == a);
        if !m.contains_key(ids[n]) { assert(a[k - 1] == ids[n]); assert(missing(m, ids).take(k)[k - 1] == missing(m, ids)[k - 1]); }
    }
}
pub proof fn lemma_missing_prefix(m: Map<PageId, Bytes>, ids: Seq<PageId>, n: int)
    requires 0 <= n <= ids.len(),
    ensures missing(m, ids.take(n)).len() <= missing(m, ids).len(), missing(m, ids).take(missing(m, ids.take(n)).len() as int) == missing(m, ids.take(n)),
    decreases ids.len(),
{
    if n == ids.len() { assert(ids.take(n) =~= ids); assert(missing(m, ids).take(missing(m, ids).len() as int) =~= missing(m, ids)); }
    else {
        let d = ids.drop_last();
        lemma_missing_prefix(m, d, n);
        assert(d.take(n) =~= ids.take(n));
        assert(missing(m, ids).take(missing(m, ids.take(n)).len() as int) =~= missing(m, d).take(missing(m, d.take(n)).len() as int));
    }
}

// --- the disk manager
//@struct m AsyncDiskManager drop=scheduler,metrics_collector,is_shutting_down,background_tasks,page_order
pub open spec fn cur_of(m: Map<PageId, Bytes>, d: &Disk, p: PageId) -> Bytes { if m.contains_key(p) { m[p] } else { d.at(p) } }
impl AsyncDiskManager {
    // the latest bytes of a page: staged, or else on disk
    pub closed spec fn cur(&self, p: PageId) -> Bytes { cur_of(self.write_manager.staged(), &self.io_engine, p) }
    pub closed spec fn staged(&self) -> Map<PageId, Bytes> { self.write_manager.staged() }
    pub closed spec fn disk(&self) -> Disk { self.io_engine }
    pub closed spec fn order(&self) -> int { self.io_engine.order() }
    pub closed spec fn config(&self) -> DiskManagerConfig { self.config }
    pub closed spec fn fixed(&self, o: &Self) -> bool { self.config == o.config && self.write_manager.fixed(&o.write_manager) }
    pub closed spec fn cached(&self) -> bool { self.config.cache_size_mb > 0 ==> forall|p: PageId, d: Bytes| #[trigger] self.cache_manager.has(p, d) ==> d == self.cur(p) }
    pub closed spec fn wf(&self) -> bool { self.write_manager.wf() && self.cached() }
    // cached copies that are not pages on their way out
    pub closed spec fn cached_but(&self, l: Seq<(PageId, Bytes)>) -> bool { self.config.cache_size_mb > 0 ==> forall|p: PageId, d: Bytes| #[trigger] self.cache_manager.has(p, d) ==> d == cur_of(together(l, self.staged()), &self.io_engine, p) }
    pub open spec fn same(&self, o: &Self) -> bool { (forall|p: PageId| #![trigger self.cur(p)] #![trigger self.io_engine.at(p)] self.cur(p) == o.cur(p)) && self.fixed(o) }
//@fn m AsyncDiskManager::validate_page_data_len ret=r
    ensures r is Ok == (len == DB_PAGE_SIZE),
//@endfn
//@fn m AsyncDiskManager::read_pages_in_order ret=r
//@rewrite /for page_id in page_ids \{/let mut vp_n: usize = 0; while vp_n < page_ids.len() { let page_id = &page_ids[vp_n]; vp_n += 1;/
    requires old(io_engine).order() >= 1,
    ensures final(io_engine).same(old(io_engine)), final(io_engine).synced() == old(io_engine).synced(), r matches Ok(d) ==> d@ == joined(old(io_engine), page_ids@) && forall|i: int| 0 <= i < page_ids@.len() ==> page(old(io_engine).at(#[trigger] page_ids@[i])),
//@loop 0
        invariant vp_n <= page_ids@.len(), io_engine.same(old(io_engine)), old(io_engine).order() >= 1, io_engine.synced() == old(io_engine).synced(), all@ == joined(old(io_engine), page_ids@.take(vp_n as int)), forall|i: int| 0 <= i < vp_n ==> page(old(io_engine).at(#[trigger] page_ids@[i])),
        decreases page_ids@.len() - vp_n,
//@loopend 0
    proof { assert(page_ids@.take(vp_n as int).drop_last() =~= page_ids@.take(vp_n - 1)); }
//@afterloop 0
    proof { assert(page_ids@.take(vp_n as int) =~= page_ids@); }
//@endfn
//@fn m AsyncDiskManager::write_pages_in_order ret=r
//@rewrite /for \(page_id, data\) in pages \{/let mut vp_n: usize = 0; while vp_n < pages.len() { let (page_id, data) = (&pages[vp_n].0, &pages[vp_n].1); vp_n += 1;/
    requires old(io_engine).order() == 2,
    ensures final(io_engine).order() == 2, outside(old(io_engine), pend(pages@), final(io_engine)), r is Ok ==> laid(old(io_engine), pend(pages@), final(io_engine)),
//@loop 0
        invariant vp_n <= pages@.len(), io_engine.order() == 2, laid(old(io_engine), pend(pages@.take(vp_n as int)), io_engine),
        decreases pages@.len() - vp_n,
//@loopstart 0
        proof { lemma_pend_take(pages@, vp_n as int); lemma_pend(pages@); lemma_pend(pages@.take(vp_n as int)); }
//@afterloop 0
    proof { assert(pages@.take(vp_n as int) =~= pages@); }
//@endfn
//@fn m AsyncDiskManager::run_scheduled_task
    requires task_ok(task.task_type, old(io_engine)), *old(vp_out) is None,
    ensures task.completion_callback is Some ==> *final(vp_out) is Some,
        *final(vp_out) matches Some(x) ==> task_done(old(io_engine), task.task_type, final(io_engine), x),
//@endfn
//@fn m AsyncDiskManager::sync ret=r
    ensures final(self).same(old(self)), old(self).wf() ==> final(self).wf(), final(self).staged() == old(self).staged(), final(self).disk().same(&old(self).disk()), r is Ok ==> final(self).disk().synced(),
//@endfn
//@fn m AsyncDiskManager::try_write_pages_to_disk ret=r
//@rewrite /for \(page_id, data\) in pages \{/let mut vp_n: usize = 0; while vp_n < pages.len() { let (page_id, data) = (&pages[vp_n].0, &pages[vp_n].1); vp_n += 1;/
    requires old(self).order() == 2, old(self).write_manager.wf(),
    ensures final(self).order() == 2, final(self).fixed(old(self)), final(self).write_manager == old(self).write_manager, final(self).cache_manager == old(self).cache_manager,
        outside(&old(self).io_engine, pend(pages@), &final(self).io_engine), r is Ok ==> laid(&old(self).io_engine, pend(pages@), &final(self).io_engine),
//@loop 0
        invariant vp_n <= pages@.len(), self.io_engine.order() == 2, laid(&old(self).io_engine, pend(pages@.take(vp_n as int)), &self.io_engine), self.write_manager == old(self).write_manager, self.cache_manager == old(self).cache_manager, self.config == old(self).config, old(self).order() == 2,
        decreases pages@.len() - vp_n,
//@loopstart 0
        proof { lemma_pend_take(pages@, vp_n as int); lemma_pend(pages@); lemma_pend(pages@.take(vp_n as int)); }
//@afterloop 0
    proof { assert(pages@.take(vp_n as int) =~= pages@); }
//@endfn
//@fn m AsyncDiskManager::write_pages_to_disk ret=r
    requires old(self).order() == 2, old(self).write_manager.wf(), neat(pages@), old(self).cached_but(pages@),
    ensures final(self).order() == 2, final(self).fixed(old(self)), final(self).wf(),
        // written or, when that fails, staged again: the latest bytes of every page stay what they were
        forall|p: PageId| #![trigger final(self).cur(p)] #![trigger final(self).io_engine.at(p)] final(self).cur(p) == cur_of(together(pages@, old(self).staged()), &old(self).io_engine, p),
        r is Ok ==> final(self).staged() == old(self).staged(),
//@endfn
//@fn m AsyncDiskManager::flush_writes_with_durability ret=r
//@rewrite /pages\.clone\(\)/vp_dup(&pages)/
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)),
        r is Ok ==> final(self).staged() == Map::<PageId, Bytes>::empty() && (final(self).config().fsync_policy is Never || final(self).disk().synced()),
//@start
    self.io_engine.vp_none();
//@before /if !pages\.is_empty/
    proof { lemma_pend(pages@); assert(together(pages@, Map::<PageId, Bytes>::empty()) =~= pend(pages@)); assert(pages@.len() == 0 ==> pend(pages@) =~= Map::<PageId, Bytes>::empty()); }
//@endfn
//@fn m AsyncDiskManager::schedule_batch_write_operation ret=r
//@rewrite /pages\.clone\(\)/vp_dup(&pages)/
    requires old(self).order() == 2,
    ensures final(self).order() == 2, final(self).fixed(old(self)), final(self).write_manager == old(self).write_manager, final(self).cache_manager == old(self).cache_manager,
        outside(&old(self).io_engine, pend(pages@), &final(self).io_engine), r is Ok ==> laid(&old(self).io_engine, pend(pages@), &final(self).io_engine),
//@endfn
//@fn m AsyncDiskManager::force_flush_all ret=r
//@rewrite /pages\.clone\(\)/vp_dup(&pages)/
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), r is Ok ==> final(self).staged() == Map::<PageId, Bytes>::empty() && final(self).disk().synced(),
//@start
    self.io_engine.vp_none();
//@before /if !pages\.is_empty/
    proof { lemma_pend(pages@); assert(together(pages@, Map::<PageId, Bytes>::empty()) =~= pend(pages@)); assert(pages@.len() == 0 ==> pend(pages@) =~= Map::<PageId, Bytes>::empty()); }
//@endfn
//@fn m AsyncDiskManager::flush ret=r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)),
        r is Ok ==> final(self).staged() == Map::<PageId, Bytes>::empty() && (final(self).config().fsync_policy is Never || final(self).disk().synced()),
//@endfn
//@fn m AsyncDiskManager::should_trigger_flush ret=r
    requires self.wf(),
//@endfn
//@fn m AsyncDiskManager::stage_page ret=r
    requires old(self).wf(), page(*data),
    ensures final(self).wf(), final(self).fixed(old(self)),
        forall|q: PageId| #![trigger final(self).cur(q)] #![trigger final(self).io_engine.at(q)] q != page_id ==> final(self).cur(q) == old(self).cur(q),
        r is Ok ==> final(self).cur(page_id) == *data,
        final(self).cur(page_id) == *data || final(self).cur(page_id) == old(self).cur(page_id),
//@start
    self.io_engine.vp_none();
//@before /if let Some\(pages\) = buffered/
    proof {
        assert(together(Seq::<(PageId, Bytes)>::empty(), self.staged()) =~= self.staged());
        if buffered is Ok { let l = buffered->Ok_0; assert(together(taken(l), self.staged()) == old(self).staged().insert(page_id, *data)); assert(self.cached_but(taken(l))); }
    }
//@endfn
//@fn m AsyncDiskManager::write_page_with_priority ret=r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).fixed(old(self)),
        forall|q: PageId| #![trigger final(self).cur(q)] #![trigger final(self).io_engine.at(q)] q != page_id ==> final(self).cur(q) == old(self).cur(q),
        r is Ok ==> final(self).cur(page_id) == data,
        final(self).cur(page_id) == data || final(self).cur(page_id) == old(self).cur(page_id),
        !page(data) ==> r is Err && final(self).same(old(self)),
//@endfn
//@fn m AsyncDiskManager::write_page ret=r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).fixed(old(self)),
        forall|q: PageId| #![trigger final(self).cur(q)] #![trigger final(self).io_engine.at(q)] q != page_id ==> final(self).cur(q) == old(self).cur(q),
        r is Ok ==> final(self).cur(page_id) == data,
        final(self).cur(page_id) == data || final(self).cur(page_id) == old(self).cur(page_id),
        !page(data) ==> r is Err && final(self).same(old(self)),
//@endfn
//@fn m AsyncDiskManager::schedule_read_operation ret=r
    requires old(self).wf(), old(self).order() >= 1, !old(self).staged().contains_key(page_id),
    ensures final(self).wf(), final(self).same(old(self)), r matches Ok(d) ==> d == old(self).cur(page_id),
//@endfn
//@fn m AsyncDiskManager::direct_read_operation ret=r
    requires old(self).wf(), old(self).order() >= 1, !old(self).staged().contains_key(page_id),
    ensures final(self).wf(), final(self).same(old(self)), r matches Ok(d) ==> d == old(self).cur(page_id),
//@endfn
//@fn m AsyncDiskManager::read_page_with_priority ret=r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), r matches Ok(d) ==> d == old(self).cur(page_id),
//@start
    self.io_engine.vp_none();
//@endfn
//@fn m AsyncDiskManager::read_page ret=r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), r matches Ok(d) ==> d == old(self).cur(page_id),
//@endfn
//@fn m AsyncDiskManager::direct_batch_read_operation ret=r
//@rewrite /for page_id in page_ids\.iter\(\) \{/let mut vp_n: usize = 0; while vp_n < page_ids.len() { let page_id = &page_ids[vp_n]; vp_n += 1;/
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), r matches Ok(v) ==> v@.len() == page_ids@.len() && forall|i: int| 0 <= i < page_ids@.len() ==> v@[i] == old(self).cur(#[trigger] page_ids@[i]),
//@loop 0
        invariant vp_n <= page_ids@.len(), self.wf(), self.same(old(self)), results@.len() == vp_n, forall|i: int| 0 <= i < vp_n ==> results@[i] == old(self).cur(#[trigger] page_ids@[i]),
        decreases page_ids@.len() - vp_n,
//@endfn
//@fn m AsyncDiskManager::schedule_batch_read_operation ret=r
//@rewrite /for page_id in &page_ids \{/let mut vp_n: usize = 0; while vp_n < page_ids.len() { let page_id = &page_ids[vp_n]; vp_n += 1;/
//@rewrite /return Ok\(results\.into_iter\(\)\.flatten\(\)\.collect\(\)\);/return Ok(vp_flatten(results));/
//@rewrite /on_disk\.clone\(\)/vp_dup_ids(&on_disk)/
//@rewrite /let mut results = Vec::new\(\);/let mut results: Vec<Option<Bytes>> = Vec::new();/
//@rewrite /let mut on_disk = Vec::new\(\);/let mut on_disk: Vec<PageId> = Vec::new();/
//@rewrite /let mut chunks = data\.chunks\(chunk_size\);/let chunks = vp_bchunks(&data, chunk_size); let mut vp_c: usize = 0;/
//@rewrite /let results: Vec<Bytes> = results\s*\.into_iter\(\)\s*\.filter_map\(\|staged\| \{([\s\S]*?)\}\)\s*\.collect\(\);/let vp_in = results; let mut results: Vec<Bytes> = Vec::new(); let mut vp_m: usize = 0; while vp_m < vp_in.len() { let staged = vp_in[vp_m].clone(); vp_m += 1; let vp_o: Option<Bytes> = {\1}; if let Some(vp_x) = vp_o { results.push(vp_x); } }/
//@rewrite /staged\.or_else\(\|\| chunks\.next\(\)\.map\(\|chunk\| chunk\.to_vec\(\)\)\)/match staged { Some(vp_s) => Some(vp_s), None => vp_next(&chunks, &mut vp_c) }/
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), r matches Ok(v) ==> v@.len() == page_ids@.len() && forall|i: int| 0 <= i < page_ids@.len() ==> v@[i] == old(self).cur(#[trigger] page_ids@[i]),
//@start
    self.io_engine.vp_none();
//@loop 0
        invariant vp_n <= page_ids@.len(), self.wf(), self.same(old(self)), self.io_engine.order() == 1, results@.len() == vp_n, on_disk@ == missing(self.staged(), page_ids@.take(vp_n as int)),
            forall|i: int| 0 <= i < vp_n ==> (#[trigger] results@[i]) == (if self.staged().contains_key(page_ids@[i]) { Some(self.staged()[page_ids@[i]]) } else { None::<Bytes> }),
        decreases page_ids@.len() - vp_n,
//@loopend 0
        proof { lemma_missing(self.staged(), page_ids@, vp_n - 1); }
//@afterloop 0
    let ghost vp_disk = self.io_engine;
    proof {
        assert(page_ids@.take(page_ids@.len() as int) =~= page_ids@);
        if on_disk@.len() == 0 { assert forall|i: int| 0 <= i < results@.len() implies (#[trigger] results@[i]) is Some by { lemma_missing(self.staged(), page_ids@, i); } }
    }
//@before /let chunk_size =/
    proof {
        assert(data@.len() == DB_PAGE_SIZE * on_disk@.len()) by { lemma_joined(&vp_disk, on_disk@, 0); }
        assert(data@.len() / on_disk@.len() == DB_PAGE_SIZE && data@.len() % (DB_PAGE_SIZE as nat) == 0 && data@.len() / (DB_PAGE_SIZE as nat) == on_disk@.len()) by (nonlinear_arith) requires data@.len() == DB_PAGE_SIZE * on_disk@.len(), on_disk@.len() > 0, DB_PAGE_SIZE == 4096;
    }
//@beforeloop 1
    proof {
        assert forall|k: int| 0 <= k < on_disk@.len() implies #[trigger] chunks@[k] == vp_disk.at(on_disk@[k]) by { lemma_joined(&vp_disk, on_disk@, k); axiom_bytes(chunks@[k], vp_disk.at(on_disk@[k])); }
    }
//@loop 1
        invariant vp_m <= vp_in@.len(), vp_in@.len() == page_ids@.len(), self.wf(), self.same(old(self)), results@.len() == vp_m, on_disk@ == missing(self.staged(), page_ids@), chunks@.len() == on_disk@.len(),
            vp_c == missing(self.staged(), page_ids@.take(vp_m as int)).len(), vp_c <= chunks@.len(),
            forall|k: int| 0 <= k < on_disk@.len() ==> #[trigger] chunks@[k] == vp_disk.at(on_disk@[k]), forall|p: PageId| #[trigger] vp_disk.at(p) == self.io_engine.at(p),
            forall|i: int| 0 <= i < vp_in@.len() ==> (#[trigger] vp_in@[i]) == (if self.staged().contains_key(page_ids@[i]) { Some(self.staged()[page_ids@[i]]) } else { None::<Bytes> }),
            forall|i: int| 0 <= i < vp_m ==> results@[i] == self.cur(#[trigger] page_ids@[i]),
        decreases vp_in@.len() - vp_m,
//@loopstart 1
        proof { lemma_missing(self.staged(), page_ids@, vp_m as int); }
//@endfn
//@fn m AsyncDiskManager::read_pages_batch ret=r
//@rewrite /for chunk in page_ids\.chunks\(batch_size\) \{/let vp_ch = vp_chunks(&page_ids, batch_size); let mut vp_n: usize = 0; while vp_n < vp_ch.len() { let chunk = &vp_ch[vp_n]; vp_n += 1;/
//@rewrite /chunk\.to_vec\(\)/vp_dup_ids(chunk)/
//@rewrite /results\.extend\(chunk_results\);/vp_extend(&mut results, chunk_results);/
    requires old(self).wf(), old(self).config().batch_size > 0,
    ensures final(self).wf(), final(self).same(old(self)), r matches Ok(v) ==> v@.len() == page_ids@.len() && forall|i: int| 0 <= i < page_ids@.len() ==> v@[i] == old(self).cur(#[trigger] page_ids@[i]),
//@loop 0
        invariant vp_n <= vp_ch@.len(), flat(vp_ch@) == page_ids@, self.wf(), self.same(old(self)), results@.len() == flat(vp_ch@.take(vp_n as int)).len(),
            forall|i: int| 0 <= i < results@.len() ==> results@[i] == old(self).cur(#[trigger] flat(vp_ch@.take(vp_n as int))[i]),
        decreases vp_ch@.len() - vp_n,
//@loopstart 0
        proof { lemma_flat_take(vp_ch@, vp_n as int); }
        let ghost vp_k = vp_n as int;
        let ghost vp_r = results@;
//@loopend 0
        proof {
            let a = flat(vp_ch@.take(vp_k));
            assert forall|i: int| 0 <= i < results@.len() implies results@[i] == old(self).cur(#[trigger] flat(vp_ch@.take(vp_n as int))[i]) by { if i < a.len() { assert(flat(vp_ch@.take(vp_n as int))[i] == a[i]); } else { assert(flat(vp_ch@.take(vp_n as int))[i] == vp_ch@[vp_k]@[i - a.len()]); } }
        }
//@afterloop 0
    proof { assert(vp_ch@.take(vp_n as int) =~= vp_ch@); }
//@endfn
//@fn m AsyncDiskManager::write_pages_batch ret=r
//@rewrite /for chunk in pages\.chunks\(batch_size\) \{/let vp_ch = vp_chunks(&pages, batch_size); let mut vp_n: usize = 0; while vp_n < vp_ch.len() { let chunk = &vp_ch[vp_n]; vp_n += 1;/
//@rewrite /for \(page_id, data\) in chunk \{/let mut vp_m: usize = 0; while vp_m < chunk.len() { let (page_id, data) = (&chunk[vp_m].0, &chunk[vp_m].1); vp_m += 1;/
    requires old(self).wf(), old(self).config().batch_size > 0,
    ensures final(self).wf(), final(self).fixed(old(self)),
        forall|p: PageId| #![trigger final(self).cur(p)] #![trigger final(self).io_engine.at(p)] !pend(pages@).contains_key(p) ==> final(self).cur(p) == old(self).cur(p),
        // all of them written, the later of two for one page
        r is Ok ==> forall|p: PageId| #![trigger final(self).cur(p)] #![trigger final(self).io_engine.at(p)] pend(pages@).contains_key(p) ==> final(self).cur(p) == pend(pages@)[p],
//@loop 0
        invariant vp_n <= vp_ch@.len(), flat(vp_ch@) == pages@, self.wf(), self.fixed(old(self)),
            forall|p: PageId| #![trigger self.cur(p)] #![trigger self.io_engine.at(p)] self.cur(p) == laid_of(pend(flat(vp_ch@.take(vp_n as int))), old(self), p),
        decreases vp_ch@.len() - vp_n,
//@loopstart 0
        proof { lemma_flat_take(vp_ch@, vp_n as int); }
        let ghost vp_k = vp_n as int;
        let ghost vp_b = flat(vp_ch@.take(vp_k));
        proof { lemma_flat_prefix(vp_ch@, vp_k + 1); lemma_flat_prefix(vp_ch@, vp_k); lemma_pend_prefix(vp_b, pages@); assert(vp_b + vp_ch@[vp_k]@.take(0) =~= vp_b); }
//@loop 1
        invariant vp_m <= chunk@.len(), self.wf(), self.fixed(old(self)), is_prefix_of(vp_b + chunk@, pages@),
            forall|p: PageId| #![trigger self.cur(p)] #![trigger self.io_engine.at(p)] self.cur(p) == laid_of(pend(vp_b + chunk@.take(vp_m as int)), old(self), p),
        decreases chunk@.len() - vp_m,
//@loopstart 1
        proof { lemma_step(vp_b, chunk@, vp_m as int, pages@); lemma_pend_prefix(vp_b + chunk@.take(vp_m as int), pages@); lemma_pend_prefix(vp_b + chunk@.take(vp_m + 1), pages@); }
//@loopend 0
        proof { assert(chunk@.take(vp_m as int) =~= chunk@); }
//@beforeloop 0
    proof { assert(flat(vp_ch@.take(0)) =~= Seq::<(PageId, Bytes)>::empty()); }
//@afterloop 0
    proof { assert(vp_ch@.take(vp_n as int) =~= vp_ch@); }
//@endfn
//@fn m AsyncDiskManager::shutdown ret=r
//@rewrite /self\.is_shutting_down = true;//
//@rewrite /let mut io_engine = self\.io_engine\.write\(\);/let io_engine = &mut self.io_engine;/
//@rewrite /let mut tasks = self\.background_tasks\.lock\(\);//
//@rewrite /for \(i, task\) in tasks\.drain\(\.\.\)\.enumerate\(\) \{\s*task\.abort\(\);\s*\}//
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), r is Ok ==> final(self).staged() == Map::<PageId, Bytes>::empty() && final(self).disk().synced(),
//@endfn
}
} // verus!
fn main() {}
