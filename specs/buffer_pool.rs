//@source b src/buffer/buffer_pool_manager_async.rs
//@source g src/storage/page/page_guard.rs
//@source pi src/storage/page/page_impl.rs
//@source r src/buffer/lru_k_replacer.rs
//@source cfg src/common/config.rs
//@source ex src/common/exception.rs
//@opt strings=vp_string()
//@opt rlimit=60
//@rewrite /\.await//
//@rewrite /self: &Arc<Self>/&mut self/
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /(fn (?:get_page_id|is_dirty|get_pin_count|get_data|get_page)\s*\()&mut self/\1&self/
//@rewrite /futures::executor::block_on\((?:tokio::task::unconstrained\()?async \{([^{}]*)\}\)\)?/\1/
//@rewrite /PageGuard<[TP]>/PageGuard/
//@rewrite /<T: Page \+ 'static>/<T: Page>/
//@rewrite /Arc<RwLock<(?:T|P|dyn PageTrait)>>/PageRef/
//@rewrite /T::TYPE_ID/T::vp_type()/
//@rewrite /T::new\(/T::vp_new(/
//@rewrite /let unpinner: Arc<BufferPoolManager> = Arc::clone\(self\);/let unpinner = Unpinner;/
//@rewrite /let unpinner: Arc<dyn PageUnpinner> = unpinner;//
//@rewrite /Option<Arc<dyn PageUnpinner>>/Option<Unpinner>/
//@rewrite /let typed_page = unsafe \{[\s\S]*?\};/let typed_page = page;/
//@rewrite /PageGuard::(new|new_for_new_page)\(/PageGuard::\1(&mut self.heap, /
//@rewrite /Arc::new\(RwLock::new\(page\)\)/self.heap.vp_alloc(page)/
//@rewrite /let (?:mut )?pages = self\.pages\.read\(\);/let pages = &self.pages;/
//@rewrite /let mut pages = self\.pages\.write\(\);/let pages = &mut self.pages;/
//@rewrite /let page_table = self\.page_table\.read\(\);/let page_table = &self.page_table;/
//@rewrite /let mut page_table = self\.page_table\.write\(\);/let page_table = &mut self.page_table;/
//@rewrite /self\.page_table\.read\(\)/self.page_table/
//@rewrite /let (?:mut )?replacer = self\.replacer\.write\(\);//
//@rewrite /(?<![.\w])replacer\.(evict|record_access|set_evictable|remove)\(/self.replacer.\1(/
//@rewrite /let mut free_list = self\.free_list\.write\(\);//
//@rewrite /(?<![.\w])free_list\.(pop|push)\(/self.free_list.\1(/
//@rewrite /self\.free_list\.write\(\)\./self.free_list./
//@rewrite /self\.free_list\.read\(\)\./self.free_list./
//@rewrite /drop\((?:pages|page_table|page_guard|page_data)\);//
//@rewrite /let (?:mut )?(page_guard|page_data) = (page|page_arc)\.write\(\);/let \1 = self.heap.vp_write(&\2);/
//@rewrite /\b(page|page_arc|new_page)\.read\(\)/self.heap.vp_read(&\1)/
//@rewrite /let Some\(page_data\) = page\.try_read\(\) else/let Some(page_data) = self.heap.vp_try_read(&page) else/
//@rewrite /self\.next_page_id\.load\(Ordering::SeqCst\)/self.next_page_id/
//@rewrite /self\.next_page_id\.fetch_add\(1, Ordering::SeqCst\)/vp_fetch_add(&mut self.next_page_id, 1)/
//@rewrite /\bpages\s*\.get\(([^()]*)\)/vp_get(&pages, \1)/
//@rewrite /pages\.get_mut\(/vp_get_mut(&mut *pages, /
//@rewrite /\.map_err\(\|e\| vp_string\(\)\s*\)/.vp_map_err()/
//@rewrite /\.map_err\(std::io::Error::other\)//
//@rewrite /\.ok_or\((DeletePageError::\w+\(\w+\))\)/.vp_ok_or(\1)/
//@rewrite /for \(i, page_opt\) in pages\.iter\(\)\.enumerate\(\) \{/let mut vp_i: usize = 0; while vp_i < pages.len() { let i = vp_i; let page_opt = &pages[i]; vp_i += 1;/
//@rewrite /self\s*\.disk_manager\s*\.(write_page|write_pages_batch|read_page|read_pages_batch|flush|force_flush_all)\(/self.vp_\1(/
//@rewrite /let mut data = vec!\[0u8;\s*DB_PAGE_SIZE as usize\];/let mut data = vp_zeros(DB_PAGE_SIZE as usize);/
//@rewrite /data\.copy_from_slice\(page_guard\.get_data\(\)\);/vp_copy_from(&mut data, page_guard.get_data());/
//@rewrite /\*page_guard\.get_data\(\) == written/vp_same(page_guard.get_data(), &written)/
//@rewrite /\*page_guard\.get_data\(\)/vp_copy(page_guard.get_data())/
//@rewrite /std::io::Error/IoError/
//@rewrite /Some\(&fid\) => fid,/Some(fid) => *fid,/
//@rewrite /if let Some\(&frame_id\) = self\.page_table\.get\(&page_id\) \{/if let Some(vp_f) = self.page_table.get(&page_id) { let frame_id = *vp_f;/
//@rewrite /PageGuard<P: \?Sized \+ PageTrait>/PageGuard/
//@rewrite /AtomicBool::new\((\w+)\)/\1/
//@rewrite /\bAtomicBool\b/bool/
//@rewrite /self\.dirty\.load\(Ordering::Relaxed\)/self.dirty/
//@rewrite /self\.dirty\.store\(true, Ordering::Relaxed\)/self.dirty = true/
//@rewrite /PageCollection/Vec<Option<PageRef>>/
//@rewrite /PageTable/HashMap<PageId, FrameId>/
//@rewrite /Arc<AtomicU64>/u64/
//@rewrite /Arc<RwLock<(LRUKReplacer|Vec<FrameId>)>>/\1/
//@rewrite /Arc<AsyncDiskManager>/Disk/
//@rewrite /\bnext_page_id: u64,/heap: Heap, pub next_page_id: u64,/
//@rewrite / = PAGE_TYPE_\w+,/,/
use vstd::prelude::*;
use std::collections::{HashMap, VecDeque};
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;
global size_of usize == 8;
//@type cfg FrameId
//@type cfg PageId
//@const cfg INVALID_PAGE_ID
//@const cfg DB_PAGE_SIZE
//@const pi PAGE_TYPE_OFFSET
//@const pi PAGE_TYPE_INVALID
//@const pi PAGE_TYPE_BASIC
//@const pi PAGE_TYPE_TABLE
//@const pi PAGE_TYPE_HASH_TABLE_DIRECTORY
//@const pi PAGE_TYPE_HASH_TABLE_BUCKET
//@const pi PAGE_TYPE_HASH_TABLE_HEADER
//@const pi PAGE_TYPE_BTREE_HEADER
//@const pi PAGE_TYPE_BTREE_INTERNAL
//@const pi PAGE_TYPE_BTREE_LEAF
//@const pi PAGE_TYPE_BTREE_NODE
//@include inc_maps.rs
//@enum pi PageType attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@enum ex DeletePageError
//@enum r AccessType
pub struct IoError;
pub struct VpStr;
#[verifier::external_body]
pub fn vp_string() -> String { unimplemented!() }
pub struct Unpinner;
pub open spec fn code(k: PageType) -> u8 {
    match k { PageType::Invalid => 0u8, PageType::Basic => 1u8, PageType::Table => 2u8, PageType::HashTableDirectory => 3u8, PageType::HashTableBucket => 4u8, PageType::HashTableHeader => 5u8, PageType::BTreeHeader => 6u8, PageType::BTreeInternal => 7u8, PageType::BTreeLeaf => 8u8, PageType::BTreeNode => 9u8 }
}
proof fn lemma_code(k: PageType) ensures forall|j: PageType| #[trigger] code(j) == code(k) ==> j == k, { }
pub trait VpRes<T> { spec fn vp_same_as(self, r: Result<T, String>) -> bool; fn vp_map_err(self) -> (r: Result<T, String>) ensures self.vp_same_as(r); }
impl<T> VpRes<T> for Result<T, IoError> {
    open spec fn vp_same_as(self, r: Result<T, String>) -> bool { (self is Ok) == (r is Ok) && (r is Ok ==> r->Ok_0 == self->Ok_0) }
    fn vp_map_err(self) -> (r: Result<T, String>) { match self { Ok(x) => Ok(x), Err(_) => Err(vp_string()) } }
}
pub trait VpOpt<T> { spec fn vp_val(self) -> Option<T>; fn vp_ok_or<E>(self, e: E) -> (r: Result<T, E>) ensures (r is Ok) == (self.vp_val() is Some), r is Ok ==> Some(r->Ok_0) == self.vp_val(), r is Err ==> r->Err_0 == e; }
impl<T> VpOpt<T> for Option<T> {
    open spec fn vp_val(self) -> Option<T> { self }
    fn vp_ok_or<E>(self, e: E) -> (r: Result<T, E>) { match self { Some(x) => Ok(x), None => Err(e) } }
}
// --- one page in memory
pub ghost struct PgV { pub id: PageId, pub pin: int, pub dirty: bool, pub data: Seq<u8>, pub fresh: bool }
#[verifier::external_body]
pub struct Pg;
impl Pg {
    pub uninterp spec fn v(&self) -> PgV;
    #[verifier::external_body] pub fn get_page_id(&self) -> (r: PageId) ensures r == self.v().id, { unimplemented!() }
    #[verifier::external_body] pub fn is_dirty(&self) -> (r: bool) ensures r == self.v().dirty, { unimplemented!() }
    #[verifier::external_body] pub fn get_pin_count(&self) -> (r: i32) ensures r == self.v().pin, { unimplemented!() }
    #[verifier::external_body] pub fn get_data(&self) -> (r: &Vec<u8>) ensures r@ == self.v().data, { unimplemented!() }
    // fresh: never on disk and not marked to be written
    #[verifier::external_body] pub fn set_dirty(&mut self, d: bool) ensures final(self).v() == (PgV { dirty: d, fresh: old(self).v().fresh && !d, ..old(self).v() }), { unimplemented!() }
    #[verifier::external_body] pub fn set_pin_count(&mut self, n: i32) ensures final(self).v() == (PgV { pin: n as int, ..old(self).v() }), { unimplemented!() }
    #[verifier::external_body] pub fn increment_pin_count(&mut self) ensures final(self).v() == (PgV { pin: old(self).v().pin + 1, ..old(self).v() }), { unimplemented!() }
    #[verifier::external_body] pub fn decrement_pin_count(&mut self) ensures final(self).v() == (PgV { pin: if old(self).v().pin > 0 { old(self).v().pin - 1 } else { old(self).v().pin }, ..old(self).v() }), { unimplemented!() }
    #[verifier::external_body] pub fn vp_set_tag(&mut self, o: usize, t: u8) requires o < old(self).v().data.len(), ensures final(self).v() == (PgV { data: old(self).v().data.update(o as int, t), ..old(self).v() }), { unimplemented!() }
    // a whole page image; pages of every type keep their type byte
    #[verifier::external_body] pub fn vp_set_all(&mut self, d: &Vec<u8>) -> (r: Result<(), VpStr>)
        requires d@.len() == DB_PAGE_SIZE, old(self).v().data.len() == DB_PAGE_SIZE,
        ensures r is Ok, final(self).v() == (PgV { data: final(self).v().data, dirty: true, fresh: false, ..old(self).v() }), final(self).v().data.len() == DB_PAGE_SIZE, d@[0] == old(self).v().data[0] ==> final(self).v().data == d@,
    { unimplemented!() }
}
pub trait Page {
    spec fn kind() -> PageType;
    fn vp_type() -> (r: PageType) ensures r == Self::kind();
    fn vp_new(page_id: PageId) -> (r: Pg) ensures r.v().id == page_id, r.v().data.len() == DB_PAGE_SIZE;
}
#[verifier::external_body]
pub fn vp_construct<T, F: FnOnce(PageId) -> T>(c: F, page_id: PageId) -> (r: Pg) ensures r.v().id == page_id, r.v().data.len() == DB_PAGE_SIZE, { unimplemented!() }
// --- shared ownership: a reference names a cell of the heap
#[verifier::external_body]
pub struct PageRef;
impl PageRef { pub uninterp spec fn h(&self) -> int; }
impl Clone for PageRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
#[verifier::external_body]
pub struct Heap;
impl Heap {
    pub uninterp spec fn at(&self, h: int) -> PgV;
    pub uninterp spec fn has(&self, h: int) -> bool;
    #[verifier::external_body] pub fn vp_read(&self, r: &PageRef) -> (p: &Pg) ensures p.v() == self.at(r.h()), { unimplemented!() }
    #[verifier::external_body] pub fn vp_try_read(&self, r: &PageRef) -> (p: Option<&Pg>) ensures p is Some ==> p->Some_0.v() == self.at(r.h()), { unimplemented!() }
    #[verifier::external_body] pub fn vp_write(&mut self, r: &PageRef) -> (p: &mut Pg)
        ensures (*p).v() == old(self).at(r.h()), forall|g: int| #[trigger] final(self).at(g) == (if g == r.h() { (*final(p)).v() } else { old(self).at(g) }), forall|g: int| #[trigger] final(self).has(g) == old(self).has(g),
    { unimplemented!() }
    #[verifier::external_body] pub fn vp_alloc(&mut self, p: Pg) -> (r: PageRef)
        ensures !old(self).has(r.h()), final(self).at(r.h()) == (PgV { fresh: true, ..p.v() }), forall|g: int| #[trigger] final(self).has(g) == (g == r.h() || old(self).has(g)), forall|g: int| g != r.h() ==> #[trigger] final(self).at(g) == old(self).at(g),
    { unimplemented!() }
    // what holders of guards may do meanwhile: change pages they hold, which marks them dirty
    #[verifier::external_body] pub fn vp_others(&mut self, Ghost(shown): Ghost<ISet<int>>)
        ensures forall|h: int| #[trigger] final(self).has(h) == old(self).has(h),
            forall|h: int| #[trigger] final(self).at(h) == old(self).at(h) || (shown.contains(h) && old(self).at(h).pin > 0 && final(self).at(h).data.len() == old(self).at(h).data.len() && final(self).at(h) == (PgV { data: final(self).at(h).data, dirty: true, fresh: false, ..old(self).at(h) })),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_heap() -> Heap { unimplemented!() }
// --- the replacer (contract proved in lru_k.rs)
#[verifier::external_body]
pub struct LRUKReplacer;
impl LRUKReplacer {
    pub uninterp spec fn tracked(&self) -> Map<FrameId, bool>;
    pub open spec fn ev(&self, f: FrameId) -> bool { self.tracked().contains_key(f) && self.tracked()[f] }
    #[verifier::external_body] pub fn evict(&mut self) -> (r: Option<FrameId>)
        ensures match r { None => final(self).tracked() == old(self).tracked() && forall|f: FrameId| !#[trigger] old(self).ev(f), Some(v) => old(self).ev(v) && final(self).tracked() == old(self).tracked().insert(v, false) }, { unimplemented!() }
    #[verifier::external_body] pub fn record_access(&mut self, f: FrameId, a: AccessType) ensures final(self).tracked() == old(self).tracked().insert(f, old(self).ev(f)), { unimplemented!() }
    #[verifier::external_body] pub fn set_evictable(&mut self, f: FrameId, b: bool) -> (r: bool)
        ensures final(self).tracked() == (if old(self).tracked().contains_key(f) { old(self).tracked().insert(f, b) } else { old(self).tracked() }), { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, f: FrameId) ensures final(self).tracked() == (if old(self).ev(f) { old(self).tracked().remove(f) } else { old(self).tracked() }), { unimplemented!() }
}
// --- the disk manager (contract proved in page_store.rs): at(p) is what a read of p returns
#[verifier::external_body]
pub struct Disk;
impl Disk {
    pub uninterp spec fn at(&self, p: PageId) -> Seq<u8>;
    pub uninterp spec fn settled(&self) -> bool;
    #[verifier::external_body] pub fn read_page(&mut self, p: PageId) -> (r: Result<Vec<u8>, IoError>) ensures final(self).at_all(old(self)), r is Ok ==> r->Ok_0@ == old(self).at(p) && r->Ok_0@.len() <= DB_PAGE_SIZE, { unimplemented!() }
    #[verifier::external_body] pub fn read_pages_batch(&mut self, ps: Vec<PageId>) -> (r: Result<Vec<Vec<u8>>, IoError>)
        ensures final(self).at_all(old(self)), r is Ok ==> r->Ok_0@.len() == ps@.len() && forall|i: int| 0 <= i < ps@.len() ==> (#[trigger] r->Ok_0@[i])@ == old(self).at(ps@[i]) && r->Ok_0@[i]@.len() <= DB_PAGE_SIZE, { unimplemented!() }
    #[verifier::external_body] pub fn write_page(&mut self, p: PageId, d: Vec<u8>) -> (r: Result<(), IoError>)
        ensures forall|q: PageId| q != p ==> #[trigger] final(self).at(q) == old(self).at(q), r is Ok ==> final(self).at(p) == d@, final(self).at(p) == d@ || final(self).at(p) == old(self).at(p), { unimplemented!() }
    #[verifier::external_body] pub fn write_pages_batch(&mut self, ps: Vec<(PageId, Vec<u8>)>) -> (r: Result<(), IoError>)
        ensures forall|q: PageId| (forall|i: int| 0 <= i < ps@.len() ==> (#[trigger] ps@[i]).0 != q) ==> #[trigger] final(self).at(q) == old(self).at(q),
            r is Ok ==> forall|i: int| 0 <= i < ps@.len() && (forall|j: int| i < j < ps@.len() ==> (#[trigger] ps@[j]).0 != ps@[i].0) ==> final(self).at((#[trigger] ps@[i]).0) == ps@[i].1@, { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), IoError>) ensures final(self).at_all(old(self)), r is Ok ==> final(self).settled(), { unimplemented!() }
    #[verifier::external_body] pub fn force_flush_all(&mut self) -> (r: Result<(), IoError>) ensures final(self).at_all(old(self)), r is Ok ==> final(self).settled(), { unimplemented!() }
    pub open spec fn at_all(&self, o: &Disk) -> bool { forall|q: PageId| #[trigger] self.at(q) == o.at(q) }
}
// --- std
#[verifier::external_body] pub fn vp_get(v: &Vec<Option<PageRef>>, i: usize) -> (r: Option<&Option<PageRef>>) ensures (r is Some) == (i < v@.len()), r is Some ==> *r->Some_0 == v@[i as int], { v.get(i) }
#[verifier::external_body] pub fn vp_get_mut(v: &mut Vec<Option<PageRef>>, i: usize) -> (r: Option<&mut Option<PageRef>>)
    ensures match r { None => i >= old(v)@.len() && final(v)@ == old(v)@, Some(x) => i < old(v)@.len() && *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)) }, { v.get_mut(i) }
#[verifier::external_body] pub fn vp_dup(v: &Option<PageRef>) -> (r: Option<PageRef>) ensures r == *v, { unimplemented!() }
#[verifier::external_body] pub fn vp_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, { vec![0u8; n] }
#[verifier::external_body] pub fn vp_copy_from(d: &mut Vec<u8>, s: &Vec<u8>) requires old(d)@.len() == s@.len(), ensures final(d)@ == s@, { d.copy_from_slice(s) }
#[verifier::external_body] pub fn vp_copy(s: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == s@, { s.clone() }
#[verifier::external_body] pub fn vp_head(s: &Vec<u8>, n: usize) -> (r: Vec<u8>) requires n <= s@.len(), ensures r@ == s@.subrange(0, n as int), { s[..n].to_vec() }
#[verifier::external_body] pub fn vp_same(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@), { a == b }
#[verifier::external_body] pub fn vp_nones(n: usize) -> (r: Vec<Option<PageRef>>) ensures r@ == Seq::new(n as nat, |i: int| None::<PageRef>), { unimplemented!() }
#[verifier::external_body] pub fn vp_range(n: FrameId) -> (r: Vec<FrameId>) ensures r@ == Seq::new(n as nat, |i: int| i as FrameId), { (0..n).collect() }
#[verifier::external_body] pub fn vp_fetch_add(x: &mut u64, n: u64) -> (r: u64) requires *old(x) + n <= u64::MAX, ensures r == *old(x), *final(x) == *old(x) + n, { let o = *x; *x = o + n; o }
#[verifier::external_body] pub fn vp_keys(m: &HashMap<PageId, FrameId>) -> (r: Vec<PageId>) ensures forall|p: PageId| r@.contains(p) == #[trigger] m@.contains_key(p), { m.keys().cloned().collect() }
#[verifier::external_body] pub fn vp_pairs(m: &HashMap<PageId, FrameId>) -> (r: Vec<(PageId, FrameId)>)
    ensures forall|p: PageId| #[trigger] m@.contains_key(p) ==> r@.contains((p, m@[p])), forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1, { unimplemented!() }
#[verifier::external_body] pub fn vp_dup_batch(v: &Vec<(PageId, Vec<u8>)>) -> (r: Vec<(PageId, Vec<u8>)>) ensures r@ == v@, { v.clone() }
#[verifier::external_body] pub fn vp_dup_ids(v: &Vec<PageId>) -> (r: Vec<PageId>) ensures r@ == v@, { v.clone() }
#[verifier::external_body] pub fn vp_lookup(m: &HashMap<PageId, FrameId>, p: PageId) -> (r: Option<FrameId>) ensures (r is Some) == m@.contains_key(p), r is Some ==> r->Some_0 == m@[p], { m.get(&p).copied() }
impl PageType {
//@fn pi PageType::from_u8 ret=r
    ensures r is Some ==> code(r->Some_0) == value, r is None ==> forall|k: PageType| #[trigger] code(k) != value,
//@endfn
#[verifier::external_body]
pub fn to_u8(self) -> (r: u8) ensures r == code(self), { unimplemented!() }
}
//@struct g PageGuard
//@struct b BufferPoolManager
pub type Pool = BufferPoolManager;
impl PageGuard {
//@fn g PageGuard::new ret=r
//@rewrite /fn new\(/fn new(heap: &mut Heap, /
//@rewrite /self\.heap/heap/
    requires old(heap).at(page.h()).pin < i32::MAX,
    ensures r.page == page, r.page_id == page_id, r.unpinner == unpinner, !r.dirty,
        forall|g: int| #[trigger] final(heap).has(g) == old(heap).has(g), forall|g: int| #[trigger] final(heap).at(g) == (if g == page.h() { PgV { pin: old(heap).at(g).pin + 1, ..old(heap).at(g) } } else { old(heap).at(g) }),
//@endfn
//@fn g PageGuard::new_for_new_page ret=r
//@rewrite /fn new_for_new_page\(/fn new_for_new_page(heap: &mut Heap, /
//@rewrite /self\.heap/heap/
    ensures r.page == page, r.page_id == page_id, r.unpinner == unpinner, *final(heap) == *old(heap),
        // whoever drops the last guard of a page that never was on disk says that it must be written
        r.dirty,
//@endfn
//@fn g PageGuard::write impl=~Page ret=r
//@rewrite /fn write\(&mut self\) -> RwLockWriteGuard<'_, P>/fn write<'a>(&mut self, heap: &'a mut Heap) -> &'a mut Pg/
//@rewrite /let mut guard = self\.page\.write\(\);/let guard = heap.vp_write(&self.page);/
    ensures final(self).dirty, final(self).page == old(self).page, final(self).page_id == old(self).page_id, final(self).unpinner == old(self).unpinner,
        r.v() == (PgV { dirty: true, fresh: false, ..old(heap).at(old(self).page.h()) }),
        forall|g: int| #[trigger] final(heap).at(g) == (if g == old(self).page.h() { final(r).v() } else { old(heap).at(g) }), forall|g: int| #[trigger] final(heap).has(g) == old(heap).has(g),
//@endfn
//@fn g PageGuard::get_page impl=~Page ret=r
    ensures *r == self.page,
//@endfn
//@fn g PageGuard::drop rename=vp_drop
//@rewrite /\(&mut self\)/(&mut self, pool: &mut Pool)/
//@rewrite /unpinner\.unpin_page\(/pool.vp_unpin(/
//@rewrite /let mut page = self\.page\.write\(\);/let page = pool.heap.vp_write(&self.page);/
    requires old(self).unpinner is Some, old(pool).wf(), old(pool).res(old(self).page_id), old(pool).fresh(old(self).page_id) && old(pool).pin(old(self).page_id) == 1 ==> old(self).dirty, old(pool).pin(old(self).page_id) > 0,
    ensures final(pool).wf(), final(pool).unpinned(old(pool), old(self).page_id, old(self).dirty), *final(self) == *old(self),
//@endfn
}
pub open spec fn ids_of(v: Seq<PageId>) -> ISet<PageId> { ISet::new(|p: PageId| v.contains(p)) }
pub open spec fn among(v: Seq<FrameId>) -> ISet<FrameId> { ISet::new(|f: FrameId| v.contains(f)) }
// n different frames below n are all of them
proof fn lemma_all(v: Seq<FrameId>, n: usize)
    requires v.len() == n, v.no_duplicates(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < n,
    ensures forall|f: FrameId| f < n ==> v.contains(f),
{
    let s = v.to_set(); v.unique_seq_to_set();
    let w = Seq::new(n as nat, |i: int| i as FrameId);
    let t = w.to_set();
    assert(w.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < w.len() implies w[i] != w[j] by { assert(w[i] == i as FrameId && w[j] == j as FrameId); } }
    w.unique_seq_to_set();
    assert(s.subset_of(t)) by { assert forall|f: FrameId| s.contains(f) implies t.contains(f) by { assert(v.contains(f)); assert(w[f as int] == f); assert(w.contains(f)); } }
    vstd::set_lib::lemma_subset_equality(s, t);
    assert forall|f: FrameId| f < n implies v.contains(f) by { assert(w[f as int] == f); assert(w.contains(f)); assert(t.contains(f)); assert(s.contains(f)); }
}
impl BufferPoolManager {
// the page p is in the pool, in this cell
pub open spec fn res(&self, p: PageId) -> bool { self.page_table@.contains_key(p) }
pub open spec fn cell(&self, p: PageId) -> int { self.pages@[self.page_table@[p] as int]->Some_0.h() }
pub open spec fn pg(&self, p: PageId) -> PgV { self.heap.at(self.cell(p)) }
pub open spec fn pin(&self, p: PageId) -> int { self.pg(p).pin }
pub open spec fn fresh(&self, p: PageId) -> bool { self.pg(p).fresh && !self.pg(p).dirty && self.pg(p).data != self.disk_manager.at(p) }
pub open spec fn held(&self, p: PageId) -> bool { self.res(p) && self.pin(p) > 0 }
// what the page holds
pub open spec fn cur(&self, p: PageId) -> Seq<u8> { if self.res(p) { self.pg(p).data } else { self.disk_manager.at(p) } }
pub open spec fn safe(&self, p: PageId) -> bool { self.pg(p).dirty || self.pg(p).data == self.disk_manager.at(p) || (self.pg(p).fresh && self.pin(p) > 0) }
pub open spec fn slot(&self, f: FrameId) -> Option<PageRef> { self.pages@[f as int] }
pub open spec fn full(&self, f: FrameId) -> bool { f < self.pool_size && self.slot(f) is Some }
pub open spec fn owner(&self, f: FrameId) -> PageId { self.heap.at(self.slot(f)->Some_0.h()).id }
pub open spec fn is_free(&self, f: FrameId) -> bool { self.free_list@.contains(f) }
// frames `taken` are neither free nor filled; frames `odd` hold an unpinned page the replacer may not know as evictable
pub open spec fn wf_but(&self, taken: ISet<FrameId>, odd: ISet<FrameId>) -> bool {
    &&& self.pages@.len() == self.pool_size
    &&& forall|p: PageId| #[trigger] self.res(p) ==> self.page_table@[p] < self.pool_size && self.slot(self.page_table@[p]) is Some && self.pg(p).id == p && p < self.next_page_id && self.heap.has(self.cell(p)) && 0 <= self.pin(p) <= i32::MAX && self.pg(p).data.len() == DB_PAGE_SIZE && self.safe(p)
    &&& forall|f: FrameId| #[trigger] self.full(f) ==> self.res(self.owner(f)) && self.page_table@[self.owner(f)] == f && !self.is_free(f) && !taken.contains(f)
    &&& forall|f: FrameId| #[trigger] self.is_free(f) ==> f < self.pool_size && !taken.contains(f)
    &&& forall|f: FrameId| f < self.pool_size && !taken.contains(f) && !#[trigger] self.full(f) ==> self.is_free(f)
    &&& self.free_list@.no_duplicates()
    &&& forall|f: FrameId| #[trigger] self.replacer.ev(f) ==> self.full(f) && self.pin(self.owner(f)) == 0
    &&& forall|f: FrameId| #[trigger] self.full(f) && self.pin(self.owner(f)) == 0 && !odd.contains(f) ==> self.replacer.ev(f)
    &&& forall|f: FrameId| #[trigger] self.full(f) ==> self.replacer.tracked().contains_key(f)
}
pub open spec fn wf(&self) -> bool { self.wf_but(ISet::empty(), ISet::empty()) }
pub open spec fn fixed(&self, o: &Self) -> bool { self.pool_size == o.pool_size && self.use_disk_manager_cache == o.use_disk_manager_cache && self.bypass_disk_cache_for_pinned == o.bypass_disk_cache_for_pinned }
// a cell of a resident page; any other cell is known only to whoever made it
pub open spec fn shown(&self, h: int) -> bool { exists|p: PageId| #[trigger] self.res(p) && self.cell(p) == h }
// but for the pages ps: pages nobody holds keep what they hold; pages somebody holds stay where their holders see them
pub open spec fn kept(&self, o: &Self, ps: ISet<PageId>) -> bool {
    &&& self.fixed(o) && self.next_page_id >= o.next_page_id
    &&& forall|p: PageId| #![trigger self.cur(p)] #![trigger self.res(p)] !o.held(p) && !ps.contains(p) ==> self.cur(p) == o.cur(p)
    &&& forall|p: PageId| #[trigger] o.held(p) ==> self.res(p) && self.cell(p) == o.cell(p) && self.pin(p) >= o.pin(p) && (!ps.contains(p) ==> self.pin(p) == o.pin(p))
    &&& forall|p: PageId| #![trigger self.held(p)] #![trigger o.held(p)] !ps.contains(p) ==> self.held(p) == o.held(p)
    &&& forall|p: PageId| #[trigger] self.res(p) && !ps.contains(p) ==> o.res(p)
    &&& forall|h: int| #[trigger] o.heap.has(h) ==> self.heap.has(h)
    &&& forall|h: int| #![trigger self.shown(h)] #![trigger o.shown(h)] o.heap.has(h) && !o.shown(h) ==> self.heap.at(h) == o.heap.at(h) && !self.shown(h)
}
pub open spec fn keeps(&self, o: &Self) -> bool { self.kept(o, ISet::empty()) }
// one guard of p less
pub open spec fn unpinned(&self, o: &Self, p: PageId, dirty: bool) -> bool {
    &&& self.fixed(o) && self.next_page_id == o.next_page_id && self.page_table == o.page_table && self.pages == o.pages && self.disk_manager == o.disk_manager
    &&& self.pin(p) == o.pin(p) - 1 && self.pg(p).data == o.pg(p).data && self.pg(p).dirty == (o.pg(p).dirty || dirty)
    &&& forall|q: PageId| q != p && #[trigger] o.res(q) ==> self.pg(q) == o.pg(q)
}
proof fn lemma_disk(o: &Self, n: &Self, t: ISet<FrameId>, d: ISet<FrameId>)
    requires o.wf_but(t, d), *n == (Self { disk_manager: n.disk_manager, ..*o }), n.disk_manager.at_all(&o.disk_manager),
    ensures n.wf_but(t, d), n.keeps(o),
{
    assert forall|q: PageId| #[trigger] n.res(q) implies n.safe(q) && n.pg(q) == o.pg(q) && n.cell(q) == o.cell(q) by { assert(o.res(q)); assert(n.disk_manager.at(q) == o.disk_manager.at(q)); }
    assert forall|q: PageId| #[trigger] n.res(q) == o.res(q) && n.held(q) == o.held(q) by { }
    assert forall|f: FrameId| #[trigger] n.full(f) implies o.full(f) && n.owner(f) == o.owner(f) && n.pin(n.owner(f)) == o.pin(o.owner(f)) by { }
    assert forall|f: FrameId| n.full(f) == o.full(f) by { }
    assert forall|f: FrameId| #[trigger] n.is_free(f) == o.is_free(f) by { }
    assert forall|f: FrameId| #[trigger] n.replacer.ev(f) == o.replacer.ev(f) by { }
    assert forall|h: int| !#[trigger] o.shown(h) implies !n.shown(h) by { if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q) && o.cell(q) == h); } }
}
// the replacer learns about one frame
proof fn lemma_ev(o: &Self, n: &Self, f: FrameId, t: ISet<FrameId>, d: ISet<FrameId>)
    requires o.wf_but(t, d), *n == (Self { replacer: n.replacer, ..*o }), forall|g: FrameId| g != f ==> #[trigger] n.replacer.ev(g) == o.replacer.ev(g), forall|g: FrameId| o.replacer.tracked().contains_key(g) ==> #[trigger] n.replacer.tracked().contains_key(g),
        n.replacer.ev(f) ==> o.full(f) && o.pin(o.owner(f)) == 0,
    ensures n.wf_but(t, if n.replacer.ev(f) { d.remove(f) } else { d.insert(f) }), n.keeps(o), forall|g: FrameId| #[trigger] n.full(g) == o.full(g), forall|q: PageId| #[trigger] n.res(q) == o.res(q),
        o.full(f) && o.pin(o.owner(f)) != 0 && !n.replacer.ev(f) ==> n.wf_but(t, d),
{
    assert forall|q: PageId| #[trigger] n.res(q) implies n.safe(q) && n.pg(q) == o.pg(q) && n.cell(q) == o.cell(q) by { assert(o.res(q)); }
    assert forall|q: PageId| #[trigger] n.res(q) == o.res(q) && n.held(q) == o.held(q) by { }
    assert forall|g: FrameId| #[trigger] n.full(g) implies o.full(g) && n.owner(g) == o.owner(g) && n.pin(n.owner(g)) == o.pin(o.owner(g)) by { }
    assert forall|g: FrameId| n.full(g) == o.full(g) by { }
    assert forall|g: FrameId| #[trigger] n.is_free(g) == o.is_free(g) by { }
    assert forall|h: int| !#[trigger] o.shown(h) implies !n.shown(h) by { if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q) && o.cell(q) == h); } }
}
// a page nobody holds and whose bytes are on disk leaves the pool
proof fn lemma_evict(o: &Self, n: &Self, p: PageId, t: ISet<FrameId>, d: ISet<FrameId>)
    requires o.wf_but(t, d), o.res(p), o.pin(p) == 0, !o.replacer.ev(o.page_table@[p]), o.disk_manager.at(p) == o.pg(p).data,
        *n == (Self { page_table: n.page_table, pages: n.pages, ..*o }), n.page_table@ == o.page_table@.remove(p), n.pages@ == o.pages@.update(o.page_table@[p] as int, None),
    ensures n.wf_but(t.insert(o.page_table@[p]), d), n.keeps(o), !n.full(o.page_table@[p]),
{
    let f = o.page_table@[p];
    assert forall|q: PageId| #[trigger] n.res(q) implies q != p && o.res(q) && n.cell(q) == o.cell(q) && n.pg(q) == o.pg(q) && n.page_table@[q] == o.page_table@[q] && n.safe(q) by {
        assert(o.res(q)); if o.page_table@[q] == f { assert(o.pg(q).id == q && o.pg(p).id == p); }
    }
    assert(o.full(f) && o.owner(f) == p);
    assert forall|g: FrameId| #[trigger] n.full(g) implies g != f && o.full(g) && n.owner(g) == o.owner(g) && n.res(n.owner(g)) && n.pin(n.owner(g)) == o.pin(o.owner(g)) by {
        assert(o.full(g)); assert(o.res(o.owner(g))); if o.owner(g) == p { assert(o.page_table@[p] == g); } assert(n.page_table@.contains_key(o.owner(g))); assert(n.res(o.owner(g)));
    }
    assert forall|g: FrameId| g != f implies #[trigger] n.full(g) == o.full(g) by { }
    assert forall|g: FrameId| #[trigger] n.is_free(g) == o.is_free(g) by { }
    assert(!o.is_free(f));
    assert forall|q: PageId| #[trigger] n.held(q) == o.held(q) by { if q != p && o.res(q) { assert(n.page_table@.contains_key(q)); assert(n.res(q)); } }
    assert forall|q: PageId| n.cur(q) == o.cur(q) by { if q != p && o.res(q) { assert(n.page_table@.contains_key(q)); assert(n.res(q)); } if n.res(q) { } }
    assert forall|q: PageId| #[trigger] o.held(q) implies n.res(q) && n.cell(q) == o.cell(q) by { assert(n.page_table@.contains_key(q)); assert(n.res(q)); }
    assert forall|h: int| !#[trigger] o.shown(h) implies !n.shown(h) by { if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q) && o.cell(q) == h); } }
}
proof fn lemma_keeps(a: &Self, b: &Self, c: &Self)
    requires c.keeps(b), b.keeps(a),
    ensures c.keeps(a),
{
    assert forall|p: PageId| !a.held(p) implies #[trigger] c.cur(p) == a.cur(p) by { assert(b.held(p) == a.held(p)); assert(b.cur(p) == a.cur(p)); }
    assert forall|p: PageId| #[trigger] a.held(p) implies c.res(p) && c.cell(p) == a.cell(p) && c.pin(p) == a.pin(p) by { assert(b.held(p)); }
    assert forall|p: PageId| #[trigger] c.held(p) == a.held(p) by { assert(b.held(p) == a.held(p)); }
    assert forall|h: int| a.heap.has(h) && !#[trigger] a.shown(h) implies c.heap.at(h) == a.heap.at(h) && !c.shown(h) by { assert(b.heap.has(h)); assert(!b.shown(h)); }
}
proof fn lemma_same(o: &Self, n: &Self, t: ISet<FrameId>, d: ISet<FrameId>)
    requires o.wf_but(t, d), *n == (Self { free_list: n.free_list, replacer: n.replacer, ..*o }), n.free_list@ == o.free_list@, n.replacer.tracked() == o.replacer.tracked(),
    ensures n.wf_but(t, d), n.keeps(o), forall|q: PageId| #[trigger] n.res(q) == o.res(q), forall|f: FrameId| #[trigger] n.full(f) == o.full(f),
{
    assert forall|q: PageId| #[trigger] n.res(q) implies n.safe(q) && n.pg(q) == o.pg(q) && n.cell(q) == o.cell(q) by { assert(o.res(q)); }
    assert forall|q: PageId| #[trigger] n.res(q) == o.res(q) && n.held(q) == o.held(q) by { }
    assert forall|f: FrameId| #[trigger] n.full(f) implies o.full(f) && n.owner(f) == o.owner(f) && n.pin(n.owner(f)) == o.pin(o.owner(f)) by { }
    assert forall|f: FrameId| n.full(f) == o.full(f) by { }
    assert forall|f: FrameId| #[trigger] n.is_free(f) == o.is_free(f) by { }
    assert forall|f: FrameId| #[trigger] n.replacer.ev(f) == o.replacer.ev(f) by { }
    assert forall|h: int| !#[trigger] o.shown(h) implies !n.shown(h) by { if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q) && o.cell(q) == h); } }
}
proof fn lemma_next(o: &Self, n: &Self, t: ISet<FrameId>)
    requires o.wf_but(t, ISet::empty()), *n == (Self { next_page_id: n.next_page_id, ..*o }), n.next_page_id >= o.next_page_id,
    ensures n.wf_but(t, ISet::empty()), n.keeps(o), forall|q: PageId| #[trigger] n.res(q) == o.res(q), forall|f: FrameId| #[trigger] n.full(f) == o.full(f),
{
    assert forall|q: PageId| #[trigger] n.res(q) implies n.safe(q) && n.pg(q) == o.pg(q) && n.cell(q) == o.cell(q) by { assert(o.res(q)); }
    assert forall|q: PageId| #[trigger] n.res(q) == o.res(q) && n.held(q) == o.held(q) by { }
    assert forall|f: FrameId| #[trigger] n.full(f) implies o.full(f) && n.owner(f) == o.owner(f) && n.pin(n.owner(f)) == o.pin(o.owner(f)) by { }
    assert forall|f: FrameId| n.full(f) == o.full(f) by { }
    assert forall|f: FrameId| #[trigger] n.is_free(f) == o.is_free(f) by { }
    assert forall|h: int| !#[trigger] o.shown(h) implies !n.shown(h) by { if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q) && o.cell(q) == h); } }
}
proof fn lemma_more(a: &Self, t: ISet<FrameId>, d: ISet<FrameId>, e: ISet<FrameId>)
    requires a.wf_but(t, d), forall|f: FrameId| d.contains(f) ==> e.contains(f) || !#[trigger] a.full(f),
    ensures a.wf_but(t, e),
{ assert forall|f: FrameId| #[trigger] a.full(f) && a.pin(a.owner(f)) == 0 && !e.contains(f) implies a.replacer.ev(f) by { assert(!d.contains(f)); } }
// what creating a page in memory does: a new cell nobody else knows
pub open spec fn made(&self, o: &Self, h: int) -> bool {
    &&& *self == (Self { heap: self.heap, ..*o }) && !o.heap.has(h) && self.heap.has(h)
    &&& forall|g: int| #[trigger] self.heap.has(g) == (g == h || o.heap.has(g))
    &&& forall|g: int| o.heap.has(g) ==> #[trigger] self.heap.at(g) == o.heap.at(g)
}
proof fn lemma_made(o: &Self, n: &Self, h: int, t: ISet<FrameId>, d: ISet<FrameId>)
    requires o.wf_but(t, d), n.made(o, h),
    ensures n.wf_but(t, d), n.keeps(o), !n.shown(h), forall|f: FrameId| #[trigger] n.full(f) == o.full(f), forall|q: PageId| #[trigger] n.res(q) == o.res(q),
{
    assert forall|q: PageId| #[trigger] n.res(q) implies n.safe(q) && n.pg(q) == o.pg(q) && n.cell(q) == o.cell(q) by { assert(o.res(q)); }
    assert forall|q: PageId| #[trigger] n.res(q) == o.res(q) && n.held(q) == o.held(q) by { }
    assert forall|f: FrameId| #[trigger] n.full(f) implies o.full(f) && n.owner(f) == o.owner(f) && n.pin(n.owner(f)) == o.pin(o.owner(f)) by { assert(o.full(f)); assert(o.res(o.owner(f))); assert(o.heap.has(o.cell(o.owner(f)))); }
    assert forall|f: FrameId| n.full(f) == o.full(f) by { }
    assert forall|f: FrameId| #[trigger] n.is_free(f) == o.is_free(f) by { }
    assert forall|g: int| !#[trigger] o.shown(g) implies !n.shown(g) by { if n.shown(g) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == g; assert(o.res(q) && o.cell(q) == g); } }
    if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q)); }
}
// the page p enters the pool in the frame f, in a cell nobody else knows
pub open spec fn added(&self, m: &Self, f: FrameId, p: PageId, c: PageRef) -> bool {
    &&& *self == (Self { pages: self.pages, page_table: self.page_table, replacer: self.replacer, ..*m })
    &&& self.pages@ == m.pages@.update(f as int, Some(c)) && self.page_table@ == m.page_table@.insert(p, f)
    &&& self.replacer.tracked() == m.replacer.tracked().insert(f, false)
}
proof fn lemma_added(o: &Self, m: &Self, n: &Self, f: FrameId, p: PageId, c: PageRef)
    requires m.wf_but(ISet::empty().insert(f), ISet::empty()), m.keeps(o), f < m.pool_size, !m.full(f), !m.res(p), p < m.next_page_id, n.added(m, f, p, c),
        !m.shown(c.h()), m.heap.has(c.h()), !o.heap.has(c.h()), m.heap.at(c.h()).id == p, m.heap.at(c.h()).pin == 1, m.heap.at(c.h()).data.len() == DB_PAGE_SIZE, m.heap.at(c.h()).dirty || m.heap.at(c.h()).fresh,
    ensures n.wf(), n.kept(o, ISet::empty().insert(p)), n.res(p), n.cell(p) == c.h(), n.pin(p) == 1,
{
    assert(n.slot(f) == Some(c)); assert(n.full(f)); assert(n.owner(f) == p);
    assert(n.page_table@.contains_key(p)); assert(n.res(p)); assert(n.cell(p) == c.h());
    assert forall|q: PageId| q != p && #[trigger] n.res(q) implies m.res(q) && n.page_table@[q] == m.page_table@[q] && m.page_table@[q] != f && n.cell(q) == m.cell(q) && n.pg(q) == m.pg(q) && n.safe(q) by { assert(m.page_table@.contains_key(q)); assert(m.res(q)); assert(m.full(m.page_table@[q])); }
    assert forall|q: PageId| q != p && #[trigger] m.res(q) implies n.res(q) by { assert(n.page_table@.contains_key(q)); }
    assert forall|g: FrameId| #[trigger] n.full(g) && g != f implies m.full(g) && n.owner(g) == m.owner(g) && m.owner(g) != p && n.res(n.owner(g)) && n.page_table@[n.owner(g)] == g && n.pin(n.owner(g)) == m.pin(m.owner(g)) by { assert(m.full(g)); assert(m.res(m.owner(g))); assert(n.res(m.owner(g))); }
    assert forall|g: FrameId| g != f implies #[trigger] n.full(g) == m.full(g) by { }
    assert forall|g: FrameId| #[trigger] n.is_free(g) == m.is_free(g) by { }
    assert forall|g: FrameId| g != f implies #[trigger] n.replacer.ev(g) == m.replacer.ev(g) by { }
    assert(!n.replacer.ev(f)); assert(!m.is_free(f)) by { if m.is_free(f) { } }
    assert(n.pin(p) == 1);
    assert forall|g: FrameId| #[trigger] n.full(g) && n.pin(n.owner(g)) == 0 implies n.replacer.ev(g) by { if g == f { } else { assert(m.full(g)); assert(m.replacer.ev(g)); } }
    assert(n.wf());
    assert forall|q: PageId| q != p implies n.cur(q) == m.cur(q) && n.held(q) == m.held(q) && n.res(q) == m.res(q) by { if m.res(q) { assert(n.res(q)); } if n.res(q) { assert(m.res(q)); } }
    assert(!o.held(p)) by { if o.held(p) { assert(m.res(p)); } }
    assert forall|q: PageId| !o.held(q) && q != p implies #[trigger] n.cur(q) == o.cur(q) by { assert(m.cur(q) == o.cur(q)); }
    assert forall|q: PageId| #[trigger] o.held(q) implies n.res(q) && n.cell(q) == o.cell(q) && n.pin(q) == o.pin(q) by { assert(m.res(q)); assert(n.res(q)); }
    assert forall|q: PageId| q != p implies #[trigger] n.held(q) == o.held(q) by { assert(m.held(q) == o.held(q)); }
    assert forall|h: int| o.heap.has(h) && !#[trigger] o.shown(h) implies n.heap.at(h) == o.heap.at(h) && !n.shown(h) by {
        assert(!m.shown(h)); assert(m.heap.at(h) == o.heap.at(h));
        if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; if q != p { assert(m.res(q) && m.cell(q) == h); } }
    }
}
// a frame that turned out not to be needed
proof fn lemma_back(m: &Self, n: &Self, f: FrameId)
    requires m.wf_but(ISet::empty().insert(f), ISet::empty()), f < m.pool_size, !m.full(f), *n == (Self { free_list: n.free_list, ..*m }), n.free_list@ == m.free_list@.push(f),
    ensures n.wf(), n.keeps(m), forall|q: PageId| #[trigger] n.res(q) == m.res(q),
{
    assert forall|g: FrameId| #[trigger] n.is_free(g) == (m.is_free(g) || g == f) by { if m.is_free(g) { let i = choose|i: int| 0 <= i < m.free_list@.len() && m.free_list@[i] == g; assert(n.free_list@[i] == g); } assert(n.free_list@[m.free_list@.len() as int] == f); }
    assert(!m.is_free(f));
    assert(n.free_list@.no_duplicates());
    assert forall|q: PageId| #[trigger] n.res(q) implies n.safe(q) && n.pg(q) == m.pg(q) && n.cell(q) == m.cell(q) by { assert(m.res(q)); }
    assert forall|q: PageId| #[trigger] n.res(q) == m.res(q) && n.held(q) == m.held(q) by { }
    assert forall|g: FrameId| #[trigger] n.full(g) implies m.full(g) && n.owner(g) == m.owner(g) && n.pin(n.owner(g)) == m.pin(m.owner(g)) by { }
    assert forall|g: FrameId| n.full(g) == m.full(g) by { }
    assert forall|h: int| !#[trigger] m.shown(h) implies !n.shown(h) by { if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(m.res(q) && m.cell(q) == h); } }
}
// a resident page is handed out once more
proof fn lemma_lent(o: &Self, n: &Self, p: PageId)
    requires o.wf(), o.res(p), *n == (Self { heap: n.heap, replacer: n.replacer, ..*o }), n.replacer.tracked() == o.replacer.tracked().insert(o.page_table@[p], false),
        forall|g: int| #[trigger] n.heap.has(g) == o.heap.has(g), forall|g: int| #[trigger] n.heap.at(g) == (if g == o.cell(p) { PgV { pin: o.heap.at(g).pin + 1, ..o.heap.at(g) } } else { o.heap.at(g) }), o.pin(p) < i32::MAX,
    ensures n.wf(), n.kept(o, ISet::empty().insert(p)), n.res(p), n.cell(p) == o.cell(p), n.pin(p) == o.pin(p) + 1, n.cur(p) == o.cur(p), forall|q: PageId| #[trigger] n.cur(q) == o.cur(q),
{
    let f = o.page_table@[p]; assert(o.full(f) && o.owner(f) == p);
    assert forall|q: PageId| #[trigger] n.res(q) implies o.res(q) && n.cell(q) == o.cell(q) && (q != p ==> n.pg(q) == o.pg(q)) && n.safe(q) by { assert(o.res(q)); if q != p { assert(o.pg(q).id == q && o.pg(p).id == p); } }
    assert forall|q: PageId| #[trigger] n.res(q) == o.res(q) by { }
    assert(n.res(p)); assert(n.pin(p) == o.pin(p) + 1);
    assert forall|g: FrameId| #[trigger] n.full(g) implies o.full(g) && n.owner(g) == o.owner(g) && (g != f ==> n.pin(n.owner(g)) == o.pin(o.owner(g))) by { assert(o.full(g)); assert(o.res(o.owner(g))); if g != f { assert(o.owner(g) != p); } }
    assert forall|g: FrameId| n.full(g) == o.full(g) by { }
    assert forall|g: FrameId| #[trigger] n.is_free(g) == o.is_free(g) by { }
    assert forall|g: FrameId| g != f implies #[trigger] n.replacer.ev(g) == o.replacer.ev(g) by { }
    assert(!n.replacer.ev(f)); assert(n.full(f) && n.owner(f) == p);
    assert forall|g: FrameId| #[trigger] n.full(g) && n.pin(n.owner(g)) == 0 implies n.replacer.ev(g) by { if g != f { assert(o.full(g)); assert(o.replacer.ev(g)); } }
    assert forall|q: PageId| q != p implies #[trigger] n.held(q) == o.held(q) && n.cur(q) == o.cur(q) by { if o.res(q) { assert(n.res(q)); } }
    assert forall|h: int| !#[trigger] o.shown(h) implies !n.shown(h) && n.heap.at(h) == o.heap.at(h) by { assert(o.shown(o.cell(p))); if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q) && o.cell(q) == h); } }
}
proof fn lemma_touched(o: &Self, n: &Self, p: PageId)
    requires o.wf(), n.wf(), o.res(p), n.page_table == o.page_table, n.pages == o.pages, n.disk_manager == o.disk_manager, n.next_page_id == o.next_page_id, n.fixed(o),
        forall|h: int| #[trigger] n.heap.has(h) == o.heap.has(h), forall|h: int| h != o.cell(p) ==> #[trigger] n.heap.at(h) == o.heap.at(h), n.pin(p) == o.pin(p),
    ensures n.kept(o, ISet::empty().insert(p)),
{
    assert forall|q: PageId| q != p && #[trigger] o.res(q) implies n.pg(q) == o.pg(q) by { assert(o.pg(q).id == q && o.pg(p).id == p); }
    assert forall|q: PageId| #[trigger] n.res(q) == o.res(q) by { }
    assert forall|q: PageId| #[trigger] o.held(q) implies n.res(q) && n.cell(q) == o.cell(q) && n.pin(q) == o.pin(q) by { assert(o.res(q)); }
    assert forall|q: PageId| q != p implies #[trigger] n.held(q) == o.held(q) && n.cur(q) == o.cur(q) by { if o.res(q) { assert(n.res(q)); } }
    assert(o.shown(o.cell(p)));
    assert forall|h: int| !#[trigger] o.shown(h) implies !n.shown(h) && n.heap.at(h) == o.heap.at(h) by { if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q) && o.cell(q) == h); } }
}
proof fn lemma_refl(a: &Self, s: ISet<PageId>)
    ensures a.kept(a, s),
{ }
proof fn lemma_wider(a: &Self, b: &Self, s: ISet<PageId>, t: ISet<PageId>)
    requires b.kept(a, s), s.subset_of(t),
    ensures b.kept(a, t),
{ }
// a page nobody holds is dropped
proof fn lemma_deleted(o: &Self, n: &Self, p: PageId)
    requires o.wf(), o.res(p), o.pin(p) == 0, *n == (Self { pages: n.pages, page_table: n.page_table, free_list: n.free_list, replacer: n.replacer, ..*o }),
        n.page_table@ == o.page_table@.remove(p), n.pages@ == o.pages@.update(o.page_table@[p] as int, None), n.free_list@ == o.free_list@.push(o.page_table@[p]), n.replacer.tracked() == o.replacer.tracked().remove(o.page_table@[p]),
    ensures n.wf(), n.kept(o, ISet::empty().insert(p)), !n.res(p),
{
    let f = o.page_table@[p]; assert(o.full(f) && o.owner(f) == p); assert(!o.is_free(f));
    assert forall|g: FrameId| #[trigger] n.is_free(g) == (o.is_free(g) || g == f) by { if o.is_free(g) { let i = choose|i: int| 0 <= i < o.free_list@.len() && o.free_list@[i] == g; assert(n.free_list@[i] == g); } assert(n.free_list@[o.free_list@.len() as int] == f); }
    assert(n.free_list@.no_duplicates());
    assert forall|q: PageId| #[trigger] n.res(q) implies q != p && o.res(q) && n.cell(q) == o.cell(q) && n.pg(q) == o.pg(q) && n.page_table@[q] == o.page_table@[q] && n.safe(q) by { assert(o.res(q)); if o.page_table@[q] == f { assert(o.pg(q).id == q && o.pg(p).id == p); } }
    assert forall|q: PageId| q != p && o.res(q) implies #[trigger] n.res(q) by { assert(n.page_table@.contains_key(q)); }
    assert forall|g: FrameId| #[trigger] n.full(g) implies g != f && o.full(g) && n.owner(g) == o.owner(g) && n.res(n.owner(g)) && n.pin(n.owner(g)) == o.pin(o.owner(g)) by { assert(o.full(g)); assert(o.res(o.owner(g))); if o.owner(g) == p { assert(o.page_table@[p] == g); } assert(n.res(o.owner(g))); }
    assert forall|g: FrameId| g != f implies #[trigger] n.full(g) == o.full(g) by { }
    assert forall|g: FrameId| #[trigger] n.replacer.ev(g) == (g != f && o.replacer.ev(g)) by { }
    assert forall|g: FrameId| #[trigger] n.full(g) && n.pin(n.owner(g)) == 0 implies n.replacer.ev(g) by { assert(o.full(g)); assert(o.replacer.ev(g)); }
    assert forall|q: PageId| q != p implies #[trigger] n.held(q) == o.held(q) && n.cur(q) == o.cur(q) by { if o.res(q) { assert(n.res(q)); } if n.res(q) { } }
    assert forall|h: int| !#[trigger] o.shown(h) implies !n.shown(h) by { if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q) && o.cell(q) == h); } }
}
proof fn lemma_kept(a: &Self, b: &Self, c: &Self, s: ISet<PageId>, t: ISet<PageId>)
    requires c.kept(b, t), b.kept(a, s),
    ensures c.kept(a, s.union(t)),
{
    let u = s.union(t);
    assert forall|p: PageId| !a.held(p) && !u.contains(p) implies #[trigger] c.cur(p) == a.cur(p) by { assert(b.held(p) == a.held(p)); assert(b.cur(p) == a.cur(p)); }
    assert forall|p: PageId| #[trigger] a.held(p) implies c.res(p) && c.cell(p) == a.cell(p) && c.pin(p) >= a.pin(p) && (!u.contains(p) ==> c.pin(p) == a.pin(p)) by { assert(b.res(p)); assert(b.held(p)); }
    assert forall|p: PageId| !u.contains(p) implies #[trigger] c.held(p) == a.held(p) by { assert(b.held(p) == a.held(p)); }
    assert forall|h: int| a.heap.has(h) && !#[trigger] a.shown(h) implies c.heap.at(h) == a.heap.at(h) && !c.shown(h) by { assert(b.heap.has(h)); assert(!b.shown(h)); }
}
// the guard handed out for the page p
pub open spec fn lent<T: Page>(&self, p: PageId, g: PageGuard) -> bool { g.page_id == p && g.unpinner is Some && self.res(p) && self.held(p) && g.page.h() == self.cell(p) && code(T::kind()) == self.cur(p)[0] && (self.fresh(p) ==> g.dirty || self.pin(p) > 1) }
pub open spec fn gives(&self, p: PageId, g: PageGuard) -> bool { g.page_id == p && g.unpinner is Some && self.held(p) && g.page.h() == self.cell(p) }
// room for n more guards of any page
pub open spec fn room(&self, n: int) -> bool { forall|p: PageId| #[trigger] self.res(p) ==> self.pin(p) + n < i32::MAX }
// the pages in the frames fs, as they are
pub open spec fn holds(&self, f: FrameId, e: (PageId, Vec<u8>)) -> bool { self.full(f) && self.res(e.0) && self.page_table@[e.0] == f && e.1@ == self.pg(e.0).data && self.pg(e.0).dirty }
pub open spec fn batch(&self, fs: Seq<FrameId>, ps: Seq<(PageId, Vec<u8>)>) -> bool {
    fs.len() == ps.len() && forall|k: int| 0 <= k < ps.len() ==> self.holds(fs[k], #[trigger] ps[k])
}
proof fn lemma_touched_same(o: &Self, n: &Self, p: PageId)
    requires o.wf(), n.wf(), o.res(p), n.page_table == o.page_table, n.pages == o.pages, n.disk_manager == o.disk_manager, n.next_page_id == o.next_page_id, n.fixed(o), n.cur(p) == o.cur(p),
        forall|h: int| #[trigger] n.heap.has(h) == o.heap.has(h), forall|h: int| h != o.cell(p) ==> #[trigger] n.heap.at(h) == o.heap.at(h), n.pin(p) == o.pin(p),
    ensures n.keeps(o),
{ Self::lemma_touched(o, n, p); assert(n.res(p)); assert(n.held(p) == o.held(p)); }
pub fn vp_read_page(&mut self, p: PageId) -> (r: Result<Vec<u8>, IoError>)
    ensures *final(self) == (Self { disk_manager: final(self).disk_manager, ..*old(self) }), final(self).disk_manager.at_all(&old(self).disk_manager), r is Ok ==> r->Ok_0@ == old(self).disk_manager.at(p) && r->Ok_0@.len() <= DB_PAGE_SIZE,
        forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) ==> final(self).wf_but(t, e) && final(self).keeps(old(self)),
{
    let r = self.disk_manager.read_page(p);
    proof { assert forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) implies self.wf_but(t, e) && self.keeps(old(self)) by { Self::lemma_disk(old(self), self, t, e); } }
    r
}
pub fn vp_read_pages_batch(&mut self, ps: Vec<PageId>) -> (r: Result<Vec<Vec<u8>>, IoError>)
    ensures *final(self) == (Self { disk_manager: final(self).disk_manager, ..*old(self) }), final(self).disk_manager.at_all(&old(self).disk_manager), r is Ok ==> r->Ok_0@.len() == ps@.len() && forall|i: int| 0 <= i < ps@.len() ==> (#[trigger] r->Ok_0@[i])@ == old(self).disk_manager.at(ps@[i]) && r->Ok_0@[i]@.len() <= DB_PAGE_SIZE,
        forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) ==> final(self).wf_but(t, e) && final(self).keeps(old(self)),
{
    let r = self.disk_manager.read_pages_batch(ps);
    proof { assert forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) implies self.wf_but(t, e) && self.keeps(old(self)) by { Self::lemma_disk(old(self), self, t, e); } }
    r
}
pub fn vp_flush(&mut self) -> (r: Result<(), IoError>)
    ensures *final(self) == (Self { disk_manager: final(self).disk_manager, ..*old(self) }), final(self).disk_manager.at_all(&old(self).disk_manager), r is Ok ==> final(self).disk_manager.settled(),
        forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) ==> final(self).wf_but(t, e) && final(self).keeps(old(self)),
{
    let r = self.disk_manager.flush();
    proof { assert forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) implies self.wf_but(t, e) && self.keeps(old(self)) by { Self::lemma_disk(old(self), self, t, e); } }
    r
}
pub fn vp_force_flush_all(&mut self) -> (r: Result<(), IoError>)
    ensures *final(self) == (Self { disk_manager: final(self).disk_manager, ..*old(self) }), final(self).disk_manager.at_all(&old(self).disk_manager), r is Ok ==> final(self).disk_manager.settled(),
        forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) ==> final(self).wf_but(t, e) && final(self).keeps(old(self)),
{
    let r = self.disk_manager.force_flush_all();
    proof { assert forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) implies self.wf_but(t, e) && self.keeps(old(self)) by { Self::lemma_disk(old(self), self, t, e); } }
    r
}
// disk writes, during which holders of guards carry on
pub fn vp_write_page(&mut self, p: PageId, d: Vec<u8>) -> (r: Result<(), IoError>)
    ensures final(self).went_on(old(self)), forall|q: PageId| q != p ==> #[trigger] final(self).disk_manager.at(q) == old(self).disk_manager.at(q),
        r is Ok ==> final(self).disk_manager.at(p) == d@, final(self).disk_manager.at(p) == d@ || final(self).disk_manager.at(p) == old(self).disk_manager.at(p),
        forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) && old(self).res(p) && old(self).cur(p) == d@ ==> final(self).wf_but(t, e) && final(self).keeps(old(self)),
{
    let r = self.disk_manager.write_page(p, d); self.heap.vp_others(Ghost(ISet::new(|h: int| old(self).shown(h))));
    proof { assert forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) && old(self).res(p) && old(self).cur(p) == d@ implies self.wf_but(t, e) && self.keeps(old(self)) by { Self::lemma_went_on(old(self), self, t, e); } }
    r
}
pub fn vp_write_pages_batch(&mut self, ps: Vec<(PageId, Vec<u8>)>) -> (r: Result<(), IoError>)
    ensures final(self).went_on(old(self)), forall|q: PageId| (forall|i: int| 0 <= i < ps@.len() ==> (#[trigger] ps@[i]).0 != q) ==> #[trigger] final(self).disk_manager.at(q) == old(self).disk_manager.at(q),
        r is Ok ==> forall|i: int| 0 <= i < ps@.len() && (forall|j: int| i < j < ps@.len() ==> (#[trigger] ps@[j]).0 != ps@[i].0) ==> final(self).disk_manager.at((#[trigger] ps@[i]).0) == ps@[i].1@,
        old(self).wf() && (forall|i: int| 0 <= i < ps@.len() ==> old(self).res((#[trigger] ps@[i]).0) && old(self).pg(ps@[i].0).dirty) ==> final(self).wf() && final(self).keeps(old(self)),
{ let r = self.disk_manager.write_pages_batch(ps); self.heap.vp_others(Ghost(ISet::new(|h: int| old(self).shown(h))));
    proof { if old(self).wf() && (forall|i: int| 0 <= i < ps@.len() ==> old(self).res((#[trigger] ps@[i]).0) && old(self).pg(ps@[i].0).dirty) {
        assert forall|q: PageId| #[trigger] self.disk_manager.at(q) == old(self).disk_manager.at(q) || (old(self).res(q) && old(self).pg(q).dirty) by { }
        Self::lemma_went_on(old(self), self, ISet::empty(), ISet::empty());
    } }
    r }
pub open spec fn others(&self, o: &Self) -> bool {
    &&& forall|h: int| #[trigger] self.heap.has(h) == o.heap.has(h)
    &&& forall|h: int| #[trigger] self.heap.at(h) == o.heap.at(h) || (o.shown(h) && o.heap.at(h).pin > 0 && self.heap.at(h).data.len() == o.heap.at(h).data.len() && self.heap.at(h) == (PgV { data: self.heap.at(h).data, dirty: true, fresh: false, ..o.heap.at(h) }))
}
pub open spec fn went_on(&self, o: &Self) -> bool {
    self.others(o) && self.fixed(o) && self.next_page_id == o.next_page_id && self.page_table == o.page_table && self.pages == o.pages && self.replacer == o.replacer && self.free_list == o.free_list
}
proof fn lemma_went_on(o: &Self, n: &Self, t: ISet<FrameId>, d: ISet<FrameId>)
    requires o.wf_but(t, d), n.went_on(o), forall|q: PageId| #[trigger] n.disk_manager.at(q) == o.disk_manager.at(q) || (o.res(q) && (o.pg(q).dirty || n.disk_manager.at(q) == o.cur(q))),
    ensures n.wf_but(t, d), n.keeps(o), forall|q: PageId| #[trigger] n.res(q) ==> n.res(q) == o.res(q) && n.cell(q) == o.cell(q) && n.pin(q) == o.pin(q),
{
    assert forall|q: PageId| #[trigger] n.res(q) implies n.safe(q) by { assert(o.res(q)); }
    assert forall|f: FrameId| #[trigger] n.full(f) implies n.owner(f) == o.owner(f) && n.pin(n.owner(f)) == o.pin(o.owner(f)) by { assert(o.full(f)); assert(o.res(o.owner(f))); }
    assert forall|f: FrameId| n.full(f) == o.full(f) by { }
    assert forall|f: FrameId| #[trigger] n.is_free(f) == o.is_free(f) by { }
    assert forall|q: PageId| !o.held(q) implies n.cur(q) == o.cur(q) && n.res(q) == o.res(q) by { }
    assert forall|h: int| !#[trigger] o.shown(h) implies !n.shown(h) by { if n.shown(h) { let q = choose|q: PageId| #[trigger] n.res(q) && n.cell(q) == h; assert(o.res(q) && o.cell(q) == h); } }
}
// one page's cell changed
proof fn lemma_cell(o: &Self, n: &Self, p: PageId, t: ISet<FrameId>, d: ISet<FrameId>)
    requires o.wf_but(t, d), o.res(p), n.page_table == o.page_table, n.pages == o.pages, n.free_list == o.free_list, n.replacer == o.replacer, n.disk_manager == o.disk_manager, n.next_page_id == o.next_page_id, n.fixed(o),
        forall|h: int| #[trigger] n.heap.has(h) == o.heap.has(h), forall|h: int| h != o.cell(p) ==> #[trigger] n.heap.at(h) == o.heap.at(h),
        n.pg(p).id == p, n.pg(p).data.len() == DB_PAGE_SIZE, 0 <= n.pin(p) <= i32::MAX, n.safe(p),
        n.pin(p) == o.pin(p) || o.pin(p) > 0 && n.pin(p) > 0 || d.contains(o.page_table@[p]) && !o.replacer.ev(o.page_table@[p]),
    ensures n.wf_but(t, d), forall|q: PageId| q != p && #[trigger] o.res(q) ==> n.pg(q) == o.pg(q), forall|q: PageId| #[trigger] n.res(q) == o.res(q), forall|q: PageId| o.res(q) ==> #[trigger] n.cell(q) == o.cell(q),
{
    assert forall|q: PageId| q != p && #[trigger] o.res(q) implies n.pg(q) == o.pg(q) && n.safe(q) by { assert(o.pg(q).id == q && o.pg(p).id == p); }
    assert forall|f: FrameId| #[trigger] n.full(f) implies n.owner(f) == o.owner(f) by { assert(o.full(f)); assert(o.res(o.owner(f))); }
    assert forall|f: FrameId| n.full(f) == o.full(f) by { }
    assert forall|f: FrameId| #[trigger] n.is_free(f) == o.is_free(f) by { }
    assert forall|q: PageId| #[trigger] n.res(q) == o.res(q) by { }
    assert forall|q: PageId| o.res(q) implies #[trigger] n.cell(q) == o.cell(q) by { }
    assert(o.full(o.page_table@[p]) && o.owner(o.page_table@[p]) == p);
    assert forall|f: FrameId| #[trigger] n.full(f) && f != o.page_table@[p] implies n.pin(n.owner(f)) == o.pin(o.owner(f)) by { assert(o.full(f)); assert(o.res(o.owner(f))); if o.owner(f) == p { assert(o.page_table@[p] == f); } }
}
//@fn b BufferPoolManager::new_with_cache_config ret=r
//@rewrite /\(0\.\.pool_size as FrameId\)\.collect\(\)/vp_range(pool_size as FrameId)/
//@rewrite /Arc::new\(AtomicU64::new\(0\)\)/0/
//@rewrite /Arc::new\(RwLock::new\(vec!\[None;\s*pool_size\]\)\)/vp_nones(pool_size)/
//@rewrite /Arc::new\(RwLock::new\(HashMap::new\(\)\)\)/HashMap::new()/
//@rewrite /Arc::new\(RwLock::new\(free_list\)\)/free_list/
//@rewrite /Ok\(Self \{/Ok(Self { heap: vp_heap(),/
    requires replacer.tracked() == Map::<FrameId, bool>::empty(),
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.pool_size == pool_size, r->Ok_0.disk_manager == disk_manager, forall|p: PageId| !#[trigger] r->Ok_0.res(p),
//@before /Ok\(Self \{/
    proof { assert forall|f: FrameId| f < pool_size implies #[trigger] free_list@.contains(f) by { assert(free_list@[f as int] == f); } }
//@endfn
//@fn b BufferPoolManager::new ret=r
    requires replacer.tracked() == Map::<FrameId, bool>::empty(),
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.pool_size == pool_size, r->Ok_0.disk_manager == disk_manager, forall|p: PageId| !#[trigger] r->Ok_0.res(p),
//@endfn
//@fn b BufferPoolManager::remove_page_from_table
    ensures *final(self) == (Self { page_table: final(self).page_table, ..*old(self) }), final(self).page_table@ == old(self).page_table@.remove(page_id),
//@endfn
//@fn b BufferPoolManager::get_frame_id ret=r
//@rewrite /page_table\s*\.get\(&page_id\)\s*\.copied\(\)/vp_lookup(page_table, page_id)/
    ensures *final(self) == *old(self), (r is Ok) == old(self).res(page_id), r is Ok ==> r->Ok_0 == old(self).page_table@[page_id],
//@endfn
//@fn b BufferPoolManager::reset_frame ret=r
    ensures *final(self) == (Self { pages: final(self).pages, ..*old(self) }), (r is Ok) == (frame_id < old(self).pages@.len()),
        final(self).pages@ == (if r is Ok { old(self).pages@.update(frame_id as int, None) } else { old(self).pages@ }),
//@endfn
//@fn b BufferPoolManager::get_page_internal ret=r
//@rewrite /let frame_id = page_table\.get\(&page_id\)\?;/let frame_id = match page_table.get(&page_id) { Some(f) => f, None => return None };/
//@rewrite /pages\[\*frame_id as usize\]\.clone\(\)/vp_dup(&pages[*frame_id as usize])/
    requires old(self).wf(),
    ensures *final(self) == *old(self), (r is Some) == old(self).res(page_id), r is Some ==> r->Some_0.h() == old(self).cell(page_id),
//@start
    assert(self.res(page_id) == self.page_table@.contains_key(page_id));
//@endfn
//@fn b BufferPoolManager::unpin_page ret=r
    requires old(self).wf(), old(self).res(page_id) && old(self).fresh(page_id) && old(self).pin(page_id) == 1 ==> is_dirty,
    ensures final(self).wf(), r == old(self).held(page_id), final(self).fixed(old(self)),
        r ==> final(self).unpinned(old(self), page_id, is_dirty),
        !r ==> final(self).keeps(old(self)),
//@start
    let ghost o = *self;
    proof { if o.res(page_id) { assert(o.full(o.page_table@[page_id])); } }
//@before /false \}\s*\}/
    let ghost m0 = *self;
    proof { assert(o.res(page_id)); Self::lemma_cell(&o, &m0, page_id, ISet::empty(), ISet::empty()); assert(m0.wf()); assert forall|q: PageId| !o.held(q) implies m0.cur(q) == o.cur(q) by { if o.res(q) && q != page_id { assert(m0.pg(q) == o.pg(q)); } } }
//@before /if pin_count == 1/
    proof { assert forall|q: PageId| q != page_id && #[trigger] o.res(q) implies o.cell(q) != o.cell(page_id) by { assert(o.pg(q).id == q); assert(o.pg(page_id).id == page_id); } }
//@before /if pin_count == 1/
    let ghost m1 = *self;
    proof {
        let f = o.page_table@[page_id];
        let t = ISet::empty(); let d = ISet::empty().insert(f);
        assert(o.wf_but(t, d)); assert(!o.replacer.ev(f)) by { if o.replacer.ev(f) { assert(o.owner(f) == page_id); } }
        Self::lemma_cell(&o, &m1, page_id, t, d);
        assert(m1.full(f) && m1.owner(f) == page_id);
        assert(m1.res(page_id));
        if pin_count > 1 { assert(m1.wf()) by { Self::lemma_cell(&o, &m1, page_id, t, ISet::empty()); } }
    }
//@before /true\s*\}\s*else/
    proof { if pin_count == 1 { Self::lemma_ev(&m1, self, frame_id, ISet::empty(), ISet::empty().insert(frame_id)); assert(ISet::<FrameId>::empty().insert(frame_id).remove(frame_id) =~= ISet::empty()); } }
//@endfn
//@fn b BufferPoolManager::unpin_page rename=vp_unpin ret=r impl=~PageUnpinner
    requires old(self).wf(), old(self).res(page_id) && old(self).fresh(page_id) && old(self).pin(page_id) == 1 ==> is_dirty,
    ensures final(self).wf(), r == old(self).held(page_id), final(self).fixed(old(self)),
        r ==> final(self).unpinned(old(self), page_id, is_dirty),
        !r ==> final(self).keeps(old(self)),
//@endfn
//@fn b BufferPoolManager::write_page_to_disk_async ret=r
    requires old(self).wf(), old(self).res(page_id), page.h() == old(self).cell(page_id),
    ensures final(self).wf(), final(self).keeps(old(self)), final(self).page_table == old(self).page_table, final(self).pages == old(self).pages, final(self).free_list == old(self).free_list, final(self).replacer == old(self).replacer,
        forall|q: PageId| q != page_id ==> #[trigger] final(self).disk_manager.at(q) == old(self).disk_manager.at(q),
        r is Ok ==> final(self).disk_manager.at(page_id) == old(self).cur(page_id) && (!old(self).held(page_id) ==> !final(self).pg(page_id).dirty),
        forall|h: int| #[trigger] final(self).heap.at(h).dirty ==> old(self).heap.at(h).dirty || old(self).heap.at(h).pin > 0,
//@before /\{\s*let page_guard = self\.heap\.vp_write/
    let ghost mid = *self;
//@before /Ok\(\(\)\)/
    proof { Self::lemma_cell(&mid, self, page_id, ISet::empty(), ISet::empty()); }
//@endfn
//@fn b BufferPoolManager::write_page_to_disk_sync ret=r
    requires old(self).wf_but(ISet::empty(), ISet::full()), old(self).res(page_id), page.h() == old(self).cell(page_id),
    ensures final(self).keeps(old(self)), final(self).page_table == old(self).page_table, final(self).pages == old(self).pages, final(self).free_list == old(self).free_list, final(self).replacer == old(self).replacer, final(self).next_page_id == old(self).next_page_id,
        forall|d: ISet<FrameId>| #![trigger old(self).wf_but(ISet::empty(), d)] #![trigger final(self).wf_but(ISet::empty(), d)] old(self).wf_but(ISet::empty(), d) ==> final(self).wf_but(ISet::empty(), d),
        forall|q: PageId| q != page_id ==> #[trigger] final(self).disk_manager.at(q) == old(self).disk_manager.at(q),
        r is Ok ==> final(self).disk_manager.at(page_id) == old(self).cur(page_id),
        forall|q: PageId| #[trigger] old(self).res(q) && (q != page_id || r is Err) && old(self).pin(q) == 0 ==> final(self).pg(q) == old(self).pg(q),
//@before /\{\s*let page_guard = self\.heap\.vp_write/
    let ghost mid = *self;
//@before /Ok\(\(\)\)/
    proof { Self::lemma_cell(&mid, self, page_id, ISet::empty(), ISet::full()); assert forall|d: ISet<FrameId>| #![trigger mid.wf_but(ISet::empty(), d)] #![trigger self.wf_but(ISet::empty(), d)] mid.wf_but(ISet::empty(), d) implies self.wf_but(ISet::empty(), d) by { Self::lemma_cell(&mid, self, page_id, ISet::empty(), d); } }
//@endfn
//@fn b BufferPoolManager::flush_page_async ret=r
//@rewrite /\*page_table\s*\.get\(&page_id\)\s*\.ok_or_else\(\|\| vp_string\(\)\s*\)\?/match page_table.get(&page_id) { Some(f) => *f, None => return Err(vp_string()) }/
//@rewrite /pages, frame_id as usize\)\s*\.and_then\(\|p\| p\.as_ref\(\)\)\s*\.ok_or_else\(\|\| vp_string\(\)\s*\)\?\s*\.clone\(\)/pages, frame_id as usize) { Some(Some(p)) => p.clone(), _ => return Err(vp_string()) }/
//@rewrite /vp_get\(&pages, frame_id as usize\) \{/match vp_get(&pages, frame_id as usize) {/
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(old(self)), final(self).page_table == old(self).page_table, final(self).pages == old(self).pages,
        forall|q: PageId| q != page_id ==> #[trigger] final(self).disk_manager.at(q) == old(self).disk_manager.at(q),
        !old(self).res(page_id) ==> r is Err && *final(self) == *old(self),
        r is Ok ==> final(self).disk_manager.at(page_id) == old(self).cur(page_id) && (!old(self).held(page_id) ==> !final(self).pg(page_id).dirty),
//@start
    assert(self.res(page_id) == self.page_table@.contains_key(page_id));
//@endfn
//@fn b BufferPoolManager::flush_all_pages_async
//@rewrite /page_table\.keys\(\)\.cloned\(\)\.collect\(\)/vp_keys(page_table)/
//@rewrite /for page_id in page_ids \{/let mut vp_n: usize = 0; while vp_n < page_ids.len() { let page_id = page_ids[vp_n]; vp_n += 1;/
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(old(self)),
//@loop 0
    invariant vp_n <= page_ids@.len(), self.wf(), self.keeps(old(self)),
    decreases page_ids@.len() - vp_n,
//@endfn
//@fn b BufferPoolManager::flush_all_pages_durable ret=r
//@rewrite /self\.page_table\.keys\(\)\.cloned\(\)\.collect\(\)/vp_keys(&self.page_table)/
//@rewrite /for page_id in page_ids \{/let mut vp_n: usize = 0; while vp_n < page_ids.len() { let page_id = page_ids[vp_n]; vp_n += 1;/
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(old(self)),
        r is Ok ==> final(self).disk_manager.settled() && forall|p: PageId| #[trigger] old(self).res(p) && !old(self).held(p) ==> final(self).disk_manager.at(p) == old(self).cur(p),
//@loop 0
    invariant vp_n <= page_ids@.len(), self.wf(), self.keeps(old(self)), self.page_table == old(self).page_table, self.pages == old(self).pages, forall|p: PageId| page_ids@.contains(p) == #[trigger] old(self).page_table@.contains_key(p),
        forall|i: int| 0 <= i < vp_n && !old(self).held(page_ids@[i]) ==> self.disk_manager.at(#[trigger] page_ids@[i]) == old(self).cur(page_ids@[i]),
    decreases page_ids@.len() - vp_n,
//@loopstart 0
    let ghost b4 = *self;
    proof { assert(page_ids@.contains(page_ids@[vp_n as int])); assert(old(self).page_table@.contains_key(page_ids@[vp_n as int])); assert(old(self).res(page_ids@[vp_n as int])); assert(self.held(page_ids@[vp_n as int]) == old(self).held(page_ids@[vp_n as int])); assert(self.cur(page_ids@[vp_n as int]) == old(self).cur(page_ids@[vp_n as int]) || old(self).held(page_ids@[vp_n as int])); }
//@endfn
//@fn b BufferPoolManager::evict_old_page ret=r
    requires old(self).wf_but(ISet::empty(), ISet::full()), old(self).res(old_page_id), old(self).page_table@[old_page_id] == frame_id, old(self).pin(old_page_id) == 0, !old(self).replacer.ev(frame_id),
    ensures final(self).keeps(old(self)), final(self).replacer == old(self).replacer, final(self).free_list == old(self).free_list, final(self).pool_size == old(self).pool_size, final(self).next_page_id == old(self).next_page_id,
        forall|d: ISet<FrameId>| #![trigger old(self).wf_but(ISet::empty(), d)] old(self).wf_but(ISet::empty(), d) ==> final(self).wf_but(if r { ISet::empty().insert(frame_id) } else { ISet::empty() }, d),
        r ==> !final(self).full(frame_id), !r ==> final(self).pages == old(self).pages && final(self).page_table == old(self).page_table && old(self).pg(old_page_id).dirty,
        final(self).pages@ == (if r { old(self).pages@.update(frame_id as int, None) } else { old(self).pages@ }), final(self).page_table@ == (if r { old(self).page_table@.remove(old_page_id) } else { old(self).page_table@ }),
        forall|q: PageId| #[trigger] old(self).res(q) && (q != old_page_id || !r) && old(self).pin(q) == 0 ==> final(self).pg(q) == old(self).pg(q) && final(self).res(q),
//@start
    let ghost o = *self;
//@before /self\.remove_page_from_table/
    let ghost m = *self;
    proof { assert(m.res(old_page_id)); assert(o.pg(old_page_id) == m.pg(old_page_id) || o.pg(old_page_id).dirty); assert(m.cur(old_page_id) == o.cur(old_page_id)); assert(!m.held(old_page_id)); }
//@before /true\s*\Z/
    proof { Self::lemma_evict(&m, self, old_page_id, ISet::empty(), ISet::full());
        assert forall|d: ISet<FrameId>| #![trigger o.wf_but(ISet::empty(), d)] o.wf_but(ISet::empty(), d) implies self.wf_but(ISet::empty().insert(frame_id), d) by { assert(m.wf_but(ISet::empty(), d)); Self::lemma_evict(&m, self, old_page_id, ISet::empty(), d); } }
//@endfn
//@fn b BufferPoolManager::get_available_frame ret=r
//@rewrite /for _ in 0\.\.self\.pool_size \{/let mut vp_k: usize = 0; while vp_k < self.pool_size { vp_k += 1;/
//@rewrite /for \(&pid, &fid\) in page_table\.iter\(\) \{/let vp_ps = vp_pairs(page_table); let mut vp_j: usize = 0; while vp_j < vp_ps.len() { let pid = vp_ps[vp_j].0; let fid = vp_ps[vp_j].1; vp_j += 1;/
//@rewrite /if let Some\(old_page_id\) = page_id && !self\.evict_old_page\(frame_id, old_page_id\) \{/let vp_failed = match page_id { Some(old_page_id) => !self.evict_old_page(frame_id, old_page_id), None => false }; if vp_failed {/
//@rewrite /for frame_id in unflushed \{/let mut vp_n: usize = 0; while vp_n < unflushed.len() { let frame_id = unflushed[vp_n]; vp_n += 1;/
    requires old(self).wf(),
    ensures final(self).keeps(old(self)), final(self).next_page_id == old(self).next_page_id,
        r is Some ==> final(self).wf_but(ISet::empty().insert(r->Some_0), ISet::empty()) && r->Some_0 < final(self).pool_size && !final(self).full(r->Some_0),
        // no frame only when every page is held, or could not be written
        r is None ==> final(self).wf() && final(self).page_table == old(self).page_table && forall|p: PageId| #[trigger] old(self).res(p) && !old(self).held(p) ==> old(self).pg(p).dirty,
//@before /return Some\(frame_id\)/
    proof { assert(old(self).is_free(frame_id)) by { assert(old(self).free_list@[old(self).free_list@.len() - 1] == frame_id); }
        assert forall|f: FrameId| #[trigger] self.is_free(f) == (old(self).is_free(f) && f != frame_id) by {
            let q = old(self).free_list@; assert(self.free_list@ == q.drop_last());
            if old(self).is_free(f) && f != frame_id { let i = choose|i: int| 0 <= i < q.len() && q[i] == f; assert(self.free_list@[i] == f); }
            if self.is_free(f) { let i = choose|i: int| 0 <= i < q.len() - 1 && self.free_list@[i] == f; assert(q[i] == f); }
        }
        assert forall|f: FrameId| #[trigger] self.full(f) == old(self).full(f) && self.owner(f) == old(self).owner(f) by { }
        assert forall|q: PageId| #[trigger] self.res(q) == old(self).res(q) && self.held(q) == old(self).held(q) && self.cur(q) == old(self).cur(q) by { }
        assert forall|q: PageId| #[trigger] self.res(q) implies self.safe(q) && self.cell(q) == old(self).cell(q) && self.pg(q) == old(self).pg(q) by { assert(old(self).res(q)); }
    }
//@loop 0
    invariant_except_break available is None, self.wf_but(ISet::empty(), among(unflushed@)), self.page_table == old(self).page_table, self.pages == old(self).pages,
        tight ==> unflushed@.len() == vp_k && unflushed@.no_duplicates() && forall|f: FrameId| unflushed@.contains(f) ==> !#[trigger] self.replacer.ev(f),
        !tight ==> forall|f: FrameId| #[trigger] old(self).full(f) && old(self).pin(old(self).owner(f)) == 0 ==> unflushed@.contains(f),
        forall|p: PageId| #[trigger] old(self).res(p) && old(self).pin(p) == 0 ==> self.pg(p) == old(self).pg(p),
    invariant vp_k <= self.pool_size, self.keeps(old(self)), old(self).wf(), self.next_page_id == old(self).next_page_id, self.free_list@ == old(self).free_list@,
        forall|f: FrameId| #[trigger] unflushed@.contains(f) ==> old(self).full(f) && old(self).pin(old(self).owner(f)) == 0 && old(self).pg(old(self).owner(f)).dirty,
        forall|f: FrameId| #[trigger] unflushed@.contains(f) && available != Some(f) ==> self.full(f) && self.pin(self.owner(f)) == 0,
    ensures available is None ==> self.wf_but(ISet::empty(), among(unflushed@)) && self.page_table == old(self).page_table && self.pages == old(self).pages && (tight ==> unflushed@.len() == self.pool_size && unflushed@.no_duplicates()) && (!tight ==> forall|f: FrameId| #[trigger] old(self).full(f) && old(self).pin(old(self).owner(f)) == 0 ==> unflushed@.contains(f)),
        available is Some ==> self.wf_but(ISet::empty().insert(available->Some_0), among(unflushed@)) && available->Some_0 < self.pool_size && !self.full(available->Some_0),
    decreases self.pool_size - vp_k,
//@beforeloop 0
    let ghost mut tight = true;
    proof {
        assert(among(unflushed@) =~= ISet::empty()); assert(self.free_list@ =~= old(self).free_list@);
        Self::lemma_same(old(self), self, ISet::empty(), ISet::empty());
    }
//@loopstart 0
    let ghost b0 = *self;
//@loop 1
    invariant_except_break victim_page_id is None, forall|i: int| 0 <= i < vp_j ==> (#[trigger] vp_ps@[i]).1 != frame_id,
    invariant vp_j <= vp_ps@.len(),
    ensures match victim_page_id { Some(p) => vp_ps@.contains((p, frame_id)), None => forall|i: int| 0 <= i < vp_ps@.len() ==> (#[trigger] vp_ps@[i]).1 != frame_id },
    decreases vp_ps@.len() - vp_j,
//@before /break;\s*\}\s*\}\s*victim_page_id/
    proof { assert(vp_ps@[vp_j - 1] == (pid, fid)); }
//@afterloop 1
    proof {
        assert(b0.full(frame_id) && b0.res(b0.owner(frame_id)) && b0.page_table@[b0.owner(frame_id)] == frame_id);
        assert(vp_ps@.contains((b0.owner(frame_id), frame_id)));
        let j = choose|j: int| 0 <= j < vp_ps@.len() && vp_ps@[j] == (b0.owner(frame_id), frame_id);
        assert(vp_ps@[j].1 == frame_id);
        assert(victim_page_id is Some);
    }
//@before /let vp_failed/
    let ghost m1 = *self;
    let ghost odd1 = among(unflushed@).insert(frame_id);
    proof {
        Self::lemma_ev(&b0, &m1, frame_id, ISet::empty(), among(unflushed@));
        assert(m1.wf_but(ISet::empty(), odd1)); assert(m1.wf_but(ISet::empty(), ISet::full()));
        assert(b0.full(frame_id) && b0.res(b0.owner(frame_id)) && b0.page_table@[b0.owner(frame_id)] == frame_id);
        assert(m1.page_table@.contains_key(page_id->Some_0) && m1.page_table@[page_id->Some_0] == frame_id);
        assert(m1.res(page_id->Some_0));
        assert(m1.pg(page_id->Some_0).id == page_id->Some_0);
        assert(m1.owner(frame_id) == page_id->Some_0);
        assert(old(self).res(page_id->Some_0) && !old(self).held(page_id->Some_0));
    }
//@before /unflushed\.push\(frame_id\)/
    proof {
        Self::lemma_keeps(old(self), &b0, &m1); Self::lemma_keeps(old(self), &m1, self);
        assert(self.wf_but(ISet::empty(), odd1));
        let q = unflushed@.push(frame_id);
        assert forall|f: FrameId| q.contains(f) == (unflushed@.contains(f) || f == frame_id) by { if unflushed@.contains(f) { let i = choose|i: int| 0 <= i < unflushed@.len() && unflushed@[i] == f; assert(q[i] == f); } assert(q[unflushed@.len() as int] == frame_id); }
        assert(among(q) =~= odd1);
        assert(q.contains(frame_id));
        assert(b0.replacer.ev(frame_id)); assert(!self.replacer.ev(frame_id));
        if tight { assert(!unflushed@.contains(frame_id)); assert(q.no_duplicates()); assert forall|f: FrameId| q.contains(f) implies !#[trigger] self.replacer.ev(f) by { if f != frame_id { assert(!b0.replacer.ev(f)); } } }
        assert(old(self).full(frame_id)); assert(old(self).owner(frame_id) == page_id->Some_0);
        assert forall|f: FrameId| #[trigger] unflushed@.contains(f) implies self.full(f) && self.pin(self.owner(f)) == 0 by { assert(b0.full(f)); assert(m1.full(f)); assert(m1.res(m1.owner(f))); }
        assert forall|p: PageId| #[trigger] old(self).res(p) && old(self).pin(p) == 0 implies self.pg(p) == old(self).pg(p) by { assert(m1.res(p)); assert(m1.pg(p) == b0.pg(p)); }
        assert forall|f: FrameId| #[trigger] q.contains(f) implies old(self).full(f) && old(self).pin(old(self).owner(f)) == 0 && old(self).pg(old(self).owner(f)).dirty by { if f != frame_id { assert(unflushed@.contains(f)); } }
        assert(m1.full(frame_id)); assert(self.full(frame_id) && self.pin(self.owner(frame_id)) == 0);
        assert forall|f: FrameId| #[trigger] q.contains(f) implies self.full(f) && self.pin(self.owner(f)) == 0 by { if f != frame_id { assert(unflushed@.contains(f)); } }
    }
//@before /available = Some\(frame_id\)/
    proof { Self::lemma_keeps(old(self), &b0, &m1); Self::lemma_keeps(old(self), &m1, self); assert(self.wf_but(ISet::empty().insert(frame_id), odd1)); assert(self.wf_but(ISet::empty().insert(frame_id), among(unflushed@))) by { assert forall|f: FrameId| odd1.contains(f) && f != frame_id implies among(unflushed@).contains(f) by { } }
        assert forall|f: FrameId| #[trigger] unflushed@.contains(f) && f != frame_id implies self.full(f) && self.pin(self.owner(f)) == 0 by { assert(b0.full(f)); assert(m1.full(f)); assert(m1.res(m1.owner(f))); }
    }
//@before /let pages = &self\.pages;/
    proof { tight = false; Self::lemma_same(&b0, self, ISet::empty(), among(unflushed@)); Self::lemma_keeps(old(self), &b0, self);
        assert forall|f: FrameId| #[trigger] unflushed@.contains(f) implies self.full(f) && self.pin(self.owner(f)) == 0 by { assert(b0.full(f)); }
        assert forall|f: FrameId| #[trigger] old(self).full(f) && old(self).pin(old(self).owner(f)) == 0 implies unflushed@.contains(f) by { assert(old(self).res(old(self).owner(f))); assert(b0.full(f)); assert(b0.owner(f) == old(self).owner(f)); } }
//@loop 2
    invariant vp_i <= pages@.len(), *pages == self.pages, self.wf_but(ISet::empty(), among(unflushed@)), *self == (Self { replacer: self.replacer, ..b0 }), self.keeps(old(self)),
        forall|f: FrameId| #[trigger] unflushed@.contains(f) ==> self.full(f) && self.pin(self.owner(f)) == 0,
    decreases pages@.len() - vp_i,
//@before /self\.replacer\.set_evictable\(i as FrameId, true\)/
    let ghost c0 = *self;
    proof { let f = i as FrameId; assert(c0.full(f)); assert(c0.pin(c0.owner(f)) == 0) by { assert(c0.res(c0.owner(f)) && c0.page_table@[c0.owner(f)] == f); } }
//@after /self\.replacer\.set_evictable\(i as FrameId, true\);/
    proof { Self::lemma_ev(&c0, self, i as FrameId, ISet::empty(), among(unflushed@)); Self::lemma_more(self, ISet::empty(), among(unflushed@).remove(i as FrameId), among(unflushed@)); Self::lemma_keeps(old(self), &c0, self);
        assert forall|f: FrameId| #[trigger] unflushed@.contains(f) implies self.full(f) && self.pin(self.owner(f)) == 0 by { assert(c0.full(f)); } }
//@loop 3
    invariant vp_n <= unflushed@.len(), self.keeps(old(self)), self.page_table == tb.page_table, self.pages == tb.pages, self.next_page_id == old(self).next_page_id, self.wf_but(taken, among(unflushed@.skip(vp_n as int))), *self == (Self { replacer: self.replacer, ..tb }),
        available is Some ==> !self.full(available->Some_0),
        forall|f: FrameId| #[trigger] unflushed@.contains(f) && available != Some(f) ==> self.full(f) && self.pin(self.owner(f)) == 0,
    decreases unflushed@.len() - vp_n,
//@loopstart 3
    let ghost d0 = *self;
//@loopend 3
    proof {
        let f = frame_id; let a0 = among(unflushed@.skip(vp_n - 1)); let a1 = among(unflushed@.skip(vp_n as int));
        assert(unflushed@.contains(f)) by { assert(unflushed@[vp_n - 1] == f); }
        assert forall|g: FrameId| a0.contains(g) && g != f implies a1.contains(g) by { let q = unflushed@.skip(vp_n - 1); let i = choose|i: int| 0 <= i < q.len() && q[i] == g; assert(i > 0); assert(unflushed@.skip(vp_n as int)[i - 1] == g); }
        if available != Some(f) {
            assert(d0.full(f)); Self::lemma_ev(&d0, self, f, taken, a0); Self::lemma_keeps(old(self), &d0, self);
            Self::lemma_more(self, taken, a0.remove(f), a1);
            assert forall|g: FrameId| #[trigger] unflushed@.contains(g) && available != Some(g) implies self.full(g) && self.pin(self.owner(g)) == 0 by { assert(d0.full(g)); }
        } else { assert(!self.full(f)); Self::lemma_more(self, taken, a0, a1); }
    }
//@afterloop 3
    proof {
        assert(unflushed@.skip(vp_n as int) =~= Seq::empty()); assert(among(unflushed@.skip(vp_n as int)) =~= ISet::empty());
        if available is None { assert forall|p: PageId| #[trigger] old(self).res(p) && !old(self).held(p) implies old(self).pg(p).dirty by {
            let f = old(self).page_table@[p]; assert(old(self).full(f)); assert(old(self).owner(f) == p);
            if tight { assert forall|i: int| 0 <= i < unflushed@.len() implies #[trigger] unflushed@[i] < self.pool_size by { assert(unflushed@.contains(unflushed@[i])); assert(self.full(unflushed@[i])); } lemma_all(unflushed@, self.pool_size); }
            assert(unflushed@.contains(f));
        } }
    }
//@beforeloop 3
    proof { assert(unflushed@.skip(0) =~= unflushed@); }
    let ghost tb = *self; let ghost taken = match available { Some(f) => ISet::empty().insert(f), None => ISet::empty() };
//@endfn
//@fn b BufferPoolManager::evict_page_if_necessary
    requires old(self).wf_but(ISet::empty().insert(frame_id), ISet::empty()), !old(self).full(frame_id), frame_id < old(self).pool_size,
    ensures *final(self) == *old(self),
//@before /let old_page_id/
    proof { assert(self.full(frame_id)); assert(false); }
//@endfn
//@fn b BufferPoolManager::allocate_page_id ret=r
    requires old(self).next_page_id < u64::MAX,
    ensures r == old(self).next_page_id, *final(self) == (Self { next_page_id: final(self).next_page_id, ..*old(self) }), final(self).next_page_id == old(self).next_page_id + 1,
//@endfn
//@fn b BufferPoolManager::create_typed_page ret=r
//@rewrite /page\.get_data_mut\(\)\[PAGE_TYPE_OFFSET\] = type_byte;/page.vp_set_tag(PAGE_TYPE_OFFSET, type_byte);/
    ensures final(self).made(old(self), r.h()), final(self).heap.at(r.h()).id == page_id, final(self).heap.at(r.h()).pin == 1, !final(self).heap.at(r.h()).dirty, final(self).heap.at(r.h()).fresh, final(self).heap.at(r.h()).data.len() == DB_PAGE_SIZE,
        final(self).heap.at(r.h()).data[0] == code(T::kind()),
//@endfn
//@fn b BufferPoolManager::create_typed_page_with_constructor ret=r
//@rewrite /page\.get_data_mut\(\)\[PAGE_TYPE_OFFSET\] = type_byte;/page.vp_set_tag(PAGE_TYPE_OFFSET, type_byte);/
//@rewrite /constructor\(page_id\);/vp_construct(constructor, page_id);/
    ensures final(self).made(old(self), r.h()), final(self).heap.at(r.h()).id == page_id, final(self).heap.at(r.h()).pin == 1, !final(self).heap.at(r.h()).dirty, final(self).heap.at(r.h()).fresh, final(self).heap.at(r.h()).data.len() == DB_PAGE_SIZE,
        final(self).heap.at(r.h()).data[0] == code(T::kind()),
//@endfn
//@fn b BufferPoolManager::update_page_metadata
//@rewrite /<P: PageTrait \+ 'static>//
//@rewrite /let trait_object: PageRef = page_clone;/let trait_object = page_clone;/
    requires frame_id < old(self).pages@.len(),
    ensures final(self).added(old(self), frame_id, page_id, *new_page),
//@after /self\.replacer\.set_evictable\(frame_id, false\);/
    proof { assert(self.replacer.tracked() =~= old(self).replacer.tracked().insert(frame_id, false)); }
//@endfn
//@fn b BufferPoolManager::new_page ret=r
    requires old(self).wf(), old(self).next_page_id < u64::MAX,
    ensures final(self).wf(),
        // a new page, under a number no page had before, held by the caller alone
        r is Some ==> r->Some_0.page_id == old(self).next_page_id && final(self).next_page_id == old(self).next_page_id + 1 && final(self).kept(old(self), ISet::empty().insert(r->Some_0.page_id)) && final(self).lent::<T>(r->Some_0.page_id, r->Some_0) && final(self).pin(r->Some_0.page_id) == 1 && r->Some_0.dirty,
        r is None ==> final(self).keeps(old(self)) && forall|p: PageId| #[trigger] old(self).res(p) && !old(self).held(p) ==> old(self).pg(p).dirty,
//@before /let new_page_id =/
    let ghost m0 = *self;
//@before /let new_page =/
    let ghost m1 = *self;
    proof { Self::lemma_next(&m0, &m1, ISet::empty().insert(frame_id)); Self::lemma_keeps(old(self), &m0, &m1); }
//@before /self\.update_page_metadata/
    let ghost m2 = *self;
    proof { Self::lemma_made(&m1, &m2, new_page.h(), ISet::empty().insert(frame_id), ISet::empty()); Self::lemma_keeps(old(self), &m1, &m2); assert(!m2.res(new_page_id)) by { if m2.res(new_page_id) { assert(m0.res(new_page_id)); } } }
//@before /let unpinner =/
    proof { Self::lemma_added(old(self), &m2, self, frame_id, new_page_id, new_page); }
//@endfn
//@fn b BufferPoolManager::new_page_with_options ret=r
    requires old(self).wf(), old(self).next_page_id < u64::MAX,
    ensures final(self).wf(),
        r is Some ==> r->Some_0.page_id == old(self).next_page_id && final(self).next_page_id == old(self).next_page_id + 1 && final(self).kept(old(self), ISet::empty().insert(r->Some_0.page_id)) && final(self).lent::<T>(r->Some_0.page_id, r->Some_0) && final(self).pin(r->Some_0.page_id) == 1 && r->Some_0.dirty,
        r is None ==> final(self).keeps(old(self)) && forall|p: PageId| #[trigger] old(self).res(p) && !old(self).held(p) ==> old(self).pg(p).dirty,
//@before /let new_page_id =/
    let ghost m0 = *self;
//@before /let new_page =/
    let ghost m1 = *self;
    proof { Self::lemma_next(&m0, &m1, ISet::empty().insert(frame_id)); Self::lemma_keeps(old(self), &m0, &m1); }
//@before /self\.update_page_metadata/
    let ghost m2 = *self;
    proof { Self::lemma_made(&m1, &m2, new_page.h(), ISet::empty().insert(frame_id), ISet::empty()); Self::lemma_keeps(old(self), &m1, &m2); assert(!m2.res(new_page_id)) by { if m2.res(new_page_id) { assert(m0.res(new_page_id)); } } }
//@before /let unpinner =/
    proof { Self::lemma_added(old(self), &m2, self, frame_id, new_page_id, new_page); }
//@endfn
//@fn b BufferPoolManager::load_page_with_cache_coordination ret=r
    ensures *final(self) == (Self { disk_manager: final(self).disk_manager, ..*old(self) }), final(self).disk_manager.at_all(&old(self).disk_manager), r is Ok ==> r->Ok_0@ == old(self).disk_manager.at(page_id) && r->Ok_0@.len() <= DB_PAGE_SIZE,
        forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) ==> final(self).wf_but(t, e) && final(self).keeps(old(self)),
//@endfn
//@fn b BufferPoolManager::load_page_bypass_cache ret=r
    ensures *final(self) == (Self { disk_manager: final(self).disk_manager, ..*old(self) }), final(self).disk_manager.at_all(&old(self).disk_manager), r is Ok ==> r->Ok_0@ == old(self).disk_manager.at(page_id) && r->Ok_0@.len() <= DB_PAGE_SIZE,
        forall|t: ISet<FrameId>, e: ISet<FrameId>| #[trigger] old(self).wf_but(t, e) ==> final(self).wf_but(t, e) && final(self).keeps(old(self)),
//@endfn
//@fn b BufferPoolManager::create_page_from_data ret=r
//@rewrite /page_guard\.set_data\(0, &data\[\.\.DB_PAGE_SIZE as usize\]\)/page_guard.vp_set_all(&vp_head(&data, DB_PAGE_SIZE as usize))/
    ensures (r is Some) == (data@.len() >= DB_PAGE_SIZE && data@[0] == code(T::kind())),
        r is None ==> *final(self) == *old(self),
        r is Some ==> r->Some_0.page_id == page_id && r->Some_0.unpinner is Some && r->Some_0.dirty && final(self).made(old(self), r->Some_0.page.h()),
        r is Some ==> ({ let v = final(self).heap.at(r->Some_0.page.h()); v.id == page_id && v.pin == 1 && v.dirty && !v.fresh && v.data == data@.subrange(0, DB_PAGE_SIZE as int) }),
//@start
    proof { lemma_code(T::kind()); }
//@endfn
//@fn b BufferPoolManager::load_page_from_disk ret=r
    requires old(self).wf(), !old(self).res(page_id), page_id < old(self).next_page_id,
    ensures final(self).wf(), final(self).next_page_id == old(self).next_page_id,
        r is Some ==> final(self).kept(old(self), ISet::empty().insert(page_id)) && final(self).lent::<T>(page_id, r->Some_0) && final(self).cur(page_id) == old(self).cur(page_id) && final(self).pin(page_id) == (if old(self).res(page_id) { old(self).pin(page_id) + 1 } else { 1 }),
        r is None ==> final(self).keeps(old(self)) && !final(self).res(page_id),
//@before /let page_data = if/
    let ghost m0 = *self;
    proof { assert(m0.cur(page_id) == old(self).cur(page_id)); assert(!m0.res(page_id)); }
//@before /let page_data = match/
    let ghost m1 = *self;
    proof { Self::lemma_keeps(old(self), &m0, &m1); assert(m1.wf_but(ISet::empty().insert(frame_id), ISet::empty())); }
//@after /Err\(e\) => \{\s*self\.free_list\.push\(frame_id\);/
    proof { Self::lemma_back(&m1, self, frame_id); Self::lemma_keeps(old(self), &m1, self); }
//@before /self\.update_page_metadata/
    let ghost m2 = *self;
    proof { Self::lemma_made(&m1, &m2, page_arc.h(), ISet::empty().insert(frame_id), ISet::empty()); Self::lemma_keeps(old(self), &m1, &m2); }
//@after /self\.update_page_metadata\(frame_id, page_id, &page_arc\);/
    proof { Self::lemma_added(old(self), &m2, self, frame_id, page_id, page_arc); assert(self.cur(page_id) =~= old(self).cur(page_id)); }
//@after /else \{\s*self\.free_list\.push\(frame_id\);/
    proof { Self::lemma_back(&m1, self, frame_id); Self::lemma_keeps(old(self), &m1, self); }
//@endfn
//@fn b BufferPoolManager::fetch_page ret=r
//@rewrite /return Some\(\s*(PageGuard::new\(.*Some\(unpinner\),?\s*\))\s*\);/let vp_g = \1; return Some(vp_g);/
    requires old(self).wf(), old(self).res(page_id) ==> old(self).pin(page_id) < i32::MAX,
    ensures final(self).wf(), final(self).next_page_id == old(self).next_page_id,
        r is Some ==> final(self).kept(old(self), ISet::empty().insert(page_id)) && final(self).lent::<T>(page_id, r->Some_0) && final(self).cur(page_id) == old(self).cur(page_id) && final(self).pin(page_id) == (if old(self).res(page_id) { old(self).pin(page_id) + 1 } else { 1 }),
        r is None ==> final(self).keeps(old(self)),
        page_id == INVALID_PAGE_ID || page_id >= old(self).next_page_id ==> r is None,
        // a page in memory is only refused to a caller that takes it for a page of another type
        old(self).res(page_id) && page_id != INVALID_PAGE_ID ==> (r is Some) == (old(self).cur(page_id)[0] == code(T::kind())),
//@start
    proof { lemma_code(T::kind()); if self.res(page_id) { assert(self.full(self.page_table@[page_id])); } }
//@before /return Some\(vp_g\)/
    proof { assert(old(self).res(page_id)); assert(self.replacer.tracked() =~= old(self).replacer.tracked().insert(old(self).page_table@[page_id], false)); Self::lemma_lent(old(self), self, page_id); }
//@endfn
//@fn b BufferPoolManager::create_guard_from_existing ret=r
//@rewrite /Some\(\s*(PageGuard::new\(.*Some\(unpinner\),?\s*\))\s*\)/let vp_g = \1; Some(vp_g)/
    requires old(self).wf(), old(self).res(page_id), page.h() == old(self).cell(page_id), old(self).pin(page_id) < i32::MAX,
    ensures final(self).wf(), final(self).next_page_id == old(self).next_page_id,
        r is Some ==> final(self).kept(old(self), ISet::empty().insert(page_id)) && final(self).lent::<T>(page_id, r->Some_0) && final(self).cur(page_id) == old(self).cur(page_id) && final(self).pin(page_id) == (if old(self).res(page_id) { old(self).pin(page_id) + 1 } else { 1 }),
        r is None ==> *final(self) == *old(self),
        final(self).page_table == old(self).page_table, final(self).disk_manager == old(self).disk_manager, forall|q: PageId| #[trigger] final(self).cur(q) == old(self).cur(q), forall|q: PageId| #[trigger] final(self).res(q) == old(self).res(q),
        (r is Some) == (old(self).cur(page_id)[0] == code(T::kind())),
//@start
    proof { lemma_code(T::kind()); }
//@before /Some\(vp_g\)/
    proof { assert(old(self).res(page_id)); assert(self.replacer.tracked() =~= old(self).replacer.tracked().insert(old(self).page_table@[page_id], false)); Self::lemma_lent(old(self), self, page_id); }
//@endfn
//@fn b BufferPoolManager::install_loaded_page ret=r
//@rewrite /let guard = self\.create_page_from_data\(page_id, data\)\?;/let guard = match self.create_page_from_data::<T>(page_id, data) { Some(g) => g, None => return None };/
    requires old(self).wf(), page_id < old(self).next_page_id, old(self).res(page_id) ==> old(self).pin(page_id) < i32::MAX, !old(self).res(page_id) ==> data@.len() <= DB_PAGE_SIZE,
    ensures final(self).wf(), final(self).next_page_id == old(self).next_page_id,
        r is Some ==> final(self).kept(old(self), ISet::empty().insert(page_id)) && final(self).lent::<T>(page_id, r->Some_0) && final(self).pin(page_id) == (if old(self).res(page_id) { old(self).pin(page_id) + 1 } else { 1 }),
        r is Some ==> final(self).cur(page_id) == (if old(self).res(page_id) { old(self).cur(page_id) } else { data@ }),
        r is None ==> final(self).keeps(old(self)),
        old(self).res(page_id) ==> (r is Some) == (old(self).cur(page_id)[0] == code(T::kind())),
//@before /let frame_id = self\.get_available_frame/
    let ghost m0 = *self;
    proof { Self::lemma_made(old(self), &m0, guard.page.h(), ISet::empty(), ISet::empty()); assert(data@.subrange(0, DB_PAGE_SIZE as int) =~= data@); }
//@before /self\.evict_page_if_necessary/
    let ghost m1 = *self;
    proof { Self::lemma_keeps(old(self), &m0, &m1); assert(!m1.shown(guard.page.h())); assert(m1.heap.at(guard.page.h()) == m0.heap.at(guard.page.h())); assert(!m1.res(page_id)) by { if m1.res(page_id) { assert(m0.res(page_id)); } } }
//@before /Some\(guard\)/
    proof { Self::lemma_added(old(self), &m1, self, frame_id, page_id, page_arc); }
//@endfn
//@fn b BufferPoolManager::load_pages_batch ret=r
//@rewrite /for page_id in page_ids \{/let mut vp_n: usize = 0; while vp_n < page_ids.len() { let page_id = page_ids[vp_n]; vp_n += 1;/
//@rewrite /pages_to_load\.clone\(\)/vp_dup_ids(&pages_to_load)/
//@rewrite /for \(i, data\) in pages_data\.into_iter\(\)\.enumerate\(\) \{/let mut vp_m: usize = 0; while vp_m < pages_data.len() { let i = vp_m; let data = vp_copy(&pages_data[vp_m]); vp_m += 1;/
//@rewrite /let mut pages_to_load = Vec::new\(\);/let mut pages_to_load: Vec<PageId> = Vec::new();/
//@rewrite /let mut slots = Vec::new\(\);/let mut slots: Vec<usize> = Vec::new();/
    requires old(self).wf(), old(self).room(page_ids@.len() as int), page_ids@.len() < i32::MAX - 1,
    ensures final(self).wf(), final(self).next_page_id == old(self).next_page_id, final(self).kept(old(self), ids_of(page_ids@)), r@.len() == page_ids@.len(),
        forall|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]) is Some ==> final(self).gives(page_ids@[i], r@[i]->Some_0) && page_ids@[i] < old(self).next_page_id,
        forall|i: int| 0 <= i < r@.len() && old(self).res(page_ids@[i]) && page_ids@[i] != INVALID_PAGE_ID ==> (#[trigger] r@[i] is Some) == (old(self).cur(page_ids@[i])[0] == code(T::kind())),
//@start
    let ghost ids = page_ids@; let ghost o = *self;
    proof { Self::lemma_refl(self, ids_of(ids)); }
//@loop 0
    invariant vp_n <= ids.len(), page_ids@ == ids, guards@.len() == vp_n, self.wf(), o == *old(self), self.kept(&o, ids_of(ids)), self.next_page_id == o.next_page_id, self.page_table == o.page_table, self.disk_manager == o.disk_manager,
        o.room(ids.len() as int), ids.len() < i32::MAX - 1, self.room(ids.len() - vp_n + pages_to_load@.len()),
        slots@.len() == pages_to_load@.len(), slots@.len() <= vp_n,
        forall|q: PageId| #[trigger] self.cur(q) == o.cur(q), forall|q: PageId| #[trigger] self.res(q) == o.res(q),
        forall|k: int| 0 <= k < slots@.len() ==> (#[trigger] slots@[k]) < vp_n && ids[slots@[k] as int] == pages_to_load@[k] && guards@[slots@[k] as int] is None && !o.res(pages_to_load@[k]) && pages_to_load@[k] < o.next_page_id && pages_to_load@[k] != INVALID_PAGE_ID,
        forall|i: int| 0 <= i < vp_n && (#[trigger] guards@[i]) is Some ==> self.gives(ids[i], guards@[i]->Some_0) && ids[i] < o.next_page_id,
        forall|i: int| 0 <= i < vp_n && o.res(ids[i]) && ids[i] != INVALID_PAGE_ID ==> (#[trigger] guards@[i] is Some) == (o.cur(ids[i])[0] == code(T::kind())),
    decreases ids.len() - vp_n,
//@loopstart 0
    let ghost b0 = *self; let ghost g0 = guards@;
//@loopend 0
    proof {
        let one = ISet::<PageId>::empty().insert(page_id);
        assert(self.kept(&b0, one)) by { if *self == b0 { Self::lemma_refl(self, one); } }
        Self::lemma_kept(&o, &b0, self, ids_of(ids), one);
        assert(ids.contains(page_id)) by { assert(ids[vp_n - 1] == page_id); }
        assert(ids_of(ids).union(one) =~= ids_of(ids));
        assert forall|i: int| 0 <= i < vp_n && (#[trigger] guards@[i]) is Some implies self.gives(ids[i], guards@[i]->Some_0) && ids[i] < o.next_page_id by { if i < vp_n - 1 { assert(guards@[i] == g0[i]); assert(b0.gives(ids[i], g0[i]->Some_0)); assert(b0.held(ids[i])); assert(self.held(ids[i])); } }
        assert forall|i: int| 0 <= i < vp_n && o.res(ids[i]) && ids[i] != INVALID_PAGE_ID implies (#[trigger] guards@[i] is Some) == (o.cur(ids[i])[0] == code(T::kind())) by { if i < vp_n - 1 { assert(guards@[i] == g0[i]); } else { assert(b0.res(page_id) == o.res(page_id)); assert(b0.cur(page_id) == o.cur(page_id)); } }
        assert forall|q: PageId| #[trigger] self.res(q) implies self.pin(q) + (ids.len() - vp_n + pages_to_load@.len()) < i32::MAX by { assert(b0.res(q)); if q != page_id { if b0.held(q) { } else { assert(!self.held(q)); assert(self.pin(q) == 0); } } }
    }
//@beforeloop 1
    proof { assert forall|k: int| 0 <= k < slots@.len() implies !self.res(#[trigger] pages_to_load@[k]) by { assert(slots@[k] < ids.len()); } }
//@loop 1
    invariant vp_m <= pages_data@.len(), pages_data@.len() == pages_to_load@.len(), guards@.len() == ids.len(), self.wf(), o == *old(self), self.kept(&o, ids_of(ids)), self.next_page_id == o.next_page_id,
        self.room(pages_to_load@.len() - vp_m), ids.len() < i32::MAX - 1, pages_to_load@.len() <= ids.len(),
        slots@.len() == pages_to_load@.len(),
        forall|k: int| 0 <= k < pages_data@.len() ==> (#[trigger] pages_data@[k])@.len() <= DB_PAGE_SIZE,
        forall|k: int| 0 <= k < slots@.len() ==> (#[trigger] slots@[k]) < ids.len() && ids[slots@[k] as int] == pages_to_load@[k] && !o.res(pages_to_load@[k]) && pages_to_load@[k] < o.next_page_id && pages_to_load@[k] != INVALID_PAGE_ID,
        forall|k: int| 0 <= k < slots@.len() && self.res(#[trigger] pages_to_load@[k]) ==> self.held(pages_to_load@[k]),
        // what is installed is what the page held
        forall|k: int| vp_m <= k < slots@.len() && !self.res(pages_to_load@[k]) ==> (#[trigger] pages_data@[k])@ == self.cur(pages_to_load@[k]),
        forall|i: int| 0 <= i < ids.len() && (#[trigger] guards@[i]) is Some ==> self.gives(ids[i], guards@[i]->Some_0) && ids[i] < o.next_page_id,
        forall|i: int| 0 <= i < ids.len() && o.res(ids[i]) && ids[i] != INVALID_PAGE_ID ==> (#[trigger] guards@[i] is Some) == (o.cur(ids[i])[0] == code(T::kind())),
    decreases pages_data@.len() - vp_m,
//@loopstart 1
    let ghost b1 = *self; let ghost g1 = guards@;
    proof { assert(slots@[vp_m as int] < ids.len()); }
//@loopend 1
    proof {
        let page_id = pages_to_load@[i as int]; let one = ISet::<PageId>::empty().insert(page_id); let slot = slots@[i as int] as int;
        if guards@[slot] is None { Self::lemma_wider(&b1, self, ISet::empty(), one); }
        Self::lemma_kept(&o, &b1, self, ids_of(ids), one);
        assert(ids.contains(page_id)) by { assert(ids[slot] == page_id); }
        assert(ids_of(ids).union(one) =~= ids_of(ids));
        assert forall|j: int| 0 <= j < ids.len() && (#[trigger] guards@[j]) is Some implies self.gives(ids[j], guards@[j]->Some_0) && ids[j] < o.next_page_id by { if j != slot { assert(guards@[j] == g1[j]); assert(b1.gives(ids[j], g1[j]->Some_0)); assert(b1.held(ids[j])); assert(self.held(ids[j])); } }
        assert forall|j: int| 0 <= j < ids.len() && o.res(ids[j]) && ids[j] != INVALID_PAGE_ID implies (#[trigger] guards@[j] is Some) == (o.cur(ids[j])[0] == code(T::kind())) by { assert(j != slot); assert(guards@[j] == g1[j]); }
        assert forall|q: PageId| #[trigger] self.res(q) implies self.pin(q) + (pages_to_load@.len() - vp_m) < i32::MAX by { if q != page_id { assert(b1.res(q)); if b1.held(q) { } else { assert(!self.held(q)); assert(self.pin(q) == 0); } } else if !b1.res(q) { if guards@[slot] is Some { } else { } } else { assert(b1.res(q)); if guards@[slot] is None { if b1.held(q) { } else { assert(!self.held(q)); } } } }
        assert forall|k: int| 0 <= k < slots@.len() && self.res(#[trigger] pages_to_load@[k]) implies self.held(pages_to_load@[k]) by { let q = pages_to_load@[k]; if q == page_id { if guards@[slot] is None { assert(b1.res(q)); } } else { assert(b1.res(q)); } }
        assert forall|k: int| vp_m <= k < slots@.len() && !self.res(pages_to_load@[k]) implies (#[trigger] pages_data@[k])@ == self.cur(pages_to_load@[k]) by {
            let q = pages_to_load@[k];
            assert(!b1.res(q)) by { if b1.res(q) { assert(b1.held(q)); assert(self.res(q)); } }
            if q == page_id { assert(guards@[slot] is None); assert(b1.held(q) == self.held(q)); assert(!b1.held(q)); assert(b1.cur(q) == self.cur(q)); }
            else { assert(!self.held(q)); assert(b1.held(q) == self.held(q)); assert(b1.cur(q) == self.cur(q)); }
        }
    }
//@endfn
//@fn b BufferPoolManager::write_page
//@rewrite /data: \[u8;\s*DB_PAGE_SIZE as usize\]/data: Vec<u8>/
//@rewrite /set_data\(0, &data\)/vp_set_all(&data)/
    requires old(self).wf(), data@.len() == DB_PAGE_SIZE,
    ensures final(self).wf(), !old(self).res(page_id) ==> *final(self) == *old(self),
        final(self).kept(old(self), ISet::empty().insert(page_id)), forall|q: PageId| #[trigger] final(self).res(q) == old(self).res(q),
        old(self).res(page_id) ==> final(self).pin(page_id) == old(self).pin(page_id) && final(self).pg(page_id).dirty && (data@[0] == old(self).cur(page_id)[0] ==> final(self).cur(page_id) == data@),
//@loop 0
    invariant_except_break target_page is None, forall|f: FrameId| f < vp_i && #[trigger] self.full(f) ==> self.owner(f) != page_id,
    invariant vp_i <= pages@.len(), *pages == self.pages, *self == *old(self), self.wf(),
    ensures match target_page { Some((p, i)) => self.full(i as FrameId) && self.slot(i as FrameId) == Some(p) && self.owner(i as FrameId) == page_id, None => forall|f: FrameId| f < pages@.len() && #[trigger] self.full(f) ==> self.owner(f) != page_id },
    decreases pages@.len() - vp_i,
//@loopstart 0
    assert(self.pages@[vp_i as int] is Some ==> self.full(vp_i as FrameId));
//@afterloop 0
    proof { if self.res(page_id) { assert(self.full(self.page_table@[page_id])); assert(self.owner(self.page_table@[page_id]) == page_id); } }
//@after /page_data\.set_dirty\(true\);/
    proof { Self::lemma_cell(old(self), self, page_id, ISet::empty(), ISet::empty()); Self::lemma_touched(old(self), self, page_id); }
//@endfn
//@fn b BufferPoolManager::delete_page ret=r
    requires old(self).wf(),
    ensures final(self).wf(), r is Err ==> *final(self) == *old(self),
        (r is Ok) == (old(self).res(page_id) && !old(self).held(page_id)),
        r is Ok ==> !final(self).res(page_id) && final(self).kept(old(self), ISet::empty().insert(page_id)) && final(self).disk_manager == old(self).disk_manager,
//@start
    proof { if self.res(page_id) { let f = self.page_table@[page_id]; assert(self.full(f) && self.owner(f) == page_id); } }
//@before /Ok\(\(\)\)/
    proof { let f = old(self).page_table@[page_id]; assert(old(self).replacer.ev(f)); assert(self.replacer.tracked() =~= old(self).replacer.tracked().remove(f)); Self::lemma_deleted(old(self), self, page_id); }
//@endfn
//@fn b BufferPoolManager::deallocate_page
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(old(self), ISet::empty().insert(page_id)), final(self).disk_manager == old(self).disk_manager, final(self).res(page_id) == old(self).held(page_id),
//@endfn
//@fn b BufferPoolManager::get_pool_size ret=r
    ensures r == old(self).pool_size, *final(self) == *old(self),
//@endfn
//@fn b BufferPoolManager::get_free_list_size ret=r
    ensures r == old(self).free_list@.len(), *final(self) == *old(self),
//@endfn
//@fn b BufferPoolManager::flush_dirty_pages_batch_async ret=r
//@rewrite /pages\s*\.iter\(\)\s*\.filter_map\(\|page_opt\| \{/let mut vp_out: Vec<(PageId, Vec<u8>)> = Vec::new(); let mut vp_i: usize = 0; while vp_i < pages.len() && vp_out.len() < max_pages { let page_opt = &pages[vp_i]; vp_i += 1; let vp_e: Option<(PageId, Vec<u8>)> = {/
//@rewrite /\}\)\s*\.take\(max_pages\)\s*\.collect\(\)/}; if let Some(vp_x) = vp_e { vp_out.push(vp_x); } } vp_out/
//@rewrite /page_guard\.get_data\(\)\.to_vec\(\)/vp_copy(page_guard.get_data())/
//@rewrite /dirty_pages\.clone\(\)/vp_dup_batch(&dirty_pages)/
//@rewrite /for \(page_id, data\) in &dirty_pages \{/let mut vp_n: usize = 0; while vp_n < dirty_pages.len() { let page_id = &dirty_pages[vp_n].0; let data = &dirty_pages[vp_n].1; vp_n += 1;/
//@rewrite /if let Some\(frame_id\) = self\.page_table\.get\(page_id\)\s*&& let Some\(Some\(page\)\) = (vp_get\([^{]*\)) \{/if let Some(frame_id) = self.page_table.get(page_id) { if let Some(Some(page)) = \1 {/
//@rewrite /page_guard\.set_dirty\(false\);\s*\}\s*\}/page_guard.set_dirty(false); } } }/
//@rewrite /page_guard\.get_data\(\)\[\.\.\] == data\[\.\.\]/vp_same(page_guard.get_data(), data)/
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(old(self)), final(self).page_table == old(self).page_table, final(self).pages == old(self).pages,
        r is Ok ==> r->Ok_0 <= max_pages,
        // everything, when asked for as many pages as there are frames
        r is Ok && max_pages >= old(self).pool_size ==> forall|p: PageId| #[trigger] old(self).res(p) && !old(self).held(p) ==> final(self).disk_manager.at(p) == old(self).cur(p),
//@start
    let ghost o = *self; let ghost mut fs: Seq<FrameId> = Seq::empty();
//@loop 0
    invariant vp_i <= pages@.len(), *pages == self.pages, *self == o, self.wf(), vp_out@.len() <= max_pages, vp_out@.len() <= vp_i, self.batch(fs, vp_out@),
        forall|k: int| 0 <= k < fs.len() ==> #[trigger] fs[k] < vp_i, forall|k: int, j: int| 0 <= k < j < fs.len() ==> fs[k] < fs[j],
        forall|f: FrameId| f < vp_i && #[trigger] self.full(f) && self.heap.at(self.slot(f)->Some_0.h()).dirty ==> fs.contains(f),
    decreases pages@.len() - vp_i,
//@loopstart 0
    let ghost out0 = vp_out@; let ghost fs0 = fs; let ghost i0 = vp_i as FrameId;
//@loopend 0
    proof {
        if vp_out@.len() > out0.len() { fs = fs.push(i0); assert(self.full(i0)); assert(self.res(self.owner(i0))); assert(fs[fs.len() - 1] == i0); }
        assert forall|f: FrameId| f < vp_i && #[trigger] self.full(f) && self.heap.at(self.slot(f)->Some_0.h()).dirty implies fs.contains(f) by { if f < i0 { let k = choose|k: int| 0 <= k < fs0.len() && fs0[k] == f; assert(fs[k] == f); } else { assert(f == i0); } }
        assert(fs.len() == vp_out@.len());
        assert forall|k: int| 0 <= k < vp_out@.len() implies self.holds(fs[k], #[trigger] vp_out@[k]) by { if k < out0.len() { assert(vp_out@[k] == out0[k]); assert(fs[k] == fs0[k]); } }
        assert(self.batch(fs, vp_out@));
    }
//@afterloop 0
    proof { assert(max_pages >= self.pool_size ==> vp_i == self.pool_size); }
//@before /return Ok\(0\)/
    proof { assert(fs =~= Seq::empty());
        assert forall|p: PageId| #[trigger] o.res(p) && !o.held(p) && max_pages >= o.pool_size implies self.disk_manager.at(p) == o.cur(p) by { let f = o.page_table@[p]; assert(o.full(f)); assert(o.owner(f) == p); assert(o.safe(p)); if o.pg(p).dirty { assert(fs.contains(f)); } } }
//@before /let result =/
    let ghost vp_d = dirty_pages@;
//@before /Ok\(dirty_pages\.len\(\)\)/
    proof { assert forall|p: PageId| #[trigger] o.res(p) && !o.held(p) && max_pages >= o.pool_size implies self.disk_manager.at(p) == o.cur(p) by { let f = o.page_table@[p]; assert(o.full(f)); assert(o.owner(f) == p); assert(o.safe(p)); if o.pg(p).dirty { assert(fs.contains(f)); let k = choose|k: int| 0 <= k < vp_d.len() && vp_d[k].0 == p; assert(self.disk_manager.at(dirty_pages@[k].0) == dirty_pages@[k].1@); } } }
//@before /match result \{/
    let ghost m = *self;
    proof {
        assert forall|k: int, j: int| 0 <= k < j < vp_d.len() implies (#[trigger] vp_d[k]).0 != (#[trigger] vp_d[j]).0 by { assert(fs[k] < fs[j]); }
        assert forall|p: PageId| #[trigger] o.res(p) && o.pg(p).dirty && fs.contains(o.page_table@[p]) implies exists|k: int| 0 <= k < vp_d.len() && vp_d[k].0 == p by { let k = choose|k: int| 0 <= k < fs.len() && fs[k] == o.page_table@[p]; assert(vp_d[k].0 == p) by { assert(o.full(fs[k])); assert(o.pg(vp_d[k].0).id == vp_d[k].0 && o.pg(p).id == p); } }
    }
//@loop 1
    invariant vp_n <= dirty_pages@.len(), dirty_pages@ == vp_d, self.wf(), *pages == self.pages, self.keeps(&o), o.wf(), o.batch(fs, dirty_pages@), self.page_table == o.page_table, self.pages == o.pages, self.fixed(&o),
        forall|k: int, j: int| 0 <= k < j < fs.len() ==> fs[k] < fs[j],
        forall|k: int| 0 <= k < dirty_pages@.len() ==> self.disk_manager.at((#[trigger] dirty_pages@[k]).0) == dirty_pages@[k].1@,
        forall|q: PageId| #[trigger] o.res(q) && !o.pg(q).dirty ==> self.disk_manager.at(q) == o.disk_manager.at(q),
    decreases dirty_pages@.len() - vp_n,
//@loopstart 1
    let ghost b0 = *self;
    proof { let e = dirty_pages@[vp_n as int]; assert(o.res(e.0)); assert(b0.res(e.0)); assert(b0.page_table@.contains_key(e.0)); }
//@loopend 1
    proof {
        let p = *page_id;
        Self::lemma_cell(&b0, self, p, ISet::empty(), ISet::empty()); Self::lemma_touched_same(&b0, self, p); Self::lemma_keeps(&o, &b0, self);
    }
//@endfn
//@fn b BufferPoolManager::shutdown ret=r
//@rewrite /let disk_manager = Arc::clone\(&self\.disk_manager\);\s*if let Ok\(mut dm\) = Arc::try_unwrap\(disk_manager\) \{[^{}]*\}//
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(old(self)),
        // nothing is left to be written
        r is Ok ==> final(self).disk_manager.settled() && forall|p: PageId| #[trigger] old(self).res(p) && !old(self).held(p) ==> final(self).disk_manager.at(p) == old(self).cur(p),
//@before /self\s*\.vp_force_flush_all/
    let ghost m = *self;
//@before /Ok\(\(\)\)/
    proof { Self::lemma_keeps(old(self), &m, self); }
//@endfn
}
}
fn main() {}
