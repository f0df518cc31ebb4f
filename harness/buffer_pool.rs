// C16: the buffer pool hands out every page as it was last written, whatever is evicted, flushed, deleted or refused by the disk.
#[path = "common.rs"]
#[macro_use]
mod common;
use common::*;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::disk::async_disk::config::DiskManagerConfig;
use ferrite::storage::page::page_guard::PageGuard;
use ferrite::storage::page::page_types::b_plus_tree_header_page::BPlusTreeHeaderPage;
use ferrite::storage::page::page_types::extendable_hash_table_bucket_page::ExtendableHTableBucketPage;
use ferrite::storage::page::page_types::extendable_hash_table_directory_page::ExtendableHTableDirectoryPage;
use ferrite::storage::page::page_types::extendable_hash_table_header_page::ExtendableHTableHeaderPage;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::{BasicPage, Page, PageTrait, PAGE_TYPE_OFFSET};
use parking_lot::RwLock;
use std::collections::BTreeMap;
use std::sync::Arc;

const PG: usize = 4096;
#[repr(C)] struct RLimit { cur: u64, max: u64 }
unsafe extern "C" { fn setrlimit(r: i32, l: *const RLimit) -> i32; fn signal(s: i32, h: usize) -> usize; }
fn file_limit(n: u64) { unsafe { setrlimit(1, &RLimit { cur: n, max: u64::MAX }); } }
struct Unlimit; impl Drop for Unlimit { fn drop(&mut self) { file_limit(u64::MAX); } }
struct Gone(String, String); impl Drop for Gone { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); let _ = std::fs::remove_file(&self.1); } }

enum G { B(PageGuard<BasicPage>), H(PageGuard<BPlusTreeHeaderPage>) }
impl G {
    fn id(&self) -> u64 { match self { G::B(g) => g.get_page_id(), G::H(g) => g.get_page_id() } }
    fn get<T>(&self, f: impl FnOnce(&dyn PageTrait) -> T) -> T { match self { G::B(g) => f(&*g.read()), G::H(g) => f(&*g.read()) } }
    fn fill(&self, d: &[u8; PG]) { match self { G::B(g) => g.write().get_data_mut().copy_from_slice(d), G::H(g) => g.write().get_data_mut().copy_from_slice(d) } }
}
fn tag(head: bool) -> u8 { if head { <BPlusTreeHeaderPage as ferrite::storage::page::PageTypeId>::TYPE_ID.to_u8() } else { <BasicPage as ferrite::storage::page::PageTypeId>::TYPE_ID.to_u8() } }
fn image(head: bool, p: u64, v: u64) -> [u8; PG] {
    let mut b = [0u8; PG];
    for i in 0..PG { b[i] = (i as u64 * 7 + p * 31 + v * 131) as u8; }
    b[8..16].copy_from_slice(&v.to_le_bytes());
    b[16..24].copy_from_slice(&p.to_le_bytes());
    b[PAGE_TYPE_OFFSET] = tag(head);
    b
}
fn blank(head: bool, p: u64) -> [u8; PG] { if head { *BPlusTreeHeaderPage::new(p).get_data() } else { *BasicPage::new(p).get_data() } }
fn show(b: &[u8]) -> String {
    if b.len() != PG { return format!("{} bytes", b.len()); }
    let (v, p) = (u64::from_le_bytes(b[8..16].try_into().unwrap()), u64::from_le_bytes(b[16..24].try_into().unwrap()));
    for h in [false, true] { if b[..] == image(h, p, v)[..] { return format!("page {p} version {v}"); } if b[..] == blank(h, 0)[..] { return "an empty page".into(); } }
    "mixed bytes".into()
}
fn config(r: &mut Rng) -> DiskManagerConfig {
    DiskManagerConfig { cache_size_mb: *r.pick(&[0, 1]), write_buffer_size_mb: *r.pick(&[0, 1]), flush_threshold_pages: *r.pick(&[1, 3, 1000]), flush_interval_ms: *r.pick(&[0, 100_000]), compression_enabled: false, ..Default::default() }
}

#[derive(Clone)]
struct Pg { head: bool, data: Box<[u8; PG]> }
struct W { bpm: Arc<BufferPoolManager>, m: BTreeMap<u64, Pg>, held: Vec<G>, size: usize, limited: bool, made: u64 }
impl W {
    fn distinct(&self) -> usize { self.held.iter().map(|g| g.id()).collect::<std::collections::BTreeSet<_>>().len() }
    // may a call that needs a frame be refused?
    fn full(&self) -> bool { self.distinct() >= self.size || self.limited }
    fn resident(&self, p: u64) -> bool { self.bpm.get_page_table().read().contains_key(&p) }
    fn right(&self, g: &G, at: &str) -> Res {
        let w = &self.m[&g.id()];
        g.get(|p| {
            ck!(p.get_page_id() == g.id(), "{at}: the guard of page {} shows page {}", g.id(), p.get_page_id());
            ck!(p.get_data()[..] == w.data[..], "{at}: page {} shows {}, last written was {}", g.id(), show(&p.get_data()[..]), show(&w.data[..]));
            Ok(())
        })
    }
    fn fetch(&self, p: u64, head: bool) -> Option<G> { if head { self.bpm.fetch_page::<BPlusTreeHeaderPage>(p).map(G::H) } else { self.bpm.fetch_page::<BasicPage>(p).map(G::B) } }
    fn sane(&self, at: &str) -> Res {
        let (tab, pages) = (self.bpm.get_page_table().read().clone(), self.bpm.get_pages());
        let pages = pages.read();
        let full = pages.iter().filter(|x| x.is_some()).count();
        ckeq!(tab.len(), full, format!("{at}: pages in the table against occupied frames"));
        ckeq!(tab.len() + self.bpm.get_free_list_size(), self.size, format!("{at}: resident pages and free frames against the pool size"));
        for (p, f) in &tab { ck!(pages[*f as usize].as_ref().is_some_and(|x| x.read().get_page_id() == *p), "{at}: page {p} is not in its frame {f}"); }
        for g in &self.held {
            let n = self.held.iter().filter(|x| x.id() == g.id()).count();
            g.get(|p| { ckeq!(p.get_pin_count() as usize, n, format!("{at}: pins of page {}", g.id())); Ok(()) })?;
            ck!(tab.contains_key(&g.id()), "{at}: held page {} is not in the pool", g.id());
            self.right(g, at)?;
        }
        Ok(())
    }
}
fn on_disk(path: &str, m: &BTreeMap<u64, Pg>, at: &str) -> Res {
    let f = std::fs::read(path).unwrap();
    for (p, w) in m { let o = *p as usize * PG; ck!(f.len() >= o + PG, "{at}: page {p} is not in the file"); ck!(f[o..o + PG] == w.data[..], "{at}: in the file page {p} is {}, last written was {}", show(&f[o..o + PG]), show(&w.data[..])); }
    Ok(())
}

async fn history(dir: &str, n: u64, seed: u64, cfg: DiskManagerConfig, size: usize, steps: usize, faults: bool) -> Res {
    let (path, log) = (format!("{dir}/bp{n}.db"), format!("{dir}/bp{n}.log"));
    let _ = std::fs::remove_file(&path);
    let _g = Gone(path.clone(), log.clone());
    let mut r = Rng::new(seed);
    let dm = Arc::new(AsyncDiskManager::new(path.clone(), log.clone(), cfg.clone()).await.unwrap());
    let bpm = BufferPoolManager::new_with_cache_config(size, dm.clone(), Arc::new(RwLock::new(LRUKReplacer::new(size, 1 + r.usize(3)))), r.bool(), r.bool())?;
    let mut w = W { bpm: Arc::new(bpm), m: BTreeMap::new(), held: vec![], size, limited: false, made: 0 };
    let _u = Unlimit;
    let mut ver = 0;
    for i in 0..steps {
        let some = |w: &W, r: &mut Rng| -> Option<u64> { let l = w.m.len(); if l == 0 { None } else { w.m.keys().nth(r.usize(l)).copied() } };
        let mut at = format!("step {i}");
        match r.below(26) {
            0..=4 => {
                let head = r.bool();
                let with = r.bool();
                at = format!("step {i}: new page");
                let got = match (head, with) { (true, false) => w.bpm.new_page::<BPlusTreeHeaderPage>().map(G::H), (false, false) => w.bpm.new_page::<BasicPage>().map(G::B),
                    (true, true) => w.bpm.new_page_with_options::<BPlusTreeHeaderPage, _>(BPlusTreeHeaderPage::new).map(G::H), (false, true) => w.bpm.new_page_with_options::<BasicPage, _>(BasicPage::new).map(G::B) };
                match got {
                    None => ck!(w.full(), "{at}: refused with {} of {size} frames held", w.distinct()),
                    Some(g) => {
                        ck!(!w.m.contains_key(&g.id()) && g.id() == w.made, "{at}: got id {}, {} were given out before", g.id(), w.made);
                        w.made += 1;
                        w.m.insert(g.id(), Pg { head, data: Box::new(blank(head, g.id())) });
                        w.right(&g, &at)?;
                        if r.chance(2, 3) { ver += 1; let d = image(head, g.id(), ver); g.fill(&d); w.m.get_mut(&g.id()).unwrap().data = Box::new(d); }
                        w.held.push(g);
                    }
                }
            }
            5..=9 => if let Some(p) = some(&w, &mut r) {
                at = format!("step {i}: fetch page {p}");
                let held = w.held.iter().any(|g| g.id() == p);
                let inside = w.resident(p);
                match w.fetch(p, w.m[&p].head) { None => ck!(!held && !inside && w.full(), "{at}: refused with {} of {size} frames held", w.distinct()), Some(g) => { ck!(g.id() == p, "{at}: got page {}", g.id()); w.right(&g, &at)?; w.held.push(g); } }
            },
            10..=14 => if !w.held.is_empty() { let k = r.usize(w.held.len()); at = format!("step {i}: let go of page {}", w.held[k].id()); w.held.swap_remove(k); },
            15..=17 => if !w.held.is_empty() {
                let k = r.usize(w.held.len());
                let (g, p) = (&w.held[k], w.held[k].id());
                ver += 1;
                at = format!("step {i}: write version {ver} into held page {p}");
                let d = image(w.m[&p].head, p, ver);
                g.fill(&d);
                w.m.get_mut(&p).unwrap().data = Box::new(d);
            },
            18 => if let Some(p) = some(&w, &mut r) {
                ver += 1;
                at = format!("step {i}: write version {ver} into page {p} of the pool");
                let inside = w.resident(p);
                let d = image(w.m[&p].head, p, ver);
                w.bpm.write_page(p, d);
                if inside { w.m.get_mut(&p).unwrap().data = Box::new(d); }
            },
            19 => if let Some(p) = some(&w, &mut r) {
                at = format!("step {i}: delete page {p}");
                let (held, inside) = (w.held.iter().any(|g| g.id() == p), w.resident(p));
                let got = w.bpm.delete_page(p);
                ck!(got.is_ok() == (inside && !held), "{at}: {got:?} with the page {}", if held { "held" } else if inside { "in the pool" } else { "not in the pool" });
                if got.is_ok() { ck!(!w.resident(p), "{at}: it is still there"); w.m.remove(&p); }
            },
            20 => if let Some(p) = some(&w, &mut r) {
                at = format!("step {i}: flush page {p}");
                let inside = w.resident(p);
                match w.bpm.flush_page_async(p).await { Ok(()) => { ck!(inside, "{at}: done although it is not in the pool"); let b = dm.read_page(p).await.map_err(|e| format!("{at}: {e}"))?; ck!(b[..] == w.m[&p].data[..], "{at}: the disk manager then has {}", show(&b)); } Err(e) => ck!(!inside || w.limited, "{at}: {e}") }
            },
            21 => { at = format!("step {i}: flush everything"); match w.bpm.flush_all_pages_durable().await { Ok(()) => on_disk(&path, &w.m, &at)?, Err(e) => ck!(w.limited, "{at}: {e}") } }
            22 => {
                let k = *r.pick(&[0usize, 1, 2, 100]);
                at = format!("step {i}: flush up to {k} dirty pages");
                let dirty = { let ps = w.bpm.get_pages(); let ps = ps.read(); ps.iter().flatten().filter(|x| x.read().is_dirty()).count() };
                match w.bpm.flush_dirty_pages_batch_async(k).await { Ok(x) => { ckeq!(x, dirty.min(k), at); } Err(e) => ck!(w.limited, "{at}: {e}") }
            }
            23 => {
                let p = *r.pick(&[u64::MAX, w.made, w.made + 1, w.made + 1000]);
                at = format!("step {i}: fetch page {p}, never given out");
                ck!(w.fetch(p, r.bool()).is_none(), "{at}: got a page");
                if let Some(p) = some(&w, &mut r) { at = format!("step {i}: fetch page {p} as another kind"); ck!(w.fetch(p, !w.m[&p].head).is_none(), "{at}: got a page"); }
            }
            24 => if w.made > 0 {
                let head = r.bool();
                let ids: Vec<u64> = (0..1 + r.usize(6)).map(|_| if r.chance(1, 8) { w.made + r.below(3) } else { some(&w, &mut r).unwrap_or(w.made) }).collect();
                at = format!("step {i}: load pages {ids:?}");
                let before: std::collections::BTreeSet<u64> = w.held.iter().map(|g| g.id()).collect();
                let got: Vec<Option<G>> = if head { w.bpm.load_pages_batch::<BPlusTreeHeaderPage>(ids.clone()).await.into_iter().map(|g| g.map(G::H)).collect() } else { w.bpm.load_pages_batch::<BasicPage>(ids.clone()).await.into_iter().map(|g| g.map(G::B)).collect() };
                ckeq!(got.len(), ids.len(), format!("{at}: pages returned"));
                let room = !w.limited && before.iter().chain(ids.iter()).collect::<std::collections::BTreeSet<_>>().len() <= size;
                for (p, g) in ids.iter().zip(&got) {
                    let fits = w.m.get(p).is_some_and(|x| x.head == head);
                    match g { None => ck!(!fits || (!room && !before.contains(p)), "{at}: page {p} was refused"), Some(g) => { ck!(fits, "{at}: page {p} was given as another kind"); ck!(g.id() == *p, "{at}: page {} in the place of page {p}", g.id()); w.right(g, &at)?; } }
                }
                w.held.extend(got.into_iter().flatten());
            },
            _ => if faults { w.limited = !w.limited; file_limit(if w.limited { r.below(12) * PG as u64 + *r.pick(&[0u64, 1000]) } else { u64::MAX }); }
        }
        w.sane(&at)?;
    }
    file_limit(u64::MAX);
    w.limited = false;
    w.held.clear();
    for p in w.m.keys() { let at = format!("at the end: fetch page {p}"); match w.fetch(*p, w.m[p].head) { None => ck!(false, "{at}: refused"), Some(g) => w.right(&g, &at)? } }
    w.sane("at the end")?;
    let m = w.m.clone();
    if r.bool() { Arc::try_unwrap(w.bpm).unwrap().shutdown().await.map_err(|e| format!("shutdown: {e}"))?; } else { w.bpm.flush_all_pages_durable().await.map_err(|e| format!("flush: {e}"))?; }
    on_disk(&path, &m, "after the last flush")
}

// pool and clone give out distinct pages; tasks keep to their own pages while others flush
async fn together(dir: &str, n: u64, seed: u64, cfg: DiskManagerConfig, per: u64) -> Res {
    let (path, log) = (format!("{dir}/bc{n}.db"), format!("{dir}/bc{n}.log"));
    let _ = std::fs::remove_file(&path);
    let _g = Gone(path.clone(), log.clone());
    let dm = Arc::new(AsyncDiskManager::new(path.clone(), log, cfg).await.unwrap());
    let bpm = BufferPoolManager::new(64, dm.clone(), Arc::new(RwLock::new(LRUKReplacer::new(64, 2))))?;
    let pools = [Arc::new(bpm.clone()), Arc::new(bpm.clone()), Arc::new(bpm)];
    let mut hs: Vec<tokio::task::JoinHandle<Result<Vec<(u64, u64)>, String>>> = vec![];
    for t in 0..4u64 {
        let b = pools[t as usize % 3].clone();
        hs.push(tokio::spawn(async move {
            let mut r = Rng::new(seed ^ t);
            let mut mine: Vec<(u64, u64)> = vec![];
            for v in 1..=per {
                if mine.len() < 12 && r.bool() { let g = b.new_page::<BasicPage>().ok_or("a new page was refused with free frames")?; mine.push((g.get_page_id(), v)); g.write().get_data_mut().copy_from_slice(&image(false, g.get_page_id(), v)); }
                for e in mine.iter_mut() {
                    let g = b.fetch_page::<BasicPage>(e.0).ok_or_else(|| format!("page {} was refused with free frames", e.0))?;
                    ck2(g.read().get_data()[..] == image(false, e.0, e.1)[..], || format!("page {} shows {}, version {} was written", e.0, show(&g.read().get_data()[..]), e.1))?;
                    if r.bool() { e.1 = v; g.write().get_data_mut().copy_from_slice(&image(false, e.0, v)); }
                }
                tokio::task::yield_now().await;
            }
            Ok(mine)
        }));
    }
    { let b = pools[0].clone(); hs.push(tokio::spawn(async move { for i in 0..per / 2 { if i % 2 == 0 { b.flush_dirty_pages_batch_async(5).await.map(|_| ())? } else { b.flush_all_pages_durable().await? } } Ok(vec![]) })); }
    let mut all = BTreeMap::new();
    for h in hs { for (p, v) in h.await.map_err(|e| format!("panic: {e}"))?? { ck!(all.insert(p, Pg { head: false, data: Box::new(image(false, p, v)) }).is_none(), "page {p} was given out twice"); } }
    for _ in 0..all.len() + 1 { pools[1].flush_dirty_pages_batch_async(3).await?; }
    dm.flush().await.map_err(|e| e.to_string())?;
    on_disk(&path, &all, "at the end")
}
fn ck2(b: bool, m: impl FnOnce() -> String) -> Res { if b { Ok(()) } else { Err(m()) } }

// what the contracts assume of every kind of page
fn kind<T: Page>(r: &mut Rng, noise: bool) -> Res {
    let id = r.below(1000);
    let mut p = T::new(id);
    ckeq!((p.get_page_id(), p.get_data()[PAGE_TYPE_OFFSET]), (id, T::TYPE_ID.to_u8()), "id and kind of a new page");
    let mut d = *p.get_data();
    if noise { for b in d.iter_mut().skip(PAGE_TYPE_OFFSET + 1) { if r.chance(1, 3) { *b = r.next() as u8; } } }
    for dirty in [true, false] { p.set_dirty(dirty); ckeq!(p.is_dirty(), dirty, "dirty mark"); }
    p.set_pin_count(3); p.increment_pin_count(); p.decrement_pin_count(); ckeq!(p.get_pin_count(), 3, "pins");
    p.set_pin_count(0); p.decrement_pin_count(); ckeq!(p.get_pin_count(), 0, "pins");
    let got = p.set_data(0, &d);
    ck!(got.is_ok(), "a whole image was refused: {got:?}");
    ck!(p.get_data()[..] == d[..], "the page holds other bytes than the image it was given");
    ckeq!((p.get_page_id(), p.get_pin_count()), (id, 0), "id and pins after set_data");
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    unsafe { signal(25, 1); }
    let dir = std::env::var("VP_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let mut n = 0;
    if c.group("kinds") {
        let mut r = Rng::new(c.seed ^ 0x71);
        for i in 0..c.n(60) {
            let mut q = Rng::new(r.next());
            c.case(format!("page kinds, images {i}"), || {
                kind::<BasicPage>(&mut q, true)?; kind::<BPlusTreeHeaderPage>(&mut q, true)?; kind::<ExtendableHTableHeaderPage>(&mut q, true)?; kind::<ExtendableHTableDirectoryPage>(&mut q, true)?;
                kind::<ExtendableHTableBucketPage>(&mut q, false)?; kind::<TablePage>(&mut q, false)
            });
        }
    }
    for (g, faults) in [("histories", false), ("faults", true)] {
        if c.group(g) {
            let mut r = Rng::new(c.seed ^ 0x72 ^ faults as u64);
            for _ in 0..c.n(if faults { 120 } else { 120 }) {
                n += 1;
                let (cfg, s, size, k) = (config(&mut r), r.next(), 1 + r.usize(6), 30 + r.usize(90));
                c.case(format!("seed {s}, {k} calls on {size} frames{}, write buffer {} MB, cache {} MB", if faults { ", the disk failing at times" } else { "" }, cfg.write_buffer_size_mb, cfg.cache_size_mb), || rt.block_on(history(&dir, n, s, cfg, size, k, faults)));
            }
        }
    }
    if c.group("together") {
        let mut r = Rng::new(c.seed ^ 0x74);
        for _ in 0..c.n(24) {
            n += 1;
            let (cfg, s) = (config(&mut r), r.next());
            c.case(format!("seed {s}, 4 tasks on 3 clones and a flusher, 30 rounds"), || rt.block_on(together(&dir, n, s, cfg, 30)));
        }
    }
    c.done();
}
