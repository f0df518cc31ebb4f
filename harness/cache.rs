// Every cache against a list; the cache manager against the bytes last stored for each page.
#[path = "common.rs"]
#[macro_use]
mod common;
use common::*;
use ferrite::storage::disk::async_disk::cache::cache_manager::CacheManager;
use ferrite::storage::disk::async_disk::cache::cache_traits::{CoreCache, FIFOCacheTrait, LFUCacheTrait, LRUCacheTrait, LRUKCacheTrait, MutableCache};
use ferrite::storage::disk::async_disk::cache::{fifo::FIFOCache, heap_lfu::HeapLFUCache, lfu::LFUCache, lru::LRUCore, lru_k::LRUKCache};
use ferrite::storage::disk::async_disk::config::DiskManagerConfig;
use std::collections::BTreeMap;
use std::sync::Arc;

fn tick() {
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros();
    let t = now();
    while now() <= t {}
}

fn basics<C: CoreCache<u64, V>, V: PartialEq + std::fmt::Debug>(c: &C, want: &[u64], cap: usize, at: &str) -> Res {
    ckeq!(c.len(), want.len(), format!("{at}: len"));
    ckeq!(c.capacity(), cap, format!("{at}: capacity"));
    ckeq!(c.is_empty(), want.is_empty(), format!("{at}: is_empty"));
    for k in 0..12 { ckeq!(c.contains(&k), want.contains(&k), format!("{at}: contains {k}")); }
    Ok(())
}

// first in, first out: (key, value) in order of arrival
fn fifo(r: &mut Rng, cap: usize, steps: usize) -> Res {
    let mut c: FIFOCache<u64, u64> = FIFOCache::new(cap);
    let mut m: Vec<(u64, u64)> = vec![];
    for n in 0..steps {
        let (k, v) = (r.below(10), n as u64 + 100);
        match r.below(12) {
            0..=5 => {
                let g = c.insert(k, v);
                let w = match m.iter_mut().find(|e| e.0 == k) { Some(e) => Some(std::mem::replace(&mut e.1, v)), None => { if cap > 0 { if m.len() >= cap { m.remove(0); } m.push((k, v)); } None } };
                ckeq!(g, w, format!("step {n}: insert {k}"));
            }
            6..=8 => { ckeq!(c.get(&k).copied(), m.iter().find(|e| e.0 == k).map(|e| e.1), format!("step {n}: get {k}")); }
            9 => { let w = if m.is_empty() { None } else { Some(m.remove(0)) }; ckeq!(c.pop_oldest(), w, format!("step {n}: pop_oldest")); }
            10 => {
                let q = r.usize(4);
                let w: Vec<_> = m.drain(..q.min(m.len())).collect();
                ckeq!(c.pop_oldest_batch(q), w, format!("step {n}: pop_oldest_batch {q}"));
            }
            _ => if r.chance(1, 8) { c.clear(); m.clear(); },
        }
        ckeq!(c.peek_oldest().map(|(a, b)| (*a, *b)), m.first().copied(), format!("step {n}: peek_oldest"));
        ckeq!(c.age_rank(&k), m.iter().position(|e| e.0 == k), format!("step {n}: age_rank {k}"));
        basics(&c, &m.iter().map(|e| e.0).collect::<Vec<_>>(), cap, &format!("step {n}"))?;
    }
    Ok(())
}

// least frequently used: key -> (value, uses)
fn lfu<C: CoreCache<u64, u64> + MutableCache<u64, u64> + LFUCacheTrait<u64, u64>>(mut c: C, r: &mut Rng, cap: usize, steps: usize) -> Res {
    let mut m: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
    for n in 0..steps {
        let (k, v) = (r.below(10), n as u64 + 100);
        let least = m.values().map(|e| e.1).min();
        match r.below(14) {
            0..=5 => {
                let g = c.insert(k, v);
                let w = m.get(&k).map(|e| e.0);
                ckeq!(g, w, format!("step {n}: insert {k}"));
                if let Some(e) = m.get_mut(&k) { e.0 = v; }
                else if cap > 0 {
                    if m.len() >= cap {
                        let gone: Vec<u64> = m.keys().copied().filter(|x| !c.contains(x)).collect();
                        ck!(gone.len() == 1, "step {n}: insert {k} into a full cache took out {gone:?}");
                        ck!(Some(m[&gone[0]].1) == least, "step {n}: insert {k} evicted {} with {} uses, the least is {least:?}", gone[0], m[&gone[0]].1);
                        m.remove(&gone[0]);
                    }
                    m.insert(k, (v, 1));
                }
            }
            6..=8 => { let w = m.get_mut(&k).map(|e| { e.1 += 1; e.0 }); ckeq!(c.get(&k).copied(), w, format!("step {n}: get {k}")); }
            9 => {
                match c.pop_lfu() {
                    None => ck!(m.is_empty(), "step {n}: pop_lfu gave nothing"),
                    Some((x, y)) => { ck!(m.get(&x).is_some_and(|e| e.0 == y && Some(e.1) == least), "step {n}: pop_lfu gave {x}, {y}; cached {m:?}"); m.remove(&x); }
                }
            }
            10 => { let w = m.remove(&k).map(|e| e.0); ckeq!(c.remove(&k), w, format!("step {n}: remove {k}")); }
            11 => { let w = m.get_mut(&k).map(|e| { e.1 += 1; e.1 }); ckeq!(c.increment_frequency(&k), w, format!("step {n}: increment {k}")); }
            12 => { let w = m.get_mut(&k).map(|e| std::mem::replace(&mut e.1, 1)); ckeq!(c.reset_frequency(&k), w, format!("step {n}: reset {k}")); }
            _ => if r.chance(1, 8) { c.clear(); m.clear(); },
        }
        let least = m.values().map(|e| e.1).min();
        match c.peek_lfu() {
            None => ck!(m.is_empty(), "step {n}: peek_lfu saw nothing"),
            Some((x, y)) => ck!(m.get(x).is_some_and(|e| e.0 == *y && Some(e.1) == least), "step {n}: peek_lfu saw {x}, {y}; cached {m:?}"),
        }
        for k in 0..10 { ckeq!(c.frequency(&k), m.get(&k).map(|e| e.1), format!("step {n}: frequency {k}")); }
        basics(&c, &m.keys().copied().collect::<Vec<_>>(), cap, &format!("step {n}"))?;
    }
    Ok(())
}

// least recently used: most recent first
fn lru(r: &mut Rng, cap: usize, steps: usize) -> Res {
    let mut c: LRUCore<u64, u64> = LRUCore::new(cap);
    let mut m: Vec<(u64, u64)> = vec![];
    for n in 0..steps {
        let (k, v) = (r.below(10), n as u64 + 100);
        let at = m.iter().position(|e| e.0 == k);
        match r.below(13) {
            0..=5 => {
                let g = c.insert(k, Arc::new(v)).map(|x| *x);
                let w = at.map(|i| m[i].1);
                if let Some(i) = at { m.remove(i); }
                if cap > 0 { if m.len() >= cap { m.pop(); } m.insert(0, (k, v)); }
                ckeq!(g, w, format!("step {n}: insert {k}"));
            }
            6..=7 => { let w = at.map(|i| { let e = m.remove(i); m.insert(0, e); e.1 }); ckeq!(c.get(&k).map(|x| **x), w, format!("step {n}: get {k}")); }
            8 => { let w = at.map(|i| { let e = m.remove(i); m.insert(0, e); }).is_some(); ckeq!(c.touch(&k), w, format!("step {n}: touch {k}")); }
            9 => { ckeq!(c.peek(&k).map(|x| *x), at.map(|i| m[i].1), format!("step {n}: peek {k}")); }
            10 => { let w = m.pop(); ckeq!(c.pop_lru().map(|(a, b)| (a, *b)), w, format!("step {n}: pop_lru")); }
            11 => { let w = at.map(|i| m.remove(i).1); ckeq!(c.remove(&k).map(|x| *x), w, format!("step {n}: remove {k}")); }
            _ => if r.chance(1, 8) { c.clear(); m.clear(); },
        }
        ckeq!(c.peek_lru().map(|(a, b)| (*a, **b)), m.last().copied(), format!("step {n}: peek_lru"));
        for k in 0..10 { ckeq!(c.recency_rank(&k), m.iter().position(|e| e.0 == k), format!("step {n}: recency_rank {k}")); }
        basics(&c, &m.iter().map(|e| e.0).collect::<Vec<_>>(), cap, &format!("step {n}"))?;
    }
    Ok(())
}

// LRU-K: key -> (value, the last k accesses)
fn lru_k(r: &mut Rng, cap: usize, k_of: usize, steps: usize) -> Res {
    let mut c: LRUKCache<u64, u64> = LRUKCache::with_k(cap, k_of);
    let mut m: BTreeMap<u64, (u64, Vec<usize>)> = BTreeMap::new();
    for n in 0..steps {
        tick();
        let (k, v) = (r.below(10), n as u64 + 100);
        let next = m.iter().min_by_key(|(_, e)| (e.1.len(), e.1[0])).map(|(k, e)| (*k, e.0));
        let use_it = |e: &mut (u64, Vec<usize>)| { e.1.push(n); if e.1.len() > k_of { e.1.remove(0); } };
        match r.below(13) {
            0..=5 => {
                let w = if cap == 0 { None } else { m.get(&k).map(|e| e.0) };
                ckeq!(c.insert(k, v), w, format!("step {n}: insert {k}"));
                if let Some(e) = m.get_mut(&k) { e.0 = v; use_it(e); }
                else if cap > 0 { if m.len() >= cap { m.remove(&next.unwrap().0); } m.insert(k, (v, vec![n])); }
            }
            6..=8 => { let w = m.get_mut(&k).map(|e| { use_it(e); e.0 }); ckeq!(c.get(&k).copied(), w, format!("step {n}: get {k}")); }
            9 => { let w = m.get_mut(&k).map(use_it).is_some(); ckeq!(c.touch(&k), w, format!("step {n}: touch {k}")); }
            10 => { ckeq!(c.pop_lru_k(), next, format!("step {n}: pop_lru_k")); if let Some(x) = next { m.remove(&x.0); } }
            11 => { let w = m.remove(&k).map(|e| e.0); ckeq!(c.remove(&k), w, format!("step {n}: remove {k}")); }
            _ => if r.chance(1, 8) { c.clear(); m.clear(); },
        }
        let mut order: Vec<_> = m.iter().map(|(k, e)| ((e.1.len() >= k_of, e.1[0]), *k)).collect();
        order.sort();
        let next = m.iter().min_by_key(|(_, e)| (e.1.len(), e.1[0])).map(|(k, e)| (*k, e.0));
        ckeq!(c.peek_lru_k().map(|(a, b)| (*a, *b)), next, format!("step {n}: peek_lru_k"));
        ckeq!(c.k_value(), k_of, "k");
        for k in 0..10 {
            ckeq!(c.access_count(&k), m.get(&k).map(|e| e.1.len()), format!("step {n}: access_count {k}"));
            ckeq!(c.k_distance(&k).is_some(), m.get(&k).is_some_and(|e| e.1.len() >= k_of), format!("step {n}: k_distance {k}"));
            ckeq!(c.k_distance_rank(&k), order.iter().position(|e| e.1 == k), format!("step {n}: k_distance_rank {k}"));
            if let Some(h) = c.access_history(&k) { ck!(h.windows(2).all(|w| w[0] > w[1]), "step {n}: access_history {h:?}"); }
        }
        basics(&c, &m.keys().copied().collect::<Vec<_>>(), cap, &format!("step {n}"))?;
    }
    Ok(())
}

fn page(r: &mut Rng) -> Vec<u8> {
    // few different contents, so that pages often hold equal bytes
    let mut d = vec![r.below(4) as u8; 64];
    if r.chance(1, 3) { for b in d.iter_mut() { *b = r.next() as u8; } }
    d
}

fn tiers(r: &mut Rng, mb: usize, hot: f64, warm: f64, steps: usize) -> Res {
    let m = CacheManager::new(&DiskManagerConfig { cache_size_mb: mb, hot_cache_ratio: hot, warm_cache_ratio: warm, ..Default::default() });
    let mut last: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    let mut just = None;
    for n in 0..steps {
        let k = r.below(8);
        match r.below(12) {
            0..=4 => { let d = page(r); m.store_page(k, d.clone()); last.insert(k, d); just = Some(k); }
            5..=9 => {
                let k = if r.chance(1, 3) { just.unwrap_or(k) } else { k };
                if let Some(g) = m.get_page(k) {
                    match last.get(&k) { None => return Err(format!("step {n}: page {k} was never stored, the cache has {:?}", &g[..4])), Some(w) => ck!(g == *w, "step {n}: page {k} is {:?}.., last stored {:?}..", &g[..4], &w[..4]) }
                }
            }
            10 => m.perform_specialized_maintenance(),
            _ => { m.trigger_prefetch(k); let _ = m.get_page_access_details(k); }
        }
        let s = m.get_cache_statistics();
        ck!(s.hot_cache_used <= s.hot_cache_size && s.warm_cache_used <= s.warm_cache_size && s.cold_cache_used <= s.cold_cache_size, "step {n}: a tier holds more than its size: {s:?}");
    }
    for k in 0..8 { if let Some(g) = m.get_page(k) { ck!(last.get(&k) == Some(&g), "at the end: page {k} is {:?}..", &g[..4]); } }
    Ok(())
}

// readers and one writer per page: what a reader gets was stored, and never older than what it knows to be there
fn together(seed: u64, pages: u64) -> Res {
    let m = Arc::new(CacheManager::new(&DiskManagerConfig { cache_size_mb: 12, ..Default::default() }));
    let done: Arc<Vec<std::sync::atomic::AtomicU64>> = Arc::new((0..pages).map(|_| std::sync::atomic::AtomicU64::new(0)).collect());
    let mut hs = vec![];
    for p in 0..pages {
        let (m, done) = (m.clone(), done.clone());
        hs.push(std::thread::spawn(move || -> Res {
            let mut r = Rng::new(seed ^ p);
            for n in 1..=400u64 {
                m.store_page(p, n.to_le_bytes().to_vec());
                done[p as usize].store(n, std::sync::atomic::Ordering::SeqCst);
                for _ in 0..r.usize(3) {
                    let q = r.below(pages);
                    let low = done[q as usize].load(std::sync::atomic::Ordering::SeqCst);
                    if let Some(g) = m.get_page(q) { let v = u64::from_le_bytes(g[..8].try_into().unwrap()); ck!(v >= low, "page {q}: the cache has {v} after {low} was stored"); }
                }
            }
            Ok(())
        }));
    }
    for h in hs { h.join().map_err(|_| "a thread died".to_string())??; }
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    let (seed, n) = (c.seed, c.n(400));
    if c.group("policies") {
        for i in 0..n {
            let s = seed * 1000 + i;
            for cap in [0usize, 1, 2, 3, 5] {
                c.case(format!("FIFO cache of {cap}, history {s}"), || fifo(&mut Rng::new(s), cap, 80));
                c.case(format!("LFU cache of {cap}, history {s}"), || lfu(LFUCache::new(cap), &mut Rng::new(s), cap, 80));
                c.case(format!("heap LFU cache of {cap}, history {s}"), || lfu(HeapLFUCache::new(cap), &mut Rng::new(s), cap, 80));
                c.case(format!("LRU cache of {cap}, history {s}"), || lru(&mut Rng::new(s), cap, 80));
                let k = 1 + (s % 3) as usize;
                c.case(format!("LRU-{k} cache of {cap}, history {s}"), || lru_k(&mut Rng::new(s), cap, k, 80));
            }
        }
    }
    if c.group("manager") {
        for i in 0..n * 4 {
            let s = seed * 1000 + i;
            let (mb, hot, warm) = [(0, 0.1, 0.3), (1, 0.1, 0.3), (3, 0.4, 0.4), (6, 0.34, 0.34), (10, 0.1, 0.3), (4, 1.0, 0.0), (4, 0.0, 1.0)][i as usize % 7];
            c.case(format!("cache of {mb} pages, {hot} hot, {warm} warm, history {s}"), || tiers(&mut Rng::new(s), mb, hot, warm, 120));
        }
        for i in 0..n / 10 { c.case(format!("6 threads storing and reading, seed {}", seed + i), || together(seed + i, 6)); }
    }
    c.done();
}
