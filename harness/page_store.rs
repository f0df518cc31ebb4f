// C15: the page store: what is read is what was last written, whatever is staged, cached, being flushed or refused by the device.
#[path = "common.rs"]
#[macro_use]
mod common;
use common::*;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::disk::async_disk::config::{DiskManagerConfig, DurabilityLevel, FsyncPolicy};
use ferrite::storage::disk::async_disk::memory::{CoalesceResult, CoalescingEngine, WriteStagingBuffer};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

const PG: usize = 4096;
#[repr(C)] struct RLimit { cur: u64, max: u64 }
unsafe extern "C" { fn setrlimit(r: i32, l: *const RLimit) -> i32; fn signal(s: i32, h: usize) -> usize; }
fn file_limit(n: u64) { unsafe { setrlimit(1, &RLimit { cur: n, max: u64::MAX }); } }
struct Unlimit; impl Drop for Unlimit { fn drop(&mut self) { file_limit(u64::MAX); } }
struct Gone(String, String); impl Drop for Gone { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); let _ = std::fs::remove_file(&self.1); } }

fn page(p: u64, v: u64) -> Vec<u8> { let mut b: Vec<u8> = (0..PG).map(|i| (i as u64 * 7 + p * 31 + v * 131) as u8).collect(); b[..8].copy_from_slice(&v.to_le_bytes()); b[8..16].copy_from_slice(&p.to_le_bytes()); b }
fn show(b: &[u8]) -> String {
    if b.len() != PG { return format!("{} bytes", b.len()); }
    let (v, p) = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap()));
    if b == page(p, v) { format!("page {p} version {v}") } else if b.iter().all(|x| *x == 0) { "zeroes".into() } else { "mixed bytes".into() }
}

fn config(r: &mut Rng) -> DiskManagerConfig {
    DiskManagerConfig {
        io_threads: *r.pick(&[1, 2, 4]), batch_size: *r.pick(&[1, 3, 64]), cache_size_mb: *r.pick(&[0, 1]), write_buffer_size_mb: *r.pick(&[0, 1, 1]),
        flush_threshold_pages: *r.pick(&[1, 3, 1000]), flush_interval_ms: *r.pick(&[0, 3, 100_000, 100_000]), work_stealing_enabled: r.bool(), compression_enabled: r.bool(),
        fsync_policy: match r.below(4) { 0 => FsyncPolicy::Never, 1 => FsyncPolicy::OnFlush, 2 => FsyncPolicy::PerWrite, _ => FsyncPolicy::Periodic(Duration::from_millis(5)) },
        durability_level: match r.below(4) { 0 => DurabilityLevel::None, 1 => DurabilityLevel::Buffer, 2 => DurabilityLevel::Sync, _ => DurabilityLevel::Durable },
        ..Default::default()
    }
}
fn tell(c: &DiskManagerConfig) -> String {
    format!("buffer {} MB, cache {} MB, threshold {}, interval {} ms, batch {}, stealing {}, {} threads, {:?}/{:?}", c.write_buffer_size_mb, c.cache_size_mb, c.flush_threshold_pages, c.flush_interval_ms, c.batch_size, c.work_stealing_enabled, c.io_threads, c.fsync_policy, c.durability_level)
}

async fn on_disk(path: &str, m: &BTreeMap<u64, u64>, at: &str) -> Res {
    let f = std::fs::read(path).unwrap();
    for (p, v) in m {
        let o = *p as usize * PG;
        ck!(f.len() >= o + PG, "{at}: page {p} is not in the file ({} bytes)", f.len());
        ck!(f[o..o + PG] == page(*p, *v)[..], "{at}: the file has {} where page {p} version {v} was written", show(&f[o..o + PG]));
    }
    Ok(())
}

// a history of calls, the device refusing bytes beyond a point for parts of it
async fn history(dir: &str, n: u64, seed: u64, cfg: DiskManagerConfig, steps: usize, faults: bool) -> Res {
    let (path, log) = (format!("{dir}/ps{n}.db"), format!("{dir}/ps{n}.log"));
    let _ = std::fs::remove_file(&path);
    let _g = Gone(path.clone(), log.clone());
    let mut dm = AsyncDiskManager::new(path.clone(), log.clone(), cfg.clone()).await.unwrap();
    let mut r = Rng::new(seed);
    let mut m: BTreeMap<u64, u64> = BTreeMap::new();
    let mut ver = 0u64;
    let _u = Unlimit;
    let mut limited = false;
    // after a refused call: the page has its old or (one of) its new versions
    async fn settle(dm: &AsyncDiskManager, m: &mut BTreeMap<u64, u64>, tried: &[(u64, u64)], at: &str) -> Res {
        for p in tried.iter().map(|t| t.0).collect::<std::collections::BTreeSet<_>>() {
            let got = dm.read_page(p).await;
            let vs: Vec<u64> = tried.iter().filter(|t| t.0 == p).map(|t| t.1).chain(m.get(&p).copied()).collect();
            match got {
                Ok(b) => { let v = vs.iter().find(|v| b == page(p, **v)); if v.is_none() && m.get(&p).is_none() { continue; } ck!(v.is_some(), "{at}: after the refused write page {p} reads {} and not one of versions {vs:?}", show(&b)); m.insert(p, *v.unwrap()); }
                Err(e) => { ck!(!m.contains_key(&p), "{at}: after a refused write page {p} cannot be read: {e}"); }
            }
        }
        Ok(())
    }
    for i in 0..steps {
        match r.below(20) {
            0..=7 => {
                ver += 1;
                let p = r.below(9);
                let at = format!("step {i}: write page {p} version {ver}");
                match dm.write_page(p, page(p, ver)).await { Ok(()) => { m.insert(p, ver); } Err(e) => { ck!(limited, "{at}: {e}"); settle(&dm, &mut m, &[(p, ver)], &at).await?; } }
            }
            8..=9 => {
                let l: Vec<(u64, u64)> = (0..1 + r.usize(6)).map(|_| { ver += 1; (r.below(9), ver) }).collect();
                let at = format!("step {i}: write batch {l:?}");
                match dm.write_pages_batch(l.iter().map(|(p, v)| (*p, page(*p, *v))).collect()).await { Ok(()) => { for (p, v) in l { m.insert(p, v); } } Err(e) => { ck!(limited, "{at}: {e}"); settle(&dm, &mut m, &l, &at).await?; } }
            }
            10..=13 => { if let Some((p, v)) = m.iter().nth(r.usize(m.len().max(1))) { let b = dm.read_page(*p).await; ck!(b.is_ok(), "step {i}: page {p} cannot be read: {}", b.unwrap_err()); let b = b.unwrap(); ck!(b == page(*p, *v), "step {i}: page {p} reads {}, version {v} was written", show(&b)); } }
            14..=15 => {
                let ks: Vec<u64> = m.keys().copied().collect();
                if ks.is_empty() { continue; }
                let ids: Vec<u64> = (0..1 + r.usize(8)).map(|_| *r.pick(&ks)).collect();
                let got = dm.read_pages_batch(ids.clone()).await;
                ck!(got.is_ok(), "step {i}: read batch {ids:?}: {}", got.unwrap_err());
                let got = got.unwrap();
                ckeq!(got.len(), ids.len(), format!("step {i}: pages from batch {ids:?}"));
                for (p, b) in ids.iter().zip(&got) { ck!(*b == page(*p, m[p]), "step {i}: in batch {ids:?} page {p} reads {}, version {} was written", show(b), m[p]); }
            }
            16 => match dm.flush().await { Ok(()) => on_disk(&path, &m, &format!("step {i}: after a flush")).await?, Err(e) => ck!(limited, "step {i}: flush: {e}") },
            17 => match dm.force_flush_all().await { Ok(()) => on_disk(&path, &m, &format!("step {i}: after a forced flush")).await?, Err(e) => ck!(limited, "step {i}: force_flush_all: {e}") },
            18 => { let b = vec![1u8; *r.pick(&[0usize, 1, PG - 1, PG + 1])]; ck!(dm.write_page(2, b.clone()).await.is_err(), "step {i}: a page of {} bytes was accepted", b.len()); }
            _ => if faults { limited = !limited; file_limit(if limited { r.below(9) * PG as u64 + *r.pick(&[0u64, 1000]) } else { u64::MAX }); }
        }
    }
    file_limit(u64::MAX);
    for (p, v) in &m { let b = dm.read_page(*p).await.map_err(|e| format!("at the end: page {p} cannot be read: {e}"))?; ck!(b == page(*p, *v), "at the end: page {p} reads {}, version {v} was written", show(&b)); }
    if r.bool() { dm.shutdown().await.map_err(|e| format!("shutdown: {e}"))?; } else { dm.flush().await.map_err(|e| format!("flush: {e}"))?; }
    on_disk(&path, &m, "after shutdown").await?;
    drop(dm);
    let dm = AsyncDiskManager::new(path.clone(), log.clone(), cfg).await.unwrap();
    for (p, v) in &m { let b = dm.read_page(*p).await.map_err(|e| format!("reopened: page {p} cannot be read: {e}"))?; ck!(b == page(*p, *v), "reopened: page {p} reads {}, version {v} was written", show(&b)); }
    Ok(())
}

// writers, readers and flushers at once: a read never sees less than what was acknowledged before it began
async fn together(dir: &str, n: u64, seed: u64, cfg: DiskManagerConfig, per: u64) -> Res {
    let (path, log) = (format!("{dir}/pc{n}.db"), format!("{dir}/pc{n}.log"));
    let _ = std::fs::remove_file(&path);
    let _g = Gone(path.clone(), log.clone());
    let dm = Arc::new(AsyncDiskManager::new(path.clone(), log, cfg).await.unwrap());
    let seen: Arc<Vec<AtomicU64>> = Arc::new((0..6).map(|_| AtomicU64::new(0)).collect());
    for p in 0..6 { dm.write_page(p, page(p, 0)).await.map_err(|e| e.to_string())?; }
    let mut hs = vec![];
    for w in 0..2u64 {
        let (dm, seen) = (dm.clone(), seen.clone());
        hs.push(tokio::spawn(async move {
            for v in 1..=per { for p in (w * 3)..(w * 3 + 3) { dm.write_page(p, page(p, v)).await.map_err(|e| format!("write page {p}: {e}"))?; seen[p as usize].store(v, Ordering::SeqCst); } }
            Ok(())
        }));
    }
    for k in 0..3u64 {
        let (dm, seen) = (dm.clone(), seen.clone());
        hs.push(tokio::spawn(async move {
            let mut r = Rng::new(seed ^ k);
            for _ in 0..per * 3 {
                let ids: Vec<u64> = if r.bool() { vec![r.below(6)] } else { (0..1 + r.below(4)).map(|_| r.below(6)).collect() };
                let least: Vec<u64> = ids.iter().map(|p| seen[*p as usize].load(Ordering::SeqCst)).collect();
                let got = if ids.len() == 1 { dm.read_page(ids[0]).await.map(|b| vec![b]) } else { dm.read_pages_batch(ids.clone()).await }.map_err(|e| format!("read {ids:?}: {e}"))?;
                for ((p, l), b) in ids.iter().zip(&least).zip(&got) {
                    let v = u64::from_le_bytes(b[..8].try_into().unwrap());
                    ck!(*b == page(*p, v), "page {p} reads {}", show(b));
                    ck!(v >= *l, "page {p} reads version {v} after version {l} was acknowledged");
                }
            }
            Ok(())
        }));
    }
    { let dm = dm.clone(); hs.push(tokio::spawn(async move { for i in 0..per / 2 { if i % 2 == 0 { dm.flush().await } else { dm.force_flush_all().await }.map_err(|e| format!("flush: {e}"))?; } Ok(()) })); }
    for h in hs { h.await.map_err(|e| format!("panic: {e}"))??; }
    dm.flush().await.map_err(|e| e.to_string())?;
    on_disk(&path, &(0..6).map(|p| (p, per)).collect(), "at the end").await
}

// many pages staged at once, then flushed, some written again and one flush refused
async fn many(dir: &str, n: u64, seed: u64, mut cfg: DiskManagerConfig) -> Res {
    let mut r = Rng::new(seed);
    cfg.write_buffer_size_mb = *r.pick(&[1, 2, 4]);
    cfg.flush_threshold_pages = 100_000; cfg.batch_size = 100_000; cfg.flush_interval_ms = 100_000;
    let (path, log) = (format!("{dir}/pm{n}.db"), format!("{dir}/pm{n}.log"));
    let _ = std::fs::remove_file(&path);
    let _g = Gone(path.clone(), log.clone());
    let _u = Unlimit;
    let mut dm = AsyncDiskManager::new(path.clone(), log, cfg).await.unwrap();
    let k = 50 + r.below(1100);
    let mut m = BTreeMap::new();
    for p in 0..k { dm.write_page(p, page(p, 1)).await.map_err(|e| format!("write page {p}: {e}"))?; m.insert(p, 1); }
    for p in (0..k).step_by(7) { let b = dm.read_page(p).await.map_err(|e| format!("page {p} of {k} written cannot be read: {e}"))?; ck!(b == page(p, 1), "page {p} of {k} written reads {}", show(&b)); }
    if r.bool() { file_limit(r.below(k) * PG as u64); let _ = dm.flush().await; file_limit(u64::MAX); }
    for p in (0..k).step_by(3) { dm.write_page(p, page(p, 2)).await.map_err(|e| format!("write page {p} again: {e}"))?; m.insert(p, 2); }
    match r.below(3) { 0 => dm.flush().await, 1 => dm.force_flush_all().await, _ => dm.shutdown().await }.map_err(|e| format!("flush of {k} pages: {e}"))?;
    on_disk(&path, &m, &format!("{k} pages flushed")).await
}

// the staging buffer alone, against a map and its limit
fn staging(r: &mut Rng, steps: usize, limit: usize) -> Res {
    let mut b = WriteStagingBuffer::new(limit * PG, r.bool());
    let mut m: BTreeMap<u64, u64> = BTreeMap::new();
    for i in 0..steps {
        match r.below(8) {
            0..=4 => {
                let p = r.below(6);
                let room = (m.len() + !m.contains_key(&p) as usize <= limit) || (m.contains_key(&p) && m.len() <= limit);
                ckeq!(b.buffer_write(p, page(p, i as u64)).unwrap(), room, format!("step {i}: page {p} staged with {} staged and room for {limit}", m.len()));
                if room { m.insert(p, i as u64); }
            }
            5 => { let d = b.drain_buffer(); ckeq!(d.len(), m.len(), format!("step {i}: drained")); for (p, x) in &d { ck!(m.get(p).map(|v| *x == page(*p, *v)).unwrap_or(false), "step {i}: drained page {p} as {}", show(x)); } m.clear(); if r.bool() { let extra = r.below(6); let _ = b.buffer_write(extra, page(extra, 77_777)).unwrap().then(|| m.insert(extra, 77_777)); for (p, x) in &d { m.entry(*p).or_insert(u64::from_le_bytes(x[..8].try_into().unwrap())); } b.restage(d); } }
            _ => {}
        }
        for p in 0..6 { ckeq!(b.staged_page(p).map(|x| show(&x)), m.get(&p).map(|v| show(&page(p, *v))), format!("step {i}: staged page {p}")); }
        ckeq!((b.dirty_page_count(), b.buffer_size_bytes(), b.is_empty()), (m.len(), m.len() * PG, m.is_empty()), format!("step {i}: count, bytes, empty"));
    }
    Ok(())
}

fn coalesce(r: &mut Rng, steps: usize) -> Res {
    let mut e = CoalescingEngine::new(Duration::from_millis(r.below(3)), 1 + r.usize(5));
    for i in 0..steps {
        let p = r.below(9);
        let d = page(p, i as u64);
        let got = match e.try_coalesce_write(p, d.clone()).map_err(|x| x.to_string())? { CoalesceResult::NoCoalesce(x) | CoalesceResult::Coalesced(x) | CoalesceResult::Merged(x) => x };
        ck!(got == d, "step {i}: page {p} version {i} went in, {} came out", show(&got));
    }
    ck!(e.try_coalesce_write(1, vec![]).is_err(), "empty data was accepted");
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    unsafe { signal(25, 1); }
    let dir = std::env::var("VP_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let _ = HashMap::<u8, u8>::new();
    let mut n = 0;
    if c.group("staging") {
        let mut r = Rng::new(c.seed ^ 0x61);
        for i in 0..c.n(300) { let mut q = Rng::new(r.next()); let l = i as usize % 5; c.case(format!("staging history {i}, room for {l} pages"), || staging(&mut q, 60, l)); }
        for i in 0..c.n(60) { let mut q = Rng::new(r.next()); c.case(format!("coalescing history {i}"), || coalesce(&mut q, 60)); }
    }
    for (g, faults) in [("histories", false), ("faults", true)] {
        if c.group(g) {
            let mut r = Rng::new(c.seed ^ 0x62 ^ faults as u64);
            for _ in 0..c.n(if faults { 250 } else { 150 }) {
                n += 1;
                let (cfg, s, k) = (config(&mut r), r.next(), 20 + r.usize(60));
                c.case(format!("seed {s}, {k} calls{}: {}", if faults { " with a failing device" } else { "" }, tell(&cfg)), || rt.block_on(history(&dir, n, s, cfg, k, faults)));
            }
        }
    }
    if c.group("many") {
        let mut r = Rng::new(c.seed ^ 0x65);
        for _ in 0..c.n(16) {
            n += 1;
            let (cfg, s) = (config(&mut r), r.next());
            c.case(format!("seed {s}, many pages staged, cache {} MB, compression {}, stealing {}", cfg.cache_size_mb, cfg.compression_enabled, cfg.work_stealing_enabled), || rt.block_on(many(&dir, n, s, cfg)));
        }
    }
    if c.group("together") {
        let mut r = Rng::new(c.seed ^ 0x64);
        for _ in 0..c.n(24) {
            n += 1;
            let (cfg, s, k) = (config(&mut r), r.next(), 12);
            c.case(format!("seed {s}, 2 writers, 3 readers, a flusher, {k} versions: {}", tell(&cfg)), || rt.block_on(together(&dir, n, s, cfg, k)));
        }
    }
    c.done();
}
