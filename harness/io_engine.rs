// C13: the I/O engine: one execution and one answer per submitted operation, its own; finished ones stay as they are.
mod common;
use common::*;
use ferrite::storage::disk::async_disk::io::operations::IOOperationType;
use ferrite::storage::disk::async_disk::io::queue::IOQueueManager;
use ferrite::storage::disk::async_disk::io::AsyncIOEngine;
use ferrite::storage::disk::direct_io::DirectIOConfig;
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;
use tokio::fs::File;
use tokio::sync::Mutex;

const PG: usize = 4096;
fn res<R: std::fmt::Debug>(r: &R) -> String {
    let d = format!("{r:?}");
    if let Some(x) = d.strip_prefix("Success(") { format!("ok {}", &x[..x.len() - 1]) } else if let Some(x) = d.strip_prefix("Error(\"") { format!("error {}", &x[..x.len() - 2]) } else { d }
}
async fn scratch_engine(dir: &str) -> AsyncIOEngine { let (e, d, l) = engine_on(dir, 900_000_000, false).await; let _ = std::fs::remove_file(&d); let _ = std::fs::remove_file(&l); e }

// 0 start, 1 complete, 2 fail, 3 cancel, 4 timeouts, 5 cancel all, 6 look
#[derive(Clone, Debug, PartialEq)]
enum St { Pending, Done(String), Cancelled }
async fn tracker(dir: &str, ops: Vec<(u8, usize, u8)>) -> Res {
    let t = scratch_engine(dir).await.completion_tracker();
    tokio::time::sleep(Duration::from_millis(4)).await; // the first round of the tracker's own clean-up
    let mut m: Vec<(u64, St, bool)> = vec![];
    let mut rx = vec![];
    for (i, (op, k, x)) in ops.iter().enumerate() {
        let what = format!("step {i} {:?}", (op, k, x));
        let n = m.len();
        match op {
            0 => {
                let short = *x % 3 == 0;
                let (id, r) = t.start_operation(Some(if short { Duration::ZERO } else { Duration::from_secs(600) })).await;
                ck!(m.iter().all(|e| e.0 != id), "{what}: id {id} given out twice");
                m.push((id, St::Pending, short));
                rx.push(Some(r));
            }
            1..=3 => {
                let (id, e) = if n == 0 || *k > n { (99999, None) } else { let j = k % n; (m[j].0, Some(j)) };
                let (r, after) = match op {
                    1 => (t.complete_operation(id, vec![*x, 1]).await, St::Done(format!("ok {:?}", [*x, 1]))),
                    2 => (t.fail_operation(id, format!("f{x}")).await, St::Done(format!("error f{x}"))),
                    _ => (t.cancel_operation(id, format!("c{x}")).await, St::Cancelled),
                };
                let may = e.map(|j| m[j].1 == St::Pending).unwrap_or(false);
                ckeq!(r.is_ok(), may, format!("{what}: accepted"));
                if may { m[e.unwrap()].1 = after; }
            }
            4 => {
                std::thread::sleep(Duration::from_micros(50));
                let want: Vec<usize> = (0..n).filter(|j| m[*j].1 == St::Pending && m[*j].2).collect();
                ckeq!(t.check_timeouts().await, want.len(), format!("{what}: operations timed out"));
                for j in want { m[j].1 = St::Done("error Operation timed out".into()); }
            }
            5 => {
                let want: Vec<usize> = (0..n).filter(|j| m[*j].1 == St::Pending).collect();
                ckeq!(t.cancel_all_pending("all".into()).await, want.len(), format!("{what}: operations cancelled"));
                for j in want { m[j].1 = St::Cancelled; }
            }
            _ => {
                for (id, st, _) in &m {
                    match (t.wait_for_operation(*id, Duration::from_millis(1)).await, st) {
                        (Ok(r), St::Done(w)) => { ckeq!(res(&r), *w, format!("{what}: result of {id}")); }
                        (Err(_), St::Pending | St::Cancelled) => {}
                        (r, _) => return Err(format!("{what}: waiting for {id} gives {r:?}, model {st:?}")),
                    }
                }
            }
        }
        for (j, (id, st, _)) in m.iter().enumerate() {
            ckeq!(t.is_operation_pending(*id).await, *st == St::Pending, format!("{what}: {id} pending"));
            ckeq!(t.get_operation_status(*id).await, Some(matches!(st, St::Done(_))), format!("{what}: {id} completed"));
            if let Some(r) = rx[j].as_mut() {
                match (r.try_recv(), st) {
                    (Ok(v), St::Done(w)) => { ckeq!(res(&v), *w, format!("{what}: what the caller of {id} gets")); rx[j] = None; }
                    (Err(tokio::sync::oneshot::error::TryRecvError::Empty), St::Pending) => {}
                    (Err(tokio::sync::oneshot::error::TryRecvError::Closed), St::Cancelled) => { rx[j] = None; }
                    (v, _) => return Err(format!("{what}: the caller of {id} gets {v:?}, model {st:?}")),
                }
            }
        }
        ckeq!(t.pending_operations_count().await, m.iter().filter(|e| e.1 == St::Pending).count(), format!("{what}: pending"));
        ckeq!(t.tracked_operations_count().await, m.len(), format!("{what}: tracked"));
    }
    Ok(())
}

async fn order(ops: Vec<Option<u8>>) -> Res {
    let q = IOQueueManager::new();
    let mut m: Vec<(u8, u64)> = vec![];
    for (i, p) in ops.iter().enumerate() {
        match p {
            Some(p) => { q.enqueue_operation(IOOperationType::ReadPage { page_id: i as u64 }, *p, i as u64).await; m.push((*p, i as u64)); std::thread::sleep(Duration::from_nanos(200)); }
            None => {
                let best = m.iter().enumerate().max_by_key(|(_, e)| (e.0, std::cmp::Reverse(e.1))).map(|x| x.0);
                ckeq!(q.peek_highest_priority().await, best.map(|b| m[b].0), format!("step {i}: highest priority waiting"));
                let got = q.dequeue_operation().await;
                let want = best.map(|b| m.remove(b));
                ckeq!(got.as_ref().map(|o| (o.priority, o.id)), want, format!("step {i}: operation dequeued"));
                if let Some(o) = got { ck!(matches!(o.operation_type, IOOperationType::ReadPage { page_id } if page_id == o.id), "step {i}: operation {} carries another one's work", o.id); }
            }
        }
        ckeq!(q.queue_size().await, m.len(), format!("step {i}: queue size"));
    }
    let rest: Vec<_> = q.drain_queue().await.iter().map(|o| (o.priority, o.id)).collect();
    m.sort_by_key(|e| (std::cmp::Reverse(e.0), e.1));
    ckeq!(rest, m, "operations drained");
    Ok(())
}

async fn engine_on(dir: &str, n: u64, direct: bool) -> (AsyncIOEngine, String, String) {
    let (d, l) = (format!("{dir}/e{n}.db"), format!("{dir}/e{n}.log"));
    let cfg = DirectIOConfig { enabled: direct, alignment: PG };
    let open = |p: &str, c: &DirectIOConfig| ferrite::storage::disk::direct_io::open_direct_io(p, true, true, true, c).unwrap();
    let _ = std::fs::remove_file(&d); let _ = std::fs::remove_file(&l);
    let f = open(&d, &cfg); let g = open(&l, &DirectIOConfig { enabled: false, alignment: PG });
    (AsyncIOEngine::with_config(Arc::new(Mutex::new(File::from_std(f))), Arc::new(Mutex::new(File::from_std(g))), cfg).unwrap(), d, l)
}
fn page(tag: u64) -> Vec<u8> { let mut r = Rng::new(tag); (0..PG).map(|_| r.next() as u8).collect() }

// tasks on their own pages; everyone gets the answer to what it asked
async fn traffic(dir: String, n: u64, seed: u64, tasks: usize, per: usize, workers: usize, direct: bool) -> Res {
    let (mut e, d, l) = engine_on(&dir, n, direct).await;
    e.start(workers);
    let e = Arc::new(e);
    let mut hs = vec![];
    for t in 0..tasks {
        let e = e.clone();
        hs.push(tokio::spawn(async move {
            let mut r = Rng::new(seed ^ (t as u64 + 1) * 0x9999);
            let mut mine: HashMap<u64, u64> = HashMap::new();
            let mut logs = vec![];
            for i in 0..per {
                let p = (r.usize(6) * tasks + t) as u64;
                let pr = r.below(11) as u8;
                match r.below(6) {
                    0 | 1 => { let tag = r.next(); e.write_page_with_priority(p, &page(tag), pr).await.map_err(|x| format!("task {t} step {i}: write of page {p}: {x}"))?; mine.insert(p, tag); }
                    2 | 3 => {
                        let got = e.read_page_with_priority(p, pr).await;
                        if let Some(tag) = mine.get(&p) {
                            let got = got.map_err(|x| format!("task {t} step {i}: read of page {p}: {x}"))?;
                            ck!(got == page(*tag), "task {t} step {i}: page {p} does not read back what was written last");
                        } else if let Ok(b) = got { ck!(b.len() == PG && b.iter().all(|x| *x == 0), "task {t} step {i}: page {p} was never written but reads as something"); }
                    }
                    4 => {
                        let data: Vec<u8> = (0..1 + r.usize(300)).map(|_| r.next() as u8).collect();
                        let o = e.append_log_with_priority(&data, pr).await.map_err(|x| format!("task {t} step {i}: append: {x}"))?;
                        logs.push((o, data));
                    }
                    _ => { if let Some((o, data)) = logs.last() { let got = e.read_log_with_priority(*o, data.len(), pr).await.map_err(|x| format!("task {t} step {i}: log read: {x}"))?; ck!(got == *data, "task {t} step {i}: log at {o} does not read back what was appended there"); } }
                }
            }
            Ok::<_, String>((mine, logs))
        }));
    }
    let mut all = vec![];
    for h in hs { all.push(tokio::time::timeout(Duration::from_secs(40), h).await.map_err(|_| "an operation was not answered within 40 s".to_string())?.map_err(|e| e.to_string())??); }
    let mut spans: Vec<(u64, u64)> = all.iter().flat_map(|a| a.1.iter().map(|(o, d)| (*o, d.len() as u64))).collect();
    spans.sort();
    let mut end = 0;
    for (o, n) in &spans { ckeq!(*o, end, "appended pieces follow one another"); end += n; }
    let (db, lg) = (std::fs::read(&d).unwrap(), std::fs::read(&l).unwrap());
    ckeq!(lg.len() as u64, end, "length of the log");
    for (m, logs) in &all {
        for (p, tag) in m { let o = *p as usize * PG; ck!(db.len() >= o + PG && db[o..o + PG] == page(*tag)[..], "page {p} in the file is not what was written last"); }
        for (o, data) in logs { ck!(lg[*o as usize..*o as usize + data.len()] == data[..], "log at {o} is not what was appended there"); }
    }
    ckeq!(e.pending_operations_count().await, 0, "operations pending at the end");
    ckeq!(e.queue_size().await, 0, "operations queued at the end");
    if let Ok(mut e) = Arc::try_unwrap(e) { e.stop().await; }
    let _ = std::fs::remove_file(&d); let _ = std::fs::remove_file(&l);
    Ok(())
}

// operations cancelled while they wait: the callers hear it, the file never sees them
async fn cancelled(dir: String, n: u64, seed: u64, count: usize, all: bool) -> Res {
    let (mut e0, d, l) = engine_on(&dir, n, false).await;
    let mut r = Rng::new(seed);
    let (before, after) = (r.usize(4) as u64, r.usize(4) as u64);
    {
        let e = Arc::new(e0);
        let go = |p: u64| { let e = e.clone(); tokio::spawn(async move { e.write_page_with_priority(p, &page(p), 5).await.is_ok() }) };
        let hs: Vec<_> = (0..count as u64).map(|i| go(100 + i)).collect();
        while e.queue_size().await < count { tokio::time::sleep(Duration::from_millis(1)).await; }
        let k = if all { e.cancel_all_pending_operations("stop").await } else { e.clear_queue().await };
        ckeq!(k, count, "operations cancelled");
        for h in hs { ck!(!h.await.unwrap(), "a cancelled write is reported as done"); }
        let hs2: Vec<_> = (0..after).map(|i| go(200 + i)).collect();
        while e.queue_size().await < after as usize { tokio::time::sleep(Duration::from_millis(1)).await; }
        for h in &hs2 { h.abort(); }
        for h in hs2 { let _ = h.await; }
        e0 = Arc::try_unwrap(e).map_err(|_| "engine still shared".to_string())?;
    }
    e0.start(2);
    for i in 0..before { e0.write_page_with_priority(i, &page(i), 1).await.map_err(|x| format!("write after the cancelled ones: {x}"))?; }
    let db = std::fs::read(&d).unwrap();
    ck!(db.len() <= 100 * PG || db[100 * PG..].chunks(PG).take(count).all(|c| c.iter().all(|x| *x == 0)), "a cancelled write reached the file");
    e0.stop().await;
    let _ = std::fs::remove_file(&d); let _ = std::fs::remove_file(&l);
    Ok(())
}

// a waiter finds the result however the completion falls between its steps
fn race(rt: &tokio::runtime::Runtime, dir: &str, seed: u64, rounds: usize, many: bool) -> Res {
    let t = rt.block_on(scratch_engine(dir)).completion_tracker();
    let mut r = Rng::new(seed);
    for i in 0..rounds {
        let spin = r.usize(400);
        let k = if many { 3 } else { 1 };
        let ids: Vec<u64> = (0..k).map(|_| rt.block_on(t.start_operation(None)).0).collect();
        let (t2, ids2) = (t.clone(), ids.clone());
        let h = rt.handle().clone();
        let gate = Arc::new(std::sync::Barrier::new(2));
        let g2 = gate.clone();
        let th = std::thread::spawn(move || { g2.wait(); for _ in 0..spin { std::hint::spin_loop(); } for id in &ids2 { h.block_on(t2.complete_operation(*id, vec![*id as u8])).unwrap(); } });
        gate.wait();
        let got: Result<Vec<(u64, String)>, String> = rt.block_on(async { if many { t.wait_for_operations(&ids, Duration::from_secs(3)).await.map(|v| v.iter().map(|(i, r)| (*i, res(r))).collect()) } else { t.wait_for_operation(ids[0], Duration::from_secs(3)).await.map(|r| vec![(ids[0], res(&r))]) } });
        th.join().unwrap();
        match got {
            Ok(mut v) => { v.sort_by_key(|e| e.0); ckeq!(v, ids.iter().map(|i| (*i, format!("ok {:?}", [*i as u8]))).collect::<Vec<_>>(), format!("round {i}: results of the operations waited for")); }
            Err(x) => return Err(format!("round {i}: the operation completed, but its waiter reports: {x}")),
        }
    }
    Ok(())
}
// more completions of others than the announcements' buffer holds, while the waiter is busy
async fn lagging(dir: &str, others: usize, before: usize, many: bool) -> Res {
    let t = scratch_engine(dir).await.completion_tracker();
    let (id, _r) = t.start_operation(None).await;
    let (id2, _r2) = t.start_operation(None).await;
    let mut o = vec![];
    for _ in 0..others { o.push(t.start_operation(None).await); }
    let t2 = t.clone();
    let w = tokio::spawn(async move { if many { t2.wait_for_operations(&[id, id2], Duration::from_secs(5)).await } else { t2.wait_for_operation(id, Duration::from_secs(5)).await.map(|r| vec![(id, r)]) } });
    for _ in 0..20 { tokio::task::yield_now().await; }
    // one poll: the waiter, on the same thread, does not get to run in between
    tokio::task::unconstrained(async {
        for (i, (x, _)) in o.iter().enumerate() {
            if i == before { t.complete_operation(id, vec![7]).await.unwrap(); }
            t.complete_operation(*x, vec![1]).await.unwrap();
        }
    }).await;
    for _ in 0..20 { tokio::task::yield_now().await; }
    if before >= others { t.complete_operation(id, vec![7]).await.unwrap(); }
    t.complete_operation(id2, vec![8]).await.unwrap();
    let got = w.await.unwrap().map_err(|e| format!("waiter after {others} other completions: {e}"))?;
    let mut v: Vec<_> = got.iter().map(|(i, r)| (*i, res(r))).collect();
    v.sort();
    let mut want = vec![(id, "ok [7]".to_string())];
    if many { want.push((id2, "ok [8]".to_string())); }
    ckeq!(v, want, "what a waiter gets after missing announcements");
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    let dir = std::env::var("VP_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let single = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut n = 0u64;
    if c.group("tracker") {
        let al: Vec<(u8, usize, u8)> = vec![(0, 0, 0), (0, 0, 1), (1, 0, 4), (1, 1, 5), (2, 0, 6), (3, 0, 7), (3, 1, 8), (4, 0, 0), (5, 0, 0)];
        let (a, len) = (al.len(), if c.thorough { 5 } else { 4 });
        for code in (0..a.pow(len)).step_by(if c.thorough { 1 } else { 3 }) {
            let mut ops = vec![(0u8, 0usize, 1u8)];
            ops.extend((0..len).map(|i| al[code / a.pow(i) % a]));
            c.case(format!("{ops:?}"), || single.block_on(tracker(&dir, ops.clone())));
        }
        let mut r = Rng::new(c.seed ^ 0x61);
        for _ in 0..c.n(150) {
            let ops: Vec<(u8, usize, u8)> = (0..6 + r.usize(30)).map(|_| (*r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4, 5, 6]), r.usize(14), r.below(250) as u8)).collect();
            c.case(format!("{ops:?}"), || single.block_on(tracker(&dir, ops.clone())));
        }
    }
    if c.group("order") {
        let mut r = Rng::new(c.seed ^ 0x62);
        for _ in 0..c.n(300) {
            let ops: Vec<Option<u8>> = (0..2 + r.usize(60)).map(|_| if r.chance(3, 5) { Some(r.below(4) as u8 * 80) } else { None }).collect();
            c.case(format!("{ops:?}"), || rt.block_on(order(ops.clone())));
        }
    }
    if c.group("traffic") {
        let mut r = Rng::new(c.seed ^ 0x63);
        for i in 0..c.n(25) {
            n += 1;
            let (s, t, p, w, d) = (r.next(), 1 + r.usize(8), 10 + r.usize(40), 1 + r.usize(8), i % 4 == 3);
            c.case(format!("seed {s}: {t} tasks x {p} operations, {w} workers, direct {d}"), || rt.block_on(traffic(dir.clone(), n, s, t, p, w, d)));
        }
        // more at once than the engine runs concurrently
        for (t, p, w) in [(150, 6, 128), (300, 3, 200)] {
            n += 1;
            let s = r.next();
            c.case(format!("seed {s}: {t} tasks x {p} operations, {w} workers"), || rt.block_on(traffic(dir.clone(), n, s, t, p, w, false)));
        }
    }
    if c.group("cancelled") {
        let mut r = Rng::new(c.seed ^ 0x64);
        for _ in 0..c.n(20) {
            n += 1;
            let (s, k, a) = (r.next(), 1 + r.usize(12), r.bool());
            c.case(format!("seed {s}: {k} queued writes, {}", if a { "all cancelled" } else { "queue cleared" }), || rt.block_on(cancelled(dir.clone(), n, s, k, a)));
        }
    }
    if c.group("waiters") {
        let mut r = Rng::new(c.seed ^ 0x65);
        for i in 0..c.n(6) { let s = r.next(); c.case(format!("seed {s}: completion racing with the waiter, several: {}", i % 2 == 1), || race(&rt, &dir, s, 1500, i % 2 == 1)); }
        for (o, b) in [(10usize, 5usize), (1000, 1000), (1024, 0), (1025, 0), (2000, 0), (2000, 1500), (2000, 2000), (1100, 1100)] {
            for many in [false, true] { c.case(format!("{o} other completions, own one after {b}, several: {many}"), || single.block_on(lagging(&dir, o, b, many))); }
        }
    }
    c.done();
}
