// C11/C12: the write-ahead log on a real file: what was appended is what a reader finds, a log cut at any
// byte gives its whole records, a commit returns once its record is on disk, a lost record stops the rest.
mod common;
use common::*;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::recovery::log_iterator::LogIterator;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType};
use ferrite::recovery::wal_manager::WALManager;
use ferrite::storage::disk::async_disk::config::FsyncPolicy;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use parking_lot::RwLock;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn tuple(r: &mut Rng, big: usize) -> Tuple {
    let s = Schema::new(vec![Column::new("a", TypeId::BigInt), Column::new("b", TypeId::VarChar), Column::new("c", TypeId::Boolean)]);
    let n = if big > 0 { r.usize(big) } else { r.usize(20) };
    let t: String = (0..n).map(|_| *r.pick(&['a', 'z', ' ', '\0', 'é', '\u{10ffff}'])).collect();
    Tuple::new(&[Value::new(r.edge()), Value::new(t), Value::new(r.bool())], &s, RID::default())
}
const KINDS: [LogRecordType; 10] = [LogRecordType::Begin, LogRecordType::Commit, LogRecordType::Abort, LogRecordType::Insert, LogRecordType::MarkDelete, LogRecordType::ApplyDelete, LogRecordType::RollbackDelete, LogRecordType::Update, LogRecordType::NewPage, LogRecordType::Invalid];
fn record(r: &mut Rng, kind: LogRecordType, big: usize) -> LogRecord {
    let (t, p) = (r.edge() as u64, r.edge() as u64);
    match kind {
        LogRecordType::Insert | LogRecordType::MarkDelete | LogRecordType::ApplyDelete | LogRecordType::RollbackDelete => LogRecord::new_insert_delete_record(t, p, kind, RID::new(r.edge() as u64, r.next() as u32), Arc::new(tuple(r, big))),
        LogRecordType::Update => LogRecord::new_update_record(t, p, kind, RID::new(r.edge() as u64, r.next() as u32), Arc::new(tuple(r, big)), Arc::new(tuple(r, big))),
        LogRecordType::NewPage => LogRecord::new_page_record(t, p, kind, r.edge() as u64, r.edge() as u64),
        k => LogRecord::new_transaction_record(t, p, k),
    }
}
fn show(r: &LogRecord) -> String { format!("{r:?}") }
fn short(s: &str) -> String { s.chars().take(160).collect() }
fn cfg(policy: u8) -> DiskManagerConfig {
    DiskManagerConfig { io_threads: 2, cache_size_mb: 4, direct_io: false, fsync_policy: match policy { 0 => FsyncPolicy::Never, 1 => FsyncPolicy::OnFlush, 2 => FsyncPolicy::PerWrite, _ => FsyncPolicy::Periodic(Duration::from_millis(5)) }, ..Default::default() }
}
struct Log { dm: Arc<AsyncDiskManager>, path: String }
fn open(rt: &tokio::runtime::Runtime, dir: &str, n: u64, policy: u8) -> Log {
    let path = format!("{dir}/w{n}.log");
    let _ = std::fs::remove_file(&path);
    let dm = rt.block_on(AsyncDiskManager::new(format!("{dir}/w.db"), path.clone(), cfg(policy))).unwrap();
    Log { dm: Arc::new(dm), path }
}
impl Drop for Log { fn drop(&mut self) { let _ = std::fs::remove_file(&self.path); } }
fn at(rt: &tokio::runtime::Runtime, it: &mut LogIterator) -> Option<LogRecord> { rt.block_on(it.next()) }

// records as the file's bytes give them, independently of the iterator
fn parse(b: &[u8]) -> Vec<(usize, LogRecord)> {
    let (mut o, mut v) = (0, vec![]);
    while o + 4 <= b.len() {
        let n = i32::from_le_bytes(b[o..o + 4].try_into().unwrap());
        if n < 4 || o + n as usize > b.len() { break; }
        match LogRecord::from_bytes(&b[o..o + n as usize]) { Ok(r) => v.push((o, r)), Err(_) => break }
        o += n as usize;
    }
    v
}

fn round(rec: &LogRecord) -> Res {
    let b = rec.to_bytes().map_err(|e| format!("to_bytes of {}: {e:?}", short(&show(rec))))?;
    ckeq!(i32::from_le_bytes(b[0..4].try_into().unwrap()) as usize, b.len(), "length prefix of the encoded record");
    let back = LogRecord::from_bytes(&b).map_err(|e| format!("from_bytes of to_bytes: {e:?}"))?;
    ckeq!(show(&back), show(rec), "record decoded from its own bytes");
    for n in 0..b.len().min(40) { let _ = LogRecord::from_bytes(&b[..n]); }
    Ok(())
}

// a record whose row holds the bytes of another record
fn nested(r: &mut Rng) -> LogRecord {
    let inner = LogRecord::new_transaction_record(1 + r.below(50), 3, *r.pick(&KINDS[..3]));
    inner.set_lsn(r.below(100));
    let t = String::from_utf8(inner.to_bytes().unwrap()).unwrap_or_default();
    let s = Schema::new(vec![Column::new("b", TypeId::VarChar)]);
    let text = format!("{}{t}{}", "q".repeat(r.usize(30)), "x".repeat(r.usize(300)));
    LogRecord::new_insert_delete_record(2, 1, *r.pick(&KINDS[3..7]), RID::new(r.below(100), 7), Arc::new(Tuple::new(&[Value::new(text)], &s, RID::default())))
}
// appends, then every cut
fn cuts(rt: &tokio::runtime::Runtime, dir: &str, n: u64, seed: u64, recs: usize, big: usize, policy: u8, step: usize) -> Res {
    let l = open(rt, dir, n, policy);
    let mut r = Rng::new(seed);
    let mut want: Vec<(u64, String)> = vec![];
    let mut end = 0u64;
    for i in 0..recs {
        let k = *r.pick(&KINDS[..9]);
        let rec = if r.below(4) == 0 { nested(&mut r) } else { record(&mut r, k, big) };
        rec.set_lsn(i as u64);
        let off = rt.block_on(l.dm.write_log(&rec)).map_err(|e| format!("write_log: {e}"))?;
        ckeq!(off, end, format!("offset at which record {i} was appended"));
        end += rec.to_bytes().unwrap().len() as u64;
        ckeq!(std::fs::metadata(&l.path).unwrap().len(), end, format!("log length after record {i} was written"));
        want.push((off, show(&rec)));
    }
    rt.block_on(l.dm.sync_log_direct()).map_err(|e| format!("sync_log_direct: {e}"))?;
    let whole = std::fs::read(&l.path).unwrap();
    let lm = LogManager::new(l.dm.clone());
    for (i, (off, w)) in want.iter().enumerate() {
        let got = lm.read_log_record(*off).map(|r| show(&r));
        ckeq!(got, Some(w.clone()), format!("read_log_record of record {i} at offset {off} of {end}"));
        let mut it = LogIterator::with_offset(l.dm.clone(), *off);
        ckeq!(at(rt, &mut it).map(|r| show(&r)), Some(w.clone()), format!("iterator from record {i} at offset {off}"));
    }
    ck!(lm.read_log_record(end).is_none(), "a record is read behind the end of the log");
    let f = std::fs::OpenOptions::new().write(true).open(&l.path).unwrap();
    let mut cut = whole.len();
    loop {
        f.set_len(cut as u64).unwrap();
        let keep = want.iter().enumerate().filter(|(i, _)| want.get(i + 1).map(|n| n.0).unwrap_or(end) <= cut as u64).count();
        let got: Vec<String> = rt.block_on(LogIterator::new(l.dm.clone()).collect()).iter().map(show).collect();
        ck!(got.len() == keep && got.iter().zip(&want).all(|(g, w)| *g == w.1), "log of {end} bytes cut at {cut}: {} records come back, want the first {keep}: {:?}", got.len(), got.iter().map(|s| short(s)).collect::<Vec<_>>());
        // one by one, and again after the end
        if cut % 8 == 0 {
        let mut it = LogIterator::new(l.dm.clone());
        for (i, w) in want.iter().take(keep).enumerate() { ckeq!(at(rt, &mut it).map(|r| show(&r)), Some(w.1.clone()), format!("record {i} of the log cut at {cut}")); }
        for _ in 0..2 { ck!(at(rt, &mut it).is_none(), "log cut at {cut}: a record after the last whole one"); }
        }
        if cut == 0 { break; }
        cut = cut.saturating_sub(if whole.len() - cut < 70 { 1 } else { 1 + r.usize(step) });
    }
    Ok(())
}

fn txn(id: u64, prev: u64) -> Transaction { let t = Transaction::new(id, IsolationLevel::Serializable); t.set_prev_lsn(prev); t }

// appenders on several threads through the WAL manager; what each commit promised is on disk when it returns
fn appends(rt: &tokio::runtime::Runtime, dir: &str, n: u64, seed: u64, threads: usize, per: usize, policy: u8, burst: bool) -> Res {
    let l = open(rt, dir, n, policy);
    let lm = { let mut m = LogManager::new(l.dm.clone()); m.run_flush_thread(); Arc::new(RwLock::new(m)) };
    let wal = Arc::new(WALManager::new(lm.clone()));
    ckeq!(lm.read().get_next_lsn(), 0, "first LSN of an empty log");
    let path = l.path.clone();
    let all: Vec<Result<Vec<(u64, u64, LogRecordType, u64)>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| { let (wal, lm, path) = (wal.clone(), lm.clone(), path.clone()); s.spawn(move || {
            let mut r = Rng::new(seed ^ (t as u64 * 7919));
            let mut out = vec![];
            for i in 0..per {
                let id = (t * 1000 + i) as u64;
                let tx = txn(id, r.edge() as u64);
                let prev = tx.get_prev_lsn();
                let k = r.below(if burst { 40 } else { 6 });
                let (lsn, kind, p) = match k {
                    0 => (wal.write_commit_record(&tx), LogRecordType::Commit, prev),
                    1 => (wal.write_abort_record(&tx), LogRecordType::Abort, prev),
                    2 => (wal.write_begin_record(&tx), LogRecordType::Begin, u64::MAX),
                    _ => { let (a, b) = (tuple(&mut r, 60), tuple(&mut r, 60)); (wal.write_update_record(&tx, RID::new(id, 3), a, b), LogRecordType::Update, prev) }
                };
                if kind == LogRecordType::Commit {
                    let v = parse(&std::fs::read(&path).unwrap());
                    ck!(v.iter().any(|(_, r)| r.get_lsn() == lsn && r.get_txn_id() == id && r.is_commit()), "commit of {id} returned with LSN {lsn}, but its record is not in the file ({} records there)", v.len());
                    // everything before it as well
                    ck!(v.len() as u64 > lsn && (0..=lsn as usize).all(|i| v[i].1.get_lsn() == i as u64), "commit with LSN {lsn} returned, but the file does not hold the records up to it in order");
                    let p = lm.read().get_persistent_lsn();
                    ck!(p != u64::MAX && p >= lsn, "commit with LSN {lsn} returned at persistent LSN {p}");
                }
                out.push((lsn, id, kind, p));
            }
            Ok(out)
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("an appender panicked".into()))).collect()
    });
    let mut want = vec![];
    for a in all { want.extend(a?); }
    want.sort_by_key(|x| x.0);
    for (i, w) in want.iter().enumerate() { ckeq!(w.0, i as u64, "LSNs handed out are consecutive"); }
    ckeq!(lm.read().get_next_lsn(), want.len() as u64, "next LSN after all appends");
    // once the flusher had its time, the file has them all, before any shutdown
    let t0 = Instant::now();
    loop {
        let v = parse(&std::fs::read(&l.path).unwrap());
        let p = lm.read().get_persistent_lsn();
        let claimed = if p == u64::MAX { 0 } else { p + 1 };
        let v2 = parse(&std::fs::read(&l.path).unwrap());
        ck!(v2.len() as u64 >= claimed, "persistent LSN {p}, but the file holds {} records", v2.len());
        if v.len() == want.len() && claimed == want.len() as u64 { break; }
        ck!(t0.elapsed() < Duration::from_secs(20), "after 20 s {} of {} records are in the file and the persistent LSN is {p}", v.len(), want.len());
        std::thread::sleep(Duration::from_millis(2));
    }
    let v = parse(&std::fs::read(&l.path).unwrap());
    for (i, (_, r)) in v.iter().enumerate() {
        ckeq!((r.get_lsn(), r.get_txn_id(), r.get_log_record_type(), r.get_prev_lsn()), want[i], format!("record {i} of the file"));
    }
    lm.write().shut_down();
    Ok(())
}

// records still queued when the log is shut down are written
fn drain(rt: &tokio::runtime::Runtime, dir: &str, n: u64, seed: u64, count: usize, policy: u8) -> Res {
    let l = open(rt, dir, n, policy);
    let mut lm = LogManager::new(l.dm.clone());
    let mut r = Rng::new(seed);
    let mut want = vec![];
    let early = r.bool();
    if early { lm.run_flush_thread(); }
    for i in 0..count {
        let k = *r.pick(&[LogRecordType::Begin, LogRecordType::Abort, LogRecordType::Update, LogRecordType::Insert]);
        let rec = Arc::new(record(&mut r, k, 30));
        ckeq!(lm.append_log_record(rec.clone()), i as u64, "LSN of the append");
        ckeq!(rec.get_lsn(), i as u64, "LSN inside the record");
        want.push(show(&rec));
    }
    if !early { lm.run_flush_thread(); }
    lm.shut_down();
    let v = parse(&std::fs::read(&l.path).unwrap());
    ck!(v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| show(&a.1) == *b), "after shutdown the file holds {} of {} records", v.len(), want.len());
    ckeq!(lm.get_persistent_lsn(), count as u64 - 1, "persistent LSN after shutdown");
    Ok(())
}

#[repr(C)] struct RLimit { cur: u64, max: u64 }
unsafe extern "C" { fn setrlimit(r: i32, l: *const RLimit) -> i32; fn signal(s: i32, h: usize) -> usize; }
fn file_limit(n: u64) { unsafe { setrlimit(1, &RLimit { cur: n, max: u64::MAX }); } }
struct Unlimit; impl Drop for Unlimit { fn drop(&mut self) { file_limit(u64::MAX); } }

// the device refuses bytes beyond a point for a while: nothing lost is called persistent, then or later
fn lost(rt: &tokio::runtime::Runtime, dir: &str, n: u64, seed: u64, before: usize, room: u64, during: usize, after: usize) -> Res {
    let l = open(rt, dir, n, 1);
    let mut m = LogManager::new(l.dm.clone());
    m.run_flush_thread();
    let mut r = Rng::new(seed);
    let mut ids = vec![];
    let mut add = |m: &mut LogManager, r: &mut Rng, k: LogRecordType| { let rec = Arc::new(record(r, k, 40)); let s = m.append_log_record(rec.clone()); ids.push(show(&rec)); s };
    for _ in 0..before { add(&mut m, &mut r, LogRecordType::Update); }
    let last = add(&mut m, &mut r, LogRecordType::Commit);
    let len = std::fs::metadata(&l.path).unwrap().len();
    {
        let _u = Unlimit;
        file_limit(len + room);
        for _ in 0..during { add(&mut m, &mut r, LogRecordType::Update); std::thread::sleep(Duration::from_millis(r.below(15))); }
        std::thread::sleep(Duration::from_millis(40));
    }
    for i in 0..after { add(&mut m, &mut r, if i % 2 == 1 { LogRecordType::Commit } else { LogRecordType::Update }); std::thread::sleep(Duration::from_millis(12)); }
    std::thread::sleep(Duration::from_millis(40));
    m.shut_down();
    let p = m.get_persistent_lsn();
    let got: Vec<String> = rt.block_on(LogIterator::new(l.dm.clone()).collect()).iter().map(show).collect();
    ck!(p != u64::MAX && p >= last, "persistent LSN {p} after a commit with LSN {last}");
    ck!(got.len() as u64 > p && (0..=p as usize).all(|i| got[i] == ids[i]), "persistent LSN is {p}, but a reader of the log finds {} records (the device refused bytes beyond {} for a while)", got.len(), len + room);
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    unsafe { signal(25, 1); }
    let dir = std::env::var("VP_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let _g = rt.enter();
    let mut n = 0u64;
    if c.group("records") {
        let mut r = Rng::new(c.seed);
        for i in 0..c.n(400) {
            let k = KINDS[i as usize % 10];
            let rec = record(&mut r, k, if i % 7 == 0 { 4000 } else { 0 });
            if r.bool() { rec.set_lsn(r.edge() as u64); }
            c.case(format!("record {i}: {}", short(&show(&rec))), || round(&rec));
        }
    }
    if c.group("cuts") {
        let mut r = Rng::new(c.seed ^ 0x51);
        for i in 0..c.n(12) {
            n += 1;
            let (s, recs, big, pol) = (r.next(), 1 + r.usize(8), if i % 3 == 2 { 3000 } else { 0 }, r.below(4) as u8);
            let step = if big > 0 { 400 } else { 25 };
            c.case(format!("seed {s}, {recs} records, tuples to {big}, fsync policy {pol}"), || cuts(&rt, &dir, n, s, recs, big, pol, step));
        }
        for (recs, big, step) in [(4, 30_000, 40_000), (3, 160_000, 200_000), (6, 90_000, 200_000)] {
            n += 1;
            let s = r.next();
            c.case(format!("seed {s}, {recs} records, tuples to {big}"), || cuts(&rt, &dir, n, s, recs, big, 0, step));
        }
    }
    if c.group("appends") {
        let mut r = Rng::new(c.seed ^ 0x52);
        for i in 0..c.n(30) {
            n += 1;
            let (s, t, per, pol) = (r.next(), 1 + r.usize(6), if i == 3 { 700 } else { 10 + r.usize(40) }, r.below(3) as u8);
            c.case(format!("seed {s}, {t} threads x {per} appends, fsync policy {pol}"), || appends(&rt, &dir, n, s, t, per, pol, i == 3));
        }
    }
    if c.group("drain") {
        let mut r = Rng::new(c.seed ^ 0x53);
        for _ in 0..c.n(40) {
            n += 1;
            let (s, k, pol) = (r.next(), 1 + r.usize(300), r.below(3) as u8);
            c.case(format!("seed {s}, {k} records then shutdown, fsync policy {pol}"), || drain(&rt, &dir, n, s, k, pol));
        }
    }
    if c.group("lost") {
        let mut r = Rng::new(c.seed ^ 0x54);
        for _ in 0..c.n(12) {
            n += 1;
            let (s, b, room, d, a) = (r.next(), r.usize(4), r.below(90), 1 + r.usize(3), r.usize(4));
            c.case(format!("seed {s}: {b} records, a commit, device full after {room} more bytes, {d} records, device back, {a} records"), || lost(&rt, &dir, n, s, b, room, d, a));
        }
    }
    c.done();
}
