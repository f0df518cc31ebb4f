// C04/C06: histories of transactions over one table heap against a multi-version model.
mod common;
use common::*;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::LockManager;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use ferrite::concurrency::transaction_manager::TransactionManager;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::storage::table::table_heap::TableHeap;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::storage::table::tuple::{Tuple, TupleMeta, TupleVisibility};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use parking_lot::RwLock;
use std::collections::HashMap;
use std::sync::Arc;

fn schema() -> Schema { Schema::new(vec![Column::new("k", TypeId::Integer), Column::new("v", TypeId::VarChar)]) }
fn vals(v: u32) -> Vec<Value> { vec![Value::new(v as i32), Value::new("x".repeat((v as usize * 37) % 90))] }
const ISO: [IsolationLevel; 5] = [IsolationLevel::ReadUncommitted, IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable, IsolationLevel::Snapshot];

struct World { bpm: Arc<BufferPoolManager>, rt: tokio::runtime::Runtime }
fn world(dir: &str, pool: usize) -> World {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let bpm = rt.block_on(async {
        let dm = AsyncDiskManager::new(format!("{dir}/m.db"), format!("{dir}/m.log"), DiskManagerConfig::default()).await.unwrap();
        Arc::new(BufferPoolManager::new(pool, Arc::new(dm), Arc::new(RwLock::new(LRUKReplacer::new(pool, 2)))).unwrap())
    });
    World { bpm, rt }
}

// model: every row is a stack of versions, oldest first
#[derive(Clone, Debug)]
struct Ver { by: usize, ts: Option<u64>, val: Option<u32> }
// found: the metadata of each row when the transaction first wrote it
struct T { txn: Arc<Transaction>, ctx: Arc<TransactionContext>, iso: IsolationLevel, state: u8, found: HashMap<RID, TupleMeta> }
struct S { tm: Arc<TransactionManager>, heap: Arc<TransactionalTableHeap>, lm: Arc<LockManager>, txns: Vec<T>, rows: Vec<(RID, Vec<Ver>)>, next: u32 }

fn expect(s: &S, t: usize, row: &[Ver]) -> Option<u32> {
    let tx = &s.txns[t];
    let top = row.last()?;
    let ok = |v: &Ver| match tx.iso {
        IsolationLevel::ReadUncommitted => true,
        IsolationLevel::ReadCommitted => v.by == t || v.ts.is_some(),
        _ => v.by == t || v.ts.is_some_and(|c| c <= tx.txn.read_ts()),
    };
    let _ = top;
    row.iter().rev().find(|v| ok(v)).and_then(|v| v.val)
}

fn value_of(t: &Tuple) -> String { format!("{:?}", t.get_values()) }

fn check(s: &S, what: &str) -> Res {
    for (t, tx) in s.txns.iter().enumerate() {
        if tx.state != 0 { continue; }
        let mut seen = vec![];
        for (rid, row) in &s.rows {
            let want = expect(s, t, row);
            let got = s.heap.get_tuple(*rid, tx.ctx.clone());
            match (&want, &got) {
                (None, Err(_)) => {}
                (Some(v), Ok((_, tp))) => { ckeq!(value_of(tp), format!("{:?}", vals(*v)), format!("{what}: txn {t} ({:?}) reads row {rid:?}", tx.iso)); ckeq!(tp.get_rid(), *rid, format!("{what}: rid of the row read")); seen.push((*rid, *v)); }
                _ => return Err(format!("{what}: txn {t} ({:?}, read ts {}) reads row {rid:?}: got {:?}, want value {want:?}; versions {row:?}", tx.iso, tx.txn.read_ts(), got.as_ref().map(|g| value_of(&g.1)).map_err(|e| e.clone()))),
            }
            let g2 = s.heap.get_table_heap().get_tuple_with_txn(*rid, tx.ctx.clone());
            match (&want, &g2) {
                (None, Err(_)) => {}
                (Some(v), Ok((_, tp))) => { ckeq!(value_of(tp), format!("{:?}", vals(*v)), format!("{what}: txn {t} ({:?}) get_tuple_with_txn of row {rid:?}", tx.iso)); }
                _ => return Err(format!("{what}: txn {t} ({:?}) get_tuple_with_txn of row {rid:?}: got {:?}, want value {want:?}", tx.iso, g2.as_ref().map(|g| value_of(&g.1)).map_err(|e| e.clone()))),
            }
        }
        // a scan returns exactly the visible rows, each once
        let mut got: Vec<String> = s.heap.make_iterator(Some(tx.ctx.clone())).map(|(_, t)| format!("{:?} {}", t.get_rid(), value_of(&t))).collect();
        let mut want: Vec<String> = seen.iter().map(|(r, v)| format!("{r:?} {:?}", vals(*v))).collect();
        got.sort(); want.sort();
        ckeq!(got, want, format!("{what}: scan by txn {t} ({:?})", tx.iso));
    }
    Ok(())
}

// ops: (kind, txn selector, row selector)
fn history(w: &World, oid: u64, ops: &[(u8, usize, usize)], gc_every: bool) -> Res {
    let tm = Arc::new(TransactionManager::new());
    let heap = Arc::new(TransactionalTableHeap::new(Arc::new(TableHeap::new(w.bpm.clone(), oid)), oid));
    tm.register_table(heap.clone());
    let lm = Arc::new(LockManager::new());
    let mut s = S { tm: tm.clone(), heap, lm, txns: vec![], rows: vec![], next: 1 };
    let mut last_ts = 0u64;
    for (i, &(op, a, b)) in ops.iter().enumerate() {
        let live: Vec<usize> = (0..s.txns.len()).filter(|t| s.txns[*t].state == 0).collect();
        let what = format!("op {i} {:?}", (op, a, b));
        if op == 0 || live.is_empty() {
            let iso = ISO[a % 5];
            let txn = s.tm.begin(iso).map_err(|e| format!("{what}: begin: {e}"))?;
            ck!(txn.read_ts() > last_ts, "{what}: read timestamp {} is not after {last_ts}", txn.read_ts());
            last_ts = txn.read_ts();
            ckeq!(txn.get_state(), TransactionState::Running, "state after begin");
            let ctx = Arc::new(TransactionContext::new(txn.clone(), s.lm.clone(), s.tm.clone()));
            s.txns.push(T { txn, ctx, iso, state: 0, found: HashMap::new() });
        } else {
            let t = live[a % live.len()];
            let ctx = s.txns[t].ctx.clone();
            let r = if s.rows.is_empty() { 0 } else { b % s.rows.len() };
            match op {
                1 => {
                    let v = s.next; s.next += 1;
                    let rid = s.heap.insert_tuple_from_values(vals(v), &schema(), ctx).map_err(|e| format!("{what}: insert: {e}"))?;
                    ck!(!s.rows.iter().any(|x| x.0 == rid), "{what}: rid {rid:?} given out twice");
                    s.rows.push((rid, vec![Ver { by: t, ts: None, val: Some(v) }]));
                }
                2 | 3 if !s.rows.is_empty() => {
                    let rid = s.rows[r].0;
                    let top = s.rows[r].1.last().cloned();
                    let may = top.as_ref().is_some_and(|v| v.val.is_some() && (v.by == t || v.ts.is_some()));
                    let v = s.next; s.next += 1;
                    let found = s.heap.get_table_heap().get_tuple_internal(rid, true).map_err(|e| format!("{what}: {e}"))?.0.as_ref().clone();
                    let res = if op == 2 {
                        let tp = Tuple::new(&vals(v), &schema(), rid);
                        s.heap.update_tuple(&TupleMeta::new(s.txns[t].txn.get_transaction_id()), &tp, rid, ctx).map(|_| ())
                    } else { s.heap.delete_tuple(rid, ctx) };
                    if may { ck!(res.is_ok(), "{what}: refused: {res:?}; versions {:?}", s.rows[r].1); } else { ck!(res.is_err(), "{what}: write over {top:?} accepted"); }
                    if res.is_ok() { if !s.rows[r].1.iter().any(|v| v.by == t) { s.txns[t].found.insert(rid, found); } s.rows[r].1.push(Ver { by: t, ts: None, val: if op == 2 { Some(v) } else { None } }); }
                }
                4 => {
                    let ok = w.rt.block_on(s.tm.commit(s.txns[t].txn.clone(), w.bpm.clone()));
                    ck!(ok, "{what}: commit refused");
                    let ts = s.txns[t].txn.commit_ts();
                    ck!(ts > last_ts, "{what}: commit timestamp {ts} is not after {last_ts}");
                    last_ts = ts;
                    ckeq!(s.txns[t].txn.get_state(), TransactionState::Committed, "state after commit");
                    s.txns[t].state = 1;
                    for (_, row) in &mut s.rows { for v in row.iter_mut() { if v.by == t { v.ts = Some(ts); } } }
                    // only the last version written by a committed transaction ever counts
                    for (_, row) in &mut s.rows { let n = row.len(); for k in (0..n.saturating_sub(1)).rev() { if row[k].by == t && row[k + 1].by == t { row.remove(k); } } }
                }
                5 => {
                    s.tm.abort(s.txns[t].txn.clone());
                    ckeq!(s.txns[t].txn.get_state(), TransactionState::Aborted, "state after abort");
                    s.txns[t].state = 2;
                    for (_, row) in &mut s.rows { row.retain(|v| v.by != t); }
                    for (rid, m) in &s.txns[t].found {
                        let now = s.heap.get_table_heap().get_tuple_internal(*rid, true).map_err(|e| format!("{what}: {e}"))?.0;
                        ckeq!((now.get_creator_txn_id(), now.get_commit_timestamp(), now.is_deleted()), (m.get_creator_txn_id(), m.get_commit_timestamp(), m.is_deleted()), format!("{what}: creator, commit stamp and deletion mark of row {rid:?} after the abort"));
                    }
                    ck!(!w.rt.block_on(s.tm.commit(s.txns[t].txn.clone(), w.bpm.clone())), "{what}: an aborted transaction commits");
                    ckeq!(s.txns[t].txn.get_state(), TransactionState::Aborted, "state after commit of an aborted transaction");
                }
                6 => s.tm.garbage_collection(),
                7 => { // finished transactions stay finished
                    for x in &s.txns { if x.state == 1 { s.tm.abort(x.txn.clone()); ckeq!(x.txn.get_state(), TransactionState::Committed, "state after abort of a committed transaction"); } }
                }
                _ => {}
            }
        }
        if gc_every { s.tm.garbage_collection(); }
        // the watermark never passes a running transaction's snapshot
        let wm = s.tm.get_watermark();
        for (k, x) in s.txns.iter().enumerate() { if x.state == 0 { ck!(wm <= x.txn.read_ts(), "{what}: watermark {wm} is past the snapshot {} of running txn {k}", x.txn.read_ts()); } }
        check(&s, &what)?;
    }
    for k in 0..s.txns.len() { if s.txns[k].state == 0 { s.tm.abort(s.txns[k].txn.clone()); s.txns[k].state = 2; for (_, row) in &mut s.rows { row.retain(|v| v.by != k); } } }
    // fresh readers of every level agree on the committed state
    for iso in ISO {
        let txn = s.tm.begin(iso).unwrap();
        let ctx = Arc::new(TransactionContext::new(txn.clone(), s.lm.clone(), s.tm.clone()));
        s.txns.push(T { txn, ctx, iso, state: 0, found: HashMap::new() });
    }
    check(&s, "at the end")
}

fn main() {
    let mut c = Ctx::new();
    if c.group("visibility") {
        let ts = [0u64, 1, 2, 5, 6, u64::MAX - 1, u64::MAX];
        for cr in [0u64, 1, 2, u64::MAX] { for me in [0u64, 1, 2, u64::MAX] { for ct in [None, Some(0u64), Some(1), Some(5), Some(6), Some(u64::MAX - 1), Some(u64::MAX)] { for del in [false, true] { for rt in ts {
            c.case(format!("creator {cr} reader {me} commit {ct:?} deleted {del} read ts {rt}"), || {
                let mut m = TupleMeta::new_with_delete(cr, del); m.set_commit_timestamp_opt(ct);
                let seen = cr == me || ct.is_some_and(|x| x <= rt);
                let want = if !seen { TupleVisibility::Invisible } else if del { TupleVisibility::Deleted } else { TupleVisibility::Visible };
                ckeq!(m.visibility_status(me, rt), want, "visibility_status");
                ckeq!(m.is_applicable_to(me, rt), seen, "is_applicable_to");
                ckeq!(m.is_visible_to(me, rt), seen && !del, "is_visible_to");
                for iso in ISO {
                    let t = Transaction::new(me, iso); t.set_read_ts(rt);
                    let w = !del && match iso { IsolationLevel::ReadUncommitted => true, IsolationLevel::ReadCommitted => cr == me || ct.is_some(), _ => seen };
                    ckeq!(t.is_tuple_visible(&m), w, format!("is_tuple_visible under {iso:?}"));
                }
                Ok(())
            });
        } } } } }
    }
    let dir = std::env::var("VP_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
    let w = world(&dir, 64);
    let _g = w.rt.enter();
    let mut oid = 1u64;
    // one row, two writers, two readers: every order of a few steps
    if c.group("small-exhaustive") {
        let al: Vec<(u8, usize, usize)> = vec![(0, 2, 0), (0, 1, 0), (2, 0, 0), (2, 1, 0), (3, 0, 0), (4, 0, 0), (4, 1, 0), (5, 0, 0), (5, 1, 0), (6, 0, 0)];
        let n = al.len();
        let len = if c.thorough { 5 } else { 4 };
        for code in 0..n.pow(len) {
            let mut ops = vec![(0u8, 2usize, 0usize), (1, 0, 0), (4, 0, 0), (0, 4, 0), (0, 1, 0)];
            ops.extend((0..len).map(|i| al[code / n.pow(i) % n]));
            oid += 1;
            c.case(format!("{ops:?}"), || history(&w, oid, &ops, false));
        }
    }
    if c.group("random-history") {
        let mut r = Rng::new(c.seed ^ 0x33);
        for _ in 0..c.n(250) {
            let n = 8 + r.usize(40);
            let ops: Vec<_> = (0..n).map(|_| (*r.pick(&[0u8, 0, 1, 1, 2, 2, 2, 3, 4, 4, 5, 6, 7]), r.usize(12), r.usize(6))).collect();
            oid += 1;
            let gc = r.chance(1, 3);
            c.case(format!("gc after every step: {gc}; {ops:?}"), || history(&w, oid, &ops, gc));
        }
    }
    c.done();
}
