// C03: a table page against a list of (meta, values), with the byte image checked after every step.
mod common;
use common::*;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::config::DB_PAGE_SIZE;
use ferrite::common::rid::RID;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::{Page, PageTrait};
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;

const PID: u64 = 7;
fn schema() -> Schema { Schema::new(vec![Column::new("a", TypeId::VarChar)]) }
fn tup(n: usize, tag: u8, rid: RID) -> Tuple { Tuple::new(&[Value::new(((b'a' + tag % 26) as char).to_string().repeat(n))], &schema(), rid) }
fn meta(m: u64) -> TupleMeta {
    let mut t = TupleMeta::new_with_delete(m % 1000, m % 7 == 3);
    if m % 3 == 1 { t.set_commit_timestamp(m.wrapping_mul(1_000_003)); }
    if m % 5 == 2 { t.set_undo_log_idx(m.wrapping_mul(77) as usize).unwrap(); }
    t
}
#[derive(Clone, Debug, PartialEq)]
struct M { rows: Vec<(TupleMeta, usize, u8)>, next: u64, prev: u64 }

fn same(p: &TablePage, m: &M, what: &str) -> Res {
    ckeq!(p.get_page_id(), PID, format!("{what}: page id"));
    ckeq!(p.get_num_tuples() as usize, m.rows.len(), format!("{what}: tuple count"));
    ckeq!(p.get_num_deleted_tuples() as usize, m.rows.iter().filter(|r| r.0.is_deleted()).count(), format!("{what}: deleted rows"));
    ckeq!(p.get_next_page_id(), m.next, format!("{what}: next page"));
    ckeq!(p.get_prev_page_id(), m.prev, format!("{what}: prev page"));
    for (i, (mt, n, tag)) in m.rows.iter().enumerate() {
        let rid = RID::new(PID, i as u32);
        let (gm, gt) = p.get_tuple(&rid, true).map_err(|e| format!("{what}: row {i} unreadable: {e}"))?;
        ckeq!(gm, *mt, format!("{what}: meta of row {i}"));
        ckeq!(p.get_tuple_meta(&rid), Ok(*mt), format!("{what}: get_tuple_meta of row {i}"));
        ck!(gt == tup(*n, *tag, rid), "{what}: row {i} reads back different values (want {n} bytes of tag {tag})");
        ckeq!(gt.get_rid(), rid, format!("{what}: rid of row {i}"));
        ckeq!(p.get_tuple(&rid, false).is_ok(), !mt.is_deleted(), format!("{what}: row {i} readable when live"));
    }
    let over = RID::new(PID, m.rows.len() as u32);
    ck!(p.get_tuple(&over, true).is_err() && p.get_tuple_meta(&over).is_err(), "{what}: a slot past the end is readable");
    ck!(p.get_tuple(&RID::new(PID + 1, 0), true).is_err(), "{what}: another page's rid is readable");
    Ok(())
}

fn full(p: &TablePage, m: &M, what: &str) -> Res {
    same(p, m, what)?;
    // serialize / deserialize
    let img = p.serialize();
    let q = TablePage::deserialize(&img).map_err(|e| format!("{what}: own image refused: {e}"))?;
    same(&q, m, &format!("{what}, from serialize()"))?;
    // the image the buffer pool writes out, loaded the way the buffer pool loads it
    let mut q = TablePage::new(PID);
    q.set_data(0, &p.get_data()[..]).map_err(|_| format!("{what}: set_data refused the image"))?;
    same(&q, m, &format!("{what}, from the buffer pool's image"))
}

// op: 0 insert, 1 update tuple, 2 update meta, 3 next, 4 prev, 5 insert with rid, 6 reload
fn history(ops: &[(u8, usize, usize, u64)]) -> Res {
    let mut p = TablePage::new(PID);
    p.init();
    let mut m = M { rows: vec![], next: p.get_next_page_id(), prev: p.get_prev_page_id() };
    for (i, &(op, slot, n, mm)) in ops.iter().enumerate() {
        let mt = meta(mm);
        let tag = (mm % 26) as u8;
        let before = m.clone();
        match op {
            0 | 5 => {
                let rid = RID::new(PID, m.rows.len() as u32);
                let t = tup(n, tag, rid);
                let fits = p.has_space_for(&mt, &t);
                let used: usize = m.rows.iter().map(|r| r.1 + 40).sum();
                if n + used + 200 < DB_PAGE_SIZE as usize && !ops[..i].iter().any(|o| o.0 == 1) { ck!(fits && n <= 3500 || n > 3400, "op {i}: a page with plenty of room refuses {n} bytes"); }
                let r = if op == 0 { p.insert_tuple(&mt, &t) } else { p.insert_tuple_with_rid(&mt, &t, rid) };
                ckeq!(r, if fits { Some(rid) } else { None }, format!("op {i}: insert {n} bytes"));
                if fits { m.rows.push((mt, n, tag)); ck!(p.is_dirty(), "op {i}: page is clean after insert"); }
            }
            1 => {
                let s = slot % (m.rows.len() + 1);
                let rid = RID::new(PID, s as u32);
                let r = p.update_tuple(mt, &tup(n, tag, rid), rid);
                if s == m.rows.len() { ck!(r.is_err(), "op {i}: update of a missing slot accepted"); }
                else if r.is_ok() { m.rows[s] = (mt, n, tag); }
                else { ck!(n > m.rows[s].1, "op {i}: shrinking update refused"); }
            }
            2 => {
                let s = slot % (m.rows.len() + 1);
                let r = p.update_tuple_meta(mt, &RID::new(PID, s as u32));
                if s == m.rows.len() { ck!(r.is_err(), "op {i}: meta update of a missing slot accepted"); }
                else if r.is_ok() { m.rows[s].0 = mt; }
            }
            3 => { p.set_next_page_id(mm); m.next = mm; }
            4 => { p.set_prev_page_id(mm); m.prev = mm; }
            _ => {
                let img = p.serialize();
                p = TablePage::deserialize(&img).map_err(|e| format!("op {i}: own image refused: {e}"))?;
            }
        }
        full(&p, &m, &format!("after op {i} (was {} rows)", before.rows.len()))?;
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    if c.group("small-exhaustive") {
        let al: Vec<(u8, usize, usize, u64)> = vec![(0, 0, 10, 4), (0, 0, 1300, 8), (1, 0, 40, 12), (1, 1, 5, 16), (1, 0, 1500, 3), (2, 0, 0, 10), (2, 1, 0, 997 * 7 + 3), (3, 0, 0, 99), (6, 0, 0, 0)];
        let n = al.len();
        for code in 0..n.pow(4) {
            let ops: Vec<_> = (0..4).map(|i| al[code / n.pow(i) % n]).collect();
            c.case(format!("{ops:?}"), || history(&ops));
        }
    }
    if c.group("random-history") {
        let mut r = Rng::new(c.seed);
        for _ in 0..c.n(700) {
            let big = *r.pick(&[3usize, 30, 200, 1200, 3600]);
            let n = 1 + r.usize(40);
            let ops: Vec<_> = (0..n).map(|_| (*r.pick(&[0u8, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6]), r.usize(60), r.usize(big), if r.bool() { r.below(4000) } else { r.next() >> 8 })).collect();
            c.case(format!("{ops:?}"), || history(&ops));
        }
    }
    if c.group("oversized-update") {
        for n in [3400usize, 3600, 4000, 4097, 65535, 65536, 65540, 65546, 131072, 131090] { for first in [3usize, 30, 3000] {
            c.case(format!("row of {first} bytes and another of 50, update the first to {n} bytes"), || {
                let mut p = TablePage::new(PID);
                p.init();
                let mut m = M { rows: vec![], next: p.get_next_page_id(), prev: p.get_prev_page_id() };
                for (s, l) in [first, 50].into_iter().enumerate() {
                    let rid = RID::new(PID, s as u32);
                    ck!(p.insert_tuple(&meta(4), &tup(l, 4, rid)).is_some(), "insert refused");
                    m.rows.push((meta(4), l, 4));
                }
                let rid = RID::new(PID, 0);
                if p.update_tuple(meta(8), &tup(n, 8, rid), rid).is_ok() { m.rows[0] = (meta(8), n, 8); ck!(n <= DB_PAGE_SIZE as usize, "accepted"); }
                full(&p, &m, "after the update")
            });
        } }
    }
    if c.group("reset") {
        c.case("insert, delete, reset_memory".into(), || {
            let mut p = TablePage::new(PID);
            p.init();
            for i in 0..3 { p.insert_tuple(&meta(3), &tup(9, 1, RID::new(PID, i))); }
            p.reset_memory();
            let m = M { rows: vec![], next: u64::MAX, prev: u64::MAX };
            same(&p, &m, "after reset")
        });
    }
    // an update must be undoable: whatever the page holds, a row that was updated can get its old bytes back
    if c.group("undo-update") {
        for big in [60usize, 500, 1500, 3000] { for small in [0usize, 1, 30] { for fill in [1usize, 20, 200, 1000] { for at in [0usize, 1, 2] {
            c.case(format!("two rows of {big} bytes, fill up with rows of {fill}, update row {at} to {small} bytes, fill up, update it back"), || {
                let mut p = TablePage::new(PID);
                p.init();
                let mut m = M { rows: vec![], next: p.get_next_page_id(), prev: p.get_prev_page_id() };
                let mut put = |p: &mut TablePage, m: &mut M, n: usize| { let rid = RID::new(PID, m.rows.len() as u32); let ok = p.insert_tuple(&meta(4), &tup(n, 4, rid)).is_some(); if ok { m.rows.push((meta(4), n, 4)); } ok };
                for _ in 0..2 { put(&mut p, &mut m, big); }
                while put(&mut p, &mut m, fill) {}
                let at = at.min(m.rows.len() - 1);
                let rid = RID::new(PID, at as u32);
                let old = m.rows[at].1;
                if small > old { return Ok(()); }
                ck!(p.update_tuple(meta(8), &tup(small, 8, rid), rid).is_ok(), "shrinking refused");
                m.rows[at] = (meta(8), small, 8);
                full(&p, &m, "after shrinking")?;
                while put(&mut p, &mut m, fill.min(20)) {}
                ck!(p.update_tuple(meta(4), &tup(old, 4, rid), rid).is_ok(), "the row's old bytes are refused");
                m.rows[at] = (meta(4), old, 4);
                full(&p, &m, "after growing back")
            });
        } } } }
    }
    // many tiny rows whose meta then grows: the slot array must not run into the rows
    if c.group("meta-growth") {
        for n in [0usize, 1, 2, 5, 20, 100] { for grow in [1u64, 13, 1_000_000_007, u64::MAX >> 8] {
            c.case(format!("fill with rows of {n} bytes, then set every meta to meta({grow})"), || {
                let mut p = TablePage::new(PID);
                p.init();
                let mut m = M { rows: vec![], next: p.get_next_page_id(), prev: p.get_prev_page_id() };
                loop {
                    let rid = RID::new(PID, m.rows.len() as u32);
                    let mt = TupleMeta::new(1);
                    if p.insert_tuple(&mt, &tup(n, 1, rid)).is_none() { break; }
                    m.rows.push((mt, n, 1));
                }
                full(&p, &m, "full page")?;
                let mut g = TupleMeta::new(grow); g.set_commit_timestamp(u64::MAX - 5); g.set_undo_log_idx(usize::MAX - 9).unwrap();
                for s in 0..m.rows.len() {
                    if p.update_tuple_meta(g, &RID::new(PID, s as u32)).is_ok() { m.rows[s].0 = g; }
                }
                full(&p, &m, "after the metas grew")
            });
        } }
    }
    if c.group("damaged-image") {
        let mut p = TablePage::new(PID);
        p.init();
        for i in 0..5 { p.insert_tuple(&meta(i), &tup(20, i as u8, RID::new(PID, i as u32))); }
        let img = p.serialize();
        let mut r = Rng::new(c.seed ^ 5);
        for _ in 0..c.n(3000) {
            let mut b = img;
            let k = 1 + r.usize(3);
            let w: Vec<(usize, u8)> = (0..k).map(|_| (if r.bool() { r.usize(120) } else { r.usize(4096) }, r.next() as u8)).collect();
            for (a, v) in &w { b[*a] = *v; }
            c.case(format!("bytes {w:?}"), || { if let Ok(q) = TablePage::deserialize(&b) { for i in 0..q.get_num_tuples() { let _ = q.get_tuple(&RID::new(q.get_page_id(), i as u32), true); } } Ok(()) });
        }
    }
    c.done();
}
