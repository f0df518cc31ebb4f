#[path = "common.rs"]
#[macro_use]
mod common;
use common::*;
use ferrite::storage::page::page_types::b_plus_tree_leaf_page::BPlusTreeLeafPage;
use ferrite::storage::page::PageTrait;
use std::cmp::Ordering;
use std::collections::BTreeMap;

type Cmp = fn(&i32, &i32) -> Ordering;
type Leaf = BPlusTreeLeafPage<i32, u64, Cmp>;
fn asc(a: &i32, b: &i32) -> Ordering { a.cmp(b) }
fn desc(a: &i32, b: &i32) -> Ordering { b.cmp(a) }

fn entries(p: &Leaf) -> Vec<(i32, u64)> {
    (0..p.get_size()).map(|i| (*p.get_key_at(i).unwrap(), *p.get_value_at(i).unwrap())).collect()
}

fn same(p: &Leaf, m: &BTreeMap<i32, u64>, down: bool) -> Res {
    let mut want: Vec<(i32, u64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    if down { want.reverse(); }
    ckeq!(p.get_size(), want.len(), "size");
    ckeq!(entries(p), want, "entries");
    ck!(p.get_key_at(want.len()).is_none() && p.get_value_at(want.len()).is_none() && p.get_key_at(usize::MAX).is_none(), "entry past the end");
    Ok(())
}

fn probes(p: &Leaf, m: &BTreeMap<i32, u64>, keys: &[i32], down: bool) -> Res {
    for k in keys {
        let want = m.keys().filter(|x| if down { *x > k } else { *x < k }).count();
        ckeq!(p.find_key_index(k), want, format!("find_key_index({k})"));
    }
    Ok(())
}

fn history(ops: &[(u8, i32, u64)], max: usize, down: bool) -> Res {
    let mut p: Leaf = BPlusTreeLeafPage::new_with_options(7, max, if down { desc as Cmp } else { asc as Cmp });
    let mut m = BTreeMap::new();
    let mut next = None;
    for (i, (op, k, v)) in ops.iter().enumerate() {
        let at = format!("after op {i}");
        p.set_dirty(false);
        let ki: Vec<i32> = { let mut x: Vec<i32> = m.keys().cloned().collect(); if down { x.reverse(); } x };
        match op {
            0 | 1 | 2 => {
                let room = m.len() < max;
                let before = entries(&p);
                let r = p.insert_key_value(*k, *v);
                ckeq!(r, room, format!("insert({k}) with {} of {max} entries, {at}", m.len()));
                if r { m.insert(*k, *v); ck!(p.is_dirty(), "insert left the page clean, {at}"); } else { ckeq!(entries(&p), before, "refused insert changed the page"); }
            }
            3 => {
                ck!(p.insert_key_value_with_overflow(*k, *v), "overflow insert refused, {at}");
                m.insert(*k, *v);
                ck!(p.is_dirty(), "overflow insert left the page clean");
            }
            4 | 5 => {
                let idx = *v as usize % (ki.len() + 2);
                let r = p.remove_key_value_at(idx);
                ckeq!(r, idx < ki.len(), format!("remove at {idx}, {at}"));
                if r { m.remove(&ki[idx]); ck!(p.is_dirty(), "remove left the page clean"); }
            }
            6 => {
                let idx = *v as usize % (ki.len() + 2);
                let r = p.set_value_at(idx, *v);
                ckeq!(r, idx < ki.len(), format!("set value at {idx}, {at}"));
                if r { m.insert(ki[idx], *v); ck!(p.is_dirty(), "set_value_at left the page clean"); }
            }
            7 => {
                next = if v % 3 == 0 { None } else { Some(*v) };
                p.set_next_page_id(next);
            }
            _ => {
                let mut buf = vec![0u8; 64 * 1024];
                p.serialize(&mut buf);
                // read into an unrelated page: smaller or larger, empty or filled
                let mut q: Leaf = BPlusTreeLeafPage::new_with_options(7, if v % 2 == 0 { 1 } else { max + 7 }, if down { desc as Cmp } else { asc as Cmp });
                for x in 0..(v % 3) as i32 { q.insert_key_value(x, 77); }
                q.set_next_page_id(Some(1234));
                q.deserialize(&buf);
                same(&q, &m, down).map_err(|e| format!("read back from bytes: {e}"))?;
                ckeq!(q.get_next_page_id(), next, "next leaf, read back");
                ckeq!(q.get_max_size(), max, "max size, read back");
                p = q;
            }
        }
        same(&p, &m, down).map_err(|e| format!("{e}, {at}"))?;
        ckeq!(p.get_next_page_id(), next, "next leaf");
        ckeq!(p.get_max_size(), max, "max size");
        ckeq!(p.get_page_id(), 7, "page id");
        let mut ks: Vec<i32> = m.keys().flat_map(|k| [k.wrapping_sub(1), *k, k.wrapping_add(1)]).collect();
        ks.extend([i32::MIN, i32::MAX, *k]);
        probes(&p, &m, &ks, down).map_err(|e| format!("{e}, {at}"))?;
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    if c.group("small-exhaustive") {
        // every sequence of 4 operations over two keys / slots, capacities 1..3
        for max in 1..=3usize { for down in [false, true] {
            let alpha: Vec<(u8, i32, u64)> = vec![(0, 1, 10), (0, 2, 20), (0, 3, 30), (3, 1, 11), (3, 4, 41), (4, 0, 0), (4, 0, 1), (4, 0, 2), (6, 0, 1), (8, 0, 0), (8, 0, 5)];
            let n = alpha.len();
            for code in 0..n.pow(4) {
                let ops: Vec<_> = (0..4).map(|i| alpha[code / n.pow(i) % n]).collect();
                c.case(format!("max={max} down={down} ops={ops:?}"), || history(&ops, max, down));
            }
        } }
    }
    if c.group("random-history") {
        let mut r = Rng::new(c.seed);
        for i in 0..c.n(1500) {
            let max = 1 + r.usize(40);
            let down = r.bool();
            let span = *r.pick(&[6i64, 30, 200, i32::MAX as i64]);
            let n = 1 + r.usize(if i % 10 == 0 { 160 } else { 40 });
            let ops: Vec<(u8, i32, u64)> = (0..n).map(|_| (r.below(9) as u8, if span > 1000 { r.edge() as i32 } else { r.range(-span, span) as i32 }, r.next() % 100000)).collect();
            c.case(format!("max={max} down={down} ops={ops:?}"), || history(&ops, max, down));
        }
    }
    c.done();
}
