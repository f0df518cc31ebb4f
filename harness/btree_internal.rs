#[path = "common.rs"]
#[macro_use]
mod common;
use common::*;
use ferrite::storage::page::page_types::b_plus_tree_internal_page::BPlusTreeInternalPage;
use ferrite::storage::page::PageTrait;
use std::cmp::Ordering;

type Cmp = fn(&i32, &i32) -> Ordering;
type Node = BPlusTreeInternalPage<i32, Cmp>;
fn asc(a: &i32, b: &i32) -> Ordering { a.cmp(b) }
fn desc(a: &i32, b: &i32) -> Ordering { b.cmp(a) }

#[derive(Clone, Debug)]
struct M { keys: Vec<i32>, vals: Vec<u64>, max: usize, root: bool, down: bool }
impl M {
    fn less(&self, a: i32, b: i32) -> bool { if self.down { a > b } else { a < b } }
    fn point(&self, k: i32) -> usize { self.keys.iter().filter(|x| self.less(**x, k)).count() }
    fn child(&self, k: i32) -> Option<u64> { if self.keys.is_empty() { None } else { Some(self.vals[self.keys.iter().filter(|x| !self.less(k, **x)).count()]) } }
}
fn dump(p: &Node) -> (Vec<i32>, Vec<u64>) {
    let mut k = vec![]; let mut i = 0;
    while let Some(x) = p.get_key_at(i) { k.push(x); i += 1; }
    let mut v = vec![]; let mut i = 0;
    while let Some(x) = p.get_value_at(i) { v.push(x); i += 1; }
    (k, v)
}
fn same(p: &Node, m: &M) -> Res {
    let (k, v) = dump(p);
    ckeq!(k, m.keys, "separators"); ckeq!(v, m.vals, "children");
    ckeq!(p.get_size(), m.keys.len(), "size");
    ckeq!(p.is_root(), m.root, "root flag");
    ckeq!(p.get_max_size(), m.max, "max size");
    ckeq!(p.get_min_size(), m.max / 2, "min size");
    ckeq!(p.get_first_key(), m.keys.first().cloned(), "first key");
    ckeq!(p.get_last_key(), m.keys.last().cloned(), "last key");
    ckeq!(p.is_underfull(), !m.root && !m.keys.is_empty() && m.keys.len() < m.max / 2, "underfull");
    ckeq!(p.can_donate_key(), m.keys.len() > m.max / 2, "can donate");
    ckeq!(p.should_collapse_root(), m.root && m.keys.is_empty(), "collapse");
    ckeq!(p.get_only_child_page_id(), if m.root && m.keys.is_empty() { m.vals.first().cloned() } else { None }, "only child");
    let mut ks: Vec<i32> = m.keys.iter().flat_map(|k| [k.wrapping_sub(1), *k, k.wrapping_add(1)]).collect();
    ks.extend([i32::MIN, i32::MAX, 0]);
    for k in ks {
        ckeq!(p.find_key_index(&k), m.point(k), format!("find_key_index({k})"));
        ckeq!(p.find_child_for_key(&k), m.child(k), format!("child for key {k}"));
    }
    Ok(())
}
fn new(m: &M) -> Node {
    let f = if m.down { desc as Cmp } else { asc as Cmp };
    if m.root { Node::new_root_page(3, m.max, f) } else { Node::new_with_options(3, m.max, f) }
}
fn history(ops: &[(u8, i32, u64)], max: usize, down: bool, root: bool) -> Res {
    let mut m = M { keys: vec![], vals: vec![], max, root, down };
    let mut p = new(&m);
    for (i, (op, k, v)) in ops.iter().enumerate() {
        let (k, v) = (*k, *v);
        let full = m.keys.len() >= max;
        let before = dump(&p);
        p.set_dirty(false);
        let mut did = true;
        match op {
            0 | 1 | 2 => {
                let r = p.insert_key_value(k, v);
                ckeq!(r, !full, format!("op {i}: insert({k},{v}) accepted"));
                did = r;
                if r {
                    let at = m.point(k);
                    if m.keys.is_empty() { if m.vals.is_empty() { m.vals.push(v); } m.keys.push(k); m.vals.push(v); }
                    else if m.keys.get(at) == Some(&k) { m.vals[at + 1] = v; }
                    else { m.keys.insert(at, k); m.vals.insert(at + 1, v); }
                }
            }
            3 => {
                let idx = v as usize % (m.keys.len() + 2);
                let r = p.remove_key_value_at(idx);
                did = r;
                ckeq!(r, idx < m.keys.len(), format!("op {i}: remove at {idx}"));
                if r {
                    m.keys.remove(idx);
                    if m.keys.is_empty() { if m.root { m.vals.truncate(1); } else { m.vals.clear(); } } else { m.vals.remove(idx + 1); }
                }
            }
            4 => {
                let r = p.populate_new_root(v, k, v + 1);
                let want = m.keys.is_empty() && m.vals.is_empty();
                ckeq!(r, want, format!("op {i}: populate"));
                did = r;
                if r { m.root = true; m.keys = vec![k]; m.vals = vec![v, v + 1]; }
            }
            5 => {
                let Some(f) = m.keys.first().cloned() else { continue };
                let pk = if down { f.saturating_add(1) } else { f.saturating_sub(1) };
                if pk == f { continue; }
                let r = p.borrow_from_left(pk, v);
                ckeq!(r, !full, format!("op {i}: borrow left"));
                did = r;
                if r { m.keys.insert(0, pk); m.vals.insert(0, v); }
            }
            6 => {
                let Some(f) = m.keys.last().cloned() else { continue };
                let pk = if down { f.saturating_sub(1) } else { f.saturating_add(1) };
                if pk == f { continue; }
                let r = p.borrow_from_right(pk, v);
                ckeq!(r, !full, format!("op {i}: borrow right"));
                did = r;
                if r { m.keys.push(pk); m.vals.push(v); }
            }
            7 => {
                let Some(f) = m.keys.last().cloned() else { continue };
                let n = 1 + v as usize % 4;
                if f > i32::MAX - 10 || f < i32::MIN + 10 { continue; }
                let s = if down { -1 } else { 1 };
                let pk = f + s;
                let rk: Vec<i32> = (0..n as i32).map(|j| f + s * (2 + j)).collect();
                let rv: Vec<u64> = (0..=n as u64).map(|j| v * 10 + j).collect();
                let fits = m.keys.len() + 1 + n <= max;
                let r = p.merge_with_right_sibling(pk, rk.clone(), rv.clone());
                ckeq!(r, fits, format!("op {i}: merge of {n} keys accepted"));
                did = r;
                if r { m.keys.push(pk); m.keys.extend(rk); m.vals.extend(rv); }
            }
            _ => { m.root = v % 2 == 0; p.set_root_status(m.root); }
        }
        if !did { ckeq!(dump(&p), before, format!("op {i}: a refused operation changed the node")); }
        else { ck!(p.is_dirty(), "op {i}: changed node is clean"); }
        same(&p, &m).map_err(|e| format!("after op {i}: {e}"))?;
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    if c.group("small-exhaustive") {
        let alpha: Vec<(u8, i32, u64)> = vec![(0, 1, 10), (0, 3, 30), (0, 5, 50), (3, 0, 0), (3, 0, 1), (3, 0, 2), (4, 3, 7), (5, 0, 8), (6, 0, 9), (7, 0, 0)];
        let n = alpha.len();
        for max in [1usize, 2, 4] { for down in [false, true] { for root in [false, true] {
            for code in 0..n.pow(4) {
                let ops: Vec<_> = (0..4).map(|i| alpha[code / n.pow(i) % n]).collect();
                c.case(format!("max={max} down={down} root={root} ops={ops:?}"), || history(&ops, max, down, root));
            }
        } } }
    }
    if c.group("random-history") {
        let mut r = Rng::new(c.seed);
        for _ in 0..c.n(2500) {
            let (max, down, root) = (1 + r.usize(30), r.bool(), r.bool());
            let span = *r.pick(&[6i64, 40, 1 << 30]);
            let n = 1 + r.usize(60);
            let ops: Vec<(u8, i32, u64)> = (0..n).map(|_| (*r.pick(&[0, 0, 0, 0, 1, 3, 3, 4, 5, 6, 7, 8]), r.range(-span, span) as i32, 1 + r.below(100000))).collect();
            c.case(format!("max={max} down={down} root={root} ops={ops:?}"), || history(&ops, max, down, root));
        }
    }
    c.done();
}
