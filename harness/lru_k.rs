// LRU-K replacer against a list of access times per frame.
#[path = "common.rs"]
#[macro_use]
mod common;
use common::*;
use ferrite::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
use std::collections::BTreeMap;
use ferrite::common::config::FrameId;

fn tick() {
    // accesses get distinct microsecond stamps
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros();
    let t = now();
    while now() <= t {}
}

#[derive(Clone, Copy, Debug)]
enum Op { Access(FrameId), Pin(FrameId), Unpin(FrameId), Evict, Remove(FrameId) }

struct M { k: usize, t: u64, f: BTreeMap<FrameId, (Vec<u64>, bool)> }
impl M {
    fn victim(&self) -> Option<FrameId> {
        // fewer than k accesses first: fewest, then earliest first access; else the oldest k-th latest access
        self.f.iter().filter(|(_, e)| e.1).min_by_key(|(_, e)| if e.0.len() < self.k { (0, e.0.len(), e.0.first().copied().unwrap_or(u64::MAX)) } else { (1, 0, if self.k == 0 { 0 } else { e.0[0] }) }).map(|(f, _)| *f)
    }
}

fn history(k: usize, ops: &[Op]) -> Res {
    let mut r = LRUKReplacer::new(8, k);
    let mut m = M { k, t: 0, f: BTreeMap::new() };
    let drain: Vec<Op> = (0..m.f.len() + 12).map(|_| Op::Evict).collect();
    for (n, op) in ops.iter().chain(drain.iter()).enumerate() {
        let at = format!("step {n} {op:?}");
        match *op {
            Op::Access(f) => {
                tick();
                r.record_access(f, AccessType::Lookup);
                m.t += 1;
                let e = m.f.entry(f).or_insert((vec![], false));
                e.0.push(m.t);
                if e.0.len() > k { e.0.remove(0); }
            }
            Op::Pin(f) | Op::Unpin(f) => {
                let want = matches!(op, Op::Unpin(_));
                let ch = match m.f.get_mut(&f) { Some(e) if e.1 != want => { e.1 = want; true } _ => false };
                { ckeq!(r.set_evictable(f, want), ch, at); }
            }
            Op::Evict => {
                let w = m.victim();
                let g = r.evict();
                if k == 0 {
                    // every frame ties: any evictable one
                    ck!(g.is_some() == w.is_some() && g.map_or(true, |f| m.f.get(&f).is_some_and(|e| e.1)), "{at}: got {g:?}");
                } else { ckeq!(g, w, at); }
                if let Some(f) = g { m.f.get_mut(&f).unwrap().1 = false; }
            }
            Op::Remove(f) => {
                r.remove(f);
                if m.f.get(&f).is_some_and(|e| e.1) { m.f.remove(&f); }
            }
        }
        ckeq!(r.total_frames(), m.f.len(), format!("{at}: frames"));
        ckeq!(r.total_evictable_frames(), m.f.values().filter(|e| e.1).count(), format!("{at}: evictable"));
        ckeq!(r.get_k(), k, "k");
        ckeq!(r.get_replacer_size(), 8, "size");
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    if c.group("small-exhaustive") {
        let mut alpha = vec![Op::Evict];
        for f in 1..=3 { alpha.extend([Op::Access(f), Op::Unpin(f)]); }
        alpha.extend([Op::Pin(1), Op::Remove(1)]);
        let n = alpha.len();
        for k in 1..=3usize {
            for code in 0..n.pow(4) {
                // three frames seen once, then every sequence of 4
                let mut ops = vec![Op::Access(2), Op::Access(1), Op::Unpin(1), Op::Unpin(2)];
                ops.extend((0..4).map(|i| alpha[code / n.pow(i) % n]));
                c.case(format!("k={k} ops={ops:?}"), || history(k, &ops));
            }
        }
    }
    if c.group("random-history") {
        let mut r = Rng::new(c.seed);
        for _ in 0..c.n(3000) {
            let k = r.usize(5);
            let span = 1 + r.usize(8);
            let n = 1 + r.usize(60);
            let ops: Vec<Op> = (0..n).map(|_| { let f = r.usize(span) as FrameId; match r.below(10) { 0..=4 => Op::Access(f), 5..=6 => Op::Unpin(f), 7 => Op::Pin(f), 8 => Op::Evict, _ => Op::Remove(f) } }).collect();
            c.case(format!("k={k} ops={ops:?}"), || history(k, &ops));
        }
    }
    c.done();
}
