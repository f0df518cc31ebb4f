// C05: the watermark and one transaction's life cycle against small models.
#[path = "common.rs"]
#[macro_use]
mod common;
use common::*;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use ferrite::concurrency::watermark::Watermark;
use std::collections::BTreeSet;

fn wm_history(ops: &[(u8, u64)]) -> Res {
    let mut w = Watermark::new();
    let mut act: BTreeSet<u64> = BTreeSet::new();
    let mut next = 1u64;
    let mut mark = 1u64;
    for (i, &(op, x)) in ops.iter().enumerate() {
        let at = format!("op {i} {:?}", (op, x));
        let upd = |act: &BTreeSet<u64>, next: u64| act.iter().next().copied().unwrap_or(next);
        match op {
            0 => { ckeq!(w.get_next_ts(), next, at); next += 1; }
            1 => { let t = x % next; w.add_txn(t); act.insert(t); mark = upd(&act, next); }
            2 => { let v: Vec<u64> = act.iter().copied().collect(); let t = if v.is_empty() { x % next } else { v[x as usize % v.len()] }; w.remove_txn(t); act.remove(&t); mark = upd(&act, next); }
            3 => { let t = x % (next + 3); w.update_commit_ts(t); next = next.max(t + 1); mark = upd(&act, next); }
            4 => { ckeq!(w.get_next_ts_and_register(), next, at); act.insert(next); next += 1; mark = upd(&act, next); }
            5 => { let t = x % next; act.remove(&t); mark = upd(&act, next); ckeq!(w.unregister_txn(t), mark, at); }
            6 => { let t = x % (next + 3); next = next.max(t + 1); mark = upd(&act, next); ckeq!(w.update_commit_ts_and_get_watermark(t), mark, at); }
            _ => { w = w.clone_watermark(); }
        }
        ckeq!(w.get_watermark(), mark, format!("watermark after {at}, running {act:?}, next {next}"));
    }
    Ok(())
}

fn life(ops: &[u8], others: &[u64]) -> Res {
    let mut w = Watermark::new();
    let mut act: BTreeSet<u64> = BTreeSet::new();
    let mut used = 0u64;
    for _ in others { let t = w.get_next_ts_and_register(); act.insert(t); used = t; }
    for o in others { let v: Vec<u64> = act.iter().copied().collect(); if o % 2 == 0 && !v.is_empty() { let t = v[*o as usize % v.len()]; w.remove_txn(t); act.remove(&t); } }
    let mut t = Transaction::new(7, IsolationLevel::Snapshot);
    let (mut begun, mut end) = (false, 0u8);
    let (mut rts, mut cts) = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        let at = format!("step {i} of {ops:?}, other snapshots {act:?}");
        match op {
            0 if !begun => { t.begin(&mut w); begun = true; rts = t.read_ts(); ck!(rts > used, "{at}: snapshot {rts} not after {used}"); used = rts; act.insert(rts); ckeq!(t.get_state(), TransactionState::Running, at); }
            1 => { let g = t.commit(&mut w); if begun && end == 0 { end = 1; cts = t.commit_ts(); act.remove(&rts); ck!(cts > used, "{at}: commit stamp {cts} not after {used}"); used = cts; ckeq!(g, cts, at); } }
            2 => { t.abort(&mut w); if begun && end == 0 { end = 2; act.remove(&rts); } }
            3 => { let x = w.get_next_ts(); ck!(x > used, "{at}: stamp {x} given after {used}"); used = x; }
            _ => {}
        }
        if !begun { if *op != 3 && *op != 0 { return Ok(()); } continue; }
        ckeq!(t.get_state(), [TransactionState::Running, TransactionState::Committed, TransactionState::Aborted][end as usize], format!("state after {at}"));
        ckeq!(t.read_ts(), rts, format!("snapshot after {at}"));
        if end == 1 { ckeq!(t.commit_ts(), cts, format!("commit stamp after {at}")); }
        if end == 2 { ckeq!(t.commit_ts(), 0, format!("commit stamp after {at}")); }
        match act.iter().next() { Some(m) => { ckeq!(w.get_watermark(), *m, format!("watermark after {at}")); } None => ck!(w.get_watermark() <= used + 1, "watermark {} after {at}: past the next stamp", w.get_watermark()) }
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    if c.group("life-cycle") {
        for n in 0..6u32 {
            for code in 0..4usize.pow(n) {
                let mut ops = vec![0u8];
                ops.extend((0..n).map(|i| (code / 4usize.pow(i) % 4) as u8));
                for o in [&[][..], &[1], &[1, 3, 2], &[1, 1, 1, 4, 1]] { c.case(format!("{ops:?} others {o:?}"), || life(&ops, o)); }
            }
        }
    }
    if c.group("watermark-history") {
        let mut r = Rng::new(c.seed ^ 0x77);
        for _ in 0..c.n(3000) {
            let n = 1 + r.usize(60);
            let ops: Vec<(u8, u64)> = (0..n).map(|_| (*r.pick(&[0u8, 0, 1, 1, 1, 2, 2, 3, 4, 4, 5, 6, 7]), r.below(1000))).collect();
            c.case(format!("{ops:?}"), || wm_history(&ops));
        }
    }
    c.done();
}
