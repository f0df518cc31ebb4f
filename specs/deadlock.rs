//@include inc_lock.rs
//@assumed lock_state
//@include inc_lock_state.rs
//@assumed lock_rules
//@include inc_lock_validator.rs
//@proved
//@include inc_lock_detector.rs
// ---- a deadlock: transactions each waiting for the next, the last for the first
pub open spec fn trail(g: Graph, s: Seq<TxnId>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> edge(g, #[trigger] s[i], s[i + 1]) }
pub open spec fn ring(g: Graph, s: Seq<TxnId>) -> bool { s.len() > 0 && trail(g, s) && edge(g, s.last(), s[0]) }
pub open spec fn apart(g: Graph, v: TxnId) -> bool { forall|s: Seq<TxnId>| #[trigger] ring(g, s) ==> !s.contains(v) }
pub open spec fn highest(s: Seq<TxnId>, v: TxnId) -> bool { s.contains(v) && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= v }
pub open spec fn ring_led_by(g: Graph, v: TxnId) -> bool { exists|s: Seq<TxnId>| #[trigger] ring(g, s) && highest(s, v) }
pub open spec fn no_deadlock(g: Graph) -> bool { forall|s: Seq<TxnId>| !#[trigger] ring(g, s) }
pub open spec fn searched(g: Graph, visited: Set<TxnId>, path: Seq<TxnId>, on_path: Set<TxnId>) -> bool {
    &&& trail(g, path)
    &&& forall|v: TxnId| #[trigger] on_path.contains(v) == path.contains(v)
    &&& forall|v: TxnId| #[trigger] on_path.contains(v) ==> visited.contains(v)
    &&& forall|v: TxnId| #[trigger] visited.contains(v) && !on_path.contains(v) ==> apart(g, v)
}
pub proof fn lemma_few(s: Set<u64>) ensures s.len() <= 0x1_0000_0000_0000_0000, {
    let r = vstd::set_lib::set_int_range(0, 0x1_0000_0000_0000_0000);
    let f = |x: u64| x as int;
    vstd::set_lib::lemma_int_range(0, 0x1_0000_0000_0000_0000);
    let m = s.map(f);
    assert(vstd::relations::injective(f));
    vstd::set_lib::lemma_map_size(s, m, f);
    assert(m.subset_of(r));
    vstd::set_lib::lemma_len_subset(m, r);
}
// a transaction all of whose successors are on no circle is on none itself
pub proof fn lemma_apart(g: Graph, v: TxnId) requires forall|w: TxnId| #[trigger] edge(g, v, w) ==> apart(g, w), ensures apart(g, v), {
    assert forall|s: Seq<TxnId>| #[trigger] ring(g, s) implies !s.contains(v) by {
        if s.contains(v) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == v;
            let w = if i + 1 < s.len() { s[i + 1] } else { s[0] };
            assert(edge(g, v, w));
            assert(apart(g, w));
            assert(s.contains(w));
        }
    }
}
pub proof fn lemma_first(s: Seq<TxnId>, x: TxnId) requires s.contains(x), ensures exists|k: int| first_at(s, x, k), decreases s.len(), {
    if s.drop_last().contains(x) { lemma_first(s.drop_last(), x); let k = choose|k: int| first_at(s.drop_last(), x, k); assert(s[k] == x); assert forall|j: int| 0 <= j < k implies s[j] != x by { assert(s.drop_last()[j] == s[j]); } assert(first_at(s, x, k)); }
    else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        if i < s.len() - 1 { assert(s.drop_last()[i] == x); }
        assert forall|j: int| 0 <= j < i implies s[j] != x by { assert(s.drop_last()[j] == s[j]); }
        assert(first_at(s, x, i));
    }
}
#[verifier::external_body]
pub fn max_from(path: &Vec<TxnId>, first: TxnId) -> (r: TxnId)
    ensures !path@.contains(first) ==> r == first, forall|k: int| #[trigger] first_at(path@, first, k) ==> highest(path@.subrange(k, path@.len() as int), r),
{ *path.iter().skip_while(|&&x| x != first).max().unwrap_or(&first) }
impl DeadlockDetector {
//@fn lm DeadlockDetector::has_cycle
//@rewrite /&mut self\.waits_for/&self.waits_for/
//@rewrite /find_cycle_in_graph\(&waits_for,/find_cycle_in_graph(waits_for,/
ensures res ==> ring_led_by(self.waits_for@, *final(abort_txn)), !res ==> no_deadlock(self.waits_for@),
//@endfn
//@fn lm DeadlockDetector::find_cycle_in_graph nopub
//@rewrite /for &txn_id in waits_for\.keys\(\) \{/let vp_ks = hm_keys(waits_for); let mut vp_k: usize = 0; while vp_k < vp_ks.len() { let txn_id = vp_ks[vp_k]; vp_k = vp_k + 1;/
ensures res ==> ring_led_by(waits_for@, *final(abort_txn)), !res ==> no_deadlock(waits_for@),
//@loop 0
invariant vp_k <= vp_ks@.len(), path@.len() == 0, searched(waits_for@, visited@, path@, on_path@), forall|j: int| 0 <= j < vp_k ==> visited@.contains(#[trigger] vp_ks@[j]),
    forall|k: TxnId| #[trigger] vp_ks@.contains(k) == waits_for@.contains_key(k),
decreases vp_ks@.len() - vp_k,
//@before /false\s*\Z/
proof {
    assert forall|s: Seq<TxnId>| !#[trigger] ring(waits_for@, s) by {
        if ring(waits_for@, s) {
            let v = s.last();
            assert(edge(waits_for@, v, s[0]));
            assert(vp_ks@.contains(v));
            let j = choose|j: int| 0 <= j < vp_ks@.len() && vp_ks@[j] == v;
            assert(visited@.contains(vp_ks@[j]));
            assert(apart(waits_for@, v));
            assert(s.contains(v));
        }
    }
}
//@endfn
//@fn lm DeadlockDetector::dfs_cycle nopub
//@rewrite /for &next in edges \{/let mut vp_e: usize = 0; while vp_e < edges.len() { let next = edges[vp_e]; vp_e = vp_e + 1;/
//@rewrite /\*path\s*\.iter\(\)\s*\.skip_while\(\|&&x\| x != next\)\s*\.max\(\)\s*\.unwrap_or\(&next\)/max_from(path, next)/
requires searched(waits_for@, old(visited)@, old(path)@, old(on_path)@), !old(visited)@.contains(curr), old(path)@.len() > 0 ==> edge(waits_for@, old(path)@.last(), curr),
ensures res ==> ring_led_by(waits_for@, *final(abort_txn)),
    !res ==> final(path)@ == old(path)@ && searched(waits_for@, final(visited)@, final(path)@, final(on_path)@) && final(visited)@.contains(curr) && forall|v: TxnId| #[trigger] old(visited)@.contains(v) ==> final(visited)@.contains(v),
decreases 0x1_0000_0000_0000_0000 - old(visited)@.len(),
//@start
let ghost path0 = path@; let ghost vis0 = visited@; let ghost g = waits_for@;
proof { lemma_few(vis0.insert(curr)); }
//@before /if let Some\(edges\)/
proof {
    assert(path@ == path0.push(curr));
    assert forall|v: TxnId| #[trigger] on_path@.contains(v) == path@.contains(v) by {
        if path0.contains(v) { let i = choose|i: int| 0 <= i < path0.len() && path0[i] == v; assert(path@[i] == v); }
        assert(path@[path0.len() as int] == curr);
    }
    assert(trail(g, path@));
}
//@loop 0
invariant vp_e <= edges@.len(), g == waits_for@, g.contains_key(curr), edges@ == g[curr]@, path@ == path0.push(curr), searched(g, visited@, path@, on_path@),
    visited@.contains(curr), forall|v: TxnId| #[trigger] vis0.contains(v) ==> visited@.contains(v), visited@.len() > vis0.len(), vis0 == old(visited)@,
    forall|j: int| 0 <= j < vp_e ==> visited@.contains(#[trigger] edges@[j]) && !on_path@.contains(edges@[j]),
decreases edges@.len() - vp_e,
//@loopstart 0
let ghost v1 = visited@;
proof { lemma_few(v1); assert(edge(g, curr, edges@[vp_e as int])); }
//@before /return true;\s*\}\s*if !visited/
proof {
    lemma_first(path@, next);
    let k = choose|k: int| first_at(path@, next, k);
    let s = path@.subrange(k, path@.len() as int);
    assert(s.last() == curr && s[0] == next);
    assert(ring(g, s));
    assert(highest(s, *abort_txn));
}
//@loopend 0
proof { vstd::set_lib::lemma_len_subset(v1, visited@); }
//@before /path\.pop\(\);/
proof {
    assert forall|w: TxnId| #[trigger] edge(g, curr, w) implies apart(g, w) by { let j = choose|j: int| 0 <= j < g[curr]@.len() && g[curr]@[j] == w; assert(visited@.contains(g[curr]@[j]) && !on_path@.contains(g[curr]@[j])); }
    lemma_apart(g, curr);
}
//@before /false\s*\Z/
proof {
    assert(path@ =~= path0);
    assert forall|v: TxnId| #[trigger] on_path@.contains(v) == path@.contains(v) by { if path0.contains(v) { let i = choose|i: int| 0 <= i < path0.len() && path0[i] == v; assert(path0.push(curr)[i] == v); assert(old(on_path)@.contains(v)); } }
}
//@endfn
}
impl LockManager {
pub open spec fn inv(&self) -> bool { self.lock_state_manager.inv() }
// a request that is not granted waits for exactly those in its way, of whom there is at least one; a granted one waits for nobody new
//@fn lm LockManager::lock_table
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures
    res != Ok::<bool, LockError>(false) ==> forall|a: TxnId, b: TxnId| #[trigger] edge(final(self).deadlock_detector.waits_for@, a, b) == edge(old(self).deadlock_detector.waits_for@, a, b),
    res == Ok::<bool, LockError>(false) ==> final(self).lock_state_manager.table_lock_map@.contains_key(oid)
        && (forall|a: TxnId, b: TxnId| #[trigger] edge(final(self).deadlock_detector.waits_for@, a, b) == (edge(old(self).deadlock_detector.waits_for@, a, b) || (a == old(txn).txn_id && in_the_way(final(self).lock_state_manager.table_lock_map@[oid], a, lock_mode, b))))
        && exists|b: TxnId| #[trigger] edge(final(self).deadlock_detector.waits_for@, old(txn).txn_id, b) && b != old(txn).txn_id,
    final(txn).state != old(txn).state ==> old(self).deadlock_detector.latest_abort_txn == Some(old(txn).txn_id) && final(txn).state == TransactionState::Aborted && res == Ok::<bool, LockError>(false),
    final(self).deadlock_detector.latest_abort_txn != old(self).deadlock_detector.latest_abort_txn ==> final(txn).state == TransactionState::Aborted && old(self).deadlock_detector.latest_abort_txn == Some(old(txn).txn_id),
//@before /let granted = queue_guard\.grant_lock/
let ghost q0 = *queue_guard; let ghost me = txn.txn_id; let ghost g0 = old(self).deadlock_detector.waits_for@;
proof { assert(peace(old(self).lock_state_manager.tq(oid))); }
//@beforeloop 0
let ghost q1 = *queue_guard;
proof {
    assert(waiting.txn_id == me && waiting.lock_mode == lock_mode);
    lemma_covered(q0.s(), me, lock_mode);
    if !free(q0.s(), me, lock_mode) { let i = choose|i: int| 0 <= i < q0.s().len() && clashes(q0.s()[i], me, lock_mode); assert(clashes(q1.s()[i], me, lock_mode)); assert(in_the_way(q1, me, lock_mode, q1.s()[i].txn_id)); }
    else { assert(!q0.open_to(me)); assert(in_the_way(q1, me, lock_mode, q1.upgrading)); }
    let w = choose|b: TxnId| in_the_way(q1, me, lock_mode, b);
    assert(vp_bs@.contains(w));
}
//@loop 0
invariant vp_b <= vp_bs@.len(), txn.txn_id == me, self.deadlock_detector.latest_abort_txn == old(self).deadlock_detector.latest_abort_txn, *txn == *old(txn),
    forall|b: TxnId| #[trigger] vp_bs@.contains(b) == in_the_way(q1, me, lock_mode, b),
    forall|a: TxnId, b: TxnId| #[trigger] edge(self.deadlock_detector.waits_for@, a, b) == (edge(g0, a, b) || (a == me && exists|j: int| 0 <= j < vp_b && #[trigger] vp_bs@[j] == b)),
decreases vp_bs@.len() - vp_b,
//@loopstart 0
let ghost d0 = self.deadlock_detector.waits_for@; let ghost n0 = vp_b as int; let ghost b0 = vp_bs@[n0];
//@loopend 0
proof { assert forall|a: TxnId, b: TxnId| #[trigger] edge(self.deadlock_detector.waits_for@, a, b) == (edge(g0, a, b) || (a == me && exists|j: int| 0 <= j < vp_b && #[trigger] vp_bs@[j] == b)) by { assert(edge(d0, a, b) == (edge(g0, a, b) || (a == me && exists|j: int| 0 <= j < n0 && #[trigger] vp_bs@[j] == b))); assert(vp_bs@[n0] == b0); } }
//@afterloop 0
proof {
    let d = self.deadlock_detector.waits_for@;
    assert forall|a: TxnId, b: TxnId| #[trigger] edge(d, a, b) == (edge(g0, a, b) || (a == me && in_the_way(q1, me, lock_mode, b))) by {
        if a == me && in_the_way(q1, me, lock_mode, b) { assert(vp_bs@.contains(b)); let j = choose|j: int| 0 <= j < vp_bs@.len() && vp_bs@[j] == b; assert(vp_bs@[j] == b); }
        if a == me && !edge(g0, a, b) && edge(d, a, b) { let j = choose|j: int| 0 <= j < vp_bs@.len() && #[trigger] vp_bs@[j] == b; assert(vp_bs@.contains(b)); }
    }
    let w = choose|b: TxnId| in_the_way(q1, me, lock_mode, b);
    assert(edge(d, me, w));
}
//@endfn
//@fn lm LockManager::lock_row
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /&mut self\.lock_state_manager\.(table_lock_map|row_locks)/&self.lock_state_manager.\1/
//@rewrite /hm_get_mut\(&mut \*(table_locks|row_locks), /\1.get(/
requires old(self).inv(), oid == table_of(rid),
ensures
    res != Ok::<bool, LockError>(false) ==> forall|a: TxnId, b: TxnId| #[trigger] edge(final(self).deadlock_detector.waits_for@, a, b) == edge(old(self).deadlock_detector.waits_for@, a, b),
    res == Ok::<bool, LockError>(false) ==> final(self).lock_state_manager.row_locks@.contains_key(rid)
        && (forall|a: TxnId, b: TxnId| #[trigger] edge(final(self).deadlock_detector.waits_for@, a, b) == (edge(old(self).deadlock_detector.waits_for@, a, b) || (a == old(txn).txn_id && in_the_way(final(self).lock_state_manager.row_locks@[rid], a, lock_mode, b))))
        && exists|b: TxnId| #[trigger] edge(final(self).deadlock_detector.waits_for@, old(txn).txn_id, b) && b != old(txn).txn_id,
    final(self).deadlock_detector.latest_abort_txn != old(self).deadlock_detector.latest_abort_txn ==> final(txn).state == TransactionState::Aborted && old(self).deadlock_detector.latest_abort_txn == Some(old(txn).txn_id),
//@start
let ghost me = txn.txn_id; let ghost g0 = self.deadlock_detector.waits_for@;
//@loop 0
invariant true,
decreases queue_guard.s().len() - vp_n,
//@beforeloop 1
let ghost q1 = *queue;
proof {
    assert(waiting.txn_id == me && waiting.lock_mode == lock_mode);
    assert(*row_locks == self.lock_state_manager.row_locks);
    assert(q1 == self.lock_state_manager.row_locks@[rid]);
    assert(obstructed(q1, me, lock_mode));
    let w = choose|b: TxnId| in_the_way(q1, me, lock_mode, b); assert(vp_bs@.contains(w)); }
//@loop 1
invariant vp_b <= vp_bs@.len(), txn.txn_id == me, self.deadlock_detector.latest_abort_txn == old(self).deadlock_detector.latest_abort_txn,
    forall|b: TxnId| #[trigger] vp_bs@.contains(b) == in_the_way(q1, me, lock_mode, b),
    forall|a: TxnId, b: TxnId| #[trigger] edge(self.deadlock_detector.waits_for@, a, b) == (edge(g0, a, b) || (a == me && exists|j: int| 0 <= j < vp_b && #[trigger] vp_bs@[j] == b)),
decreases vp_bs@.len() - vp_b,
//@loopstart 1
let ghost d0 = self.deadlock_detector.waits_for@; let ghost n0 = vp_b as int; let ghost b0 = vp_bs@[n0];
//@loopend 1
proof { assert forall|a: TxnId, b: TxnId| #[trigger] edge(self.deadlock_detector.waits_for@, a, b) == (edge(g0, a, b) || (a == me && exists|j: int| 0 <= j < vp_b && #[trigger] vp_bs@[j] == b)) by { assert(edge(d0, a, b) == (edge(g0, a, b) || (a == me && exists|j: int| 0 <= j < n0 && #[trigger] vp_bs@[j] == b))); assert(vp_bs@[n0] == b0); } }
//@afterloop 1
proof {
    let d = self.deadlock_detector.waits_for@;
    assert forall|a: TxnId, b: TxnId| #[trigger] edge(d, a, b) == (edge(g0, a, b) || (a == me && in_the_way(q1, me, lock_mode, b))) by {
        if a == me && in_the_way(q1, me, lock_mode, b) { assert(vp_bs@.contains(b)); let j = choose|j: int| 0 <= j < vp_bs@.len() && vp_bs@[j] == b; assert(vp_bs@[j] == b); }
        if a == me && !edge(g0, a, b) && edge(d, a, b) { let j = choose|j: int| 0 <= j < vp_bs@.len() && #[trigger] vp_bs@[j] == b; assert(vp_bs@.contains(b)); }
    }
    let w = choose|b: TxnId| in_the_way(q1, me, lock_mode, b);
    assert(edge(d, me, w));
}
//@endfn
//@fn lm LockManager::finish_unlock nopub
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /txn: &Transaction/txn: &mut Transaction/
ensures forall|a: TxnId, b: TxnId| #[trigger] edge(final(self).deadlock_detector.waits_for@, a, b) == (edge(old(self).deadlock_detector.waits_for@, a, b) && a != old(txn).txn_id && !asked_by(released.granted@, a)),
    final(self).deadlock_detector.latest_abort_txn == old(self).deadlock_detector.latest_abort_txn,
//@loop 0
invariant vp_r <= released.granted@.len(), self.deadlock_detector.latest_abort_txn == old(self).deadlock_detector.latest_abort_txn,
    forall|a: TxnId, b: TxnId| #[trigger] edge(self.deadlock_detector.waits_for@, a, b) == (edge(old(self).deadlock_detector.waits_for@, a, b) && a != old(txn).txn_id && !exists|k: int| 0 <= k < vp_r && (#[trigger] released.granted@[k]).txn_id == a),
decreases released.granted@.len() - vp_r,
//@loopstart 0
let ghost d0 = self.deadlock_detector.waits_for@; let ghost n0 = vp_r as int; let ghost e0 = released.granted@[n0].txn_id;
//@loopend 0
proof { assert forall|a: TxnId, b: TxnId| #[trigger] edge(self.deadlock_detector.waits_for@, a, b) == (edge(old(self).deadlock_detector.waits_for@, a, b) && a != old(txn).txn_id && !exists|k: int| 0 <= k < vp_r && (#[trigger] released.granted@[k]).txn_id == a) by { assert(edge(d0, a, b) == (edge(old(self).deadlock_detector.waits_for@, a, b) && a != old(txn).txn_id && !exists|k: int| 0 <= k < n0 && (#[trigger] released.granted@[k]).txn_id == a)); assert(released.granted@[n0].txn_id == e0); } }
//@endfn
//@fn lm LockManager::force_release_txn
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures forall|b: TxnId| !#[trigger] edge(final(self).deadlock_detector.waits_for@, txn_id, b), forall|a: TxnId, b: TxnId| #[trigger] edge(final(self).deadlock_detector.waits_for@, a, b) ==> edge(old(self).deadlock_detector.waits_for@, a, b),
    final(self).deadlock_detector.latest_abort_txn == old(self).deadlock_detector.latest_abort_txn,
//@loop 0
invariant vp_r <= vp_rel@.len(), self.deadlock_detector.latest_abort_txn == old(self).deadlock_detector.latest_abort_txn,
    forall|b: TxnId| !#[trigger] edge(self.deadlock_detector.waits_for@, txn_id, b), forall|a: TxnId, b: TxnId| #[trigger] edge(self.deadlock_detector.waits_for@, a, b) ==> edge(old(self).deadlock_detector.waits_for@, a, b),
decreases vp_rel@.len() - vp_r,
//@loopstart 0
let ghost d0 = self.deadlock_detector.waits_for@;
//@loopend 0
proof {
    assert forall|b: TxnId| !#[trigger] edge(self.deadlock_detector.waits_for@, txn_id, b) by { assert(!edge(d0, txn_id, b)); }
    assert forall|a: TxnId, b: TxnId| #[trigger] edge(self.deadlock_detector.waits_for@, a, b) implies edge(old(self).deadlock_detector.waits_for@, a, b) by { assert(edge(d0, a, b)); }
}
//@endfn
//@fn lm LockManager::unlock_all
//@rewrite /&self\b(?=[,)])/&mut self/
ensures forall|a: TxnId, b: TxnId| !#[trigger] edge(final(self).deadlock_detector.waits_for@, a, b),
//@endfn
}
fn main() {}
}
