//@source r src/buffer/lru_k_replacer.rs
//@source cfg src/common/config.rs
//@opt rlimit=60
//@rewrite /RwLock<(HashMap<\w+, \w+>)>/\1/
//@rewrite /ParkingMutex<(VecDeque<\w+>)>/\1/
//@rewrite /RwLock::new\((HashMap::new\(\))\)/\1/
//@rewrite /ParkingMutex::new\((VecDeque::new\(\))\)/\1/
//@rewrite /let mut evictable = self\.evictable_frames\.lock\(\);/let evictable = &mut self.evictable_frames;/
//@rewrite /let store = self\.frame_store\.read\(\);/let store = &self.frame_store;/
//@rewrite /let mut store = self\.frame_store\.write\(\);/let store = &mut self.frame_store;/
//@rewrite /drop\(store\);//
//@rewrite /store\.get_mut\(/hm_get_mut(&mut *store, /
//@rewrite /store\.entry\((\w+)\)\s*\.or_insert_with\(\|\| /hm_entry_or(&mut *store, \1, /
//@rewrite /evictable\.iter\(\)\.position\(\|&x\| x == (\w+)\)/vd_position(&*evictable, \1)/
//@rewrite /evictable\.is_empty\(\)/(evictable.len() == 0)/
//@rewrite /evictable\.remove\(/vd_remove(&mut *evictable, /
//@rewrite /entry\s*\.access_history\s*\.front\(\)\s*\.copied\(\)\s*\.unwrap_or\(/vd_front_or(&entry.access_history, /
//@rewrite /entry\s*\.access_history\s*\.get\(([^()]*)\)\s*\.copied\(\)\s*\.unwrap_or\(/vd_get_or(&entry.access_history, \1, /
//@rewrite /store\.iter\(\)\.filter\(\|&entry\| entry\.1\.is_evictable\)\.count\(\)/count_evictable(store)/
//@rewrite /for &frame_id in evictable\.iter\(\) \{/let mut vp_n: usize = 0; while vp_n < evictable.len() { let frame_id = *vd_at(&*evictable, vp_n); vp_n = vp_n + 1;/
//@rewrite /&self\b(?=[,)])/&mut self/
use vstd::prelude::*;
use std::collections::{HashMap, VecDeque};
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;
global size_of usize == 8;
//@type cfg FrameId
//@include inc_maps.rs
#[verifier::external_body]
pub fn vd_at<T>(s: &VecDeque<T>, i: usize) -> (r: &T) requires i < s@.len(), ensures *r == s@[i as int], { &s[i] }
//@enum r AccessType
//@struct r FrameEntry
//@struct r LRUKReplacer
pub type Store = Map<FrameId, FrameEntry>;
pub open spec fn evictable_at(st: Store, f: FrameId) -> bool { st.contains_key(f) && st[f].is_evictable }
pub open spec fn ev(st: Store) -> Set<FrameId> { st.dom().filter(|f: FrameId| st[f].is_evictable) }
pub open spec fn first_of(e: FrameEntry) -> u64 { if e.access_history@.len() > 0 { e.access_history@[0] } else { u64::MAX } }
pub open spec fn kth_of(e: FrameEntry, k: int) -> u64 { let n = e.access_history@.len() as int; if 0 <= n - k < n { e.access_history@[n - k] } else { u64::MAX } }
// a goes before (or with) b: frames with fewer than k accesses first - fewest, then earliest first access -, then the oldest k-th latest access
pub open spec fn before(a: FrameEntry, b: FrameEntry, k: int) -> bool {
    let (na, nb) = (a.access_history@.len(), b.access_history@.len());
    if na < k { nb < k ==> (na < nb || (na == nb && first_of(a) <= first_of(b))) } else { nb >= k && kth_of(a, k) <= kth_of(b, k) }
}
#[verifier::external_body]
pub fn count_evictable(store: &HashMap<FrameId, FrameEntry>) -> (r: usize) ensures r == ev(store@).len(), { store.iter().filter(|&entry| entry.1.is_evictable).count() }
proof fn ev_insert(st: Store, f: FrameId, e: FrameEntry)
    ensures ev(st.insert(f, e)) == (if e.is_evictable { ev(st).insert(f) } else { ev(st).remove(f) }), ev(st).finite(),
{
    let a = ev(st.insert(f, e));
    let b = if e.is_evictable { ev(st).insert(f) } else { ev(st).remove(f) };
    assert forall|g: FrameId| a.contains(g) == b.contains(g) by { assert(st.insert(f, e).dom() =~= st.dom().insert(f)); if g != f { assert(st.insert(f, e).contains_key(g) == st.contains_key(g)); } }
    assert(a =~= b);
}
proof fn ev_insert_all(st: Store, f: FrameId)
    ensures forall|e: FrameEntry| #[trigger] ev(st.insert(f, e)) == (if e.is_evictable { ev(st).insert(f) } else { ev(st).remove(f) }), ev(st.remove(f)) == ev(st).remove(f),
        ev(st).contains(f) == evictable_at(st, f), ev(st).finite(), evictable_at(st, f) ==> ev(st).len() > 0,
{
    assert forall|e: FrameEntry| #[trigger] ev(st.insert(f, e)) == (if e.is_evictable { ev(st).insert(f) } else { ev(st).remove(f) }) by { ev_insert(st, f, e); }
    if st.contains_key(f) { ev_insert(st, f, st[f]); }
    assert(ev(st.remove(f)) =~= ev(st).remove(f));
    if evictable_at(st, f) { assert(ev(st).contains(f)); if ev(st).len() == 0 { assert(ev(st) =~= Set::empty()); } }
}
proof fn queue_facts(s: Seq<FrameId>)
    ensures forall|i: int, x: FrameId| 0 <= i < s.len() && x != s[i] && s.contains(x) ==> #[trigger] s.remove(i).contains(x),
        forall|y: FrameId, x: FrameId| (s.contains(x) || x == y) ==> #[trigger] s.push(y).contains(x),
{
    assert forall|i: int, x: FrameId| 0 <= i < s.len() && x != s[i] && s.contains(x) implies #[trigger] s.remove(i).contains(x) by {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        assert(s.remove(i)[if j < i { j } else { j - 1 }] == x);
    }
    assert forall|y: FrameId, x: FrameId| s.contains(x) || x == y implies #[trigger] s.push(y).contains(x) by {
        if x == y { assert(s.push(y)[s.len() as int] == x); } else { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(s.push(y)[j] == x); }
    }
}
// the last k of the accesses h followed by one at time t
pub open spec fn kept(h: Seq<u64>, t: u64, k: int, n: Seq<u64>) -> bool { n =~= (if h.len() + 1 > k { h.push(t).subrange(1, h.len() as int + 1) } else { h.push(t) }) }
pub open spec fn hist(st: Store, f: FrameId) -> Seq<u64> { if st.contains_key(f) { st[f].access_history@ } else { Seq::<u64>::empty() } }
impl LRUKReplacer {
pub closed spec fn wf(&self) -> bool {
    &&& forall|f: FrameId| #![trigger evictable_at(self.frame_store@, f)] #![trigger self.evictable_frames@.contains(f)] evictable_at(self.frame_store@, f) ==> self.evictable_frames@.contains(f)
    &&& forall|f: FrameId| #[trigger] self.frame_store@.contains_key(f) ==> self.frame_store@[f].access_history@.len() <= self.k
    &&& self.curr_size >= ev(self.frame_store@).len()
}
//@fn r LRUKReplacer::new
ensures res.wf(), res.k == k, res.size == size, res.frame_store@ == Map::<FrameId, FrameEntry>::empty(),
//@start
proof { assert(ev(Map::<FrameId, FrameEntry>::empty()) =~= Set::empty()); }
//@endfn
#[verifier::external_body]
fn current_time_in_micros() -> u64 { unimplemented!() }
//@fn r LRUKReplacer::evict
requires old(self).wf(),
ensures final(self).wf(), final(self).k == old(self).k, final(self).size == old(self).size,
    match res {
        None => final(self).frame_store@ == old(self).frame_store@ && forall|f: FrameId| !#[trigger] evictable_at(old(self).frame_store@, f),
        Some(v) => evictable_at(old(self).frame_store@, v)
            && (forall|f: FrameId| #[trigger] evictable_at(old(self).frame_store@, f) ==> before(old(self).frame_store@[v], old(self).frame_store@[f], old(self).k as int))
            && final(self).frame_store@ == old(self).frame_store@.insert(v, FrameEntry { is_evictable: false, ..old(self).frame_store@[v] }),
    },
//@loop 0
invariant vp_n <= evictable@.len(), evictable@ == old(self).evictable_frames@, store@ == old(self).frame_store@, self.k == old(self).k, old(self).wf(),
    forall|f: FrameId| #[trigger] store@.contains_key(f) ==> store@[f].access_history@.len() <= self.k,
    victim_frame_id is None ==> min_k_accesses == usize::MAX && oldest_k_access == u64::MAX && forall|i: int| 0 <= i < vp_n ==> !evictable_at(store@, #[trigger] evictable@[i]),
    victim_frame_id matches Some(v) ==> evictable_at(store@, v) && (exists|i: int| 0 <= i < vp_n && #[trigger] evictable@[i] == v) && {
        let e = store@[v];
        if e.access_history@.len() < self.k { min_k_accesses == e.access_history@.len() && oldest_k_access == first_of(e) } else { min_k_accesses >= self.k && oldest_k_access == kth_of(e, self.k as int) }
    },
    victim_frame_id matches Some(v) ==> forall|i: int| 0 <= i < vp_n && evictable_at(store@, #[trigger] evictable@[i]) ==> before(store@[v], store@[evictable@[i]], self.k as int),
decreases evictable@.len() - vp_n,
//@before /if let Some\(entry\) = hm_get_mut/
proof { ev_insert_all(store@, frame_id); }
//@start
proof { queue_facts(self.evictable_frames@); }
//@endfn
//@fn r LRUKReplacer::record_access extern=current_time_in_micros
requires old(self).wf(), old(self).frame_store@.contains_key(frame_id) ==> old(self).frame_store@[frame_id].access_count < usize::MAX,
ensures final(self).wf(), final(self).k == old(self).k, final(self).size == old(self).size, final(self).frame_store@.contains_key(frame_id),
    final(self).frame_store@ == old(self).frame_store@.insert(frame_id, final(self).frame_store@[frame_id]),
    final(self).frame_store@[frame_id].is_evictable == evictable_at(old(self).frame_store@, frame_id),
    exists|t: u64| #[trigger] kept(hist(old(self).frame_store@, frame_id), t, old(self).k as int, final(self).frame_store@[frame_id].access_history@),
//@start
proof { ev_insert_all(self.frame_store@, frame_id); }
//@before /entry\.access_history\.push_back/
let ghost h0 = entry.access_history@; assert(h0.len() <= self.k);
//@after /entry\.access_history\.pop_front\(\);\s*\}/
assert(kept(h0, now, self.k as int, entry.access_history@));
assert(h0 =~= hist(old(self).frame_store@, frame_id));
//@endfn
//@fn r LRUKReplacer::set_evictable
requires old(self).wf(), old(self).curr_size < usize::MAX,
ensures final(self).wf(), final(self).k == old(self).k, final(self).size == old(self).size,
    res == (old(self).frame_store@.contains_key(frame_id) && old(self).frame_store@[frame_id].is_evictable != is_evictable),
    final(self).frame_store@ =~= (if res { old(self).frame_store@.insert(frame_id, FrameEntry { is_evictable: is_evictable, ..old(self).frame_store@[frame_id] }) } else { old(self).frame_store@ }),
//@start
proof { queue_facts(self.evictable_frames@); ev_insert_all(self.frame_store@, frame_id); }
//@endfn
//@fn r LRUKReplacer::remove
requires old(self).wf(),
ensures final(self).wf(), final(self).k == old(self).k, final(self).size == old(self).size,
    final(self).frame_store@ =~= (if evictable_at(old(self).frame_store@, frame_id) { old(self).frame_store@.remove(frame_id) } else { old(self).frame_store@ }),
//@start
proof { ev_insert_all(self.frame_store@, frame_id); }
//@after /store\.remove\(&frame_id\);/
assert(store@ =~= old(self).frame_store@.remove(frame_id));
//@endfn
//@fn r LRUKReplacer::total_frames
ensures *final(self) == *old(self), res == old(self).frame_store@.len(),
//@endfn
//@fn r LRUKReplacer::get_replacer_size
ensures *final(self) == *old(self), res == old(self).size,
//@endfn
//@fn r LRUKReplacer::get_k
ensures *final(self) == *old(self), res == old(self).k,
//@endfn
//@fn r LRUKReplacer::total_evictable_frames
ensures *final(self) == *old(self), res == ev(old(self).frame_store@).len(),
//@endfn
}
}
fn main() {}
