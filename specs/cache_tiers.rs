//@source f src/storage/disk/async_disk/cache/fifo.rs
//@source l src/storage/disk/async_disk/cache/lfu.rs
//@source u src/storage/disk/async_disk/cache/lru_k.rs
//@source m src/storage/disk/async_disk/cache/cache_manager.rs
//@source cfg src/common/config.rs
//@opt rlimit=60
//@rewrite /Arc<Vec<u8>>/Bytes/
//@rewrite /&Vec<u8>/&Bytes/
//@rewrite /\bVec<u8>/Bytes/
//@rewrite /Arc<RwLock<(\w+)<PageId, (\w+)>>>/\1<\2>/
//@rewrite /let mut (\w+) = Self::lock_tier\(&self\.(\w+)\);/let \1 = &mut self.\2;/
//@rewrite /if let Ok\(mut (\w+)\) = self\.(\w+)\.try_write\(\) && let Some\((\w+)\) = <\w+<[^()]*?> as CoreCache<[^()]*?>>::get\(\s*&mut \1,\s*&page_id,?\s*\) \{/if let Some(\3) = (if vp_chance() { self.\2.get(&page_id) } else { None }) {/
//@rewrite /if let Ok\(mut dedup\) = self\.dedup_engine\.try_write\(\) && let Some\(\w+\) = dedup\.check_duplicate\(page_id, &data_arc\) \{/if vp_chance() {/
//@rewrite /if let Ok\(mut (\w+)\) = self\.(\w+)\.try_write\(\) \{/if vp_chance() { let \1 = &mut self.\2;/
//@rewrite /<\w+<[^()]*?> as CoreCache<[^()]*?>>::insert\(\s*&mut (\w+),/\1.insert(/
//@rewrite /<\w+<[^()]*?> as CoreCache<[^()]*?>>::(len|clear)\(\s*(?:&mut |&)(\w+),?\s*\)/\2.\1()/
//@rewrite /self\s*\.(?:promotion_count|demotion_count|dedup_savings|cache_hits|cache_misses|hot_cache_hits|warm_cache_hits|cold_cache_hits)\s*\.fetch_add\(\w+, Ordering::Relaxed\);//
//@rewrite /if let Some\((\w+)\) = metrics_collector \{(?:\s*\1\.record_\w+\([^()]*\);)*\s*\}//
//@rewrite /self\.(?:record_access_pattern|check_prefetch_hit)\(page_id\);//
//@rewrite /self\.should_admit_page\(/vp_admits(/
//@rewrite /self\.determine_data_temperature\(/vp_temperature(/
//@rewrite /self\s*\.admission_controller\s*\.memory_pressure\s*\.load\(Ordering::Relaxed\)/vp_u64()/
//@rewrite /\(\*+([\w.]+)\)\.clone\(\)/\1.clone()/
//@rewrite /last_accessed: Instant::now\(\),//
//@rewrite /Option<&MetricsCollector>/Option<Unused>/
//@rewrite /&MetricsCollector/Unused/
//@rewrite /Arc<(\w)>/\1/
//@rewrite /<Self as CoreCache<K, V>>::len\(self\)/self.len()/
//@rewrite /\bK\b/PageId/
//@rewrite /Self::current_time_in_micros\(\)/now_micros()/
//@rewrite /if let Some\(\((\w+), _freq\)\) = self\.cache\.get_mut\(&key\) \{/if let Some(vp_e) = hm_get_mut(&mut self.cache, &key) { let \1 = &mut vp_e.0;/
//@rewrite /if let Some\(\((\w+), history\)\) = self\.cache\.get_mut\((&?key)\) \{/if let Some(vp_e) = hm_get_mut(&mut self.cache, \2) { let (\1, history) = vp_parts(vp_e);/
//@rewrite /if let Some\(\((\w+), freq\)\) = self\.cache\.get_mut\((&?key)\) \{/if let Some(vp_e) = hm_get_mut(&mut self.cache, \2) { let (\1, freq) = vp_parts(vp_e);/
//@rewrite /std::mem::replace\(/vp_replace(/
//@rewrite /std::mem::take\(/vp_take_map(/
//@rewrite /self\s*\.cache\s*\.values\(\)\s*\.map\(\|\(_, freq\)\| \*freq\)\s*\.min\(\)/hm_min(&self.cache)/
//@rewrite /self\.cache\.retain\(\|_, \(_, freq\)\| (\{[\s\S]*?)\n\}\);/let vp_ks = hm_keys(&self.cache); let mut vp_n: usize = 0; while vp_n < vp_ks.len() { let vp_k = vp_ks[vp_n]; vp_n += 1; let freq = hm_freq(&self.cache, vp_k); let vp_keep = \1 }; if !vp_keep { self.cache.remove(&vp_k); } }/
//@rewrite /self\.cache\s*\.insert\(key, \(value, (\w+)\)\)\s*\.map\(\|\((\w+), _\)\| \2\)/match self.cache.insert(key, (value, \1)) { Some((vp_o, _)) => Some(vp_o), None => None }/
//@rewrite /self\.cache\.remove\(key\)\.map\(\|\((\w+), _\)\| \1\)/match self.cache.remove(key) { Some((vp_o, _)) => Some(vp_o), None => None }/
//@rewrite /self\.cache\.get\(key\)\.map\(\|\((\w+), _\)\| \1\)/match self.cache.get(key) { Some(vp_e) => Some(&vp_e.0), None => None }/
//@rewrite /self\.cache\.get\(key\)\.map\(\|\(_, freq\)\| \*freq as u64\)/match self.cache.get(key) { Some(vp_e) => Some(vp_e.1 as u64), None => None }/
//@rewrite /self\.cache\.get\(key\)\.map\(\|\(_, history\)\| history\.len\(\)\)/match self.cache.get(key) { Some(vp_e) => Some(vp_e.1.len()), None => None }/
//@rewrite /self\.cache\.get\(key\)\.and_then\(\|\(_, history\)\| (\{[\s\S]*\n\})\)/match self.cache.get(key) { Some(vp_e) => { let history = &vp_e.1; \1 }, None => None }/
//@rewrite /history\.get\(([^()]*(?:\(\))?[^()]*)\)\.copied\(\)(?!\s*\.unwrap)/vd_get(history, \1)/
//@rewrite /history\.front\(\)\.copied\(\)\.unwrap_or\(/vd_front_or(history, /
//@rewrite /history\s*\.get\(([^()]*)\)\s*\.copied\(\)\s*\.unwrap_or\(/vd_get_or(history, \1, /
//@rewrite /for \((\w+), \(_, history\)\) in &self\.cache \{/let vp_ks = hm_keys(&self.cache); let mut vp_n: usize = 0; while vp_n < vp_ks.len() { let (\1, vp_e) = hm_pair(&self.cache, vp_ks[vp_n]); let history = &vp_e.1; vp_n += 1;/
//@rewrite /for \((\w+), \((\w+), freq\)\) in &self\.cache \{/let vp_ks = hm_keys(&self.cache); let mut vp_n: usize = 0; while vp_n < vp_ks.len() { let (\1, vp_e) = hm_pair(&self.cache, vp_ks[vp_n]); let (\2, freq) = (&vp_e.0, &vp_e.1); vp_n += 1;/
//@rewrite /for \(key, \(value, freq\)\) in temp_cache\.drain\(\) \{/let mut vp_d = hm_drain(&mut temp_cache); while vp_d.len() > 0 { let (key, vp_e) = vp_d.remove(0); let (value, freq) = vp_e;/
//@rewrite /(\w+)\.is_none\(\) \|\|/matches!(\1, None) ||/
//@rewrite /victim_key\.and_then\(\|key\| self\.cache\.remove\(&key\)\.map\(\|\((\w+), _\)\| \(key, \1\)\)\)/match victim_key { None => None, Some(key) => match self.cache.remove(&key) { None => None, Some((vp_o, _)) => Some((key, vp_o)) } }/
//@rewrite /victim_key\.and_then\(\|key\| self\.cache\.get\(key\)\.map\(\|\((\w+), _\)\| \(key, \1\)\)\)/match victim_key { None => None, Some(key) => match self.cache.get(key) { None => None, Some(vp_e) => Some((key, &vp_e.0)) } }/
//@rewrite /old_value\.clone\(\)/vp_dup(&*old_value)/
//@rewrite /Arc::new\((\w+)\)/\1/
//@rewrite /Arc::clone\(&?([\w.]+)\)/\1.clone()/
//@rewrite /match Arc::try_unwrap\((\w+)\) \{[\s\S]*?panic!\([\s\S]*?\);?\s*\},?\s*\}/\1/
//@rewrite /if let std::collections::hash_map::Entry::Occupied\(mut e\) =\s*self\.cache\.entry\((\w+)\.clone\(\)\)/if let Some(e) = hm_get_mut(&mut self.cache, &\1)/
//@rewrite /return Some\(e\.insert\((\w+)\)\)\s*\.map\(\|(\w+)\| \{\s*\2\s*\}\);/return Some(vp_replace(e, \1));/
//@rewrite /while let Some\((\w+)\) = (self\.insertion_order\.pop_front\(\)) \{/loop { let Some(\1) = \2 else { break };/
//@rewrite /\.map\(\|v\| v\.as_ref\(\)\)//
//@rewrite /(\w+)\.as_ref\(\)/\1/
use vstd::prelude::*;
use std::collections::{HashMap, VecDeque};
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::seq_lib::group_seq_properties};
global size_of usize == 8;
//@type cfg PageId
//@include inc_maps.rs
#[verifier::external_body]
pub fn vp_replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v, { std::mem::replace(d, v) }
// an iteration of a map visits every entry once, in an order of the map's choosing
pub open spec fn visits<V>(ks: Seq<PageId>, m: Map<PageId, V>) -> bool { ks.no_duplicates() && ks.to_set() == m.dom() }
#[verifier::external_body]
pub fn hm_keys<V>(m: &HashMap<PageId, V>) -> (r: Vec<PageId>) ensures visits(r@, m@), { m.keys().copied().collect() }
#[verifier::external_body]
pub fn vd_at<T>(s: &VecDeque<T>, i: usize) -> (r: &T) requires i < s@.len(), ensures *r == s@[i as int], { &s[i] }

#[verifier::external_body]
pub fn vp_dup<T: Clone>(v: &T) -> (r: T) ensures r == *v, { v.clone() }
#[verifier::external_body]
pub fn vp_take_map<V>(m: &mut HashMap<PageId, V>) -> (r: HashMap<PageId, V>) ensures r@ == old(m)@, final(m)@ == Map::<PageId, V>::empty(), { std::mem::take(m) }
pub fn vp_parts<A, B>(e: &mut (A, B)) -> (r: (&mut A, &mut B)) ensures *r.0 == old(e).0, *r.1 == old(e).1, final(e).0 == *final(r.0), final(e).1 == *final(r.1), { (&mut e.0, &mut e.1) }
#[verifier::external_body]
pub fn hm_pair<V>(m: &HashMap<PageId, V>, k: PageId) -> (r: (&PageId, &V)) requires m@.contains_key(k), ensures *r.0 == k, *r.1 == m@[k], { m.get_key_value(&k).unwrap() }
#[verifier::external_body]
pub fn hm_freq<V>(m: &HashMap<PageId, (V, usize)>, k: PageId) -> (r: &usize) requires m@.contains_key(k), ensures *r == m@[k].1, { &m[&k].1 }
#[verifier::external_body]
pub fn hm_min<V>(m: &HashMap<PageId, (V, usize)>) -> (r: Option<usize>)
    ensures match r { None => m@.len() == 0 && m@ == Map::<PageId, (V, usize)>::empty(), Some(f) => (exists|k: PageId| #[trigger] m@.contains_key(k) && m@[k].1 == f) && forall|k: PageId| #[trigger] m@.contains_key(k) ==> m@[k].1 >= f },
{ m.values().map(|(_, freq)| *freq).min() }
pub open spec fn firsts<V>(s: Seq<(PageId, V)>) -> Seq<PageId> { s.map_values(|e: (PageId, V)| e.0) }
#[verifier::external_body]
pub fn hm_drain<V>(m: &mut HashMap<PageId, V>) -> (r: Vec<(PageId, V)>)
    ensures final(m)@ == Map::<PageId, V>::empty(), visits(firsts(r@), old(m)@), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == old(m)@[r@[i].0],
{ m.drain().collect() }
#[verifier::external_body]
pub fn vd_get(s: &VecDeque<u64>, i: usize) -> (r: Option<u64>) ensures r == (if i < s@.len() { Some(s@[i as int]) } else { None }), { s.get(i).copied() }
#[verifier::external_body]
pub fn now_micros() -> u64 { 0 }

#[verifier::external_body]
pub fn vp_chance() -> bool { true }
#[verifier::external_body]
pub fn vp_u64() -> u64 { 0 }
#[verifier::external_body]
pub struct Unused {}
// the bytes of a page; cloning them (or the reference to them) gives the same bytes
#[verifier::external_body]
pub struct Bytes { v: Vec<u8> }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { Bytes { v: self.v.clone() } } }

// --- the cold tier: first in, first out
//@struct f FIFOCache generics=pub~struct~FIFOCache<V>
pub open spec fn got<V>(m: Map<PageId, V>, k: PageId) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn got_ref<V>(m: Map<PageId, V>, k: PageId, r: Option<&V>) -> bool { match r { Some(v) => m.contains_key(k) && *v == m[k], None => !m.contains_key(k) } }
pub proof fn lemma_first(s: Seq<PageId>, d: Set<PageId>)
    requires s.no_duplicates(), s.to_set() == d, s.len() > 0,
    ensures d.contains(s[0]), s.skip(1).no_duplicates(), s.skip(1).to_set() == d.remove(s[0]), d.len() == s.len(), s.skip(1) == s.subrange(1, s.len() as int),
{
    assert(s.to_set().contains(s[0]));
    s.unique_seq_to_set();
    assert forall|x: PageId| s.skip(1).to_set().contains(x) == d.remove(s[0]).contains(x) by {
        if s.skip(1).contains(x) { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == x; assert(s[i + 1] == x); }
        if d.remove(s[0]).contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.skip(1)[i - 1] == x); }
    }
    assert(s.skip(1).to_set() =~= d.remove(s[0])); assert(s.skip(1) =~= s.subrange(1, s.len() as int));
}
pub proof fn lemma_push(s: Seq<PageId>, d: Set<PageId>, k: PageId)
    requires s.no_duplicates(), s.to_set() == d, !d.contains(k), ensures s.push(k).no_duplicates(), s.push(k).to_set() == d.insert(k),
{
    assert(!s.contains(k)) by { if s.contains(k) { assert(s.to_set().contains(k)); } }
    assert(s.push(k).to_set() =~= d.insert(k)) by { assert forall|x: PageId| s.push(k).to_set().contains(x) == d.insert(k).contains(x) by {
        if d.insert(k).contains(x) { if x == k { assert(s.push(k)[s.len() as int] == k); } else { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(k)[i] == x); } }
    } }
}
impl<V> FIFOCache<V> {
    pub open spec fn wf(&self) -> bool { self.cache@.len() <= self.capacity && self.insertion_order@.no_duplicates() && self.insertion_order@.to_set() == self.cache@.dom() }
    pub open spec fn view(&self) -> Map<PageId, V> { self.cache@ }
    pub open spec fn same(&self, o: &Self) -> bool { self.cache@ == o.cache@ && self.capacity == o.capacity && self.insertion_order@ == o.insertion_order@ }
//@fn f FIFOCache::new
ensures res.wf(), res.capacity == capacity, res@ == Map::<PageId, V>::empty(),
//@start
proof { assert(Seq::<PageId>::empty().to_set() =~= Map::<PageId, V>::empty().dom()); }
//@endfn
//@fn f FIFOCache::evict_oldest
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity,
    old(self).insertion_order@.len() > 0 ==> final(self)@ == old(self)@.remove(old(self).insertion_order@[0]) && final(self).insertion_order@ == old(self).insertion_order@.skip(1),
    old(self).insertion_order@.len() == 0 ==> final(self).same(old(self)),
//@loop 0
invariant_except_break self.same(old(self)), old(self).wf(),
ensures self.wf(), self.capacity == old(self).capacity,
    old(self).insertion_order@.len() > 0 ==> self@ == old(self)@.remove(old(self).insertion_order@[0]) && self.insertion_order@ == old(self).insertion_order@.skip(1),
    old(self).insertion_order@.len() == 0 ==> self.same(old(self)),
decreases self.insertion_order@.len(),
//@loopstart 0
proof { if self.insertion_order@.len() > 0 { lemma_first(self.insertion_order@, self.cache@.dom()); } }
//@endfn
//@fn f FIFOCache::insert
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity,
    res == (if old(self).capacity == 0 { None } else { got(old(self)@, key) }),
    old(self).capacity == 0 ==> final(self).same(old(self)),
    old(self).capacity > 0 ==> ({ let (m, o) = (old(self)@, old(self).insertion_order@);
        if m.contains_key(key) { final(self)@ == m.insert(key, value) && final(self).insertion_order@ == o }
        else if m.len() < old(self).capacity { final(self)@ == m.insert(key, value) && final(self).insertion_order@ == o.push(key) }
        else { final(self)@ == m.remove(o[0]).insert(key, value) && final(self).insertion_order@ == o.skip(1).push(key) } }),
//@start
proof { self.insertion_order@.unique_seq_to_set(); if self.insertion_order@.len() > 0 { lemma_first(self.insertion_order@, self.cache@.dom()); } else { assert(self.cache@.dom() =~= Set::empty()); } }
//@before /return Some\(vp_replace/
proof { assert(old(self)@.insert(key, value).dom() =~= old(self)@.dom()); }
//@before /self\.insertion_order\.push_back/
proof { lemma_push(self.insertion_order@, self.cache@.dom(), key); }
//@endfn
//@fn f FIFOCache::get
requires old(self).wf(),
ensures final(self).same(old(self)), got_ref(old(self)@, *key, res),
//@endfn
//@fn f FIFOCache::contains
ensures res == self@.contains_key(*key),
//@endfn
//@fn f FIFOCache::len
ensures res == self@.len(),
//@endfn
//@fn f FIFOCache::capacity
ensures res == self.capacity,
//@endfn
//@fn f FIFOCache::clear
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self)@ == Map::<PageId, V>::empty(),
//@start
proof { assert(Seq::<PageId>::empty().to_set() =~= Map::<PageId, V>::empty().dom()); }
//@endfn
//@fn f FIFOCache::pop_oldest
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self).popped(old(self), res),
//@loop 0
invariant_except_break self.same(old(self)), old(self).wf(),
ensures self.same(old(self)), old(self).insertion_order@.len() == 0,
decreases self.insertion_order@.len(),
//@loopstart 0
proof { if self.insertion_order@.len() > 0 { lemma_first(self.insertion_order@, self.cache@.dom()); } }
//@endfn
    // the oldest entry, and only that one, is gone and was handed out
    pub open spec fn popped(&self, o: &Self, r: Option<(PageId, V)>) -> bool {
        match r {
            None => o.insertion_order@.len() == 0 && self.same(o),
            Some((k, v)) => o.insertion_order@.len() > 0 && k == o.insertion_order@[0] && o@.contains_key(k) && v == o@[k] && self@ == o@.remove(k) && self.insertion_order@ == o.insertion_order@.skip(1),
        }
    }
//@fn f FIFOCache::peek_oldest
//@rewrite /for (\w+) in &self\.insertion_order \{/let mut vp_n: usize = 0; while vp_n < self.insertion_order.len() { let \1 = vd_at(&self.insertion_order, vp_n); vp_n += 1;/
requires self.wf(),
ensures match res { None => self.insertion_order@.len() == 0, Some((k, v)) => self.insertion_order@.len() > 0 && *k == self.insertion_order@[0] && got_ref(self@, *k, Some(v)) },
//@loop 0
invariant vp_n == 0, self.wf(), 
decreases self.insertion_order@.len() - vp_n,
//@start
proof { if self.insertion_order@.len() > 0 { lemma_first(self.insertion_order@, self.cache@.dom()); } }
//@endfn
//@fn f FIFOCache::pop_oldest_batch
//@rewrite /= Vec::with_capacity\(count\.min\(self\.len\(\)\)\)/: Vec<(PageId, V)> = Vec::new()/
//@rewrite /for _ in 0\.\.count \{/let mut vp_n: usize = 0; while vp_n < count { vp_n += 1;/
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity, ({ let o = old(self).insertion_order@; let n = if count <= o.len() { count as int } else { o.len() as int };
    &&& res@.len() == n && final(self).insertion_order@ == o.skip(n)
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] res@[i]).0 == o[i] && old(self)@.contains_key(o[i]) && res@[i].1 == old(self)@[o[i]]
    &&& forall|k: PageId| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k] }),
//@loop 0
invariant_except_break result@.len() == vp_n,
invariant self.wf(), self.capacity == old(self).capacity, vp_n <= count, old(self).wf(), result@.len() <= old(self).insertion_order@.len(),
    self.insertion_order@ == old(self).insertion_order@.skip(result@.len() as int),
    forall|i: int| 0 <= i < result@.len() ==> (#[trigger] result@[i]).0 == old(self).insertion_order@[i] && old(self)@.contains_key(old(self).insertion_order@[i]) && result@[i].1 == old(self)@[old(self).insertion_order@[i]],
    forall|k: PageId| #[trigger] self@.contains_key(k) ==> old(self)@.contains_key(k) && self@[k] == old(self)@[k],
ensures result@.len() == (if count <= old(self).insertion_order@.len() { count as int } else { old(self).insertion_order@.len() as int }),
decreases count - vp_n,
//@loopend 0
proof { assert(self.insertion_order@ =~= old(self).insertion_order@.skip(result@.len() as int)); }
//@beforeloop 0
proof { assert(self.insertion_order@ =~= old(self).insertion_order@.skip(0)); }
//@endfn
//@fn f FIFOCache::age_rank
//@rewrite /for (\w+) in &self\.insertion_order \{/let mut vp_n: usize = 0; while vp_n < self.insertion_order.len() { let \1 = vd_at(&self.insertion_order, vp_n); vp_n += 1;/
//@rewrite /(\w+) == key \{/*\1 == *key {/
requires self.wf(),
ensures match res { None => !self@.contains_key(*key), Some(r) => first_at(self.insertion_order@, *key, r as int) },
//@loop 0
invariant self.wf(), rank == vp_n, vp_n <= self.insertion_order@.len(), forall|j: int| 0 <= j < vp_n ==> self.insertion_order@[j] != *key,
decreases self.insertion_order@.len() - vp_n,
//@loopstart 0
proof { assert(self.insertion_order@.to_set().contains(self.insertion_order@[vp_n as int])); }
//@afterloop 0
proof { if self@.contains_key(*key) { assert(self.insertion_order@.to_set().contains(*key)); } }
//@endfn
}

// --- the warm tier: least frequently used
//@struct l LFUCache generics=pub~struct~LFUCache<V>
pub type Counted<V> = Map<PageId, (V, usize)>;
pub open spec fn rarest<V>(m: Counted<V>, v: PageId) -> bool { m.contains_key(v) && forall|k: PageId| #[trigger] m.contains_key(k) ==> m[k].1 >= m[v].1 }
pub open spec fn without_rarest<V>(m: Counted<V>, r: Counted<V>) -> bool { exists|v: PageId| rarest(m, v) && r == #[trigger] m.remove(v) }
pub open spec fn got2<V, B>(m: Map<PageId, (V, B)>, k: PageId) -> Option<V> { if m.contains_key(k) { Some(m[k].0) } else { None } }
pub open spec fn got2_ref<V, B>(m: Map<PageId, (V, B)>, k: PageId, r: Option<&V>) -> bool { match r { Some(v) => m.contains_key(k) && *v == m[k].0, None => !m.contains_key(k) } }
impl<V> LFUCache<V> {
    pub open spec fn wf(&self) -> bool { self.cache@.len() <= self.capacity }
    pub open spec fn view(&self) -> Counted<V> { self.cache@ }
    pub open spec fn same(&self, o: &Self) -> bool { self@ == o@ && self.capacity == o.capacity }
//@fn l LFUCache::new
ensures res.wf(), res.capacity == capacity, res@ == Map::<PageId, (V, usize)>::empty(),
//@endfn
//@fn l LFUCache::insert
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity, res == got2(old(self)@, key), ({
    let m = old(self)@;
    if m.contains_key(key) { final(self)@ == m.insert(key, (value, m[key].1)) }
    else if old(self).capacity == 0 { final(self)@ == m }
    else if m.len() < old(self).capacity { final(self)@ == m.insert(key, (value, 1usize)) }
    else { exists|v: PageId| rarest(m, v) && final(self)@ == (#[trigger] m.remove(v)).insert(key, (value, 1usize)) } }),
//@before /return Some\(vp_replace/
proof { assert(old(self)@.insert(key, (value, old(self)@[key].1)).dom() =~= old(self)@.dom()); }
//@loop 0
invariant vp_n <= vp_ks@.len(), visits(vp_ks@, old(self)@), self.capacity == old(self).capacity,
    !removed ==> self@ == old(self)@ && forall|j: int| 0 <= j < vp_n ==> old(self)@[#[trigger] vp_ks@[j]].1 != min_freq,
    removed ==> vp_n > 0 && exists|i: int| 0 <= i < vp_n && old(self)@[vp_ks@[i]].1 == min_freq && self@ == old(self)@.remove(#[trigger] vp_ks@[i]),
    forall|k: PageId| #[trigger] old(self)@.contains_key(k) ==> old(self)@[k].1 >= min_freq,
decreases vp_ks@.len() - vp_n,
//@loopstart 0
proof { assert(vp_ks@.to_set().contains(vp_ks@[vp_n as int])); }
//@afterloop 0
proof {
    let k0 = choose|k: PageId| #[trigger] old(self)@.contains_key(k) && old(self)@[k].1 == min_freq;
    assert(vp_ks@.to_set().contains(k0));
    let i0 = choose|i: int| 0 <= i < vp_ks@.len() && vp_ks@[i] == k0;
    let i = choose|i: int| 0 <= i < vp_n && old(self)@[vp_ks@[i]].1 == min_freq && self@ == old(self)@.remove(#[trigger] vp_ks@[i]);
    assert(vp_ks@.to_set().contains(vp_ks@[i]));
    assert(rarest(old(self)@, vp_ks@[i]));
}
//@endfn
//@fn l LFUCache::get
requires old(self)@.contains_key(*key) ==> old(self)@[*key].1 < usize::MAX,
ensures got2_ref(old(self)@, *key, res), final(self).capacity == old(self).capacity, old(self).wf() ==> final(self).wf(),
    final(self)@ == (if old(self)@.contains_key(*key) { old(self)@.insert(*key, (old(self)@[*key].0, (old(self)@[*key].1 + 1) as usize)) } else { old(self)@ }),
//@start
proof { if old(self)@.contains_key(*key) { assert forall|x: (V, usize)| #[trigger] old(self)@.insert(*key, x).len() == old(self)@.len() by { assert(old(self)@.insert(*key, x).dom() =~= old(self)@.dom()); } } }
//@endfn
//@fn l LFUCache::contains
ensures res == self@.contains_key(*key),
//@endfn
//@fn l LFUCache::len
ensures res == self@.len(),
//@endfn
//@fn l LFUCache::capacity
ensures res == self.capacity,
//@endfn
//@fn l LFUCache::clear
ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self)@ == Map::<PageId, (V, usize)>::empty(),
//@endfn
//@fn l LFUCache::remove
ensures res == got2(old(self)@, *key), final(self)@ == old(self)@.remove(*key), final(self).capacity == old(self).capacity, old(self).wf() ==> final(self).wf(),
//@endfn
//@fn l LFUCache::pop_lfu
//@rewrite /let min_freq = ([^;]*)\?;/let min_freq = match \1 { Some(vp_f) => vp_f, None => return None };/
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity,
    match res { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some((k, v)) => rarest(old(self)@, k) && v == old(self)@[k].0 && final(self)@ == old(self)@.remove(k) },
//@loop 0
invariant self.capacity == old(self).capacity, drained(vp_d@, self@, result, old(self)@, min_freq),
    (exists|k: PageId| #[trigger] old(self)@.contains_key(k) && old(self)@[k].1 == min_freq) && forall|k: PageId| #[trigger] old(self)@.contains_key(k) ==> old(self)@[k].1 >= min_freq,
decreases vp_d@.len(),
//@loopstart 0
let ghost d0 = vp_d@; let ghost m0 = self@; let ghost r0 = result;
proof { lemma_drain(vp_d@, self@, result, old(self)@, min_freq); }
//@loopend 0
proof { assert(vp_d@ =~= d0.subrange(1, d0.len() as int)); }
//@beforeloop 0
proof { assert(self@.dom() =~= Set::empty()); assert(drained(vp_d@, self@, result, old(self)@, min_freq)) by { lemma_drain_start(vp_d@, self@, old(self)@); } }
//@afterloop 0
proof { lemma_drain_end(vp_d@, self@, result, old(self)@, min_freq); }
//@endfn
//@fn l LFUCache::peek_lfu
//@rewrite /let mut min_freq = usize::MAX/let mut min_freq: usize = usize::MAX/
requires self@.len() > 0 ==> exists|k: PageId| #[trigger] self@.contains_key(k) && self@[k].1 < usize::MAX,
ensures match res { None => self@.len() == 0, Some((k, v)) => rarest(self@, *k) && *v == self@[*k].0 },
//@loop 0
invariant vp_n <= vp_ks@.len(), visits(vp_ks@, self@),
    match lfu_item { None => min_freq == usize::MAX, Some((k, v)) => self@.contains_key(*k) && *v == self@[*k].0 && self@[*k].1 == min_freq && min_freq < usize::MAX },
    forall|j: int| 0 <= j < vp_n ==> self@[#[trigger] vp_ks@[j]].1 >= min_freq,
decreases vp_ks@.len() - vp_n,
//@loopstart 0
proof { assert(vp_ks@.to_set().contains(vp_ks@[vp_n as int])); }
//@afterloop 0
proof {
    assert forall|k: PageId| #[trigger] self@.contains_key(k) implies self@[k].1 >= min_freq by { assert(vp_ks@.to_set().contains(k)); let j = choose|j: int| 0 <= j < vp_ks@.len() && vp_ks@[j] == k; assert(self@[vp_ks@[j]].1 >= min_freq); }
    if self@.len() == 0 { assert(self@.dom() =~= Set::empty()); }
}
//@endfn
//@fn l LFUCache::frequency
ensures res == (if self@.contains_key(*key) { Some(self@[*key].1 as u64) } else { None }),
//@endfn
//@fn l LFUCache::reset_frequency
ensures res == (if old(self)@.contains_key(*key) { Some(old(self)@[*key].1 as u64) } else { None }), final(self).capacity == old(self).capacity,
    final(self)@ == (if old(self)@.contains_key(*key) { old(self)@.insert(*key, (old(self)@[*key].0, 1usize)) } else { old(self)@ }),
//@endfn
//@fn l LFUCache::increment_frequency
requires old(self)@.contains_key(*key) ==> old(self)@[*key].1 < usize::MAX,
ensures res == (if old(self)@.contains_key(*key) { Some((old(self)@[*key].1 + 1) as u64) } else { None }), final(self).capacity == old(self).capacity,
    final(self)@ == (if old(self)@.contains_key(*key) { old(self)@.insert(*key, (old(self)@[*key].0, (old(self)@[*key].1 + 1) as usize)) } else { old(self)@ }),
//@endfn
}
// taking everything out and putting all but one least used entry back
pub open spec fn drained<V>(d: Seq<(PageId, (V, usize))>, m: Counted<V>, r: Option<(PageId, V)>, o: Counted<V>, f: usize) -> bool {
    &&& firsts(d).no_duplicates()
    &&& forall|i: int| 0 <= i < d.len() ==> o.contains_key((#[trigger] d[i]).0) && d[i].1 == o[d[i].0] && !m.contains_key(d[i].0) && (r is Some ==> (r->0).0 != d[i].0)
    &&& forall|k: PageId| #[trigger] o.contains_key(k) ==> m.contains_key(k) || (r is Some && (r->0).0 == k) || firsts(d).contains(k)
    &&& forall|k: PageId| #[trigger] m.contains_key(k) ==> o.contains_key(k) && m[k] == o[k] && (r is None ==> m[k].1 != f) && (r is Some ==> (r->0).0 != k)
    &&& r is Some ==> o.contains_key((r->0).0) && o[(r->0).0].0 == (r->0).1 && o[(r->0).0].1 == f
}
proof fn lemma_drain_start<V>(d: Seq<(PageId, (V, usize))>, m: Counted<V>, o: Counted<V>)
    requires m == Map::<PageId, (V, usize)>::empty(), visits(firsts(d), o), forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).1 == o[d[i].0],
    ensures forall|f: usize| #[trigger] drained(d, m, None, o, f),
{
    assert forall|i: int| 0 <= i < d.len() implies o.contains_key((#[trigger] d[i]).0) by { assert(firsts(d)[i] == d[i].0); assert(firsts(d).to_set().contains(firsts(d)[i])); }
    assert forall|k: PageId| #[trigger] o.contains_key(k) implies firsts(d).contains(k) by { assert(firsts(d).to_set().contains(k)); }
}
proof fn lemma_drain<V>(d: Seq<(PageId, (V, usize))>, m: Counted<V>, r: Option<(PageId, V)>, o: Counted<V>, f: usize)
    requires drained(d, m, r, o, f), d.len() > 0,
    ensures drained(d.subrange(1, d.len() as int), m.insert(d[0].0, d[0].1), r, o, f) || (r is None && d[0].1.1 == f), d[0].1 == o[d[0].0], d.remove(0) == d.subrange(1, d.len() as int),
        r is None && d[0].1.1 == f ==> drained(d.subrange(1, d.len() as int), m, Some((d[0].0, d[0].1.0)), o, f),
        m.insert(d[0].0, d[0].1) == m.insert(d[0].0, (d[0].1.0, d[0].1.1)),
{
    let t = d.subrange(1, d.len() as int);
    assert(d.remove(0) =~= t);
    assert(firsts(t) =~= firsts(d).subrange(1, d.len() as int));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == d[i + 1] && t[i].0 != d[0].0 by { assert(firsts(d)[i + 1] == t[i].0); assert(firsts(d)[0] == d[0].0); }
    assert forall|k: PageId| firsts(d).contains(k) implies k == d[0].0 || firsts(t).contains(k) by { let i = choose|i: int| 0 <= i < d.len() && firsts(d)[i] == k; if i > 0 { assert(firsts(t)[i - 1] == k); } }
}
proof fn lemma_drain_end<V>(d: Seq<(PageId, (V, usize))>, m: Counted<V>, r: Option<(PageId, V)>, o: Counted<V>, f: usize)
    requires drained(d, m, r, o, f), d.len() == 0, exists|k: PageId| #[trigger] o.contains_key(k) && o[k].1 == f,
    ensures r is Some, m == o.remove((r->0).0),
{
    assert(firsts(d).len() == 0);
    if r is Some { assert(m =~= o.remove((r->0).0)); }
}

// --- the hot tier: LRU-K
//@struct u LRUKCache generics=pub~struct~LRUKCache<V>
pub type Aged<V> = Map<PageId, (V, VecDeque<u64>)>;
// fewer accesses go first (so those with less than k of them before those with k), then the earlier one of the oldest remembered accesses
pub open spec fn goes_before(a: Seq<u64>, b: Seq<u64>) -> bool { a.len() < b.len() || (a.len() == b.len() && a.len() > 0 && a[0] < b[0]) }
pub open spec fn next_out<V>(m: Aged<V>, v: PageId) -> bool { m.contains_key(v) && forall|k: PageId| #[trigger] m.contains_key(k) ==> !goes_before(m[k].1@, m[v].1@) }
pub open spec fn remembers(h: Seq<u64>, o: Seq<u64>, k: usize) -> bool { exists|t: u64| h == #[trigger] o.push(t) && o.len() < k || h == o.push(t).skip(1) && o.len() == k }
impl<V: Clone> LRUKCache<V> {
    pub open spec fn wf(&self) -> bool { self.k > 0 && self.cache@.len() <= self.capacity && forall|p: PageId| #[trigger] self.cache@.contains_key(p) ==> 0 < self.cache@[p].1@.len() <= self.k }
    pub open spec fn view(&self) -> Aged<V> { self.cache@ }
//@fn u LRUKCache::with_k
requires k > 0,
ensures res.wf(), res.capacity == capacity, res.k == k, res@ == Map::<PageId, (V, VecDeque<u64>)>::empty(),
//@endfn
//@fn u LRUKCache::new
ensures res.wf(), res.capacity == capacity, res@ == Map::<PageId, (V, VecDeque<u64>)>::empty(),
//@endfn
    // only the entry of `key` was touched: it has this value and remembers one more access
    pub open spec fn touched(&self, o: &Self, key: PageId, value: V) -> bool {
        &&& o@.contains_key(key) && self@.dom() == o@.dom() && self@[key].0 == value && remembers(self@[key].1@, o@[key].1@, o.k)
        &&& forall|p: PageId| #[trigger] self@.contains_key(p) && p != key ==> self@[p] == o@[p]
    }
    pub open spec fn fresh(&self, m: Aged<V>, key: PageId, value: V) -> bool { self@.contains_key(key) && self@[key].0 == value && self@[key].1@.len() == 1 && self@ == m.insert(key, self@[key]) }
//@fn u LRUKCache::insert
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self).k == old(self).k,
    res == (if old(self).capacity == 0 { None } else { got2(old(self)@, key) }),
    old(self).capacity == 0 ==> final(self)@ == old(self)@,
    old(self).capacity > 0 && old(self)@.contains_key(key) ==> final(self).touched(old(self), key, value),
    old(self).capacity > 0 && !old(self)@.contains_key(key) && old(self)@.len() < old(self).capacity ==> final(self).fresh(old(self)@, key, value),
    old(self).capacity > 0 && !old(self)@.contains_key(key) && old(self)@.len() == old(self).capacity ==> exists|v: PageId| next_out(old(self)@, v) && final(self).fresh(#[trigger] old(self)@.remove(v), key, value),
//@start
let ghost m0 = self@;
proof { lemma_same_dom(self@); }
//@before /history\.push_back\(now\);\s*if/
let ghost h0 = history@;
//@before /return Some\(old_value_clone\)/
proof { assert(h0.push(now).skip(1) =~= h0.push(now).subrange(1, h0.len() as int + 1)); assert(remembers(history@, h0, self.k)); }
//@loop 0
invariant self@ == m0, self.wf(), m0 == old(self)@, self.capacity == old(self).capacity, self.k == old(self).k, vp_n <= vp_ks@.len(), visits(vp_ks@, m0),
    (vp_n == 0) == (victim_key is None), scan(m0, vp_ks@, vp_n as int, victim_key, min_k_accesses, oldest_k_access, self.k),
decreases vp_ks@.len() - vp_n,
//@loopstart 0
proof { assert(vp_ks@.to_set().contains(vp_ks@[vp_n as int])); }
//@afterloop 0
proof { lemma_scan(m0, vp_ks@, victim_key, min_k_accesses, oldest_k_access, self.k); }
//@endfn
//@fn u LRUKCache::get
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self).k == old(self).k, got2_ref(old(self)@, *key, res),
    if old(self)@.contains_key(*key) { final(self).touched(old(self), *key, old(self)@[*key].0) } else { final(self)@ == old(self)@ },
//@start
proof { lemma_same_dom(self@); }
//@before /history\.push_back\(now\);\s*if/
let ghost h0 = history@;
//@after /history\.pop_front\(\);\s*\}/
proof { assert(h0.push(now).skip(1) =~= h0.push(now).subrange(1, h0.len() as int + 1)); assert(remembers(history@, h0, self.k)); }
//@endfn
//@fn u LRUKCache::contains
ensures res == self@.contains_key(*key),
//@endfn
//@fn u LRUKCache::len
ensures res == self@.len(),
//@endfn
//@fn u LRUKCache::capacity
ensures res == self.capacity,
//@endfn
//@fn u LRUKCache::clear
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self).k == old(self).k, final(self)@ == Map::<PageId, (V, VecDeque<u64>)>::empty(),
//@endfn
//@fn u LRUKCache::remove
requires old(self).wf(),
ensures final(self).wf(), res == got2(old(self)@, *key), final(self)@ == old(self)@.remove(*key), final(self).capacity == old(self).capacity, final(self).k == old(self).k,
//@endfn
//@fn u LRUKCache::pop_lru_k
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self).k == old(self).k,
    match res { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some((k, v)) => next_out(old(self)@, k) && v == old(self)@[k].0 && final(self)@ == old(self)@.remove(k) },
//@start
let ghost m0 = self@;
//@loop 0
invariant self@ == m0, self.wf(), m0 == old(self)@, self.capacity == old(self).capacity, self.k == old(self).k, vp_n <= vp_ks@.len(), visits(vp_ks@, m0),
    (vp_n == 0) == (victim_key is None), scan(m0, vp_ks@, vp_n as int, victim_key, min_k_accesses, oldest_k_access, self.k),
decreases vp_ks@.len() - vp_n,
//@loopstart 0
proof { assert(vp_ks@.to_set().contains(vp_ks@[vp_n as int])); }
//@afterloop 0
proof { lemma_scan(m0, vp_ks@, victim_key, min_k_accesses, oldest_k_access, self.k); }
//@endfn
//@fn u LRUKCache::peek_lru_k
//@rewrite /let mut victim_key = None/let mut victim_key: Option<&PageId> = None/
requires self.wf(),
ensures match res { None => self@.len() == 0, Some((k, v)) => next_out(self@, *k) && *v == self@[*k].0 },
//@start
let ghost m0 = self@;
//@loop 0
invariant self@ == m0, self.wf(), vp_n <= vp_ks@.len(), visits(vp_ks@, m0),
    (vp_n == 0) == (victim_key is None), scan(m0, vp_ks@, vp_n as int, match victim_key { Some(k) => Some(*k), None => None }, min_k_accesses, oldest_k_access, self.k),
decreases vp_ks@.len() - vp_n,
//@loopstart 0
proof { assert(vp_ks@.to_set().contains(vp_ks@[vp_n as int])); }
//@afterloop 0
proof { lemma_scan(m0, vp_ks@, match victim_key { Some(k) => Some(*k), None => None }, min_k_accesses, oldest_k_access, self.k); }
//@endfn
//@fn u LRUKCache::k_value
ensures res == self.k,
//@endfn
//@fn u LRUKCache::access_count
ensures res == (if self@.contains_key(*key) { Some(self@[*key].1@.len() as usize) } else { None }),
//@endfn
//@fn u LRUKCache::k_distance
requires self.wf(),
ensures res == (if self@.contains_key(*key) && self@[*key].1@.len() >= self.k { Some(self@[*key].1@[self@[*key].1@.len() - self.k]) } else { None }),
//@endfn
//@fn u LRUKCache::touch
requires old(self).wf(),
ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self).k == old(self).k, res == old(self)@.contains_key(*key),
    if old(self)@.contains_key(*key) { final(self).touched(old(self), *key, old(self)@[*key].0) } else { final(self)@ == old(self)@ },
//@start
proof { lemma_same_dom(self@); }
//@before /history\.push_back\(now\);\s*if/
let ghost h0 = history@;
//@after /history\.pop_front\(\);\s*\}/
proof { assert(h0.push(now).skip(1) =~= h0.push(now).subrange(1, h0.len() as int + 1)); assert(remembers(history@, h0, self.k)); }
//@endfn
}
proof fn lemma_same_dom<W>(m: Map<PageId, W>) ensures forall|k: PageId, w: W| #![trigger m.insert(k, w)] m.contains_key(k) ==> m.insert(k, w).dom() == m.dom() && m.insert(k, w).len() == m.len(),
{ assert forall|k: PageId, w: W| #![trigger m.insert(k, w)] m.contains_key(k) implies m.insert(k, w).dom() == m.dom() && m.insert(k, w).len() == m.len() by { assert(m.insert(k, w).dom() =~= m.dom()); } }
// the first n entries have been looked at: the victim goes before all of them
pub open spec fn scan<V>(m: Aged<V>, ks: Seq<PageId>, n: int, v: Option<PageId>, min: usize, oldest: u64, k: usize) -> bool {
    match v {
        None => n == 0 && min == usize::MAX,
        Some(x) => m.contains_key(x) && min == m[x].1@.len() && oldest == m[x].1@[0] && forall|j: int| 0 <= j < n ==> !goes_before(m[#[trigger] ks[j]].1@, m[x].1@),
    }
}
proof fn lemma_scan<V>(m: Aged<V>, ks: Seq<PageId>, v: Option<PageId>, min: usize, oldest: u64, k: usize)
    requires visits(ks, m), scan(m, ks, ks.len() as int, v, min, oldest, k), m.len() > 0, ks.len() == 0 ==> v is None, ks.len() > 0 ==> v is Some,
    ensures v is Some, next_out(m, v->0),
{
    if ks.len() == 0 { assert(ks.to_set() =~= Set::empty()); }
    assert forall|p: PageId| #[trigger] m.contains_key(p) implies !goes_before(m[p].1@, m[v->0].1@) by { assert(ks.to_set().contains(p)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == p; assert(!goes_before(m[ks[j]].1@, m[v->0].1@)); }
}

// --- the three tiers behind one manager
//@enum m DataTemperature
//@struct m PageData drop=last_accessed
impl Clone for PageData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { loop {} } }
//@struct m CacheManager drop=prefetch_engine,admission_controller,hot_data_tracker,dedup_engine,promotion_count,demotion_count,prefetch_accuracy,dedup_savings,prefetch_predictions,prefetch_hits,prefetch_total,cache_hits,cache_misses,hot_cache_hits,warm_cache_hits,cold_cache_hits
#[verifier::external_body]
pub fn vp_admits(p: PageId, d: &Bytes) -> bool { true }
#[verifier::external_body]
pub fn vp_temperature(p: PageId) -> DataTemperature { DataTemperature::Cold }
impl CacheManager {
    // a copy of page p with the bytes d is in some tier
    pub open spec fn holds(&self, p: PageId, d: Bytes) -> bool {
        ||| self.hot_cache@.contains_key(p) && self.hot_cache@[p].0 == d
        ||| self.warm_cache@.contains_key(p) && self.warm_cache@[p].0.data == d
        ||| self.cold_cache@.contains_key(p) && self.cold_cache@[p].data == d
    }
    pub open spec fn wf(&self) -> bool {
        self.hot_cache.wf() && self.warm_cache.wf() && self.cold_cache.wf()
    }
    pub open spec fn sized(&self, o: &Self) -> bool { self.hot_cache.capacity == o.hot_cache.capacity && self.warm_cache.capacity == o.warm_cache.capacity && self.cold_cache.capacity == o.cold_cache.capacity }
    // no use count of the warm tier is about to overflow (2^64 reads of one page)
    pub open spec fn countable(&self) -> bool { forall|p: PageId| #[trigger] self.warm_cache@.contains_key(p) ==> self.warm_cache@[p].1 < usize::MAX }
//@fn m CacheManager::page_data
ensures res.data == *data,
//@endfn
//@fn m CacheManager::store_page
//@rewrite /&self,/&mut self,/
requires old(self).wf(),
ensures final(self).wf(), final(self).sized(old(self)),
    // whatever copy of the page is left holds the stored bytes, and the other pages' copies are what they were
    forall|d: Bytes| #[trigger] final(self).holds(page_id, d) ==> d == data,
    forall|q: PageId, d: Bytes| #[trigger] final(self).holds(q, d) && q != page_id ==> old(self).holds(q, d),
//@endfn
//@fn m CacheManager::get_page_internal
//@rewrite /&self,/&mut self,/
requires old(self).wf(), old(self).countable(),
ensures final(self).wf(), final(self).sized(old(self)),
    res is Some ==> old(self).holds(page_id, res->0),
    forall|q: PageId, d: Bytes| #[trigger] final(self).holds(q, d) ==> old(self).holds(q, d),
//@endfn
//@fn m CacheManager::get_page
//@rewrite /&self,/&mut self,/
requires old(self).wf(), old(self).countable(),
ensures final(self).wf(), res is Some ==> old(self).holds(page_id, res->0), forall|q: PageId, d: Bytes| #[trigger] final(self).holds(q, d) ==> old(self).holds(q, d),
//@endfn
//@fn m CacheManager::get_page_with_metrics
//@rewrite /&self,/&mut self,/
requires old(self).wf(), old(self).countable(),
ensures final(self).wf(), res is Some ==> old(self).holds(page_id, res->0), forall|q: PageId, d: Bytes| #[trigger] final(self).holds(q, d) ==> old(self).holds(q, d),
//@endfn
//@fn m CacheManager::evict_if_needed
//@rewrite /&self\)/&mut self)/
requires old(self).wf(), old(self).cold_cache_size <= 0x7fff_ffff_ffff_ffff, old(self).warm_cache_size <= 0x7fff_ffff_ffff_ffff,
ensures final(self).wf(), final(self).sized(old(self)), forall|q: PageId, d: Bytes| #[trigger] final(self).holds(q, d) ==> old(self).holds(q, d),
//@endfn
}
}
fn main() {}
