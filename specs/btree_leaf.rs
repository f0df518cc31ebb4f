//@source leaf src/storage/page/page_types/b_plus_tree_leaf_page.rs
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
pub type PageId = u64;
//@include inc_ordeq.rs
//@include inc_order.rs
//@struct leaf BPlusTreeLeafPage drop=data generics=pub~struct~BPlusTreeLeafPage<K,~V,~C>
impl<K, V, C: Fn(&K, &K) -> Ordering> BPlusTreeLeafPage<K, V, C> {
pub open spec fn wf(&self) -> bool {
    &&& self.keys@.len() == self.size
    &&& self.values@.len() == self.size
    &&& sorted(self.keys@)
    &&& implements_order::<K, C>(self.comparator)
}
pub open spec fn map(&self) -> IMap<K, V> { as_map(self.keys@, self.values@) }
// everything but the entries and the dirty flag
pub open spec fn frame(&self, o: &Self) -> bool {
    &&& self.next_page_id == o.next_page_id
    &&& self.comparator == o.comparator
    &&& self.page_id == o.page_id
    &&& self.pin_count == o.pin_count
    &&& self.max_size == o.max_size
    &&& self.is_root == o.is_root
}
pub open spec fn unchanged(&self, o: &Self) -> bool {
    self.frame(o) && self.keys@ == o.keys@ && self.values@ == o.values@ && self.size == o.size && self.is_dirty == o.is_dirty
}
//@fn leaf BPlusTreeLeafPage::get_key_at
requires self.wf(),
ensures index < self.size ==> res == Some(&self.keys@[index as int]), index >= self.size ==> res.is_none(),
//@endfn
//@fn leaf BPlusTreeLeafPage::get_value_at
requires self.wf(),
ensures index < self.size ==> res == Some(&self.values@[index as int]), index >= self.size ==> res.is_none(),
//@endfn
//@fn leaf BPlusTreeLeafPage::set_value_at
requires old(self).wf(),
ensures final(self).wf(), final(self).frame(old(self)), res == (index < old(self).size),
    res ==> final(self).keys@ == old(self).keys@ && final(self).values@ == old(self).values@.update(index as int, value) && final(self).is_dirty,
    !res ==> final(self).unchanged(old(self)),
//@endfn
//@fn leaf BPlusTreeLeafPage::set_key_at
requires old(self).keys@.len() == old(self).size, old(self).values@.len() == old(self).size,
ensures final(self).frame(old(self)), res == (index < old(self).size),
    res ==> final(self).keys@ == old(self).keys@.update(index as int, key) && final(self).values@ == old(self).values@ && final(self).size == old(self).size && final(self).is_dirty,
    !res ==> final(self).unchanged(old(self)),
//@endfn
//@fn leaf BPlusTreeLeafPage::get_next_page_id
ensures res == self.next_page_id,
//@endfn
//@fn leaf BPlusTreeLeafPage::set_next_page_id
ensures final(self).next_page_id == page_id, final(self).is_dirty,
    final(self).keys@ == old(self).keys@, final(self).values@ == old(self).values@, final(self).size == old(self).size, final(self).max_size == old(self).max_size,
    final(self).is_root == old(self).is_root, final(self).page_id == old(self).page_id,
//@endfn
//@fn leaf BPlusTreeLeafPage::get_size
ensures res == self.size,
//@endfn
//@fn leaf BPlusTreeLeafPage::get_max_size
ensures res == self.max_size,
//@endfn
//@fn leaf BPlusTreeLeafPage::find_key_index
requires self.wf(),
ensures at_point(self.keys@, *key, res as int),
    // an existing key is found exactly
    self.keys@.contains(*key) ==> res < self.size && self.keys@[res as int] == *key,
//@start
proof { lemma_search(self.keys@, *key); }
//@loop 0
invariant self.wf(), search_facts(self.keys@, *key), low <= high <= self.size,
    forall|i: int| 0 <= i < low ==> lt(#[trigger] self.keys@[i], *key),
    forall|i: int| high <= i < self.size ==> lt(*key, #[trigger] self.keys@[i]),
decreases high - low,
//@endfn
//@fn leaf BPlusTreeLeafPage::insert_key_value
requires old(self).wf(),
ensures final(self).wf(), final(self).frame(old(self)),
    res == (old(self).size < old(self).max_size),
    !res ==> final(self).unchanged(old(self)),
    res ==> final(self).map() == old(self).map().insert(key, value) && final(self).is_dirty
        && final(self).size == old(self).size + (if old(self).keys@.contains(key) { 0int } else { 1int }),
//@start
let ghost ks = self.keys@;
let ghost vs = self.values@;
proof {
    assert forall|r: int| #[trigger] at_point(ks, key, r) && (r == ks.len() || ks[r] != key) implies
        sorted(ks.insert(r, key)) && as_map(ks.insert(r, key), vs.insert(r, value)) == as_map(ks, vs).insert(key, value) && !ks.contains(key) by {
        lemma_insert_map(ks, vs, key, value, r);
    }
    assert forall|r: int| 0 <= r < ks.len() && #[trigger] ks[r] == key implies
        as_map(ks, vs.update(r, value)) == as_map(ks, vs).insert(key, value) && ks.contains(key) by {
        lemma_update_map(ks, vs, value, r);
    }
}
//@endfn
//@fn leaf BPlusTreeLeafPage::insert_key_value_with_overflow
requires old(self).wf(), old(self).size < usize::MAX,
ensures final(self).wf(), final(self).frame(old(self)), res,
    final(self).map() == old(self).map().insert(key, value) && final(self).is_dirty
        && final(self).size == old(self).size + (if old(self).keys@.contains(key) { 0int } else { 1int }),
//@start
let ghost ks = self.keys@;
let ghost vs = self.values@;
proof {
    assert forall|r: int| #[trigger] at_point(ks, key, r) && (r == ks.len() || ks[r] != key) implies
        sorted(ks.insert(r, key)) && as_map(ks.insert(r, key), vs.insert(r, value)) == as_map(ks, vs).insert(key, value) && !ks.contains(key) by {
        lemma_insert_map(ks, vs, key, value, r);
    }
    assert forall|r: int| 0 <= r < ks.len() && #[trigger] ks[r] == key implies
        as_map(ks, vs.update(r, value)) == as_map(ks, vs).insert(key, value) && ks.contains(key) by {
        lemma_update_map(ks, vs, value, r);
    }
}
//@endfn
//@fn leaf BPlusTreeLeafPage::remove_key_value_at
requires old(self).wf(),
ensures final(self).wf(), final(self).frame(old(self)), res == (index < old(self).size),
    !res ==> final(self).unchanged(old(self)),
    res ==> final(self).map() == old(self).map().remove(old(self).keys@[index as int]) && final(self).size == old(self).size - 1 && final(self).is_dirty,
//@start
proof { if index < self.size { lemma_remove_map(self.keys@, self.values@, index as int); } }
//@endfn
}
fn main() {}
}
