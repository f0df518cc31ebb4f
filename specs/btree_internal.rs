//@source int src/storage/page/page_types/b_plus_tree_internal_page.rs
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
pub type PageId = u64;
//@include inc_ordeq.rs
//@include inc_order.rs
//@struct int BPlusTreeInternalPage drop=data generics=pub~struct~BPlusTreeInternalPage<KeyType,~KeyComparator>
// number of keys not above k: the child slot that covers k
pub open spec fn slot_of<K>(s: Seq<K>, k: K, r: int) -> bool {
    &&& 0 <= r <= s.len()
    &&& forall|i: int| 0 <= i < r ==> !lt(k, #[trigger] s[i])
    &&& forall|i: int| r <= i < s.len() ==> lt(k, #[trigger] s[i])
}
impl<KeyType: Clone, KeyComparator: Fn(&KeyType, &KeyType) -> Ordering> BPlusTreeInternalPage<KeyType, KeyComparator> {
pub open spec fn wf(&self) -> bool {
    &&& self.keys@.len() == self.size
    &&& self.size > 0 ==> self.values@.len() == self.size + 1
    &&& self.size == 0 ==> self.values@.len() <= 1
    &&& sorted(self.keys@)
    &&& self.max_size < usize::MAX
    &&& self.size <= self.max_size
    &&& implements_order::<KeyType, KeyComparator>(self.comparator)
}
pub open spec fn frame(&self, o: &Self) -> bool {
    &&& self.comparator == o.comparator
    &&& self.page_id == o.page_id
    &&& self.pin_count == o.pin_count
    &&& self.max_size == o.max_size
}
pub open spec fn unchanged(&self, o: &Self) -> bool {
    self.frame(o) && self.keys@ == o.keys@ && self.values@ == o.values@ && self.size == o.size && self.is_dirty == o.is_dirty && self.is_root == o.is_root
}
//@fn int BPlusTreeInternalPage::get_size
ensures res == self.size,
//@endfn
//@fn int BPlusTreeInternalPage::get_max_size
ensures res == self.max_size,
//@endfn
//@fn int BPlusTreeInternalPage::get_min_size
ensures res == self.max_size / 2,
//@endfn
//@fn int BPlusTreeInternalPage::is_root
ensures res == self.is_root,
//@endfn
//@fn int BPlusTreeInternalPage::should_collapse_root
ensures res == (self.is_root && self.keys@.len() == 0),
//@endfn
//@fn int BPlusTreeInternalPage::get_only_child_page_id
ensures res.is_some() == (self.is_root && self.keys@.len() == 0 && self.values@.len() > 0),
    res.is_some() ==> res.unwrap() == self.values@[0],
//@endfn
//@fn int BPlusTreeInternalPage::get_key_at
requires self.wf(),
ensures res.is_some() == (index < self.size), res.is_some() ==> cloned(self.keys@[index as int], res.unwrap()),
//@endfn
//@fn int BPlusTreeInternalPage::get_value_at
ensures res.is_some() == (index < self.values@.len()), res.is_some() ==> res.unwrap() == self.values@[index as int],
//@endfn
//@fn int BPlusTreeInternalPage::get_first_key
requires self.wf(),
ensures res.is_some() == (self.size > 0), res.is_some() ==> cloned(self.keys@[0], res.unwrap()),
//@endfn
//@fn int BPlusTreeInternalPage::get_last_key
requires self.wf(),
ensures res.is_some() == (self.size > 0), res.is_some() ==> cloned(self.keys@[self.size - 1], res.unwrap()),
//@endfn
//@fn int BPlusTreeInternalPage::is_underfull
requires self.wf(),
ensures res == (!self.is_root && self.size > 0 && self.size < self.max_size / 2),
//@endfn
//@fn int BPlusTreeInternalPage::can_donate_key
requires self.wf(),
ensures res == (self.size > self.max_size / 2),
//@endfn
//@fn int BPlusTreeInternalPage::find_key_index
requires self.wf(),
ensures at_point(self.keys@, *key, res as int),
    self.keys@.contains(*key) ==> res < self.size && self.keys@[res as int] == *key,
//@start
proof { lemma_search(self.keys@, *key); }
//@loop 0
invariant self.wf(), search_facts(self.keys@, *key), self.size > 0, left <= right + 1, right < self.size,
    forall|i: int| 0 <= i < left ==> lt(#[trigger] self.keys@[i], *key),
    forall|i: int| right < i < self.size ==> lt(*key, #[trigger] self.keys@[i]),
decreases right + 1 - left,
//@endfn
//@fn int BPlusTreeInternalPage::find_child_for_key
requires self.wf(),
ensures res.is_some() == (self.size > 0),
    // the child whose key range covers the key: exactly the slot after the last separator <= key
    self.size > 0 ==> exists|r: int| #[trigger] slot_of(self.keys@, *key, r) && res.unwrap() == self.values@[r],
//@start
proof {
    lemma_search(self.keys@, *key);
    let ks = self.keys@;
    assert forall|r: int| 0 <= r <= ks.len() && (r == 0 || !lt(*key, ks[r - 1])) && (r == ks.len() || lt(*key, #[trigger] ks[r])) implies slot_of(ks, *key, r) by {}
    if ks.len() > 0 && !lt(*key, ks[ks.len() - 1]) { assert(slot_of(ks, *key, ks.len() as int)); }
    if ks.len() > 0 && lt(*key, ks[0]) { assert(slot_of(ks, *key, 0)); }
}
//@loop 0
invariant self.wf(), search_facts(self.keys@, *key), self.size > 1, !lt(*key, self.keys@[i as int]),
//@loopstart 0
proof { let ks = self.keys@; let j = i + 1; assert(ks[i as int] == ks[j - 1]);
    if lt(*key, ks[j]) && !lt(*key, ks[i as int]) { assert(slot_of(ks, *key, j)); } }
//@endfn
//@fn int BPlusTreeInternalPage::insert_key_value
requires old(self).wf(),
ensures final(self).wf(), final(self).frame(old(self)), final(self).is_root == old(self).is_root,
    res == (old(self).size < old(self).max_size),
    !res ==> final(self).unchanged(old(self)),
    res ==> final(self).is_dirty,
    // first key: both children start out as the given one
    res && old(self).size == 0 && old(self).values@.len() == 0 ==> final(self).keys@ == seq![key] && final(self).values@ == seq![value, value],
    // a node left with a single child keeps it on the left
    res && old(self).size == 0 && old(self).values@.len() == 1 ==> final(self).keys@ == seq![key] && final(self).values@ == seq![old(self).values@[0], value],
    // known separator: its right child is replaced
    res && old(self).size > 0 ==> forall|r: int| #[trigger] at_point(old(self).keys@, key, r) ==> if r < old(self).size && old(self).keys@[r] == key {
        final(self).keys@ == old(self).keys@ && final(self).values@ == old(self).values@.update(r + 1, value)
    } else {
        final(self).keys@ == old(self).keys@.insert(r, key) && final(self).values@ == old(self).values@.insert(r + 1, value)
    },
//@start
let ghost ks = self.keys@;
let ghost vs = self.values@;
proof {
    let vz = Seq::<KeyType>::new(ks.len(), |i: int| ks[i]);
    assert forall|r: int| #[trigger] at_point(ks, key, r) && (r == ks.len() || ks[r] != key) implies sorted(ks.insert(r, key)) by {
        lemma_insert_map(ks, ks, key, key, r);
    }
    assert forall|r: int, q: int| #[trigger] at_point(ks, key, r) && #[trigger] at_point(ks, key, q) implies r == q by {
        lemma_point_unique(ks, key, r, q);
    }
}
//@endfn
//@fn int BPlusTreeInternalPage::remove_key_value_at
requires old(self).wf(),
ensures final(self).wf(), final(self).frame(old(self)), final(self).is_root == old(self).is_root,
    res == (index < old(self).size),
    !res ==> final(self).unchanged(old(self)),
    res ==> final(self).is_dirty && final(self).keys@ == old(self).keys@.remove(index as int),
    // the separator goes together with the child to its right
    res && old(self).size > 1 ==> final(self).values@ == old(self).values@.remove(index + 1),
    res && old(self).size == 1 && old(self).is_root ==> final(self).values@ == seq![old(self).values@[0]],
    res && old(self).size == 1 && !old(self).is_root ==> final(self).values@.len() == 0,
//@start
proof { if index < self.size { lemma_remove_map(self.keys@, self.keys@, index as int);
    assert(self.size == 1 ==> self.keys@.remove(index as int) =~= Seq::<KeyType>::empty()); } }
//@endfn
//@fn int BPlusTreeInternalPage::populate_new_root
requires old(self).wf(), old(self).max_size > 0,
ensures final(self).wf(), final(self).frame(old(self)),
    res == (old(self).size == 0 && old(self).values@.len() == 0),
    !res ==> final(self).unchanged(old(self)),
    res ==> final(self).is_root && final(self).is_dirty && final(self).keys@ == seq![middle_key] && final(self).values@ == seq![first_child_page_id, second_child_page_id],
//@endfn
//@fn int BPlusTreeInternalPage::borrow_from_left
requires old(self).wf(), old(self).size > 0, lt(parent_key, old(self).keys@[0]),
ensures final(self).wf(), final(self).frame(old(self)), final(self).is_root == old(self).is_root,
    res == (old(self).size < old(self).max_size),
    !res ==> final(self).unchanged(old(self)),
    res ==> final(self).keys@ == old(self).keys@.insert(0, parent_key) && final(self).values@ == old(self).values@.insert(0, sibling_rightmost_child) && final(self).is_dirty,
//@start
proof {
    let ks = self.keys@;
    assert forall|i: int| 0 <= i < ks.len() implies lt(parent_key, #[trigger] ks[i]) by { if i > 0 { assert(lt(ks[0], ks[i])); } }
    assert(at_point(ks, parent_key, 0)) by { assert forall|i: int| 0 <= i < ks.len() implies !lt(#[trigger] ks[i], parent_key) by { assert(lt(parent_key, ks[i])); if lt(ks[i], parent_key) { assert(lt(parent_key, parent_key)); } } }
    lemma_insert_map(ks, ks, parent_key, parent_key, 0);
}
//@endfn
//@fn int BPlusTreeInternalPage::borrow_from_right
requires old(self).wf(), old(self).size > 0, lt(old(self).keys@[old(self).size - 1], parent_key),
ensures final(self).wf(), final(self).frame(old(self)), final(self).is_root == old(self).is_root,
    res == (old(self).size < old(self).max_size),
    !res ==> final(self).unchanged(old(self)),
    res ==> final(self).keys@ == old(self).keys@.push(parent_key) && final(self).values@ == old(self).values@.push(sibling_leftmost_child) && final(self).is_dirty,
//@start
proof {
    let ks = self.keys@;
    let n = ks.len() as int;
    assert(at_point(ks, parent_key, n)) by { assert forall|i: int| 0 <= i < n implies lt(#[trigger] ks[i], parent_key) by { if i < n - 1 { assert(lt(ks[i], ks[n - 1])); } } }
    lemma_insert_map(ks, ks, parent_key, parent_key, n);
    assert(ks.insert(n, parent_key) =~= ks.push(parent_key));
}
//@endfn
//@fn int BPlusTreeInternalPage::merge_with_right_sibling
requires old(self).wf(), old(self).size > 0, right_sibling_keys@.len() > 0, right_sibling_values@.len() == right_sibling_keys@.len() + 1,
    sorted(right_sibling_keys@), old(self).keys@.len() + 1 + right_sibling_keys@.len() <= usize::MAX,
    lt(old(self).keys@[old(self).size - 1], parent_key), lt(parent_key, right_sibling_keys@[0]),
ensures final(self).wf(), final(self).frame(old(self)), final(self).is_root == old(self).is_root,
    res == (old(self).size + 1 + right_sibling_keys@.len() <= old(self).max_size),
    !res ==> final(self).unchanged(old(self)),
    // no separator and no child of either node is lost
    res ==> final(self).keys@ == old(self).keys@.push(parent_key) + right_sibling_keys@ && final(self).values@ == old(self).values@ + right_sibling_values@ && final(self).is_dirty,
//@start
let ghost ks = self.keys@;
let ghost vs = self.values@;
let ghost rk = right_sibling_keys@;
let ghost rv = right_sibling_values@;
proof { lemma_concat_sorted(ks, parent_key, rk); }
//@loop 0 it
invariant it.seq() == rk, self.frame(old(self)), self.is_root == old(self).is_root, self.values@ == vs,
    self.keys@ == ks.push(parent_key) + rk.take(it.index@ as int),
//@loop 1 it
invariant it.seq() == rv, self.frame(old(self)), self.is_root == old(self).is_root,
    self.keys@ == ks.push(parent_key) + rk, self.values@ == vs + rv.take(it.index@ as int),
//@loopend 0
proof { assert(rk.take(it.index@ as int + 1) =~= rk.take(it.index@ as int).push(rk[it.index@ as int])); }
//@endfn
}
pub proof fn lemma_concat_sorted<K>(a: Seq<K>, k: K, b: Seq<K>)
    requires total_order::<K>(), sorted(a), sorted(b), a.len() > 0, b.len() > 0, lt(a[a.len() - 1], k), lt(k, b[0]),
    ensures sorted(a.push(k) + b),
{
    let s = a.push(k) + b;
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] lt(s[i], s[j]) by {
        let n = a.len() as int;
        if i < n - 1 { assert(lt(a[i], a[n - 1])); }
        if j > n + 1 { assert(lt(b[0], b[j - n - 1])); }
        if j < n { assert(lt(a[i], a[j])); }
        if i > n { assert(lt(b[i - n - 1], b[j - n - 1])); }
        if i < n { assert(lt(s[i], k)); }
        if j > n { assert(lt(k, s[j])); }
    }
}
fn main() {}
}
