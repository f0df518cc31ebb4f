// A comparator is any closure that implements a total order `lt`, whatever the order is.
pub uninterp spec fn lt<K>(a: K, b: K) -> bool;

pub open spec fn total_order<K>() -> bool {
    &&& forall|a: K| !(#[trigger] lt(a, a))
    &&& forall|a: K, b: K| #![trigger lt(a, b)] lt(a, b) || a == b || lt(b, a)
    &&& forall|a: K, b: K, c: K| #![trigger lt(a, b), lt(b, c)] lt(a, b) && lt(b, c) ==> lt(a, c)
}

pub open spec fn implements_order<K, C: Fn(&K, &K) -> Ordering>(c: C) -> bool {
    &&& total_order::<K>()
    &&& forall|a: K, b: K| #[trigger] c.requires((&a, &b))
    &&& forall|a: K, b: K, r: Ordering| #[trigger] c.ensures((&a, &b), r) ==> {
        &&& (r == Ordering::Less) == lt(a, b)
        &&& (r == Ordering::Equal) == (a == b)
        &&& (r == Ordering::Greater) == lt(b, a)
    }
}

pub open spec fn sorted<K>(s: Seq<K>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] lt(s[i], s[j])
}

// r is the insertion point of k in s
pub open spec fn at_point<K>(s: Seq<K>, k: K, r: int) -> bool {
    &&& 0 <= r <= s.len()
    &&& forall|i: int| 0 <= i < r ==> lt(#[trigger] s[i], k)
    &&& forall|i: int| r <= i < s.len() ==> !lt(#[trigger] s[i], k)
}

pub open spec fn as_map<K, V>(ks: Seq<K>, vs: Seq<V>) -> IMap<K, V> {
    IMap::new(|k: K| ks.contains(k), |k: K| vs[ks.index_of(k)])
}

pub proof fn lemma_sorted_index<K>(s: Seq<K>, i: int)
    requires total_order::<K>(), sorted(s), 0 <= i < s.len(),
    ensures s.index_of(s[i]) == i, s.contains(s[i]),
{
    assert(s.contains(s[i]));
    let j = s.index_of(s[i]);
    assert(0 <= j < s.len() && s[j] == s[i]);
    if j < i { assert(lt(s[j], s[i])); }
    if i < j { assert(lt(s[i], s[j])); }
}

pub proof fn lemma_point_unique<K>(s: Seq<K>, k: K, a: int, b: int)
    requires at_point(s, k, a), at_point(s, k, b),
    ensures a == b,
{
    if a < b { assert(lt(s[a], k)); }
    if b < a { assert(lt(s[b], k)); }
}

// Inserting a new key at its insertion point keeps the order and is the map insertion.
pub proof fn lemma_insert_map<K, V>(ks: Seq<K>, vs: Seq<V>, k: K, v: V, r: int)
    requires total_order::<K>(), sorted(ks), ks.len() == vs.len(), at_point(ks, k, r),
        r == ks.len() || ks[r] != k,
    ensures sorted(ks.insert(r, k)), as_map(ks.insert(r, k), vs.insert(r, v)) =~= as_map(ks, vs).insert(k, v),
        !ks.contains(k),
{
    let ks2 = ks.insert(r, k);
    let vs2 = vs.insert(r, v);
    assert forall|i: int| r <= i < ks.len() implies lt(k, #[trigger] ks[i]) by {
        if i > r { assert(lt(ks[r], ks[i])); }
        assert(!lt(ks[r], k));
    }
    assert(sorted(ks2)) by {
        assert forall|i: int, j: int| 0 <= i < j < ks2.len() implies #[trigger] lt(ks2[i], ks2[j]) by {
            let oi = if i < r { i } else { i - 1 };
            let oj = if j < r { j } else { j - 1 };
            if i != r && j != r { assert(lt(ks[oi], ks[oj])); }
        }
    }
    assert(!ks.contains(k));
    assert(ks2[r] == k);
    lemma_sorted_index(ks2, r);
    let m1 = as_map(ks2, vs2);
    let m2 = as_map(ks, vs).insert(k, v);
    assert forall|x: K| m1.dom().contains(x) == m2.dom().contains(x) by {
        if ks.contains(x) {
            let i = ks.index_of(x);
            let i2 = if i < r { i } else { i + 1 };
            assert(ks2[i2] == x);
        }
        if ks2.contains(x) && x != k {
            let i2 = ks2.index_of(x);
            let i = if i2 < r { i2 } else { i2 - 1 };
            assert(ks[i] == x);
        }
    }
    assert forall|x: K| m1.dom().contains(x) implies #[trigger] m1[x] == m2[x] by {
        if x != k {
            assert(m2.dom().contains(x));
            let i = ks.index_of(x);
            let i2 = if i < r { i } else { i + 1 };
            assert(ks2[i2] == x);
            lemma_sorted_index(ks2, i2);
        }
    }
}

pub proof fn lemma_update_map<K, V>(ks: Seq<K>, vs: Seq<V>, v: V, r: int)
    requires total_order::<K>(), sorted(ks), ks.len() == vs.len(), 0 <= r < ks.len(),
    ensures as_map(ks, vs.update(r, v)) =~= as_map(ks, vs).insert(ks[r], v), ks.contains(ks[r]),
{
    let m1 = as_map(ks, vs.update(r, v));
    let m2 = as_map(ks, vs).insert(ks[r], v);
    lemma_sorted_index(ks, r);
    assert forall|x: K| m1.dom().contains(x) == m2.dom().contains(x) by {}
    assert forall|x: K| m1.dom().contains(x) implies #[trigger] m1[x] == m2[x] by {
        let i = ks.index_of(x);
        lemma_sorted_index(ks, i);
        if i == r { assert(x == ks[r]); }
    }
}

pub proof fn lemma_remove_map<K, V>(ks: Seq<K>, vs: Seq<V>, r: int)
    requires total_order::<K>(), sorted(ks), ks.len() == vs.len(), 0 <= r < ks.len(),
    ensures sorted(ks.remove(r)), as_map(ks.remove(r), vs.remove(r)) =~= as_map(ks, vs).remove(ks[r]),
{
    let ks2 = ks.remove(r);
    let vs2 = vs.remove(r);
    let k = ks[r];
    assert(sorted(ks2)) by {
        assert forall|i: int, j: int| 0 <= i < j < ks2.len() implies #[trigger] lt(ks2[i], ks2[j]) by {
            let oi = if i < r { i } else { i + 1 };
            let oj = if j < r { j } else { j + 1 };
            assert(lt(ks[oi], ks[oj]));
        }
    }
    lemma_sorted_index(ks, r);
    let m1 = as_map(ks2, vs2);
    let m2 = as_map(ks, vs).remove(k);
    assert forall|x: K| m1.dom().contains(x) == m2.dom().contains(x) by {
        if ks2.contains(x) {
            let i2 = ks2.index_of(x);
            let i = if i2 < r { i2 } else { i2 + 1 };
            assert(ks[i] == x);
            lemma_sorted_index(ks, i);
        }
        if ks.contains(x) && x != k {
            let i = ks.index_of(x);
            let i2 = if i < r { i } else { i - 1 };
            assert(ks2[i2] == x);
        }
    }
    assert forall|x: K| m1.dom().contains(x) implies #[trigger] m1[x] == m2[x] by {
        let i2 = ks2.index_of(x);
        let i = if i2 < r { i2 } else { i2 + 1 };
        assert(ks[i] == x);
        lemma_sorted_index(ks, i);
        lemma_sorted_index(ks2, i2);
    }
}

// the order facts a binary search over s for k needs
pub open spec fn search_facts<K>(s: Seq<K>, k: K) -> bool {
    &&& forall|i: int, m: int| #![trigger s[i], s[m]] 0 <= i < m < s.len() && (lt(s[m], k) || s[m] == k) ==> lt(s[i], k)
    &&& forall|i: int, m: int| #![trigger s[i], s[m]] 0 <= m < i < s.len() && (lt(k, s[m]) || s[m] == k) ==> lt(k, s[i])
}

pub proof fn lemma_search<K>(s: Seq<K>, k: K)
    requires total_order::<K>(), sorted(s),
    ensures search_facts(s, k),
{
    assert forall|i: int, m: int| #![trigger s[i], s[m]] 0 <= i < m < s.len() && (lt(s[m], k) || s[m] == k) implies lt(s[i], k) by {
        assert(lt(s[i], s[m]));
    }
    assert forall|i: int, m: int| #![trigger s[i], s[m]] 0 <= m < i < s.len() && (lt(k, s[m]) || s[m] == k) implies lt(k, s[i]) by {
        assert(lt(s[m], s[i]));
    }
}
