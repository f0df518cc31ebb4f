// std collections calls vstd has no contract for; each body is the call itself (assumed contracts)
#[verifier::external_body]
pub fn hm_get_mut<'a, K: Eq + std::hash::Hash + Copy, V>(m: &'a mut HashMap<K, V>, k: &K) -> (r: Option<&'a mut V>)
    ensures match r {
        None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@,
        Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)) && (*final(v) == *v ==> final(m)@ == old(m)@),
    },
{ m.get_mut(k) }
#[verifier::external_body]
pub fn hm_entry_or<'a, K: Eq + std::hash::Hash, V>(m: &'a mut HashMap<K, V>, k: K, d: V) -> (v: &'a mut V)
    ensures *v == (if old(m)@.contains_key(k) { old(m)@[k] } else { d }), final(m)@ == old(m)@.insert(k, *final(v)),
{ m.entry(k).or_insert(d) }
pub open spec fn first_at<T>(s: Seq<T>, x: T, i: int) -> bool { 0 <= i < s.len() && s[i] == x && forall|j: int| 0 <= j < i ==> s[j] != x }
#[verifier::external_body]
pub fn vd_position<T: PartialEq>(s: &VecDeque<T>, x: T) -> (r: Option<usize>)
    ensures match r { None => !s@.contains(x), Some(i) => first_at(s@, x, i as int) },
{ s.iter().position(|y| *y == x) }
#[verifier::external_body]
pub fn vd_remove<T>(s: &mut VecDeque<T>, i: usize) -> (r: Option<T>)
    ensures match r { None => i >= old(s)@.len() && final(s)@ == old(s)@, Some(x) => i < old(s)@.len() && x == old(s)@[i as int] && final(s)@ == old(s)@.remove(i as int) },
{ s.remove(i) }
#[verifier::external_body]
pub fn vd_front_or<T: Copy>(s: &VecDeque<T>, d: T) -> (r: T)
    ensures r == if s@.len() > 0 { s@[0] } else { d },
{ s.front().copied().unwrap_or(d) }
#[verifier::external_body]
pub fn vd_get_or<T: Copy>(s: &VecDeque<T>, i: usize, d: T) -> (r: T)
    ensures r == if i < s@.len() { s@[i as int] } else { d },
{ s.get(i).copied().unwrap_or(d) }
