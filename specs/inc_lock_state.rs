#[verifier::external_body]
pub fn rq_clone(r: &LockRequest) -> (c: LockRequest) ensures c == *r, { r.clone() }
impl Clone for LockRequest { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn rq_retain_others(s: &mut VecDeque<LockRequest>, t: TxnId) ensures final(s)@ == others(old(s)@, t), { s.retain(|req| req.txn_id != t) }
pub struct LockCompatibilityChecker;
impl LockCompatibilityChecker {
//@fn lm LockCompatibilityChecker::are_compatible
ensures res == compat(l1, l2),
//@endfn
//@fn lm LockCompatibilityChecker::covers nopub
ensures res == includes(held, wanted),
//@endfn
}
impl LockRequest {
//@fn lm LockRequest::new_table_request
ensures res == (LockRequest { txn_id, lock_mode, oid, rid: None, granted: false }),
//@endfn
//@fn lm LockRequest::new_row_request
ensures res == (LockRequest { txn_id, lock_mode, oid, rid: Some(rid), granted: false }),
//@endfn
//@fn lm LockRequest::get_oid
ensures res == self.oid,
//@endfn
//@fn lm LockRequest::get_rid
ensures res == self.rid,
//@endfn
//@fn lm LockRequest::get_txn_id
ensures res == self.txn_id,
//@endfn
//@fn lm LockRequest::get_lock_mode
ensures res == self.lock_mode,
//@endfn
//@fn lm LockRequest::is_granted
ensures res == self.granted,
//@endfn
}
pub proof fn lemma_push_contains<A>(s: Seq<A>, x: A) ensures forall|y: A| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x), {
    assert forall|y: A| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x) by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        assert(s.push(x)[s.len() as int] == x);
    }
}
// whatever tolerates the mode held tolerates the modes it includes
pub proof fn lemma_covered(s: Entries, t: TxnId, m: LockMode) requires peace(s), ensures covered(s, t, m) ==> free(s, t, m), {
    if covered(s, t, m) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] grants(s[i], t) && includes(s[i].lock_mode, m);
        assert forall|j: int| 0 <= j < s.len() implies !#[trigger] clashes(s[j], t, m) by { assert(s[i].granted); if s[j].granted && s[j].txn_id != t { assert(compat(s[j].lock_mode, s[i].lock_mode)); } }
    }
}
pub proof fn lemma_push(s: Entries, e: LockRequest) requires peace(s), e.granted ==> free(s, e.txn_id, e.lock_mode),
    ensures peace(s.push(e)), e.granted ==> holds_as(s.push(e), e.txn_id, e.lock_mode),
{
    let p = s.push(e);
    assert(grants(p[s.len() as int], e.txn_id) == e.granted);
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && #[trigger] p[i].granted && #[trigger] p[j].granted && p[i].txn_id != p[j].txn_id implies compat(p[i].lock_mode, p[j].lock_mode) by {
        if i < s.len() && j < s.len() { assert(s[i].granted && s[j].granted); }
        if i < s.len() && e.granted { assert(!clashes(s[i], e.txn_id, e.lock_mode)); }
        if j < s.len() && e.granted { assert(!clashes(s[j], e.txn_id, e.lock_mode)); }
    }
}
// every entry is still there; some that waited hold the lock now
pub open spec fn raised(a: Entries, b: Entries) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]) == a[i] || (!a[i].granted && b[i] == (LockRequest { granted: true, ..a[i] })) }
pub open spec fn awarded_at(a: Entries, b: Entries, e: LockRequest, i: int) -> bool { 0 <= i < a.len() && a[i] == e && !e.granted && b[i].granted }
pub open spec fn awarded(a: Entries, b: Entries, e: LockRequest) -> bool { exists|i: int| awarded_at(a, b, e, i) }
pub open spec fn waiting(s: Entries) -> nat decreases s.len(), { if s.len() == 0 { 0 } else { waiting(s.drop_last()) + if s.last().granted { 0nat } else { 1nat } } }
pub proof fn lemma_waiting(s: Entries, i: int) requires 0 <= i < s.len(), !s[i].granted, ensures waiting(s) == waiting(s.update(i, LockRequest { granted: true, ..s[i] })) + 1, decreases s.len(), {
    let u = s.update(i, LockRequest { granted: true, ..s[i] });
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); } else { lemma_waiting(s.drop_last(), i); assert(u.drop_last() =~= s.drop_last().update(i, LockRequest { granted: true, ..s[i] })); }
}
pub proof fn lemma_grant(s: Entries, i: int) requires 0 <= i < s.len(), peace(s), !s[i].granted, free(s, s[i].txn_id, s[i].lock_mode),
    ensures ({ let u = s.update(i, LockRequest { granted: true, ..s[i] }); peace(u) && waiting(u) < waiting(s) && forall|t: TxnId, m: LockMode| #[trigger] free(u, t, m) ==> free(s, t, m) }),
{
    let u = s.update(i, LockRequest { granted: true, ..s[i] });
    lemma_waiting(s, i);
    assert forall|a: int, b: int| 0 <= a < u.len() && 0 <= b < u.len() && #[trigger] u[a].granted && #[trigger] u[b].granted && u[a].txn_id != u[b].txn_id implies compat(u[a].lock_mode, u[b].lock_mode) by {
        assert(!clashes(s[a], s[i].txn_id, s[i].lock_mode) && !clashes(s[b], s[i].txn_id, s[i].lock_mode));
        if a != i && b != i { assert(s[a].granted && s[b].granted); }
    }
    assert forall|t: TxnId, m: LockMode| #[trigger] free(u, t, m) implies free(s, t, m) by { assert forall|j: int| 0 <= j < s.len() implies !#[trigger] clashes(s[j], t, m) by { assert(!clashes(u[j], t, m)); } }
}
impl LockRequestQueue {
//@fn lm LockRequestQueue::new
ensures res.s() == Seq::<LockRequest>::empty(), res.upgrading == INVALID_TXN_ID,
//@endfn
//@fn lm LockRequestQueue::compatible_with_existing_locks
ensures res == (self.open_to(request.txn_id) && free(self.s(), request.txn_id, request.lock_mode)),
//@loop 0
invariant txn_id == request.txn_id, new_mode == request.lock_mode, self.open_to(txn_id), vp_n <= self.s().len(),
    forall|i: int| 0 <= i < vp_n ==> !#[trigger] clashes(self.s()[i], txn_id, new_mode),
decreases self.s().len() - vp_n,
//@loopstart 0
let ghost c0 = clashes(self.s()[vp_n as int], txn_id, new_mode);
//@endfn
// the entry for t with mode m is there, held; or it was added, waiting, because somebody is in the way
//@fn lm LockRequestQueue::grant_lock
requires peace(old(self).s()), !request.granted,
ensures peace(final(self).s()),
    final(self).s() == old(self).s() || final(self).s() == old(self).s().push(LockRequest { granted: res, ..request }),
    res ==> holds_as(final(self).s(), request.txn_id, request.lock_mode),
    !res ==> final(self).s() == old(self).s().push(request) && !covered(old(self).s(), request.txn_id, request.lock_mode),
    res == (covered(old(self).s(), request.txn_id, request.lock_mode) || (old(self).open_to(request.txn_id) && free(old(self).s(), request.txn_id, request.lock_mode))),
    final(self).upgrading == (if res { if old(self).upgrading == request.txn_id && final(self).s() != old(self).s() { INVALID_TXN_ID } else { old(self).upgrading } } else if old(self).upgrading == INVALID_TXN_ID && holds(old(self).s(), request.txn_id) { request.txn_id } else { old(self).upgrading }),
//@loop 0
invariant txn_id == request.txn_id, lock_mode == request.lock_mode, *self == *old(self), peace(self.s()), vp_n <= self.s().len(), !request.granted,
    upgrade == (exists|i: int| 0 <= i < vp_n && #[trigger] grants(self.s()[i], txn_id)),
    covered == (exists|i: int| 0 <= i < vp_n && #[trigger] grants(self.s()[i], txn_id) && includes(self.s()[i].lock_mode, lock_mode)),
    forall|i: int| 0 <= i < vp_n && #[trigger] grants(self.s()[i], txn_id) ==> self.s()[i].lock_mode != lock_mode,
decreases self.s().len() - vp_n,
//@loopstart 0
let ghost c0 = grants(self.s()[vp_n as int], txn_id);
//@before /self\.request_queue\.push_back\(request\);/
let ghost before = self.s();
proof { lemma_covered(before, txn_id, lock_mode); }
//@after /self\.request_queue\.push_back\(request\);/
proof { lemma_push(before, request); }
//@endfn
//@fn lm LockRequestQueue::remove_txn nopub
ensures final(self).s() == others(old(self).s(), txn_id), final(self).upgrading == (if old(self).upgrading == txn_id { INVALID_TXN_ID } else { old(self).upgrading }),
//@endfn
//@fn lm LockRequestQueue::held_modes nopub
ensures forall|m: LockMode| #[trigger] res@.contains(m) == holds_as(self.s(), txn_id, m), (res@.len() > 0) == holds(self.s(), txn_id),
//@loop 0
invariant vp_n <= self.s().len(),
    forall|m: LockMode| #[trigger] modes@.contains(m) == (exists|i: int| 0 <= i < vp_n && #[trigger] grants(self.s()[i], txn_id) && self.s()[i].lock_mode == m),
    (modes@.len() > 0) == (exists|i: int| 0 <= i < vp_n && #[trigger] grants(self.s()[i], txn_id)),
decreases self.s().len() - vp_n,
//@loopstart 0
let ghost c0 = grants(self.s()[vp_n as int], txn_id); let ghost m0 = modes@;
//@after /modes\.push\(existing\.get_lock_mode\(\)\);/
proof { lemma_push_contains(m0, existing.lock_mode); }
//@endfn
//@fn lm LockRequestQueue::blockers nopub
ensures forall|t: TxnId| #[trigger] res@.contains(t) == (t != request.txn_id && ((t == self.upgrading && t != INVALID_TXN_ID) || exists|i: int| 0 <= i < self.s().len() && self.s()[i].txn_id == t && #[trigger] clashes(self.s()[i], request.txn_id, request.lock_mode))),
//@loop 0
invariant txn_id == request.txn_id, vp_n <= self.s().len(),
    forall|t: TxnId| #[trigger] blockers@.contains(t) == (t != txn_id && ((t == self.upgrading && t != INVALID_TXN_ID) || exists|i: int| 0 <= i < vp_n && self.s()[i].txn_id == t && #[trigger] clashes(self.s()[i], txn_id, request.lock_mode))),
decreases self.s().len() - vp_n,
//@loopstart 0
let ghost c0 = clashes(self.s()[vp_n as int], txn_id, request.lock_mode); let ghost b0 = blockers@;
//@after /blockers\.push\(existing\.get_txn_id\(\)\);/
proof { lemma_push_contains(b0, existing.txn_id); }
//@after /blockers\.push\(self\.upgrading\);/
proof { lemma_push_contains(Seq::<TxnId>::empty(), self.upgrading); }
//@endfn
//@fn lm LockRequestQueue::grant_waiting nopub
requires peace(old(self).s()),
ensures peace(final(self).s()), final(self).settled(), raised(old(self).s(), final(self).s()),
    forall|k: int| 0 <= k < res@.len() ==> awarded(old(self).s(), final(self).s(), #[trigger] res@[k]),
    forall|i: int| 0 <= i < old(self).s().len() && (#[trigger] final(self).s()[i]).granted && !old(self).s()[i].granted ==> res@.contains(old(self).s()[i]),
    final(self).upgrading == old(self).upgrading || final(self).upgrading == INVALID_TXN_ID,
//@loop 0
invariant peace(self.s()), raised(old(self).s(), self.s()), i <= self.s().len(),
    forall|k: int| 0 <= k < granted@.len() ==> awarded(old(self).s(), self.s(), #[trigger] granted@[k]),
    forall|j: int| 0 <= j < old(self).s().len() && (#[trigger] self.s()[j]).granted && !old(self).s()[j].granted ==> granted@.contains(old(self).s()[j]),
    self.upgrading == old(self).upgrading || self.upgrading == INVALID_TXN_ID,
    forall|j: int| 0 <= j < i && !(#[trigger] self.s()[j]).granted ==> !(self.open_to(self.s()[j].txn_id) && free(self.s(), self.s()[j].txn_id, self.s()[j].lock_mode)),
decreases waiting(self.s()), self.s().len() - i,
//@loopstart 0
let ghost s0 = self.s(); let ghost g0 = granted@;
//@before /granted\.push\(request\);/
proof { lemma_grant(s0, i as int); lemma_push_contains(g0, request); assert(self.s() =~= s0.update(i as int, LockRequest { granted: true, ..s0[i as int] })); assert(awarded_at(old(self).s(), self.s(), request, i as int)); }
//@after /granted\.push\(request\);/
proof { assert forall|k: int| 0 <= k < granted@.len() implies awarded(old(self).s(), self.s(), #[trigger] granted@[k]) by { if k < g0.len() { assert(granted@[k] == g0[k]); let j = choose|j: int| awarded_at(old(self).s(), s0, g0[k], j); assert(awarded_at(old(self).s(), self.s(), g0[k], j)); } } }
//@endfn
}
#[verifier::external_body]
pub fn hs_drop_row(s: &mut HashSet<(TableOidT, RID)>, rid: RID) ensures forall|p: (TableOidT, RID)| #[trigger] final(s)@.contains(p) == (old(s)@.contains(p) && p.1 != rid), { s.retain(|(_, held)| *held != rid) }
#[verifier::external_body]
pub fn hs_items(s: &HashSet<(TableOidT, RID)>) -> (r: Vec<(TableOidT, RID)>) ensures forall|p: (TableOidT, RID)| #[trigger] r@.contains(p) == s@.contains(p), { s.iter().copied().collect() }
#[verifier::external_body]
pub fn hm_keys<K: Copy, V>(m: &HashMap<K, V>) -> (r: Vec<K>) ensures forall|k: K| #[trigger] r@.contains(k) == m@.contains_key(k), { m.keys().copied().collect() }
pub proof fn lemma_holds_push(s: Entries, e: LockRequest)
    ensures forall|t: TxnId| #[trigger] holds(s.push(e), t) == (holds(s, t) || grants(e, t)),
        forall|t: TxnId, m: LockMode| #[trigger] holds_as(s, t, m) ==> holds_as(s.push(e), t, m),
{
    let p = s.push(e);
    assert(p[s.len() as int] == e);
    assert forall|t: TxnId| #[trigger] holds(p, t) == (holds(s, t) || grants(e, t)) by {
        if holds(s, t) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] grants(s[i], t); assert(grants(p[i], t)); }
        if grants(e, t) { assert(grants(p[s.len() as int], t)); }
        if holds(p, t) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] grants(p[i], t); if i < s.len() { assert(grants(s[i], t)); } }
    }
    assert forall|t: TxnId, m: LockMode| #[trigger] holds_as(s, t, m) implies holds_as(p, t, m) by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] grants(s[i], t) && s[i].lock_mode == m; assert(grants(p[i], t)); }
}
pub proof fn lemma_as_holds(s: Entries) ensures forall|t: TxnId, m: LockMode| #[trigger] holds_as(s, t, m) ==> holds(s, t), {
    assert forall|t: TxnId, m: LockMode| #[trigger] holds_as(s, t, m) implies holds(s, t) by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] grants(s[i], t) && s[i].lock_mode == m; assert(grants(s[i], t)); }
}
pub proof fn lemma_others(s: Entries, t: TxnId)
    ensures no_trace(others(s, t), t), !holds(others(s, t), t), peace(s) ==> peace(others(s, t)), others_keep(s, others(s, t), t),
        forall|u: TxnId| u != t ==> #[trigger] holds(others(s, t), u) == holds(s, u),
        forall|o: TableOidT, r: Option<RID>| on(s, o, r) ==> #[trigger] on(others(s, t), o, r),
        !holds(s, t) && no_trace(s, t) ==> others(s, t) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    let f = |e: LockRequest| e.txn_id != t;
    let p = others(s, t);
    if s.len() == 0 { assert(p =~= s); }
    else {
        let d = s.drop_last(); let e = s.last();
        lemma_others(d, t);
        assert(s =~= d.push(e));
        lemma_holds_push(d, e);
        lemma_holds_push(others(d, t), e);
        assert(p =~= if e.txn_id != t { others(d, t).push(e) } else { others(d, t) });
        assert forall|i: int| 0 <= i < p.len() implies s.contains(#[trigger] p[i]) && p[i].txn_id != t by { lemma_filter_in(s, t, i); }
        if peace(s) {
            assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && #[trigger] p[i].granted && #[trigger] p[j].granted && p[i].txn_id != p[j].txn_id implies compat(p[i].lock_mode, p[j].lock_mode) by {
                let a = choose|a: int| 0 <= a < s.len() && s[a] == p[i]; let b = choose|b: int| 0 <= b < s.len() && s[b] == p[j]; assert(s[a].granted && s[b].granted);
            }
        }
        assert forall|o: TableOidT, r: Option<RID>| on(s, o, r) implies #[trigger] on(p, o, r) by {
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).rid == r && p[i].oid == o by { assert(s.contains(p[i])); let a = choose|a: int| 0 <= a < s.len() && s[a] == p[i]; assert(s[a].rid == r); }
        }
        assert forall|u: TxnId, m: LockMode| u != t && #[trigger] holds_as(s, u, m) implies holds_as(p, u, m) by {
            let a = choose|a: int| 0 <= a < s.len() && #[trigger] grants(s[a], u) && s[a].lock_mode == m;
            if a < d.len() { assert(grants(d[a], u)); assert(holds_as(d, u, m)); lemma_holds_push(others(d, t), e); }
            else { assert(grants(p[p.len() - 1], u)); }
        }
        if no_trace(s, t) { assert(s[s.len() - 1].txn_id != t); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).txn_id != t by { assert(s[i].txn_id != t); } if holds(d, t) { } assert(p =~= s); }
    }
}
pub proof fn lemma_filter_in(s: Entries, t: TxnId, i: int) requires 0 <= i < others(s, t).len(), ensures s.contains(others(s, t)[i]), others(s, t)[i].txn_id != t, decreases s.len(), {
    reveal(Seq::filter);
    let d = s.drop_last();
    if s.len() > 0 {
        if i < others(d, t).len() { lemma_filter_in(d, t, i); assert(others(s, t)[i] == others(d, t)[i]); let a = choose|a: int| 0 <= a < d.len() && d[a] == others(d, t)[i]; assert(s[a] == others(s, t)[i]); }
        else { assert(others(s, t)[i] == s.last()); }
    }
}
pub proof fn lemma_raised(a: Entries, b: Entries, g: Seq<LockRequest>)
    requires raised(a, b), forall|k: int| 0 <= k < g.len() ==> awarded(a, b, #[trigger] g[k]),
        forall|i: int| 0 <= i < a.len() && (#[trigger] b[i]).granted && !a[i].granted ==> g.contains(a[i]),
    ensures forall|t: TxnId| #[trigger] holds(b, t) == (holds(a, t) || asked_by(g, t)), forall|t: TxnId, m: LockMode| #[trigger] holds_as(a, t, m) ==> holds_as(b, t, m),
        forall|o: TableOidT, r: Option<RID>| #[trigger] on(a, o, r) ==> on(b, o, r) && forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).oid == o && g[k].rid == r,
        forall|t: TxnId| #[trigger] no_trace(a, t) ==> no_trace(b, t) && !asked_by(g, t) && !holds(b, t),
{
    assert forall|t: TxnId| #[trigger] holds(b, t) == (holds(a, t) || asked_by(g, t)) by {
        if holds(a, t) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] grants(a[i], t); assert(b[i] == a[i]); assert(grants(b[i], t)); }
        if asked_by(g, t) { let k = choose|k: int| 0 <= k < g.len() && (#[trigger] g[k]).txn_id == t; let i = choose|i: int| awarded_at(a, b, g[k], i); assert(grants(b[i], t)); }
        if holds(b, t) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] grants(b[i], t); if a[i].granted { assert(grants(a[i], t)); } else { assert(g.contains(a[i])); let k = choose|k: int| 0 <= k < g.len() && g[k] == a[i]; assert(g[k].txn_id == t); } }
    }
    assert forall|t: TxnId, m: LockMode| #[trigger] holds_as(a, t, m) implies holds_as(b, t, m) by { let i = choose|i: int| 0 <= i < a.len() && #[trigger] grants(a[i], t) && a[i].lock_mode == m; assert(b[i] == a[i]); assert(grants(b[i], t)); }
    assert forall|o: TableOidT, r: Option<RID>| #[trigger] on(a, o, r) implies on(b, o, r) && forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).oid == o && g[k].rid == r by {
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).rid == r && b[i].oid == o by { assert(a[i].rid == r); }
        assert forall|k: int| 0 <= k < g.len() implies (#[trigger] g[k]).oid == o && g[k].rid == r by { let i = choose|i: int| awarded_at(a, b, g[k], i); assert(a[i].rid == r); }
    }
    assert forall|t: TxnId| #[trigger] no_trace(a, t) implies no_trace(b, t) && !asked_by(g, t) && !holds(b, t) by {
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).txn_id != t by { assert(a[i].txn_id != t); }
        if asked_by(g, t) { let k = choose|k: int| 0 <= k < g.len() && (#[trigger] g[k]).txn_id == t; let i = choose|i: int| awarded_at(a, b, g[k], i); assert(a[i].txn_id != t); }
    }
}
pub open spec fn asked_by(g: Seq<LockRequest>, t: TxnId) -> bool { exists|k: int| 0 <= k < g.len() && (#[trigger] g[k]).txn_id == t }
// the lock sets after the first n requests were entered
pub open spec fn entered(a: Sets, b: Sets, g: Seq<LockRequest>, n: int) -> bool {
    &&& forall|t: TxnId, o: TableOidT| #[trigger] lt(b, t, o) == (lt(a, t, o) || exists|k: int| 0 <= k < n && (#[trigger] g[k]).txn_id == t && g[k].rid is None && g[k].oid == o)
    &&& forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(b, t, o, r) == (lr(a, t, o, r) || exists|k: int| 0 <= k < n && (#[trigger] g[k]).txn_id == t && g[k].rid == Some(r) && g[k].oid == o)
}
// one table's queue and the lock sets changed in step
pub proof fn lemma_table(a: LockStateManager, b: LockStateManager, oid: TableOidT)
    requires a.inv(), b.row_locks@ == a.row_locks@, forall|o: TableOidT| o != oid ==> #[trigger] b.tq(o) == a.tq(o), peace(b.tq(oid)), on(b.tq(oid), oid, None),
        forall|t: TxnId, o: TableOidT| #[trigger] lt(b.txn_lock_sets@, t, o) == (if o == oid { holds(b.tq(oid), t) } else { lt(a.txn_lock_sets@, t, o) }),
        forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(b.txn_lock_sets@, t, o, r) == lr(a.txn_lock_sets@, t, o, r),
    ensures b.inv(),
{
    assert forall|r: RID| #[trigger] b.rq(r) == a.rq(r) by {}
}
pub proof fn lemma_row(a: LockStateManager, b: LockStateManager, rid: RID)
    requires a.inv(), b.table_lock_map@ == a.table_lock_map@, forall|r: RID| r != rid ==> #[trigger] b.rq(r) == a.rq(r), peace(b.rq(rid)), on(b.rq(rid), table_of(rid), Some(rid)),
        forall|t: TxnId, o: TableOidT| #[trigger] lt(b.txn_lock_sets@, t, o) == lt(a.txn_lock_sets@, t, o),
        forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(b.txn_lock_sets@, t, o, r) == (if r == rid { o == table_of(r) && holds(b.rq(rid), t) } else { lr(a.txn_lock_sets@, t, o, r) }),
    ensures b.inv(),
{
    assert forall|o: TableOidT| #[trigger] b.tq(o) == a.tq(o) by {}
}
pub proof fn lemma_same(a: LockStateManager, b: LockStateManager)
    requires a.inv(), b.txn_lock_sets@ == a.txn_lock_sets@, forall|o: TableOidT| #[trigger] b.tq(o) == a.tq(o), forall|r: RID| #[trigger] b.rq(r) == a.rq(r),
    ensures b.inv(),
{}
pub open spec fn qr(m: Map<RID, LockRequestQueue>, r: RID) -> Entries { if m.contains_key(r) { m[r].s() } else { Seq::empty() } }
pub open spec fn qt(m: Map<TableOidT, LockRequestQueue>, o: TableOidT) -> Entries { if m.contains_key(o) { m[o].s() } else { Seq::empty() } }
pub open spec fn released<K>(s: Entries, m: Map<K, LockRequestQueue>, k: K, t: TxnId) -> bool { no_trace(s, t) && (m.contains_key(k) ==> m[k].settled()) }
pub open spec fn quiet(s: Entries, o: TableOidT, r: Option<RID>) -> bool { peace(s) && on(s, o, r) }
// for everyone but t the lock sets say who holds what
pub open spec fn rows_known(m: Sets, q: Map<RID, LockRequestQueue>, t: TxnId) -> bool { forall|u: TxnId, o: TableOidT, k: RID| u != t ==> #[trigger] lr(m, u, o, k) == (o == table_of(k) && holds(qr(q, k), u)) }
pub open spec fn tables_known(m: Sets, q: Map<TableOidT, LockRequestQueue>, t: TxnId) -> bool { forall|u: TxnId, k: TableOidT| u != t ==> #[trigger] lt(m, u, k) == holds(qt(q, k), u) }
pub proof fn lemma_asked_push(a: Seq<LockRequest>, e: LockRequest, t: TxnId) ensures asked_by(a.push(e), t) == (asked_by(a, t) || e.txn_id == t), {
    let p = a.push(e);
    assert(p[a.len() as int] == e);
    if asked_by(a, t) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).txn_id == t; assert(p[k].txn_id == t); }
    if asked_by(p, t) { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).txn_id == t; if k < a.len() { assert(a[k].txn_id == t); } }
}
pub proof fn lemma_step(s0: Entries, s1: Entries, s2: Entries, g: Seq<LockRequest>, t: TxnId)
    requires s1 == others(s0, t), raised(s1, s2), forall|k: int| 0 <= k < g.len() ==> awarded(s1, s2, #[trigger] g[k]),
        forall|i: int| 0 <= i < s1.len() && (#[trigger] s2[i]).granted && !s1[i].granted ==> g.contains(s1[i]),
    ensures no_trace(s2, t), !asked_by(g, t), others_keep(s0, s2, t), forall|u: TxnId| u != t ==> #[trigger] holds(s2, u) == (holds(s0, u) || asked_by(g, u)),
{
    lemma_others(s0, t); lemma_raised(s1, s2, g);
    assert(no_trace(s1, t));
    assert forall|u: TxnId| u != t implies #[trigger] holds(s2, u) == (holds(s0, u) || asked_by(g, u)) by { assert(holds(s1, u) == holds(s0, u)); }
    assert forall|u: TxnId, m: LockMode| u != t && #[trigger] holds_as(s0, u, m) implies holds_as(s2, u, m) by { assert(holds_as(s1, u, m)); }
}
pub proof fn lemma_rows_known(m0: Sets, q0: Map<RID, LockRequestQueue>, m: Sets, q: Map<RID, LockRequestQueue>, rid: RID, g: Seq<LockRequest>, t: TxnId)
    requires rows_known(m0, q0, t), entered(m0, m, g, g.len() as int), forall|k: RID| k != rid ==> #[trigger] qr(q, k) == qr(q0, k),
        forall|u: TxnId| u != t ==> #[trigger] holds(qr(q, rid), u) == (holds(qr(q0, rid), u) || asked_by(g, u)), forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).oid == table_of(rid) && g[k].rid == Some(rid),
    ensures rows_known(m, q, t), forall|u: TxnId, o: TableOidT| #[trigger] lt(m, u, o) == lt(m0, u, o),
{
    assert forall|u: TxnId, o: TableOidT, k: RID| u != t implies #[trigger] lr(m, u, o, k) == (o == table_of(k) && holds(qr(q, k), u)) by {
        assert(lr(m0, u, o, k) == (o == table_of(k) && holds(qr(q0, k), u)));
        if k == rid { assert(holds(qr(q, rid), u) == (holds(qr(q0, rid), u) || asked_by(g, u))); } else { assert(qr(q, k) == qr(q0, k)); }
    }
}
pub proof fn lemma_tables_known(m0: Sets, q0: Map<TableOidT, LockRequestQueue>, m: Sets, q: Map<TableOidT, LockRequestQueue>, oid: TableOidT, g: Seq<LockRequest>, t: TxnId)
    requires tables_known(m0, q0, t), entered(m0, m, g, g.len() as int), forall|k: TableOidT| k != oid ==> #[trigger] qt(q, k) == qt(q0, k),
        forall|u: TxnId| u != t ==> #[trigger] holds(qt(q, oid), u) == (holds(qt(q0, oid), u) || asked_by(g, u)), forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).oid == oid && g[k].rid is None,
    ensures tables_known(m, q, t), forall|u: TxnId, o: TableOidT, r: RID| #[trigger] lr(m, u, o, r) == lr(m0, u, o, r),
{
    assert forall|u: TxnId, k: TableOidT| u != t implies #[trigger] lt(m, u, k) == holds(qt(q, k), u) by {
        assert(lt(m0, u, k) == holds(qt(q0, k), u));
        if k == oid { assert(holds(qt(q, oid), u) == (holds(qt(q0, oid), u) || asked_by(g, u))); } else { assert(qt(q, k) == qt(q0, k)); }
    }
}
// b keeps t from getting m
pub open spec fn in_the_way(q: LockRequestQueue, t: TxnId, m: LockMode, b: TxnId) -> bool {
    b != t && ((b == q.upgrading && b != INVALID_TXN_ID) || exists|i: int| 0 <= i < q.s().len() && q.s()[i].txn_id == b && #[trigger] clashes(q.s()[i], t, m))
}
pub open spec fn obstructed(q: LockRequestQueue, t: TxnId, m: LockMode) -> bool { exists|b: TxnId| #[trigger] in_the_way(q, t, m, b) }
// a request that had to wait has somebody in its way
pub proof fn lemma_obstructed(a: LockRequestQueue, b: LockRequestQueue, e: LockRequest)
    requires !e.granted, b.s() == a.s().push(e), !(a.open_to(e.txn_id) && free(a.s(), e.txn_id, e.lock_mode)), a.open_to(e.txn_id) || b.upgrading == a.upgrading,
    ensures obstructed(b, e.txn_id, e.lock_mode),
{
    if !free(a.s(), e.txn_id, e.lock_mode) { let i = choose|i: int| 0 <= i < a.s().len() && clashes(a.s()[i], e.txn_id, e.lock_mode); assert(clashes(b.s()[i], e.txn_id, e.lock_mode)); assert(in_the_way(b, e.txn_id, e.lock_mode, b.s()[i].txn_id)); }
    else { assert(in_the_way(b, e.txn_id, e.lock_mode, b.upgrading)); }
}
impl LockStateManager {
//@fn lm LockStateManager::new
ensures res.inv(), forall|o: TableOidT| res.tq(o) == Seq::<LockRequest>::empty(), forall|r: RID| res.rq(r) == Seq::<LockRequest>::empty(),
//@endfn
//@fn lm LockStateManager::record_lock nopub
ensures
    forall|t: TxnId, o: TableOidT| #[trigger] lt(final(txn_locks)@, t, o) == (lt(old(txn_locks)@, t, o) || (request.txn_id == t && request.rid is None && request.oid == o)),
    forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(final(txn_locks)@, t, o, r) == (lr(old(txn_locks)@, t, o, r) || (request.txn_id == t && request.rid == Some(r) && request.oid == o)),
//@endfn
//@fn lm LockStateManager::grant_table_lock
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(),
ensures final(self).inv(), final(self).row_locks@ == old(self).row_locks@,
    forall|o: TableOidT| o != oid ==> #[trigger] final(self).tq(o) == old(self).tq(o),
    forall|t: TxnId, m: LockMode| #[trigger] holds_as(old(self).tq(oid), t, m) ==> holds_as(final(self).tq(oid), t, m),
    res ==> holds_as(final(self).tq(oid), txn_id, lock_mode),
    res ==> free(old(self).tq(oid), txn_id, lock_mode),
    !res ==> final(self).table_lock_map@.contains_key(oid) && obstructed(final(self).table_lock_map@[oid], txn_id, lock_mode),
//@before /let granted = queue_guard\.grant_lock/
let ghost s0 = old(self).tq(oid); let ghost rq0 = request; let ghost q0 = *queue_guard;
//@after /let granted = queue_guard\.grant_lock\(request\);/
let ghost s1 = queue_guard.s();
proof { if !granted { lemma_obstructed(q0, *queue_guard, rq0); } lemma_covered(s0, txn_id, lock_mode); lemma_holds_push(s0, LockRequest { granted, ..rq0 }); lemma_as_holds(s0); lemma_as_holds(s1); }
//@before /granted\s*\Z/
proof {
    assert(self.tq(oid) == s1);
    assert forall|t: TxnId| #[trigger] holds(s1, t) == (holds(s0, t) || (granted && t == txn_id)) by { if granted { assert(holds(s1, txn_id)); } }
    assert forall|t: TxnId, o: TableOidT| #[trigger] lt(self.txn_lock_sets@, t, o) == (lt(old(self).txn_lock_sets@, t, o) || (granted && t == txn_id && o == oid)) by {}
    lemma_table(*old(self), *self, oid);
}
//@endfn
//@fn lm LockStateManager::grant_row_lock
//@rewrite /&self\b(?=[,)])/&mut self/
requires old(self).inv(), oid == table_of(rid),
ensures final(self).inv(), final(self).table_lock_map@ == old(self).table_lock_map@,
    forall|r: RID| r != rid ==> #[trigger] final(self).rq(r) == old(self).rq(r),
    forall|t: TxnId, m: LockMode| #[trigger] holds_as(old(self).rq(rid), t, m) ==> holds_as(final(self).rq(rid), t, m),
    res ==> holds_as(final(self).rq(rid), txn_id, lock_mode),
    res ==> free(old(self).rq(rid), txn_id, lock_mode),
    !res ==> final(self).row_locks@.contains_key(rid) && obstructed(final(self).row_locks@[rid], txn_id, lock_mode),
//@before /let granted = queue\.grant_lock/
let ghost s0 = old(self).rq(rid); let ghost rq0 = request; let ghost q0 = *queue;
//@after /let granted = queue\.grant_lock\(rq_clone\(&request\)\);/
let ghost s1 = queue.s();
proof { if !granted { lemma_obstructed(q0, *queue, rq0); } lemma_covered(s0, txn_id, lock_mode); lemma_holds_push(s0, LockRequest { granted, ..rq0 }); lemma_as_holds(s0); lemma_as_holds(s1); }
//@before /granted\s*\Z/
proof {
    assert(self.rq(rid) == s1);
    assert forall|t: TxnId| #[trigger] holds(s1, t) == (holds(s0, t) || (granted && t == txn_id)) by { if granted { assert(holds(s1, txn_id)); } }
    assert forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(self.txn_lock_sets@, t, o, r) == (lr(old(self).txn_lock_sets@, t, o, r) || (granted && t == txn_id && o == oid && r == rid)) by {}
    assert forall|t: TxnId, o: TableOidT| #[trigger] lt(self.txn_lock_sets@, t, o) == lt(old(self).txn_lock_sets@, t, o) by {}
    lemma_row(*old(self), *self, rid);
}
//@endfn
//@fn lm LockStateManager::release_table_lock
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /!modes\.is_empty\(\)/(modes.len() > 0)/
requires old(self).inv(),
ensures final(self).inv(), final(self).row_locks@ == old(self).row_locks@,
    forall|o: TableOidT| o != oid ==> #[trigger] final(self).tq(o) == old(self).tq(o),
    res.is_ok() == holds(old(self).tq(oid), txn_id),
    res.is_err() ==> forall|o: TableOidT| #[trigger] final(self).tq(o) == old(self).tq(o),
    match res { Ok(x) => no_trace(final(self).tq(oid), txn_id) && final(self).table_lock_map@[oid].settled() && others_keep(old(self).tq(oid), final(self).tq(oid), txn_id)
        && (forall|m: LockMode| #[trigger] x.modes@.contains(m) == holds_as(old(self).tq(oid), txn_id, m))
        && (forall|t: TxnId| #[trigger] asked_by(x.granted@, t) ==> t != txn_id && holds(final(self).tq(oid), t)), Err(_) => true },
//@after /queue_guard\.remove_txn\(txn_id\);/
let ghost s1 = queue_guard.s();
proof { lemma_others(old(self).tq(oid), txn_id); lemma_as_holds(old(self).tq(oid)); }
//@after /lock_state\.table_locks\.remove\(&oid\);\s*\}/
let ghost sets1 = txn_locks@;
proof {
    assert forall|t: TxnId, o: TableOidT| #[trigger] lt(sets1, t, o) == (lt(old(self).txn_lock_sets@, t, o) && !(t == txn_id && o == oid)) by {}
    assert forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(sets1, t, o, r) == lr(old(self).txn_lock_sets@, t, o, r) by {}
}
//@after /let granted = queue_guard\.grant_waiting\(\);/
let ghost s2 = queue_guard.s();
proof { lemma_raised(s1, s2, granted@); }
//@loop 0
invariant vp_g <= granted@.len(), entered(sets1, txn_locks@, granted@, vp_g as int),
decreases granted@.len() - vp_g,
//@before /return Ok\(ReleasedLocks/
proof {
    assert(self.tq(oid) == s2);
    assert(on(s1, oid, None));
    assert forall|t: TxnId, o: TableOidT| #[trigger] lt(self.txn_lock_sets@, t, o) == (if o == oid { holds(s2, t) } else { lt(old(self).txn_lock_sets@, t, o) }) by { assert(holds(s2, t) == (holds(s1, t) || asked_by(granted@, t))); if t != txn_id { assert(holds(s1, t) == holds(old(self).tq(oid), t)); } }
    lemma_table(*old(self), *self, oid);
    assert forall|t: TxnId| #[trigger] asked_by(granted@, t) implies t != txn_id && holds(s2, t) by { assert(holds(s2, t) == (holds(s1, t) || asked_by(granted@, t))); assert(no_trace(s1, txn_id)); }
    assert forall|u: TxnId, m: LockMode| u != txn_id && #[trigger] holds_as(old(self).tq(oid), u, m) implies holds_as(s2, u, m) by { assert(holds_as(s1, u, m)); }
}
//@before /Err\(LockError::NoLockHeld\)/
proof {
    assert forall|o: TableOidT| #[trigger] self.tq(o) == old(self).tq(o) by {}
    lemma_same(*old(self), *self);
}
//@endfn
//@fn lm LockStateManager::release_row_lock
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /!modes\.is_empty\(\)/(modes.len() > 0)/
requires old(self).inv(),
ensures final(self).inv(), final(self).table_lock_map@ == old(self).table_lock_map@,
    forall|r: RID| r != rid ==> #[trigger] final(self).rq(r) == old(self).rq(r),
    res.is_ok() == holds(old(self).rq(rid), txn_id),
    res.is_err() ==> forall|r: RID| #[trigger] final(self).rq(r) == old(self).rq(r),
    match res { Ok(x) => no_trace(final(self).rq(rid), txn_id) && final(self).row_locks@[rid].settled() && others_keep(old(self).rq(rid), final(self).rq(rid), txn_id)
        && (forall|m: LockMode| #[trigger] x.modes@.contains(m) == holds_as(old(self).rq(rid), txn_id, m))
        && (forall|t: TxnId| #[trigger] asked_by(x.granted@, t) ==> t != txn_id && holds(final(self).rq(rid), t)), Err(_) => true },
//@after /queue_guard\.remove_txn\(txn_id\);/
let ghost s1 = queue_guard.s();
proof { lemma_others(old(self).rq(rid), txn_id); lemma_as_holds(old(self).rq(rid)); }
//@after /hs_drop_row\(&mut lock_state\.row_locks, rid\);\s*\}/
let ghost sets1 = txn_locks@;
proof {
    assert forall|t: TxnId, o: TableOidT| #[trigger] lt(sets1, t, o) == lt(old(self).txn_lock_sets@, t, o) by {}
    assert forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(sets1, t, o, r) == (lr(old(self).txn_lock_sets@, t, o, r) && !(t == txn_id && r == rid)) by {}
}
//@after /let granted = queue_guard\.grant_waiting\(\);/
let ghost s2 = queue_guard.s();
proof { lemma_raised(s1, s2, granted@); }
//@loop 0
invariant vp_g <= granted@.len(), entered(sets1, txn_locks@, granted@, vp_g as int),
decreases granted@.len() - vp_g,
//@before /return Ok\(ReleasedLocks/
proof {
    assert(self.rq(rid) == s2);
    assert(on(s1, table_of(rid), Some(rid)));
    assert forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(self.txn_lock_sets@, t, o, r) == (if r == rid { o == table_of(r) && holds(s2, t) } else { lr(old(self).txn_lock_sets@, t, o, r) }) by { assert(holds(s2, t) == (holds(s1, t) || asked_by(granted@, t))); if t != txn_id { assert(holds(s1, t) == holds(old(self).rq(rid), t)); } }
    assert forall|t: TxnId, o: TableOidT| #[trigger] lt(self.txn_lock_sets@, t, o) == lt(old(self).txn_lock_sets@, t, o) by {}
    lemma_row(*old(self), *self, rid);
    assert forall|t: TxnId| #[trigger] asked_by(granted@, t) implies t != txn_id && holds(s2, t) by { assert(holds(s2, t) == (holds(s1, t) || asked_by(granted@, t))); assert(no_trace(s1, txn_id)); }
    assert forall|u: TxnId, m: LockMode| u != txn_id && #[trigger] holds_as(old(self).rq(rid), u, m) implies holds_as(s2, u, m) by { assert(holds_as(s1, u, m)); }
}
//@before /Err\(LockError::NoLockHeld\)/
proof {
    assert forall|r: RID| #[trigger] self.rq(r) == old(self).rq(r) by {}
    lemma_same(*old(self), *self);
}
//@endfn
//@fn lm LockStateManager::force_release_txn attr=#[verifier::loop_isolation(false)]
//@rewrite /&self\b(?=[,)])/&mut self/
//@rewrite /let (rids|oids): Vec<\w+> =/let \1 =/
requires old(self).inv(),
ensures final(self).inv(), match res { Ok(g) => !asked_by(g@, txn_id), Err(_) => false },
    forall|o: TableOidT| no_trace(#[trigger] final(self).tq(o), txn_id), forall|r: RID| no_trace(#[trigger] final(self).rq(r), txn_id),
    forall|o: TableOidT| others_keep(#[trigger] old(self).tq(o), final(self).tq(o), txn_id), forall|r: RID| others_keep(#[trigger] old(self).rq(r), final(self).rq(r), txn_id),
    forall|o: TableOidT| #[trigger] final(self).table_lock_map@.contains_key(o) ==> final(self).table_lock_map@[o].settled(),
    forall|r: RID| #[trigger] final(self).row_locks@.contains_key(r) ==> final(self).row_locks@[r].settled(),
//@beforeloop 0
proof {
    assert forall|k: RID| #[trigger] qr(row_locks@, k) == old(self).rq(k) by {}
    assert forall|k: RID| #[trigger] old(self).rq(k) == qr(row_locks@, k) by {}
}
//@loop 0
invariant vp_k <= rids@.len(), forall|k: RID| #[trigger] row_locks@.contains_key(k) ==> rids@.contains(k),
    self.table_lock_map@ == old(self).table_lock_map@,
    forall|k: RID| quiet(#[trigger] qr(row_locks@, k), table_of(k), Some(k)),
    forall|j: int| 0 <= j < vp_k ==> released(qr(row_locks@, #[trigger] rids@[j]), row_locks@, rids@[j], txn_id),
    rows_known(self.txn_lock_sets@, row_locks@, txn_id), forall|u: TxnId, o: TableOidT| u != txn_id ==> #[trigger] lt(self.txn_lock_sets@, u, o) == lt(old(self).txn_lock_sets@, u, o),
    forall|k: RID| others_keep(#[trigger] old(self).rq(k), qr(row_locks@, k), txn_id),
    !asked_by(all_granted@, txn_id),
decreases rids@.len() - vp_k,
//@loopstart 0
let ghost rl0 = row_locks@; let ghost st0 = self.txn_lock_sets@; let ghost q0 = qr(row_locks@, rids@[vp_k as int]); let ghost k0 = rids@[vp_k as int];
//@before /queue_guard\.remove_txn\(txn_id\);/
let ghost s0 = queue_guard.s();
//@after /queue_guard\.remove_txn\(txn_id\);/
let ghost s1 = queue_guard.s();
proof { assert(s0 == q0); lemma_others(s0, txn_id); }
//@after /let granted = queue_guard\.grant_waiting\(\);/
let ghost s2 = queue_guard.s(); let ghost st2 = queue_guard.settled();
proof { lemma_raised(s1, s2, granted@); lemma_step(s0, s1, s2, granted@, txn_id); }
//@loop 1
invariant vp_g <= granted@.len(), entered(st0, txn_locks@, granted@, vp_g as int), !asked_by(all_granted@, txn_id), !asked_by(granted@, txn_id),
decreases granted@.len() - vp_g,
//@loopstart 1
let ghost a1 = all_granted@; let ghost r1 = granted@[vp_g as int];
//@loopend 1
proof { lemma_asked_push(a1, r1, txn_id); }
//@afterloop 1
proof {
    assert(on(s1, table_of(rid), Some(rid)));
    assert(row_locks@.dom() =~= rl0.dom());
    assert(qr(row_locks@, rid) == s2);
    assert forall|k: RID| k != rid implies #[trigger] qr(row_locks@, k) == qr(rl0, k) by {}
    lemma_rows_known(st0, rl0, self.txn_lock_sets@, row_locks@, rid, granted@, txn_id);
}
//@loopend 0
proof {
    assert forall|k: RID| others_keep(#[trigger] old(self).rq(k), qr(row_locks@, k), txn_id) by { assert(others_keep(old(self).rq(k), qr(rl0, k), txn_id)); if k != k0 { assert(qr(row_locks@, k) == qr(rl0, k)); } }
    assert forall|j: int| 0 <= j < vp_k implies released(qr(row_locks@, #[trigger] rids@[j]), row_locks@, rids@[j], txn_id) by { if rids@[j] != k0 { assert(qr(row_locks@, rids@[j]) == qr(rl0, rids@[j])); } }
}
//@afterloop 0
proof {
    assert forall|k: RID| released(#[trigger] qr(row_locks@, k), row_locks@, k, txn_id) by { if row_locks@.contains_key(k) { assert(rids@.contains(k)); let j = choose|j: int| 0 <= j < rids@.len() && rids@[j] == k; assert(released(qr(row_locks@, rids@[j]), row_locks@, rids@[j], txn_id)); } }
}
//@beforeloop 2
let ghost rl1 = self.row_locks@;
proof {
    assert forall|k: TableOidT| #[trigger] qt(table_locks_map@, k) == old(self).tq(k) by {}
    assert forall|k: TableOidT| #[trigger] old(self).tq(k) == qt(table_locks_map@, k) by {}
}
//@loop 2
invariant vp_k <= oids@.len(), forall|k: TableOidT| #[trigger] table_locks_map@.contains_key(k) ==> oids@.contains(k),
    self.row_locks@ == rl1, rows_known(self.txn_lock_sets@, rl1, txn_id),
    forall|k: TableOidT| quiet(#[trigger] qt(table_locks_map@, k), k, None),
    forall|j: int| 0 <= j < vp_k ==> released(qt(table_locks_map@, #[trigger] oids@[j]), table_locks_map@, oids@[j], txn_id),
    tables_known(self.txn_lock_sets@, table_locks_map@, txn_id),
    forall|k: TableOidT| others_keep(#[trigger] old(self).tq(k), qt(table_locks_map@, k), txn_id),
    !asked_by(all_granted@, txn_id),
decreases oids@.len() - vp_k,
//@loopstart 2
let ghost tl0 = table_locks_map@; let ghost st0 = self.txn_lock_sets@; let ghost q0 = qt(table_locks_map@, oids@[vp_k as int]); let ghost k0 = oids@[vp_k as int];
//@loop 3
invariant vp_g <= granted@.len(), entered(st0, txn_locks@, granted@, vp_g as int), !asked_by(all_granted@, txn_id), !asked_by(granted@, txn_id),
decreases granted@.len() - vp_g,
//@loopstart 3
let ghost a1 = all_granted@; let ghost r1 = granted@[vp_g as int];
//@loopend 3
proof { lemma_asked_push(a1, r1, txn_id); }
//@afterloop 3
proof {
    assert(on(s1, oid, None));
    assert(table_locks_map@.dom() =~= tl0.dom());
    assert(qt(table_locks_map@, oid) == s2);
    assert forall|k: TableOidT| k != oid implies #[trigger] qt(table_locks_map@, k) == qt(tl0, k) by {}
    lemma_tables_known(st0, tl0, self.txn_lock_sets@, table_locks_map@, oid, granted@, txn_id);
    assert forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(self.txn_lock_sets@, t, o, r) == lr(st0, t, o, r) by {}
}
//@loopend 2
proof {
    assert forall|k: TableOidT| others_keep(#[trigger] old(self).tq(k), qt(table_locks_map@, k), txn_id) by { assert(others_keep(old(self).tq(k), qt(tl0, k), txn_id)); if k != k0 { assert(qt(table_locks_map@, k) == qt(tl0, k)); } }
    assert forall|j: int| 0 <= j < vp_k implies released(qt(table_locks_map@, #[trigger] oids@[j]), table_locks_map@, oids@[j], txn_id) by { if oids@[j] != k0 { assert(qt(table_locks_map@, oids@[j]) == qt(tl0, oids@[j])); } }
}
//@afterloop 2
proof {
    assert forall|k: TableOidT| released(#[trigger] qt(table_locks_map@, k), table_locks_map@, k, txn_id) by { if table_locks_map@.contains_key(k) { assert(oids@.contains(k)); let j = choose|j: int| 0 <= j < oids@.len() && oids@[j] == k; assert(released(qt(table_locks_map@, oids@[j]), table_locks_map@, oids@[j], txn_id)); } }
}
//@before /let mut txn_locks = &mut self\.txn_lock_sets;\s*txn_locks\.remove/
let ghost tl1 = self.table_lock_map@; let ghost rl2 = self.row_locks@; let ghost st1 = self.txn_lock_sets@;
//@before /Ok\(all_granted\)/
proof {
    assert forall|k: TableOidT| self.tq(k) == #[trigger] qt(tl1, k) by {}
    assert forall|k: RID| self.rq(k) == #[trigger] qr(rl2, k) by {}
    assert forall|k: TableOidT| #[trigger] self.tq(k) == qt(tl1, k) && no_trace(self.tq(k), txn_id) && quiet(self.tq(k), k, None) by {}
    assert forall|k: RID| #[trigger] self.rq(k) == qr(rl2, k) && no_trace(self.rq(k), txn_id) && quiet(self.rq(k), table_of(k), Some(k)) by {}
    assert forall|t: TxnId, o: TableOidT| #[trigger] lt(self.txn_lock_sets@, t, o) == holds(self.tq(o), t) by { if t != txn_id { assert(lt(st1, t, o) == lt(self.txn_lock_sets@, t, o)); } }
    assert forall|t: TxnId, o: TableOidT, r: RID| #[trigger] lr(self.txn_lock_sets@, t, o, r) == (o == table_of(r) && holds(self.rq(r), t)) by { if t != txn_id { assert(lr(st1, t, o, r) == lr(self.txn_lock_sets@, t, o, r)); } }
}
//@endfn
//@fn lm LockStateManager::has_table_lock prove
//@rewrite /&mut self\.txn_lock_sets/&self.txn_lock_sets/
//@rewrite /txn_locks\s*\.get\(&txn_id\)\s*\.is_some_and\(\|state\| ([^|]*?)\)\s*\Z/(match txn_locks.get(&txn_id) { Some(state) => \1, None => false })/
ensures res == lt(self.txn_lock_sets@, txn_id, oid),
//@endfn
//@fn lm LockStateManager::get_row_locks_for_table prove
//@rewrite /&mut self\.txn_lock_sets/&self.txn_lock_sets/
//@rewrite /txn_locks\s*\.get\(&txn_id\)\s*\.map\(\|state\| \{\s*state\s*\.row_locks\s*\.iter\(\)\s*\.filter\(\|\((\w+), (\w+)\)\| (.*?)\)\s*\.map\(\|\((\w+), (\w+)\)\| (.*?)\)\s*\.collect\(\)\s*\}\)\s*\.unwrap_or_default\(\)/(match txn_locks.get(&txn_id) { Some(state) => { let vp_v = hs_items(&state.row_locks); let mut vp_out: HashSet<RID> = HashSet::new(); let mut vp_n: usize = 0; while vp_n < vp_v.len() { let (\1, \2) = (&vp_v[vp_n].0, &vp_v[vp_n].1); if \3 { let (\4, \5) = (&vp_v[vp_n].0, &vp_v[vp_n].1); vp_out.insert(\6); } vp_n += 1; } vp_out }, None => HashSet::new() })/
ensures forall|r: RID| #[trigger] res@.contains(r) == lr(self.txn_lock_sets@, txn_id, oid, r),
//@loop 0
invariant vp_n <= vp_v@.len(), forall|p: (TableOidT, RID)| vp_v@.contains(p) == state.row_locks@.contains(p),
    forall|r: RID| vp_out@.contains(r) == (exists|j: int| 0 <= j < vp_n && vp_v@[j] == (oid, r)),
decreases vp_v@.len() - vp_n,
//@loopstart 0
let ghost out0 = vp_out@;
//@loopend 0
assert forall|r: RID| vp_out@.contains(r) == (exists|j: int| 0 <= j < vp_n && vp_v@[j] == (oid, r)) by {
    let n0 = vp_n - 1;
    if out0.contains(r) { let j = choose|j: int| 0 <= j < n0 && vp_v@[j] == (oid, r); assert(vp_v@[j] == (oid, r)); }
    if vp_v@[n0] == (oid, r) { assert(vp_out@.contains(r)); }
}
//@afterloop 0
assert forall|r: RID| #[trigger] vp_out@.contains(r) == lr(self.txn_lock_sets@, txn_id, oid, r) by {
    if vp_out@.contains(r) { let j = choose|j: int| 0 <= j < vp_n && vp_v@[j] == (oid, r); assert(vp_v@.contains(vp_v@[j])); }
    if state.row_locks@.contains((oid, r)) { assert(vp_v@.contains((oid, r))); let j = choose|j: int| 0 <= j < vp_v@.len() && vp_v@[j] == (oid, r); assert(vp_v@[j] == (oid, r)); }
}
//@endfn
}
