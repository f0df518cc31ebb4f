//@source val src/types_db/value.rs
//@source types src/types_db/types.rs
//@source ty src/types_db/type_id.rs
//@source lim src/sql/execution/executors/limit_executor.rs
//@source limp src/sql/execution/plans/limit_plan.rs
//@source off src/sql/execution/executors/offset_executor.rs
//@source offp src/sql/execution/plans/offset_plan.rs
//@source dis src/sql/execution/executors/distinct_executor.rs
//@source fil src/sql/execution/executors/filter_executor.rs
//@source filx src/sql/execution/expressions/filter_expression.rs
//@opt strings=vp_string()
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
//@include inc_ordeq.rs
//@include inc_value.rs
//@include inc_value_total.rs
//@assumed value_cmp
//@include inc_value_cmp.rs
//@proved
//@include inc_value_expr.rs
//@assumed value_logic
//@include inc_value_fns.rs
//@proved
//@include inc_rows.rs
// ---- LIMIT: the first rows, and no more than that
//@struct limp LimitNode
impl LimitNode {
//@fn limp LimitNode::get_limit
ensures res == self.limit,
//@endfn
}
//@struct lim LimitExecutor
impl LimitExecutor {
pub open spec fn left(&self) -> int { if self.plan.limit >= self.current_index { self.plan.limit - self.current_index } else { 0 } }
pub open spec fn rows(&self) -> Seq<Row> { let r = rows_of(self.child_executor); if r.len() <= self.left() { r } else { r.take(self.left()) } }
pub open spec fn fails(&self) -> bool { fails_of(self.child_executor) && rows_of(self.child_executor).len() < self.left() }
//@fn lim LimitExecutor::new
ensures res.child_executor == Some(child_executor), res.plan == plan, res.current_index == 0,
//@endfn
//@fn lim LimitExecutor::init
ensures final(self).rows() == old(self).rows(), final(self).fails() == old(self).fails(), final(self).plan == old(self).plan, final(self).current_index == old(self).current_index,
//@endfn
//@fn lim LimitExecutor::next
ensures
    step(res, old(self).rows(), old(self).fails(), final(self).rows(), final(self).fails()),
    final(self).plan == old(self).plan,
//@endfn
}
// ---- OFFSET: everything but the first rows
//@struct offp OffsetNode
impl OffsetNode {
//@fn offp OffsetNode::get_offset
ensures res == self.offset,
//@endfn
}
//@struct off OffsetExecutor
impl OffsetExecutor {
pub open spec fn togo(&self) -> int { if self.plan.offset >= self.current_index { self.plan.offset - self.current_index } else { 0 } }
pub open spec fn rows(&self) -> Seq<Row> { let r = rows_of(self.child_executor); if r.len() <= self.togo() { Seq::empty() } else { r.skip(self.togo()) } }
pub open spec fn fails(&self) -> bool { fails_of(self.child_executor) }
//@fn off OffsetExecutor::new
ensures res.child_executor == Some(child_executor), res.plan == plan, res.current_index == 0,
//@endfn
//@fn off OffsetExecutor::init
ensures final(self).rows() == old(self).rows(), final(self).fails() == old(self).fails(), final(self).plan == old(self).plan, final(self).current_index == old(self).current_index,
//@endfn
//@fn off OffsetExecutor::next
ensures
    step(res, old(self).rows(), old(self).fails(), final(self).rows(), final(self).fails()),
    final(self).plan == old(self).plan,
//@loop 0
invariant self.plan == old(self).plan, self.rows() =~= old(self).rows(), self.fails() == old(self).fails(),
decreases self.togo(),
//@endfn
}
// ---- DISTINCT: each row the first time its values come up
pub open spec fn same_values(a: Seq<Value>, b: Seq<Value>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> value_eq(a[i], b[i])
}
// HashSet<Vec<Value>>: the keys put in, looked up with Value's == and hash (which value_eq shows agree)
#[verifier::external_body]
pub struct KeySet { x: u64 }
pub open spec fn among(keys: Seq<Seq<Value>>, k: Seq<Value>) -> bool { exists|i: int| 0 <= i < keys.len() && same_values(#[trigger] keys[i], k) }
impl KeySet {
    pub uninterp spec fn keys(&self) -> Seq<Seq<Value>>;
    #[verifier::external_body]
    pub fn new() -> (r: KeySet) ensures r.keys().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).keys().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &Vec<Value>) -> (r: bool) ensures r == among(self.keys(), k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<Value>) -> (r: bool)
        ensures r == !among(old(self).keys(), k@), final(self).keys() == if r { old(self).keys().push(k@) } else { old(self).keys() }
    { unimplemented!() }
}
pub open spec fn firsts(keys: Seq<Seq<Value>>, rows: Seq<Row>) -> Seq<Row> decreases rows.len() {
    if rows.len() == 0 { rows }
    else if among(keys, values_of(rows[0].0)) { firsts(keys, rows.skip(1)) }
    else { seq![rows[0]] + firsts(keys.push(values_of(rows[0].0)), rows.skip(1)) }
}
//@rewrite /HashSet<Vec<Value>>/KeySet/
//@rewrite /HashSet::new\(\)/KeySet::new()/
//@struct dis DistinctExecutor
impl DistinctExecutor {
pub open spec fn seen(&self) -> Seq<Seq<Value>> { if self.initialized { self.seen_tuples.keys() } else { Seq::empty() } }
pub open spec fn rows(&self) -> Seq<Row> { firsts(self.seen(), self.child_executor.rows()) }
pub open spec fn fails(&self) -> bool { self.child_executor.fails() }
//@fn dis DistinctExecutor::new
ensures res.child_executor == child_executor, res.seen() =~= Seq::<Seq<Value>>::empty(),
//@endfn
//@fn dis DistinctExecutor::init
ensures final(self).initialized, final(self).seen() =~= old(self).seen(), final(self).child_executor.rows() == old(self).child_executor.rows(), final(self).fails() == old(self).fails(),
//@endfn
//@fn dis DistinctExecutor::next
ensures step(res, old(self).rows(), old(self).fails(), final(self).rows(), final(self).fails()),
//@loop 0
invariant self.initialized, self.rows() =~= old(self).rows(), self.fails() == old(self).fails(),
decreases self.child_executor.rows().len(),
//@loopstart 0
proof {
    let r = self.child_executor.rows();
    let k = self.seen();
    if r.len() > 0 && !among(k, values_of(r[0].0)) {
        assert((seq![r[0]] + firsts(k.push(values_of(r[0].0)), r.skip(1))).skip(1) =~= firsts(k.push(values_of(r[0].0)), r.skip(1)));
    }
}
//@endfn
}
// no two rows that DISTINCT gives have the same values, and every row it is given is given back or has a twin that is
pub proof fn firsts_distinct(keys: Seq<Seq<Value>>, rows: Seq<Row>)
    ensures
        forall|i: int| 0 <= i < firsts(keys, rows).len() ==> !among(keys, values_of(#[trigger] firsts(keys, rows)[i].0)),
        forall|i: int, j: int| 0 <= i < j < firsts(keys, rows).len() ==> !same_values(values_of(#[trigger] firsts(keys, rows)[i].0), values_of(#[trigger] firsts(keys, rows)[j].0)),
    decreases rows.len()
{
    if rows.len() > 0 {
        let v = values_of(rows[0].0);
        if among(keys, v) { assert(firsts(keys, rows) == firsts(keys, rows.skip(1))); firsts_distinct(keys, rows.skip(1)); }
        else {
            firsts_distinct(keys.push(v), rows.skip(1));
            let rest = firsts(keys.push(v), rows.skip(1));
            let all = firsts(keys, rows);
            assert(all =~= seq![rows[0]] + rest); assert(all[0] == rows[0]);
            assert forall|i: int| 0 < i < all.len() implies #[trigger] all[i] == rest[i - 1] by {}
            assert forall|i: int| 0 <= i < all.len() implies !among(keys, values_of(#[trigger] all[i].0)) by {
                if i > 0 { assert(all[i] == rest[i - 1]); assert(!among(keys.push(v), values_of(rest[i - 1].0)));
                    let w = values_of(all[i].0);
                    if among(keys, w) { let n = choose|n: int| 0 <= n < keys.len() && same_values(#[trigger] keys[n], w); assert(keys.push(v)[n] == keys[n]); } }
            }
            assert forall|i: int, j: int| 0 <= i < j < all.len() implies !same_values(values_of(#[trigger] all[i].0), values_of(#[trigger] all[j].0)) by {
                assert(all[j] == rest[j - 1]);
                if i > 0 { assert(all[i] == rest[i - 1]); }
                else { assert(!among(keys.push(v), values_of(rest[j - 1].0))); assert(keys.push(v)[keys.len() as int] == v); }
            }
        }
    }
}
pub proof fn firsts_cover(keys: Seq<Seq<Value>>, rows: Seq<Row>, n: int)
    requires 0 <= n < rows.len()
    ensures among(keys, values_of(rows[n].0)) || exists|i: int| 0 <= i < firsts(keys, rows).len() && (#[trigger] firsts(keys, rows)[i] == rows[n] || same_values(values_of(firsts(keys, rows)[i].0), values_of(rows[n].0)))
    decreases rows.len()
{
    let v = values_of(rows[0].0);
    let all = firsts(keys, rows);
    if among(keys, v) {
        if n > 0 { firsts_cover(keys, rows.skip(1), n - 1); assert(rows.skip(1)[n - 1] == rows[n]); }
    } else if n == 0 { assert(all[0] == rows[0]); }
    else {
        let w = values_of(rows[n].0);
        let rest = firsts(keys.push(v), rows.skip(1));
        firsts_cover(keys.push(v), rows.skip(1), n - 1);
        assert(rows.skip(1)[n - 1] == rows[n]);
        if among(keys.push(v), w) {
            let i = choose|i: int| 0 <= i < keys.push(v).len() && same_values(#[trigger] keys.push(v)[i], w);
            if i < keys.len() { assert(keys[i] == keys.push(v)[i]); } else { assert(all[0] == rows[0]); }
        } else {
            let i = choose|i: int| 0 <= i < rest.len() && (#[trigger] rest[i] == rows[n] || same_values(values_of(rest[i].0), w));
            assert(all[i + 1] == rest[i]);
        }
    }
}
// ---- WHERE: the rows the condition is true of
//@enum filx FilterType
#[verifier::external_body]
pub struct FilterExpression { x: u64 }
pub uninterp spec fn kind_of(f: FilterExpression) -> FilterType;
pub uninterp spec fn filter_at(f: FilterExpression, t: Tuple, s: Schema) -> Evald;
impl FilterExpression {
    #[verifier::external_body]
    pub fn get_filter_type(&self) -> (r: FilterType) ensures r == kind_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn evaluate(&self, t: &Tuple, s: &Schema) -> (r: Evald) ensures r == filter_at(*self, *t, *s) { unimplemented!() }
}
impl ExpressionError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
#[verifier::external_body]
pub struct FilterNode { x: u64 }
impl FilterNode {
    pub uninterp spec fn expr(&self) -> FilterExpression;
    #[verifier::external_body]
    pub fn get_filter_expression(&self) -> (r: &FilterExpression) ensures *r == self.expr() { unimplemented!() }
}
pub open spec fn is_true(r: Evald) -> bool { r matches Ok(v) && v.value_ == Val::Boolean(true) }
pub open spec fn sieve(f: FilterExpression, s: Schema, rows: Seq<Row>) -> Seq<Row> decreases rows.len() {
    if rows.len() == 0 { rows }
    else if filter_at(f, rows[0].0, s) is Err { Seq::empty() }
    else if is_true(filter_at(f, rows[0].0, s)) { seq![rows[0]] + sieve(f, s, rows.skip(1)) }
    else { sieve(f, s, rows.skip(1)) }
}
pub open spec fn breaks(f: FilterExpression, s: Schema, rows: Seq<Row>) -> bool { exists|i: int| 0 <= i < rows.len() && filter_at(f, (#[trigger] rows[i]).0, s) is Err }
pub proof fn breaks_step(f: FilterExpression, s: Schema, rows: Seq<Row>)
    requires rows.len() > 0
    ensures breaks(f, s, rows) == (filter_at(f, rows[0].0, s) is Err || breaks(f, s, rows.skip(1)))
{
    let t = rows.skip(1);
    if breaks(f, s, t) { let i = choose|i: int| 0 <= i < t.len() && filter_at(f, (#[trigger] t[i]).0, s) is Err; assert(rows[i + 1] == t[i]); }
    if breaks(f, s, rows) { let i = choose|i: int| 0 <= i < rows.len() && filter_at(f, (#[trigger] rows[i]).0, s) is Err; if i > 0 { assert(t[i - 1] == rows[i]); } }
}
//@struct fil FilterExecutor
impl FilterExecutor {
pub open spec fn rows(&self) -> Seq<Row> { sieve(self.plan.expr(), self.child_executor.schema(), self.child_executor.rows()) }
pub open spec fn fails(&self) -> bool { self.child_executor.fails() || breaks(self.plan.expr(), self.child_executor.schema(), self.child_executor.rows()) }
#[verifier::external_body]
pub fn apply_having_filter(&self, schema: &Schema) -> bool { unimplemented!() }
//@fn fil FilterExecutor::new
ensures res.child_executor == child_executor, res.plan == plan,
//@endfn
//@fn fil FilterExecutor::apply_where_filter
ensures (res is Err) == (filter_at(self.plan.expr(), *tuple, *schema) is Err), res matches Ok(b) ==> b == is_true(filter_at(self.plan.expr(), *tuple, *schema)),
//@endfn
//@fn fil FilterExecutor::apply_filter
requires kind_of(self.plan.expr()) is Where,
ensures ({ let r = filter_at(self.plan.expr(), *tuple, self.child_executor.schema()); (res is Err) == (r is Err) && (res matches Ok(b) ==> b == is_true(r)) }),
//@endfn
//@fn fil FilterExecutor::init
requires kind_of(old(self).plan.expr()) is Where,
ensures final(self).rows() == old(self).rows(), final(self).fails() == old(self).fails(), final(self).plan == old(self).plan,
//@loop 0
invariant false,
decreases 0int,
//@endfn
//@fn fil FilterExecutor::next
requires kind_of(old(self).plan.expr()) is Where,
ensures step(res, old(self).rows(), old(self).fails(), final(self).rows(), final(self).fails()), final(self).plan == old(self).plan,
//@loop 0
invariant self.plan == old(self).plan, kind_of(self.plan.expr()) is Where, self.rows() =~= old(self).rows(), self.fails() == old(self).fails(),
decreases self.child_executor.rows().len(),
//@loopstart 0
proof {
    let r = self.child_executor.rows();
    if r.len() > 0 {
        breaks_step(self.plan.expr(), self.child_executor.schema(), r);
        let t = sieve(self.plan.expr(), self.child_executor.schema(), r.skip(1));
        assert((seq![r[0]] + t).skip(1) =~= t);
    }
}
//@loop 1
invariant false,
decreases 0int,
//@endfn
}
fn main() {}
} // verus!
