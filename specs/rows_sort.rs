//@source val src/types_db/value.rs
//@source types src/types_db/types.rs
//@source ty src/types_db/type_id.rs
//@source so src/sql/execution/executors/sort_executor.rs
//@source sop src/sql/execution/plans/sort_plan.rs
//@source top src/sql/execution/executors/topn_executor.rs
//@source topp src/sql/execution/plans/topn_plan.rs
//@opt strings=vp_string()
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::multiset::Multiset;
verus! {
//@include inc_ordeq.rs
//@include inc_value.rs
//@include inc_value_total.rs
//@assumed value_cmp
//@include inc_value_cmp.rs
//@proved
//@include inc_value_expr.rs
//@include inc_value_order.rs
//@include inc_rows.rs
//@assumed value_eq
pub axiom fn chain(a: Value, b: Value, c: Value)
    requires shaped(a), shaped(b), shaped(c)
    ensures chained(a, b, c);
impl Value {
//@fn val Value::partial_cmp
ensures res == value_cmp(*self, *other),
//@endfn
}
//@proved
pub assume_specification [Ordering::reverse] (a: Ordering) -> (r: Ordering) ensures r == back(a);
// what an expression gives carries the type of its contents
pub axiom fn at_shaped(e: Expression, t: Tuple, s: Schema) ensures at(e, t, s) matches Ok(v) ==> shaped(v);
impl ExpressionError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
//@rewrite /Arc<Expression>/Expression/
//@rewrite /&\[OrderBySpec\]/&Vec<OrderBySpec>/
//@rewrite /&\[Value\]/&Vec<Value>/
// ---- ORDER BY
//@enum sop OrderDirection attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@struct sop OrderBySpec
//@struct sop SortNode
impl OrderBySpec {
//@fn sop OrderBySpec::get_expression
ensures *res == self.expression,
//@endfn
//@fn sop OrderBySpec::get_direction
ensures res == self.direction,
//@endfn
}
impl SortNode {
//@fn sop SortNode::get_order_bys
ensures *res == self.order_bys,
//@endfn
//@fn sop SortNode::get_output_schema
ensures *res == self.output_schema,
//@endfn
}
pub open spec fn towards(d: OrderDirection, o: Option<Ordering>) -> Option<Ordering> { if d is Asc { o } else { flip(o) } }
// the first key that differs decides, in the direction asked for
pub open spec fn row_cmp(specs: Seq<OrderBySpec>, a: Seq<Value>, b: Seq<Value>, i: nat) -> Option<Ordering> decreases specs.len() - i {
    if i >= specs.len() { Some(Ordering::Equal) }
    else { then(towards(specs[i as int].direction, value_cmp(a[i as int], b[i as int])), row_cmp(specs, a, b, i + 1)) }
}
pub open spec fn keys_ok(specs: Seq<OrderBySpec>, k: Seq<Value>) -> bool { k.len() == specs.len() && forall|i: int| 0 <= i < k.len() ==> shaped(#[trigger] k[i]) }
pub open spec fn row_chained(specs: Seq<OrderBySpec>, a: Seq<Value>, b: Seq<Value>, c: Seq<Value>, i: nat) -> bool {
    links(row_cmp(specs, a, b, i), row_cmp(specs, b, a, i), row_cmp(specs, b, c, i), row_cmp(specs, c, b, i), row_cmp(specs, a, c, i), row_cmp(specs, c, a, i))
}
pub proof fn row_chain(specs: Seq<OrderBySpec>, a: Seq<Value>, b: Seq<Value>, c: Seq<Value>, i: nat)
    requires keys_ok(specs, a), keys_ok(specs, b), keys_ok(specs, c)
    ensures row_chained(specs, a, b, c, i)
    decreases specs.len() - i
{
    hide(value_cmp);
    if i < specs.len() {
        let (x, y, z) = (a[i as int], b[i as int], c[i as int]);
        let d = specs[i as int].direction;
        chain(x, y, z);
        row_chain(specs, a, b, c, i + 1);
        both_chain([towards(d, value_cmp(x, y)), towards(d, value_cmp(y, x)), towards(d, value_cmp(y, z)), towards(d, value_cmp(z, y)), towards(d, value_cmp(x, z)), towards(d, value_cmp(z, x))],
            [row_cmp(specs, a, b, i + 1), row_cmp(specs, b, a, i + 1), row_cmp(specs, b, c, i + 1), row_cmp(specs, c, b, i + 1), row_cmp(specs, a, c, i + 1), row_cmp(specs, c, a, i + 1)]);
    }
}
pub proof fn pair_some(specs: Seq<OrderBySpec>, a: Seq<Value>, b: Seq<Value>)
    requires keys_ok(specs, a), keys_ok(specs, b)
    ensures forall|i: int| 0 <= i < specs.len() ==> value_cmp(#[trigger] a[i], b[i]).is_some()
{
    assert forall|i: int| 0 <= i < specs.len() implies value_cmp(#[trigger] a[i], b[i]).is_some() by { let y = b[i]; chain(a[i], y, y); }
}
// the keys of a row, and whether they can be worked out
pub open spec fn keyable(specs: Seq<OrderBySpec>, r: Row, s: Schema) -> bool { forall|i: int| 0 <= i < specs.len() ==> at((#[trigger] specs[i]).expression, r.0, s) is Ok }
pub open spec fn keys_of(specs: Seq<OrderBySpec>, r: Row, s: Schema) -> Seq<Value> { Seq::new(specs.len(), |i: int| at(specs[i].expression, r.0, s)->Ok_0) }
pub open spec fn all_keyable(specs: Seq<OrderBySpec>, rows: Seq<Row>, s: Schema) -> bool { forall|i: int| 0 <= i < rows.len() ==> keyable(specs, #[trigger] rows[i], s) }
pub open spec fn permutes(p: Seq<int>, n: nat) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j])
}
// slice::sort_by: every element once, in order, and equals as they stood; it needs an order that is total and transitive
pub type Keyed = (Vec<Value>, Row);
pub open spec fn sorted_by_keys(p: Seq<int>, old: Seq<Keyed>, new: Seq<Keyed>, specs: Seq<OrderBySpec>) -> bool {
    &&& permutes(p, old.len()) && new.len() == old.len()
    &&& forall|i: int| 0 <= i < new.len() ==> #[trigger] new[i] == old[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < new.len() ==> in_turn(row_cmp(specs, (#[trigger] new[i]).0@, (#[trigger] new[j]).0@, 0), p[i], p[j])
}
pub open spec fn in_turn(o: Option<Ordering>, p: int, q: int) -> bool { o == Some(Ordering::Less) || (o == Some(Ordering::Equal) && p < q) }
pub open spec fn totally(specs: Seq<OrderBySpec>, v: Seq<Keyed>) -> bool {
    forall|i: int, j: int, k: int| 0 <= i < v.len() && 0 <= j < v.len() && 0 <= k < v.len() ==> row_chained(specs, (#[trigger] v[i]).0@, (#[trigger] v[j]).0@, (#[trigger] v[k]).0@, 0)
}
#[verifier::external_body]
pub fn sort_with_compare_keys(v: &mut Vec<Keyed>, specs: &Vec<OrderBySpec>)
    requires totally(specs@, old(v)@)
    ensures exists|p: Seq<int>| sorted_by_keys(p, old(v)@, final(v)@, specs@)
{ unimplemented!() }
#[verifier::external_body]
pub fn only_rows(v: Vec<Keyed>) -> (r: Vec<Row>) ensures r@ == Seq::new(v@.len(), |i: int| v@[i].1) { unimplemented!() }
#[verifier::external_body]
pub fn clone_row(r: &Row) -> (c: Row) ensures c == *r { unimplemented!() }
// the rows in the order asked for: each once, sorted, and rows with equal keys as they came
pub open spec fn ordered(p: Seq<int>, rows: Seq<Row>, out: Seq<Row>, specs: Seq<OrderBySpec>, s: Schema) -> bool {
    &&& permutes(p, rows.len()) && out.len() == rows.len()
    &&& forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i] == rows[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> in_turn(row_cmp(specs, keys_of(specs, #[trigger] out[i], s), keys_of(specs, #[trigger] out[j], s), 0), p[i], p[j])
}
pub open spec fn order_by(rows: Seq<Row>, out: Seq<Row>, specs: Seq<OrderBySpec>, s: Schema) -> bool { exists|p: Seq<int>| ordered(p, rows, out, specs, s) }
//@struct so SortExecutor
impl SortExecutor {
pub open spec fn rows(&self) -> Seq<Row> {
    if self.error is Some || self.current_index >= self.sorted_tuples@.len() { Seq::empty() } else { self.sorted_tuples@.skip(self.current_index as int) }
}
pub open spec fn fails(&self) -> bool { self.error is Some }
pub open spec fn fresh(&self) -> bool { !self.initialized ==> self.sorted_tuples@.len() == 0 && self.error is None && self.current_index == 0 }
// what ORDER BY makes of the child's rows: them all in order, or the error
pub open spec fn settled(&self, out: Seq<Row>, e: bool) -> bool {
    let rows = rows_of(self.child_executor);
    let specs = self.plan.order_bys@;
    let s = self.plan.output_schema;
    if fails_of(self.child_executor) || !all_keyable(specs, rows, s) { e && out.len() == 0 } else { !e && order_by(rows, out, specs, s) }
}
//@fn so SortExecutor::new
ensures res.child_executor == Some(child_executor), res.plan == plan, res.fresh(), !res.initialized,
//@endfn
//@fn so SortExecutor::sort_keys
//@rewrite /for order_by_spec in order_by_specs \{/let mut vp_n: usize = 0; while vp_n < order_by_specs.len() { let order_by_spec = &order_by_specs[vp_n]; proof { at_shaped(order_by_spec.expression, *tuple, *schema); } vp_n += 1;/
//@rewrite /Vec::new\(\)/Vec::<Value>::new()/
ensures
    forall|rid: RID| keyable(order_by_specs@, (*tuple, rid), *schema) == (res is Ok),
    res matches Ok(k) ==> keys_ok(order_by_specs@, k@) && forall|rid: RID| k@ =~= keys_of(order_by_specs@, (*tuple, rid), *schema),
//@loop 0
invariant
    vp_n <= order_by_specs@.len(), keys@.len() == vp_n,
    forall|i: int| 0 <= i < vp_n ==> at((#[trigger] order_by_specs@[i]).expression, *tuple, *schema) == Evald::Ok(keys@[i]),
    forall|i: int| 0 <= i < vp_n ==> shaped(#[trigger] keys@[i]),
decreases order_by_specs@.len() - vp_n,
//@endfn
//@fn so SortExecutor::compare_keys
//@rewrite /for \(i, order_by_spec\) in order_by_specs\.iter\(\)\.enumerate\(\) \{/let mut vp_n: usize = 0; while vp_n < order_by_specs.len() { let i = vp_n; let order_by_spec = &order_by_specs[vp_n]; vp_n += 1;/
requires keys_ok(order_by_specs@, keys_a@), keys_ok(order_by_specs@, keys_b@),
ensures Some(res) == row_cmp(order_by_specs@, keys_a@, keys_b@, 0),
//@start
proof { pair_some(order_by_specs@, keys_a@, keys_b@); }
//@loop 0
invariant
    vp_n <= order_by_specs@.len(), keys_ok(order_by_specs@, keys_a@), keys_ok(order_by_specs@, keys_b@),
    forall|i: int| 0 <= i < order_by_specs@.len() ==> value_cmp(#[trigger] keys_a@[i], keys_b@[i]).is_some(),
    row_cmp(order_by_specs@, keys_a@, keys_b@, 0) == row_cmp(order_by_specs@, keys_a@, keys_b@, vp_n as nat),
decreases order_by_specs@.len() - vp_n,
//@endfn
//@fn so SortExecutor::collect_sorted
//@rewrite /keyed\s*\.sort_by\(\|\((\w+), _\), \((\w+), _\)\| (?:\{\s*)?Self::compare_keys\(order_by_specs, \1, \2\)(?:\s*\})?\);/let ghost vp_k = keyed@; proof { totally_keyed(order_by_specs@, keyed@); } sort_with_compare_keys(&mut keyed, order_by_specs); let ghost keyed0 = keyed@;/
//@rewrite /keyed\.into_iter\(\)\.map\(\|\(_, row\)\| row\)\.collect\(\)/only_rows(keyed)/
//@rewrite /while let Some\(\(tuple, rid\)\) = child\.next\(\)\? \{/loop { let (tuple, rid) = match child.next()? { Some(vp_r) => vp_r, None => break }; proof { assert((tuple, rid) == all[keyed@.len() as int]); }/
//@rewrite /let mut keyed = Vec::new\(\)/let mut keyed: Vec<Keyed> = Vec::new(); let ghost all = child.rows()/
requires old(self).fresh(), !old(self).initialized,
ensures
    final(self).plan == old(self).plan, final(self).current_index == old(self).current_index, final(self).error == old(self).error, final(self).initialized == old(self).initialized,
    (res is Err) == (fails_of(old(self).child_executor) || !all_keyable(old(self).plan.order_bys@, rows_of(old(self).child_executor), old(self).plan.output_schema)),
    res is Err ==> final(self).sorted_tuples@.len() == 0,
    res is Ok ==> order_by(rows_of(old(self).child_executor), final(self).sorted_tuples@, old(self).plan.order_bys@, old(self).plan.output_schema),
//@start
proof { if self.child_executor is None { assert(ordered(Seq::empty(), Seq::empty(), self.sorted_tuples@, self.plan.order_bys@, self.plan.output_schema)); } }
//@loop 0
invariant_except_break
    child.rows().len() <= all.len(), child.rows() =~= all.skip(all.len() - child.rows().len()), keyed@.len() == all.len() - child.rows().len(),
invariant
    old(self).sorted_tuples@.len() == 0, all == rows_of(old(self).child_executor), child.fails() == fails_of(old(self).child_executor),
    *order_by_specs == old(self).plan.order_bys, *schema == old(self).plan.output_schema,
    keyed_rows(order_by_specs@, keyed@, *schema),
    forall|i: int| 0 <= i < keyed@.len() ==> (#[trigger] keyed@[i]).1 == all[i],
    self.sorted_tuples == old(self).sorted_tuples, self.plan == old(self).plan, self.current_index == old(self).current_index, self.error == old(self).error, self.initialized == old(self).initialized,
ensures keyed@.len() == all.len(), !child.fails(),
decreases child.rows().len(),
//@after /self\.sorted_tuples = [^;]*;/
proof {
    let specs = order_by_specs@;
    let p = choose|p: Seq<int>| sorted_by_keys(p, vp_k, keyed0, specs);
    let out = self.sorted_tuples@;
    assert forall|i: int| 0 <= i < out.len() implies #[trigger] out[i] == all[p[i]] by { assert(keyed0[i] == vp_k[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies in_turn(row_cmp(specs, keys_of(specs, #[trigger] out[i], *schema), keys_of(specs, #[trigger] out[j], *schema), 0), p[i], p[j]) by {
        assert(keyed0[i] == vp_k[p[i]]); assert(keyed0[j] == vp_k[p[j]]);
        assert(keyed0[i].0@ =~= keys_of(specs, out[i], *schema)); assert(keyed0[j].0@ =~= keys_of(specs, out[j], *schema));
    }
    assert(ordered(p, all, out, specs, *schema));
    assert(order_by(all, out, specs, *schema));
    assert forall|i: int| 0 <= i < all.len() implies keyable(specs, #[trigger] all[i], *schema) by { assert(vp_k[i].1 == all[i]); }
}
//@endfn
//@fn so SortExecutor::init
requires old(self).fresh(),
ensures
    final(self).fresh(), final(self).initialized, final(self).plan == old(self).plan,
    old(self).initialized ==> *final(self) == *old(self),
    !old(self).initialized ==> old(self).settled(final(self).rows(), final(self).fails()),
//@after /self\.initialized = true;/
proof { assert(self.sorted_tuples@.skip(0) =~= self.sorted_tuples@); assert(self.rows() =~= if self.error is Some { Seq::<Row>::empty() } else { self.sorted_tuples@ }); }
//@endfn
//@fn so SortExecutor::next
//@rewrite /self\.sorted_tuples\[self\.current_index\]\.clone\(\)/clone_row(&self.sorted_tuples[self.current_index])/
requires old(self).fresh(),
ensures
    final(self).fresh(), final(self).initialized, final(self).plan == old(self).plan,
    old(self).initialized ==> step(res, old(self).rows(), old(self).fails(), final(self).rows(), final(self).fails()),
    !old(self).initialized ==> exists|out: Seq<Row>, e: bool| old(self).settled(out, e) && step(res, out, e, final(self).rows(), final(self).fails()),
//@before /if self\.current_index >=/
//@endfn
}
pub open spec fn keyed_rows(specs: Seq<OrderBySpec>, v: Seq<Keyed>, s: Schema) -> bool {
    forall|i: int| 0 <= i < v.len() ==> keys_ok(specs, (#[trigger] v[i]).0@) && keyable(specs, v[i].1, s) && v[i].0@ =~= keys_of(specs, v[i].1, s)
}
pub proof fn totally_keyed(specs: Seq<OrderBySpec>, v: Seq<Keyed>)
    requires forall|i: int| 0 <= i < v.len() ==> keys_ok(specs, (#[trigger] v[i]).0@)
    ensures totally(specs, v)
{
    assert forall|i: int, j: int, k: int| 0 <= i < v.len() && 0 <= j < v.len() && 0 <= k < v.len() implies row_chained(specs, (#[trigger] v[i]).0@, (#[trigger] v[j]).0@, (#[trigger] v[k]).0@, 0) by {
        row_chain(specs, v[i].0@, v[j].0@, v[k].0@, 0);
    }
}
// ---- TOP N: the k largest rows, largest first
//@struct topp TopNNode
impl TopNNode {
//@fn topp TopNNode::get_k
ensures res == self.k,
//@endfn
//@fn topp TopNNode::get_sort_order_by
ensures *res == self.order_bys,
//@endfn
//@fn topp TopNNode::get_output_schema
ensures *res == self.output_schema,
//@endfn
}
//@struct top TupleWithKeys
// n keys, each ascending
pub uninterp spec fn any_expression() -> Expression;
pub open spec fn asc(n: nat) -> Seq<OrderBySpec> { Seq::new(n, |i: int| OrderBySpec { expression: any_expression(), direction: OrderDirection::Asc }) }
pub open spec fn key_cmp(a: TupleWithKeys, b: TupleWithKeys) -> Option<Ordering> { row_cmp(asc(a.sort_keys@.len()), a.sort_keys@, b.sort_keys@, 0) }
pub open spec fn sized(n: nat, x: TupleWithKeys) -> bool { keys_ok(asc(n), x.sort_keys@) }
pub open spec fn all_sized(n: nat, m: Multiset<TupleWithKeys>) -> bool { forall|x: TupleWithKeys| #[trigger] m.contains(x) ==> sized(n, x) }
pub proof fn key_chain(n: nat, a: TupleWithKeys, b: TupleWithKeys, c: TupleWithKeys)
    requires sized(n, a), sized(n, b), sized(n, c)
    ensures links(key_cmp(a, b), key_cmp(b, a), key_cmp(b, c), key_cmp(c, b), key_cmp(a, c), key_cmp(c, a))
{
    row_chain(asc(n), a.sort_keys@, b.sort_keys@, c.sort_keys@, 0);
}
impl TupleWithKeys {
//@fn top TupleWithKeys::cmp
//@rewrite /for \(a, b\) in self\.sort_keys\.iter\(\)\.zip\(other\.sort_keys\.iter\(\)\) \{/let mut vp_n: usize = 0; while vp_n < self.sort_keys.len() { let a = &self.sort_keys[vp_n]; let b = &other.sort_keys[vp_n]; vp_n += 1;/
requires exists|n: nat| sized(n, *self) && sized(n, *other),
ensures Some(res) == key_cmp(*self, *other),
//@start
proof { pair_some(asc(self.sort_keys@.len()), self.sort_keys@, other.sort_keys@); }
//@loop 0
invariant
    vp_n <= self.sort_keys@.len(), self.sort_keys@.len() == other.sort_keys@.len(),
    forall|i: int| 0 <= i < self.sort_keys@.len() ==> value_cmp(#[trigger] self.sort_keys@[i], other.sort_keys@[i]).is_some(),
    key_cmp(*self, *other) == row_cmp(asc(self.sort_keys@.len()), self.sort_keys@, other.sort_keys@, vp_n as nat),
decreases self.sort_keys@.len() - vp_n,
//@endfn
//@fn top TupleWithKeys::partial_cmp
requires exists|n: nat| sized(n, *self) && sized(n, *other),
ensures res == key_cmp(*self, *other),
//@endfn
//@fn top TupleWithKeys::eq
requires exists|n: nat| sized(n, *self) && sized(n, *other),
ensures res == (key_cmp(*self, *other) == Some(Ordering::Equal)),
//@endfn
}
// BinaryHeap<Reverse<TupleWithKeys>>: the smallest is on top
#[verifier::external_body]
pub struct Heap { x: u64 }
pub open spec fn descending(v: Seq<TupleWithKeys>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> le(key_cmp(#[trigger] v[j], #[trigger] v[i])) }
impl Heap {
    pub uninterp spec fn items(&self) -> Multiset<TupleWithKeys>;
    pub uninterp spec fn top(&self) -> TupleWithKeys;
    #[verifier::external_body]
    pub fn new() -> (r: Heap) ensures r.items() == Multiset::<TupleWithKeys>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.items().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: TupleWithKeys) ensures final(self).items() == old(self).items().insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&TupleWithKeys>)
        requires exists|n: nat| all_sized(n, self.items())
        ensures
            r is None == (self.items().len() == 0),
            r matches Some(x) ==> *x == self.top() && self.items().contains(*x) && smallest(*x, self.items())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<TupleWithKeys>)
        requires exists|n: nat| all_sized(n, old(self).items())
        ensures old(self).items().len() > 0 ==> final(self).items() == old(self).items().remove(old(self).top())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_rows(self) -> (r: Vec<TupleWithKeys>)
        requires exists|n: nat| all_sized(n, self.items())
        ensures r@.to_multiset() == self.items(), descending(r@)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn keys_for(es: &Vec<Expression>, t: &Tuple, s: &Schema) -> (r: Result<Vec<Value>, DBError>)
    ensures
        r is Ok == (forall|i: int| 0 <= i < es@.len() ==> at(#[trigger] es@[i], *t, *s) is Ok),
        r matches Ok(k) ==> k@.len() == es@.len() && forall|i: int| 0 <= i < es@.len() ==> at(es@[i], *t, *s) == Evald::Ok(#[trigger] k@[i]),
{ unimplemented!() }
pub open spec fn has_keys(es: Seq<Expression>, t: Tuple, s: Schema) -> bool { forall|i: int| 0 <= i < es.len() ==> at(#[trigger] es[i], t, s) is Ok }
pub open spec fn all_have_keys(es: Seq<Expression>, rows: Seq<Row>, s: Schema) -> bool { forall|i: int| 0 <= i < rows.len() ==> has_keys(es, (#[trigger] rows[i]).0, s) }
pub open spec fn made_of(x: TupleWithKeys, r: Row, es: Seq<Expression>, s: Schema) -> bool {
    &&& x.tuple == r.0 && x.rid == r.1 && x.sort_keys@.len() == es.len()
    &&& forall|i: int| 0 <= i < es.len() ==> at(es[i], r.0, s) == Evald::Ok(#[trigger] x.sort_keys@[i])
}
pub open spec fn all_made(made: Seq<TupleWithKeys>, rows: Seq<Row>, es: Seq<Expression>, s: Schema) -> bool {
    made.len() <= rows.len() && forall|i: int| 0 <= i < made.len() ==> made_of(#[trigger] made[i], rows[i], es, s)
}
pub open spec fn below(dropped: Multiset<TupleWithKeys>, kept: Multiset<TupleWithKeys>) -> bool {
    forall|d: TupleWithKeys, x: TupleWithKeys| #[trigger] dropped.contains(d) && #[trigger] kept.contains(x) ==> le(key_cmp(d, x))
}
// what is given, with what is left out, is the rows; it is k of them or all; largest first; nothing left out is larger than anything given
pub open spec fn tops(made: Seq<TupleWithKeys>, dropped: Multiset<TupleWithKeys>, out: Seq<TupleWithKeys>, rows: Seq<Row>, k: int, es: Seq<Expression>, s: Schema) -> bool {
    &&& made.len() == rows.len() && all_made(made, rows, es, s)
    &&& out.to_multiset().add(dropped) =~= made.to_multiset()
    &&& out.len() == if k <= rows.len() { k } else { rows.len() as int }
    &&& descending(out)
    &&& below(dropped, out.to_multiset())
}
pub open spec fn top_k(out: Seq<TupleWithKeys>, rows: Seq<Row>, k: int, es: Seq<Expression>, s: Schema) -> bool {
    exists|made: Seq<TupleWithKeys>, dropped: Multiset<TupleWithKeys>| tops(made, dropped, out, rows, k, es, s)
}
pub open spec fn bare(v: Seq<TupleWithKeys>) -> Seq<Row> { Seq::new(v.len(), |i: int| (v[i].tuple, v[i].rid)) }
//@struct top TopNExecutor
impl TopNExecutor {
pub open spec fn rows(&self) -> Seq<Row> {
    if self.error is Some || self.current_index >= self.sorted_tuples@.len() { Seq::empty() } else { bare(self.sorted_tuples@.skip(self.current_index as int)) }
}
pub open spec fn fails(&self) -> bool { self.error is Some }
pub open spec fn fresh(&self) -> bool { !self.initialized ==> self.sorted_tuples@.len() == 0 && self.error is None && self.current_index == 0 }
pub open spec fn settled(&self, out: Seq<Row>, e: bool) -> bool {
    let rows = self.child.rows();
    let es = self.plan.order_bys@;
    let s = self.plan.output_schema;
    if self.child.fails() || !all_have_keys(es, rows, s) { e && out.len() == 0 }
    else { !e && exists|o: Seq<TupleWithKeys>| out =~= bare(o) && #[trigger] top_k(o, rows, self.plan.k as int, es, s) }
}
//@fn top TopNExecutor::evaluate_sort_keys
//@rewrite /self\s*\.plan\s*\.get_sort_order_by\(\)\s*\.iter\(\)\s*\.map\(\|expr\| expr\.evaluate\(tuple, schema\)\)\s*\.collect::<Result<Vec<_>, _>>\(\)\s*\.map_err\(\|e\| DBError::Execution\(e\.to_string\(\)\)\)\?/keys_for(self.plan.get_sort_order_by(), tuple, schema)?/
ensures
    res is Ok == has_keys(self.plan.order_bys@, *tuple, self.plan.output_schema),
    res matches Ok(k) ==> k@.len() == self.plan.order_bys@.len() && forall|i: int| 0 <= i < k@.len() ==> at(self.plan.order_bys@[i], *tuple, self.plan.output_schema) == Evald::Ok(#[trigger] k@[i]),
//@endfn
//@fn top TopNExecutor::init
//@rewrite /BinaryHeap::new\(\)/Heap::new(); let ghost all = self.child.rows(); let ghost mut made = Seq::<TupleWithKeys>::empty(); proof { no_made(made); reveal(good); }/
//@rewrite /heap\s*\.into_sorted_vec\(\)\s*\.into_iter\(\)\s*\.map\(\|Reverse\(t\)\| t\)\s*\.collect\(\)/heap.into_rows()/
//@rewrite /Reverse\((tuple_with_keys|current_min)\)/\1/
//@rewrite /current_min < &tuple_with_keys/matches!(current_min.partial_cmp(&tuple_with_keys), Some(Ordering::Less))/
requires old(self).fresh(),
ensures
    final(self).fresh(), final(self).initialized, final(self).plan == old(self).plan,
    old(self).initialized ==> *final(self) == *old(self),
    !old(self).initialized ==> old(self).settled(final(self).rows(), final(self).fails()),
//@loop 0
invariant_except_break
    self.error is None, self.child.fails() == old(self).child.fails(),
    self.child.rows().len() <= all.len(), self.child.rows() =~= all.skip(all.len() - self.child.rows().len()), made.len() == all.len() - self.child.rows().len(),
invariant
    self.plan == old(self).plan, self.sorted_tuples@.len() == 0, self.current_index == 0, all == old(self).child.rows(), k == self.plan.k, !self.initialized,
    all_made(made, all, self.plan.order_bys@, self.plan.output_schema),
    good(self.plan.order_bys@.len(), made.to_multiset(), heap.items(), k as int),
ensures
    self.error is Some ==> old(self).child.fails() || !all_have_keys(self.plan.order_bys@, all, self.plan.output_schema),
    self.error is None ==> made.len() == all.len() && !old(self).child.fails(),
decreases self.child.rows().len(),
//@before /if heap\.len\(\) < k/
let ghost x = tuple_with_keys;
let ghost n = self.plan.order_bys@.len();
let ghost h0 = heap.items();
proof {
    assert((x.tuple, x.rid) == all[made.len() as int]);
    each_shaped(self.plan.order_bys@, x, x.tuple, self.plan.output_schema);
    assert(sized(n, x));
    push_made(made, x);
    made_len(made);
    outcomes(n, made.to_multiset(), x, h0, heap.top(), k as int);
    made = made.push(x);
}
//@before /if self\.error\.is_none\(\)/
let ghost kept = heap.items();
proof { good_sized(self.plan.order_bys@.len(), made.to_multiset(), heap.items(), k as int); }
//@after /self\.initialized = true;/
proof {
    if self.error is None {
        let es = self.plan.order_bys@;
        let s = self.plan.output_schema;
        let out = self.sorted_tuples@;
        made_len(out); made_len(made);
        reveal(good);
        assert(tops(made, made.to_multiset().sub(kept), out, all, k as int, es, s));
        assert(top_k(out, all, k as int, es, s));
        assert(out.skip(0) =~= out);
        assert(self.rows() =~= bare(out));
        assert forall|i: int| 0 <= i < all.len() implies has_keys(es, (#[trigger] all[i]).0, s) by { assert(made_of(made[i], all[i], es, s));
            assert forall|j: int| 0 <= j < es.len() implies at(#[trigger] es[j], all[i].0, s) is Ok by { assert(at(es[j], all[i].0, s) == Evald::Ok(made[i].sort_keys@[j])); } }
    } else { assert(self.rows() =~= Seq::<Row>::empty()); }
}
//@endfn
//@fn top TopNExecutor::next
requires old(self).fresh(),
ensures
    final(self).fresh(), final(self).initialized, final(self).plan == old(self).plan,
    old(self).initialized ==> step(res, old(self).rows(), old(self).fails(), final(self).rows(), final(self).fails()),
    !old(self).initialized ==> exists|out: Seq<Row>, e: bool| old(self).settled(out, e) && step(res, out, e, final(self).rows(), final(self).fails()),
//@endfn
}
pub proof fn each_shaped(es: Seq<Expression>, x: TupleWithKeys, t: Tuple, s: Schema)
    requires x.sort_keys@.len() == es.len(), forall|i: int| 0 <= i < es.len() ==> at(es[i], t, s) == Evald::Ok(#[trigger] x.sort_keys@[i])
    ensures sized(es.len(), x)
{
    assert forall|i: int| 0 <= i < es.len() implies shaped(#[trigger] x.sort_keys@[i]) by { at_shaped(es[i], t, s); }
}
#[verifier::opaque]
pub open spec fn good(n: nat, m: Multiset<TupleWithKeys>, h: Multiset<TupleWithKeys>, k: int) -> bool {
    &&& h.subset_of(m) && all_sized(n, m)
    &&& h.len() == if k <= m.len() { k as nat } else { m.len() }
    &&& below(m.sub(h), h)
}
// what becomes of "nothing left out is larger than anything kept" when x is kept, replaces the smallest, or is left out
pub proof fn outcomes(n: nat, m: Multiset<TupleWithKeys>, x: TupleWithKeys, h: Multiset<TupleWithKeys>, t: TupleWithKeys, k: int)
    requires good(n, m, h, k), sized(n, x), k >= 0
    ensures
        all_sized(n, h),
        h.len() < k ==> good(n, m.insert(x), h.insert(x), k),
        h.len() >= k && h.len() == 0 ==> good(n, m.insert(x), h, k),
        h.len() >= k && h.contains(t) && smallest(t, h) ==> if key_cmp(t, x) == Some(Ordering::Less) { good(n, m.insert(x), h.remove(t).insert(x), k) } else { good(n, m.insert(x), h, k) },
{
    reveal(good);
    let m2 = m.insert(x);
    assert forall|y: TupleWithKeys| #[trigger] m2.contains(y) implies sized(n, y) by { if y != x { assert(m.contains(y)); } }
    assert forall|y: TupleWithKeys| #[trigger] h.contains(y) implies sized(n, y) by { assert(m.contains(y)); }
    let h1 = h.insert(x);
    if h.len() == m.len() { assert forall|y: TupleWithKeys| m.sub(h).count(y) == 0 by { let r = m.sub(h); assert(r.len() == 0); if r.contains(y) { assert(r.remove(y).len() == r.len() - 1); } }
        assert(h =~= m) by { assert forall|y: TupleWithKeys| h.count(y) == m.count(y) by { assert(m.sub(h).count(y) == 0); } }
        assert forall|y: TupleWithKeys| m2.sub(h1).count(y) == 0 by { } }
    if h.len() == 0 { assert forall|y: TupleWithKeys| !(#[trigger] h.contains(y)) by { if h.contains(y) { assert(h.remove(y).len() == h.len() - 1); } } }
    if h.contains(t) && smallest(t, h) {
        let h2 = h.remove(t).insert(x);
        assert forall|y: TupleWithKeys| h2.count(y) <= m2.count(y) by { }
        if key_cmp(t, x) == Some(Ordering::Less) {
            let d2 = m2.sub(h2);
            assert forall|d: TupleWithKeys, y: TupleWithKeys| #[trigger] d2.contains(d) && #[trigger] h2.contains(y) implies le(key_cmp(d, y)) by {
                assert(d == t || m.sub(h).contains(d));
                assert(y == x || h.contains(y));
                assert(sized(n, d)) by { assert(m2.contains(d)); }
                assert(sized(n, y)) by { assert(m2.contains(y)); }
                key_chain(n, d, t, y);
                key_chain(n, t, x, d);
            }
        } else {
            let d2 = m2.sub(h);
            assert forall|d: TupleWithKeys, y: TupleWithKeys| #[trigger] d2.contains(d) && #[trigger] h.contains(y) implies le(key_cmp(d, y)) by {
                assert(d == x || m.sub(h).contains(d));
                assert(sized(n, d)) by { assert(m2.contains(d)); }
                assert(sized(n, t));
                key_chain(n, d, t, y);
            }
        }
    }
}
pub open spec fn smallest(t: TupleWithKeys, h: Multiset<TupleWithKeys>) -> bool { forall|y: TupleWithKeys| #[trigger] h.contains(y) ==> le(key_cmp(t, y)) }
pub proof fn good_sized(n: nat, m: Multiset<TupleWithKeys>, h: Multiset<TupleWithKeys>, k: int)
    requires good(n, m, h, k)
    ensures all_sized(n, h)
{ reveal(good); assert forall|y: TupleWithKeys| #[trigger] h.contains(y) implies sized(n, y) by { assert(m.contains(y)); } }
pub proof fn no_made(made: Seq<TupleWithKeys>)
    requires made.len() == 0
    ensures made.to_multiset() =~= Multiset::<TupleWithKeys>::empty()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let m = made.to_multiset();
    assert(m.len() == 0);
    assert forall|y: TupleWithKeys| m.count(y) == 0 by { if m.contains(y) { assert(m.remove(y).len() == m.len() - 1); } }
}
pub proof fn made_len(made: Seq<TupleWithKeys>) ensures made.to_multiset().len() == made.len() { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
pub proof fn push_made(made: Seq<TupleWithKeys>, x: TupleWithKeys)
    ensures made.push(x).to_multiset() =~= made.to_multiset().insert(x)
{
    vstd::seq_lib::to_multiset_build(made, x);
}
fn main() {}
} // verus!
