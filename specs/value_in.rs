//@source val src/types_db/value.rs
//@source types src/types_db/types.rs
//@source ty src/types_db/type_id.rs
//@source in src/sql/execution/expressions/in_expression.rs
//@source lk src/sql/execution/expressions/like_expression.rs
//@opt strings=vp_string()
use vstd::prelude::*;
use std::cmp::Ordering;
use std::sync::Arc;
verus! {
//@include inc_ordeq.rs
//@include inc_value.rs
//@include inc_value_total.rs
//@assumed value_cmp
//@include inc_value_cmp.rs
//@proved
//@include inc_value_expr.rs
//@assumed value_logic
//@include inc_value_fns.rs
//@proved
// `x as i32`
pub trait AsI32: Sized {
    spec fn si32(self) -> i32;
    fn to_i32(self) -> (r: i32) ensures r == self.si32();
}
impl AsI32 for i8 { open spec fn si32(self) -> i32 { self as i32 } fn to_i32(self) -> i32 { self as i32 } }
impl AsI32 for i16 { open spec fn si32(self) -> i32 { self as i32 } fn to_i32(self) -> i32 { self as i32 } }
impl AsI32 for i64 { open spec fn si32(self) -> i32 { self as i32 } #[verifier::external_body] fn to_i32(self) -> i32 { self as i32 } }
pub uninterp spec fn trunc32(f: F64) -> i32;
impl AsI32 for F64 { open spec fn si32(self) -> i32 { trunc32(self) } #[verifier::external_body] fn to_i32(self) -> i32 { self.x as i32 } }
// an i32 is exact as an f64, and what equals a number compares as it does
pub axiom fn exact64(i: i32, j: i32) ensures cmp64(int64(i as int), int64(j as int)) == Some(icmp(i as int, j as int));
pub axiom fn equal64(a: F64, b: F64, c: F64) requires cmp64(a, b) == Some(Ordering::Equal) ensures cmp64(c, a) == cmp64(c, b);
// ---- IN: = ANY
//@enum in InOperand
//@struct in InExpression
pub open spec fn in_list(v: Value, s: Seq<Value>) -> CmpBool { for_any(BinaryOperator::Eq, v, s) }
pub open spec fn list_of(v: Value) -> Seq<Value> { match v.value_ { Val::Vector(s) => s@, _ => seq![v] } }
impl InExpression {
//@fn in InExpression::check_value_in_list
//@rewrite /for list_value in list\s*\{/let mut vp_n: usize = 0; while vp_n < list.len() { let list_value = &list[vp_n]; vp_n += 1;/
//@rewrite /\(\*n as i32\) as F64/((*n).to_i32()).as64()/
//@rewrite /\*n as i32\b/(*n).to_i32()/
//@rewrite /\.clone\(\)/.vp_clone()/
requires typed(*value), forall|i: int| 0 <= i < list@.len() ==> typed(#[trigger] list@[i]),
ensures list@.len() > 0 || !(value.value_ is Null) ==> is3(res, in_list(*value, list@)),
//@start
proof { if value.value_ is Null && list@.len() > 0 { assert(by_op(BinaryOperator::Eq, *value, list@[0]) == CmpBool::CmpNull); } }
//@loop 0
invariant_except_break
    !found,
    forall|i: int| 0 <= i < vp_n ==> by_op(BinaryOperator::Eq, *value, #[trigger] list@[i]) != CmpBool::CmpTrue,
    has_null == (exists|i: int| 0 <= i < vp_n && by_op(BinaryOperator::Eq, *value, #[trigger] list@[i]) == CmpBool::CmpNull),
invariant
    vp_n <= list@.len(), typed(*value), !(value.value_ is Null),
    forall|i: int| 0 <= i < list@.len() ==> typed(#[trigger] list@[i]),
ensures
    found == each(BinaryOperator::Eq, *value, list@, CmpBool::CmpTrue),
    !found ==> has_null == each(BinaryOperator::Eq, *value, list@, CmpBool::CmpNull),
decreases list@.len() - vp_n,
//@loopstart 0
proof {
    assert(typed(list@[vp_n as int]));
    if let Val::Decimal(n) = list@[vp_n as int].value_ {
        if let Val::Integer(x) = value.value_ {
            exact64(x, trunc32(n));
            if cmp64(n, int64(trunc32(n) as int)) == Some(Ordering::Equal) { equal64(n, int64(trunc32(n) as int), int64(x as int)); }
        }
    }
}
//@endfn
//@fn in InExpression::evaluate_list
requires typed(*value), typed(list_result), all_typed(list_result),
ensures list_of(list_result).len() > 0 || !(value.value_ is Null) ==> is3(res, in_list(*value, list_of(list_result))),
//@endfn
//@fn in InExpression::evaluate_subquery
requires typed(*value), typed(subquery_result), all_typed(subquery_result),
ensures
    subquery_result.value_ is Null ==> is3(res, CmpBool::CmpNull),
    list_of(subquery_result).len() > 0 || !(value.value_ is Null) ==> is3(res, in_list(*value, list_of(subquery_result))),
//@start
proof { if subquery_result.value_ is Null { assert(list_of(subquery_result)[0] == subquery_result); assert(by_op(BinaryOperator::Eq, *value, list_of(subquery_result)[0]) == CmpBool::CmpNull); } }
//@endfn
//@fn in InExpression::evaluate_unnest
requires typed(*value), typed(unnest_result), all_typed(unnest_result),
ensures
    !(unnest_result.value_ is Vector) ==> res is Err,
    unnest_result.value_ is Vector && (list_of(unnest_result).len() > 0 || !(value.value_ is Null)) ==> is3(res, in_list(*value, list_of(unnest_result))),
//@endfn
//@fn in InExpression::negate_result
ensures
    logical(result) ==> is3(res, knot(truth(result))),
    !logical(result) ==> res is Err,
//@endfn
pub open spec fn means(&self, v: Evald, l: Evald, res: Evald) -> bool {
    &&& !both(v, l) ==> res is Err
    &&& both(v, l) && (list_of(l->Ok_0).len() > 0 || !(v->Ok_0.value_ is Null)) && (self.operand is Unnest ==> l->Ok_0.value_ is Vector)
        ==> is3(res, if self.negated { knot(in_list(v->Ok_0, list_of(l->Ok_0))) } else { in_list(v->Ok_0, list_of(l->Ok_0)) })
}
pub open spec fn list(&self) -> Expression { match self.operand { InOperand::List(l) => *l, InOperand::Subquery(l) => *l, InOperand::Unnest(l) => *l } }
//@fn in InExpression::evaluate
ensures self.means(at(*self.expr, *tuple, *schema), at(self.list(), *tuple, *schema), res),
//@start
proof { if let Ok(l) = at(self.list(), *tuple, *schema) { if typed(l) { deep_typed(l); } } }
//@endfn
//@fn in InExpression::evaluate_join
ensures self.means(at2(*self.expr, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(self.list(), *left_tuple, *left_schema, *right_tuple, *right_schema), res),
//@start
proof { if let Ok(l) = at2(self.list(), *left_tuple, *left_schema, *right_tuple, *right_schema) { if typed(l) { deep_typed(l); } } }
//@endfn
}
// ---- LIKE: what the text and the pattern match is left to matches_pattern
//@struct lk LikeExpression
pub uninterp spec fn text(v: Value) -> String;
pub uninterp spec fn matched(l: LikeExpression, v: String, p: String, e: Option<char>) -> bool;
impl Value {
    #[verifier::external_body]
    pub fn vp_text(&self) -> (r: String) ensures r == text(*self) { unimplemented!() }
}
impl LikeExpression {
#[verifier::external_body]
pub fn matches_pattern(&self, value: &String, pattern: &String, escape: Option<char>) -> (r: bool) ensures r == matched(*self, *value, *pattern, escape) { unimplemented!() }
pub open spec fn inv(&self) -> bool { self.children@.len() == 2 }
pub open spec fn means(&self, v: Evald, p: Evald, res: Evald) -> bool {
    &&& !both(v, p) ==> res is Err
    &&& both(v, p) ==> is3(res, three(v->Ok_0, p->Ok_0, matched(*self, text(v->Ok_0), text(p->Ok_0), self.escape_char) != self.negated))
}
//@fn lk LikeExpression::get_expr
requires self.inv(),
ensures *res == self.children@[0],
//@endfn
//@fn lk LikeExpression::get_pattern
requires self.inv(),
ensures *res == self.children@[1],
//@endfn
//@fn lk LikeExpression::evaluate extern=matches_pattern
//@rewrite /\.to_string\(\)/.vp_text()/
requires self.inv(),
ensures self.means(at(*self.children@[0], *tuple, *schema), at(*self.children@[1], *tuple, *schema), res),
//@endfn
//@fn lk LikeExpression::evaluate_join extern=matches_pattern
//@rewrite /\.to_string\(\)/.vp_text()/
requires self.inv(),
ensures self.means(at2(*self.children@[0], *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.children@[1], *left_tuple, *left_schema, *right_tuple, *right_schema), res),
//@endfn
}
fn main() {}
} // verus!
