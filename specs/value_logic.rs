//@source val src/types_db/value.rs
//@source types src/types_db/types.rs
//@source ty src/types_db/type_id.rs
//@source lx src/sql/execution/expressions/logic_expression.rs
//@source cx src/sql/execution/expressions/comparison_expression.rs
//@source bt src/sql/execution/expressions/between_expression.rs
//@source bo src/sql/execution/expressions/binary_op_expression.rs
//@source al src/sql/execution/expressions/all_expression.rs
//@source an src/sql/execution/expressions/any_expression.rs
//@source ds src/sql/execution/expressions/is_distinct_expression.rs
//@source ic src/sql/execution/expressions/is_check_expression.rs
//@source un src/sql/execution/expressions/unary_op_expression.rs
//@source ca src/sql/execution/expressions/case_expression.rs
//@source co src/sql/execution/expressions/coalesce_expression.rs
//@opt strings=vp_string()
use vstd::prelude::*;
use std::cmp::Ordering;
use std::sync::Arc;
verus! {
//@include inc_ordeq.rs
//@include inc_value.rs
//@include inc_value_total.rs
//@assumed value_cmp
//@include inc_value_cmp.rs
//@proved
//@include inc_value_expr.rs
//@include inc_value_fns.rs
// ---- AND, OR, NOT
//@enum lx LogicType attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@struct lx LogicExpression
impl LogicExpression {
pub open spec fn meaning(&self, l: Value, r: Value) -> CmpBool {
    match self.logic_type { LogicType::And => kand(truth(l), truth(r)), LogicType::Or => kor(truth(l), truth(r)), LogicType::Not => knot(truth(l)) }
}
//@fn lx LogicExpression::perform_and
ensures res == kand(l, r),
//@endfn
//@fn lx LogicExpression::perform_or
ensures res == kor(l, r),
//@endfn
//@fn lx LogicExpression::get_bool_as_cmp_bool
ensures res == truth(*val),
//@endfn
//@fn lx LogicExpression::perform_computation
//@rewrite /CmpBool::from\(!b\)/CmpBool::from(!*b)/
ensures res == self.meaning(*lhs, *rhs),
//@endfn
//@fn lx LogicExpression::evaluate
ensures
    both(at(*self.left, *tuple, *schema), at(*self.right, *tuple, *schema)) ==> is3(res, self.meaning(at(*self.left, *tuple, *schema)->Ok_0, at(*self.right, *tuple, *schema)->Ok_0)),
    !both(at(*self.left, *tuple, *schema), at(*self.right, *tuple, *schema)) ==> res is Err,
//@endfn
//@fn lx LogicExpression::evaluate_join
ensures
    both(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)) ==> is3(res, self.meaning(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0, at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0)),
    !both(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)) ==> res is Err,
//@endfn
}
// ---- =, <>, <, <=, >, >=, IS NOT NULL
//@enum cx ComparisonType attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@struct cx ComparisonExpression
pub open spec fn comparable(a: Value, b: Value) -> bool { a.value_ is Null || b.value_ is Null || a.type_id_ == b.type_id_ || (is_num(a.value_) && is_num(b.value_)) }
impl ComparisonExpression {
pub open spec fn meaning(&self, l: Value, r: Value) -> CmpBool {
    match self.comp_type {
        ComparisonType::Equal => teq(l, r), ComparisonType::NotEqual => tne(l, r), ComparisonType::LessThan => tlt(l, r), ComparisonType::LessThanOrEqual => tle(l, r),
        ComparisonType::GreaterThan => tgt(l, r), ComparisonType::GreaterThanOrEqual => tge(l, r), ComparisonType::IsNotNull => tri(!(l.value_ is Null)),
    }
}
//@fn cx ComparisonExpression::perform_comparison
requires typed(*lhs), typed(*rhs),
ensures comparable(*lhs, *rhs) || self.comp_type == ComparisonType::IsNotNull ==> (res matches Ok(t) && t == self.meaning(*lhs, *rhs)),
//@endfn
//@fn cx ComparisonExpression::evaluate
ensures
    both(at(*self.left, *tuple, *schema), at(*self.right, *tuple, *schema)) && (comparable(at(*self.left, *tuple, *schema)->Ok_0, at(*self.right, *tuple, *schema)->Ok_0) || self.comp_type == ComparisonType::IsNotNull)
        ==> is3(res, self.meaning(at(*self.left, *tuple, *schema)->Ok_0, at(*self.right, *tuple, *schema)->Ok_0)),
    !both(at(*self.left, *tuple, *schema), at(*self.right, *tuple, *schema)) ==> res is Err,
//@endfn
//@fn cx ComparisonExpression::evaluate_join
ensures
    both(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)) && (comparable(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0, at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0) || self.comp_type == ComparisonType::IsNotNull)
        ==> is3(res, self.meaning(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0, at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0)),
    !both(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)) ==> res is Err,
//@endfn
}
// ---- BETWEEN
//@struct bt BetweenExpression
impl BetweenExpression {
pub open spec fn meaning(&self, v: Value, lo: Value, hi: Value) -> CmpBool {
    let inside = kand(tge(v, lo), tle(v, hi));
    if self.negated { knot(inside) } else { inside }
}
//@fn bt BetweenExpression::check_bounds
requires typed(*value), typed(*low), typed(*high),
ensures res.value_ == val3(self.meaning(*value, *low, *high)), typed(res),
//@endfn
//@fn bt BetweenExpression::evaluate
ensures
    both(at(*self.expr, *tuple, *schema), at(*self.low, *tuple, *schema)) && at(*self.high, *tuple, *schema) is Ok
        ==> is3(res, self.meaning(at(*self.expr, *tuple, *schema)->Ok_0, at(*self.low, *tuple, *schema)->Ok_0, at(*self.high, *tuple, *schema)->Ok_0)),
    !(both(at(*self.expr, *tuple, *schema), at(*self.low, *tuple, *schema)) && at(*self.high, *tuple, *schema) is Ok) ==> res is Err,
//@endfn
//@fn bt BetweenExpression::evaluate_join
ensures
    both(at2(*self.expr, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.low, *left_tuple, *left_schema, *right_tuple, *right_schema)) && at2(*self.high, *left_tuple, *left_schema, *right_tuple, *right_schema) is Ok
        ==> is3(res, self.meaning(at2(*self.expr, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0, at2(*self.low, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0, at2(*self.high, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0)),
    !(both(at2(*self.expr, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.low, *left_tuple, *left_schema, *right_tuple, *right_schema)) && at2(*self.high, *left_tuple, *left_schema, *right_tuple, *right_schema) is Ok) ==> res is Err,
//@endfn
}
// ---- the same operators as BinaryOpExpression applies them
//@struct bo BinaryOpExpression
impl BinaryOpExpression {
//@fn bo BinaryOpExpression::evaluate_comparison
requires typed(*left_val), typed(*right_val),
ensures cmp_op(self.op) ==> is3(res, by_op(self.op, *left_val, *right_val)),
//@endfn
//@fn bo BinaryOpExpression::logical_operand
ensures res is Ok == logical(*val), (res matches Ok(Some(b)) ==> truth(*val) == tri(b)), (res matches Ok(None) ==> truth(*val) == CmpBool::CmpNull),
//@endfn
//@fn bo BinaryOpExpression::evaluate_logical
//@rewrite /(\w+) == Some\(deciding\)/opt_is(\1, deciding)/
ensures
    self.op is And && logical(*left_val) && logical(*right_val) ==> is3(res, kand(truth(*left_val), truth(*right_val))),
    self.op is Or && logical(*left_val) && logical(*right_val) ==> is3(res, kor(truth(*left_val), truth(*right_val))),
//@endfn
#[verifier::external_body]
pub fn evaluate_arithmetic(&self, l: &Value, r: &Value) -> Evald { unimplemented!() }
pub open spec fn means(&self, l: Value, r: Value, res: Evald) -> bool {
    &&& cmp_op(self.op) ==> is3(res, by_op(self.op, l, r))
    &&& self.op is And && logical(l) && logical(r) ==> is3(res, kand(truth(l), truth(r)))
    &&& self.op is Or && logical(l) && logical(r) ==> is3(res, kor(truth(l), truth(r)))
}
//@fn bo BinaryOpExpression::evaluate_operator extern=evaluate_arithmetic
requires typed(*left_val), typed(*right_val),
ensures self.means(*left_val, *right_val, res),
//@endfn
//@fn bo BinaryOpExpression::evaluate
ensures
    both(at(*self.left, *tuple, *schema), at(*self.right, *tuple, *schema)) ==> self.means(at(*self.left, *tuple, *schema)->Ok_0, at(*self.right, *tuple, *schema)->Ok_0, res),
    !both(at(*self.left, *tuple, *schema), at(*self.right, *tuple, *schema)) ==> res is Err,
//@endfn
//@fn bo BinaryOpExpression::evaluate_join
ensures
    both(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)) ==> self.means(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0, at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)->Ok_0, res),
    !both(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema)) ==> res is Err,
//@endfn
}
fn opt_is(o: Option<bool>, b: bool) -> (r: bool) ensures r == (o == Some(b)) { match o { Some(x) => x == b, None => false } }
// ---- op ALL (list), op ANY (list)
//@struct al AllExpression
impl AllExpression {
pub open spec fn means(&self, l: Evald, r: Evald, res: Evald) -> bool {
    &&& !both(l, r) ==> res is Err
    &&& both(l, r) && cmp_op(self.compare_op) ==> (r->Ok_0.value_ matches Val::Vector(s) ==> is3(res, for_all(self.compare_op, l->Ok_0, s@)))
    &&& both(l, r) && !(r->Ok_0.value_ is Vector) ==> res is Err
}
//@fn al AllExpression::evaluate
//@rewrite /for right_val in right_values\s*\{/let mut vp_n: usize = 0; while vp_n < right_values.len() { let right_val = &right_values[vp_n]; vp_n += 1;/
//@rewrite /matches!\s*\(result, (CmpBool::\w+)\)/(result == \1)/
ensures self.means(at(*self.left, *tuple, *schema), at(*self.right, *tuple, *schema), res),
//@before /let mut found_null/
proof { deep_typed(right_val); assert(elems_typed(*right_values)); }
//@loop 0
invariant
    vp_n <= right_values@.len(), right_val.value_ == Val::Vector(*right_values), typed(left_val), elems_typed(*right_values),
    at(*self.left, *tuple, *schema) == Ok::<Value, ExpressionError>(left_val), at(*self.right, *tuple, *schema) == Ok::<Value, ExpressionError>(right_val),
    forall|i: int| 0 <= i < vp_n ==> by_op(self.compare_op, left_val, #[trigger] right_values@[i]) != CmpBool::CmpFalse,
    found_null == (exists|i: int| 0 <= i < vp_n && by_op(self.compare_op, left_val, #[trigger] right_values@[i]) == CmpBool::CmpNull),
decreases right_values@.len() - vp_n,
//@loopstart 0
proof { assert(typed(right_values@[vp_n as int])); }
//@endfn
//@fn al AllExpression::evaluate_join
//@rewrite /for right_val in right_values\s*\{/let mut vp_n: usize = 0; while vp_n < right_values.len() { let right_val = &right_values[vp_n]; vp_n += 1;/
//@rewrite /matches!\s*\(result, (CmpBool::\w+)\)/(result == \1)/
ensures self.means(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema), res),
//@before /let mut found_null/
proof { deep_typed(right_val); assert(elems_typed(*right_values)); }
//@loop 0
invariant
    vp_n <= right_values@.len(), right_val.value_ == Val::Vector(*right_values), typed(left_val), elems_typed(*right_values),
    at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema) == Ok::<Value, ExpressionError>(left_val), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema) == Ok::<Value, ExpressionError>(right_val),
    forall|i: int| 0 <= i < vp_n ==> by_op(self.compare_op, left_val, #[trigger] right_values@[i]) != CmpBool::CmpFalse,
    found_null == (exists|i: int| 0 <= i < vp_n && by_op(self.compare_op, left_val, #[trigger] right_values@[i]) == CmpBool::CmpNull),
decreases right_values@.len() - vp_n,
//@loopstart 0
proof { assert(typed(right_values@[vp_n as int])); }
//@endfn
}
//@struct an AnyExpression
impl AnyExpression {
pub open spec fn means(&self, l: Evald, r: Evald, res: Evald) -> bool {
    &&& !both(l, r) ==> res is Err
    &&& both(l, r) && cmp_op(self.compare_op) ==> (r->Ok_0.value_ matches Val::Vector(s) ==> is3(res, for_any(self.compare_op, l->Ok_0, s@)))
    &&& both(l, r) && !(r->Ok_0.value_ is Vector) ==> res is Err
}
//@fn an AnyExpression::compare_values
requires typed(*left), typed(*right),
ensures res is Ok == cmp_op(self.compare_op), cmp_op(self.compare_op) ==> (res matches Ok(t) && t == by_op(self.compare_op, *left, *right)),
//@endfn
//@fn an AnyExpression::evaluate
//@rewrite /for val in values\s*\{/let mut vp_n: usize = 0; while vp_n < values.len() { let val = &values[vp_n]; vp_n += 1;/
ensures self.means(at(*self.left, *tuple, *schema), at(*self.right, *tuple, *schema), res),
//@before /let mut found_true/
proof { deep_typed(right_val); assert(elems_typed(*values)); }
//@loop 0
invariant_except_break
    !found_true,
    forall|i: int| 0 <= i < vp_n ==> by_op(self.compare_op, left_val, #[trigger] values@[i]) != CmpBool::CmpTrue,
    found_null == (exists|i: int| 0 <= i < vp_n && by_op(self.compare_op, left_val, #[trigger] values@[i]) == CmpBool::CmpNull),
invariant
    vp_n <= values@.len(), right_val.value_ == Val::Vector(*values), typed(left_val), elems_typed(*values),
    vp_n > 0 ==> cmp_op(self.compare_op),
    at(*self.left, *tuple, *schema) == Ok::<Value, ExpressionError>(left_val), at(*self.right, *tuple, *schema) == Ok::<Value, ExpressionError>(right_val),
ensures
    right_val.value_ == Val::Vector(*values),
    at(*self.left, *tuple, *schema) == Ok::<Value, ExpressionError>(left_val), at(*self.right, *tuple, *schema) == Ok::<Value, ExpressionError>(right_val),
    found_true == each(self.compare_op, left_val, values@, CmpBool::CmpTrue),
    !found_true ==> found_null == each(self.compare_op, left_val, values@, CmpBool::CmpNull),
decreases values@.len() - vp_n,
//@loopstart 0
proof { assert(typed(values@[vp_n as int])); }
//@endfn
//@fn an AnyExpression::evaluate_join
//@rewrite /for val in values\s*\{/let mut vp_n: usize = 0; while vp_n < values.len() { let val = &values[vp_n]; vp_n += 1;/
ensures self.means(at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema), res),
//@before /let mut found_true/
proof { deep_typed(right_val); assert(elems_typed(*values)); }
//@loop 0
invariant_except_break
    !found_true,
    forall|i: int| 0 <= i < vp_n ==> by_op(self.compare_op, left_val, #[trigger] values@[i]) != CmpBool::CmpTrue,
    found_null == (exists|i: int| 0 <= i < vp_n && by_op(self.compare_op, left_val, #[trigger] values@[i]) == CmpBool::CmpNull),
invariant
    vp_n <= values@.len(), right_val.value_ == Val::Vector(*values), typed(left_val), elems_typed(*values),
    vp_n > 0 ==> cmp_op(self.compare_op),
    at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema) == Ok::<Value, ExpressionError>(left_val), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema) == Ok::<Value, ExpressionError>(right_val),
ensures
    right_val.value_ == Val::Vector(*values),
    at2(*self.left, *left_tuple, *left_schema, *right_tuple, *right_schema) == Ok::<Value, ExpressionError>(left_val), at2(*self.right, *left_tuple, *left_schema, *right_tuple, *right_schema) == Ok::<Value, ExpressionError>(right_val),
    found_true == each(self.compare_op, left_val, values@, CmpBool::CmpTrue),
    !found_true ==> found_null == each(self.compare_op, left_val, values@, CmpBool::CmpNull),
decreases values@.len() - vp_n,
//@loopstart 0
proof { assert(typed(values@[vp_n as int])); }
//@endfn
}
// ---- IS [NOT] DISTINCT FROM: never NULL, and NULL is not distinct from NULL
//@struct ds IsDistinctExpression
impl IsDistinctExpression {
pub open spec fn means(&self, l: Evald, r: Evald, res: Evald) -> bool {
    &&& !both(l, r) ==> res is Err
    &&& both(l, r) ==> is3(res, tri((value_eq(l->Ok_0, r->Ok_0) || teq(l->Ok_0, r->Ok_0) == CmpBool::CmpTrue) == self.negated))
}
pub open spec fn inv(&self) -> bool { self.children@.len() == 2 }
//@fn ds IsDistinctExpression::left
requires self.inv(),
ensures *res == self.children@[0],
//@endfn
//@fn ds IsDistinctExpression::right
requires self.inv(),
ensures *res == self.children@[1],
//@endfn
//@fn ds IsDistinctExpression::evaluate
requires self.inv(),
ensures self.means(at(*self.children@[0], *tuple, *schema), at(*self.children@[1], *tuple, *schema), res),
//@endfn
//@fn ds IsDistinctExpression::evaluate_join
requires self.inv(),
ensures self.means(at2(*self.children@[0], *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.children@[1], *left_tuple, *left_schema, *right_tuple, *right_schema), res),
//@endfn
}
// ---- IS [NOT] TRUE, FALSE, UNKNOWN, NULL: never NULL
//@enum ic IsCheckType
//@struct ic IsCheckExpression
impl IsCheckExpression {
pub open spec fn means(&self, e: Evald, res: Evald) -> bool {
    &&& e is Err ==> res is Err
    &&& e is Ok && (logical(e->Ok_0) || self.check_type is Unknown || self.check_type is Null) ==> is3(res, match self.check_type {
            IsCheckType::True { negated } => tri((truth(e->Ok_0) == CmpBool::CmpTrue) != negated),
            IsCheckType::False { negated } => tri((truth(e->Ok_0) == CmpBool::CmpFalse) != negated),
            IsCheckType::Unknown { negated } => tri((e->Ok_0.value_ is Null) != negated),
            IsCheckType::Null { negated } => tri((e->Ok_0.value_ is Null) != negated),
        })
}
//@fn ic IsCheckExpression::evaluate
ensures self.means(at(*self.expr, *tuple, *schema), res),
//@endfn
//@fn ic IsCheckExpression::evaluate_join
ensures self.means(at2(*self.expr, *left_tuple, *left_schema, *right_tuple, *right_schema), res),
//@endfn
}
// ---- NOT and unary minus
//@struct un UnaryOpExpression
impl UnaryOpExpression {
pub open spec fn means(&self, e: Evald, res: Evald) -> bool {
    &&& e is Err ==> res is Err
    &&& e is Ok && self.op is Not && logical(e->Ok_0) ==> is3(res, knot(truth(e->Ok_0)))
    &&& e is Ok && self.op is Plus ==> res == e
    &&& e is Ok && self.op is Minus && e->Ok_0.value_ is Null ==> (res matches Ok(v) && v.value_ is Null)
    &&& e is Ok && self.op is Minus && !(e->Ok_0.value_ is Null) ==> negation(e->Ok_0, res)
}
//@fn un UnaryOpExpression::negate
//@rewrite /i\.checked_neg\(\)\.map\(Value::new\)/neg_value(*i)/
//@rewrite /Value::new\(-f\)/Value::new(f.neg())/
//@rewrite /negated\.ok_or_else\(\|\|\s*(?P<b>\{[^{}]*\}|ExpressionError::InvalidOperation\(vp_string\(\)\))\s*\)/match negated { Some(n) => Ok(n), None => Err(\g<b>) }/
ensures negation(*val, res),
//@endfn
//@fn un UnaryOpExpression::evaluate
ensures self.means(at(*self.expr, *tuple, *schema), res),
//@endfn
//@fn un UnaryOpExpression::evaluate_join
ensures self.means(at2(*self.expr, *left_tuple, *left_schema, *right_tuple, *right_schema), res),
//@endfn
}
// the exact negation in the operand's own type, or an error where that type does not have it
pub open spec fn negation(v: Value, res: Evald) -> bool {
    &&& is_int(v.value_) ==> (res matches Ok(n) ==> rank(n.value_) == rank(v.value_) && ival(n.value_) == -ival(v.value_) && typed(n))
    &&& is_int(v.value_) ==> (res is Err ==> ival(v.value_) == lowest(v.value_))
    &&& v.value_ matches Val::Decimal(f) ==> (res matches Ok(n) && n.value_ == Val::Decimal(neg64(f)))
    &&& !is_num(v.value_) ==> res is Err
}
pub open spec fn lowest(v: Val) -> int {
    match v { Val::TinyInt(_) => i8::MIN as int, Val::SmallInt(_) => i16::MIN as int, Val::Integer(_) => i32::MIN as int, _ => i64::MIN as int }
}
pub uninterp spec fn neg64(f: F64) -> F64;
impl F64 { #[verifier::external_body] pub fn neg(self) -> (r: F64) ensures r == neg64(self) { F64 { x: -self.x } } }
pub trait Neg: ToVal { spec fn num(self) -> int; spec fn low() -> int; spec fn made(i: int) -> Val; fn neg_in(self) -> (r: Option<Value>) ensures match r { Some(v) => v.value_ == Self::made(-self.num()) && typed(v) && self.num() != Self::low(), None => self.num() == Self::low() }; }
impl Neg for i8 { open spec fn num(self) -> int { self as int } open spec fn low() -> int { i8::MIN as int } open spec fn made(i: int) -> Val { Val::TinyInt(i as i8) } fn neg_in(self) -> Option<Value> { if self == i8::MIN { None } else { Some(Value::new(-self)) } } }
impl Neg for i16 { open spec fn num(self) -> int { self as int } open spec fn low() -> int { i16::MIN as int } open spec fn made(i: int) -> Val { Val::SmallInt(i as i16) } fn neg_in(self) -> Option<Value> { if self == i16::MIN { None } else { Some(Value::new(-self)) } } }
impl Neg for i32 { open spec fn num(self) -> int { self as int } open spec fn low() -> int { i32::MIN as int } open spec fn made(i: int) -> Val { Val::Integer(i as i32) } fn neg_in(self) -> Option<Value> { if self == i32::MIN { None } else { Some(Value::new(-self)) } } }
impl Neg for i64 { open spec fn num(self) -> int { self as int } open spec fn low() -> int { i64::MIN as int } open spec fn made(i: int) -> Val { Val::BigInt(i as i64) } fn neg_in(self) -> Option<Value> { if self == i64::MIN { None } else { Some(Value::new(-self)) } } }
pub fn neg_value<T: Neg>(i: T) -> (r: Option<Value>) ensures match r { Some(v) => v.value_ == T::made(-i.num()) && typed(v) && i.num() != T::low(), None => i.num() == T::low() } { i.neg_in() }
// ---- COALESCE: the first that is not NULL
//@struct co CoalesceExpression
impl CoalesceExpression {
//@fn co CoalesceExpression::evaluate
//@rewrite /for child in &self\.children\s*\{/let mut vp_n: usize = 0; while vp_n < self.children.len() { let child = &self.children[vp_n]; vp_n += 1;/
ensures
    forall|i: int| first_at(i, self.children@, *tuple, *schema) ==> res == at(*#[trigger] self.children@[i], *tuple, *schema),
    (forall|i: int| 0 <= i < self.children@.len() ==> skips(at(*#[trigger] self.children@[i], *tuple, *schema))) ==> (res matches Ok(v) && v.value_ is Null),
//@loop 0
invariant
    vp_n <= self.children@.len(),
    forall|j: int| 0 <= j < vp_n ==> skips(at(*#[trigger] self.children@[j], *tuple, *schema)),
decreases self.children@.len() - vp_n,
//@endfn
//@fn co CoalesceExpression::evaluate_join
//@rewrite /for child in &self\.children\s*\{/let mut vp_n: usize = 0; while vp_n < self.children.len() { let child = &self.children[vp_n]; vp_n += 1;/
ensures
    forall|i: int| first_at2(i, self.children@, *left_tuple, *left_schema, *right_tuple, *right_schema) ==> res == at2(*#[trigger] self.children@[i], *left_tuple, *left_schema, *right_tuple, *right_schema),
    (forall|i: int| 0 <= i < self.children@.len() ==> skips(at2(*#[trigger] self.children@[i], *left_tuple, *left_schema, *right_tuple, *right_schema))) ==> (res matches Ok(v) && v.value_ is Null),
//@loop 0
invariant
    vp_n <= self.children@.len(),
    forall|j: int| 0 <= j < vp_n ==> skips(at2(*#[trigger] self.children@[j], *left_tuple, *left_schema, *right_tuple, *right_schema)),
decreases self.children@.len() - vp_n,
//@endfn
}
pub open spec fn skips(e: Evald) -> bool { e matches Ok(v) && v.value_ is Null }
pub open spec fn first_at(i: int, s: Seq<Arc<Expression>>, t: Tuple, c: Schema) -> bool {
    0 <= i < s.len() && !skips(at(*s[i], t, c)) && forall|j: int| 0 <= j < i ==> skips(at(*#[trigger] s[j], t, c))
}
pub open spec fn first_at2(i: int, s: Seq<Arc<Expression>>, lt: Tuple, ls: Schema, rt: Tuple, rs: Schema) -> bool {
    0 <= i < s.len() && !skips(at2(*s[i], lt, ls, rt, rs)) && forall|j: int| 0 <= j < i ==> skips(at2(*#[trigger] s[j], lt, ls, rt, rs))
}
// ---- CASE: the first branch whose condition is TRUE
//@struct ca CaseExpression
impl CaseExpression {
pub open spec fn inv(&self) -> bool { self.when_exprs@.len() == self.then_exprs@.len() }
// does branch i not apply: its condition is FALSE or NULL (its value is not equal to the base)
pub open spec fn passed(&self, base: Option<Value>, w: Evald) -> bool {
    w matches Ok(v) && match base { Some(b) => teq(b, v) != CmpBool::CmpTrue, None => logical(v) && truth(v) != CmpBool::CmpTrue }
}
pub open spec fn taken(&self, base: Option<Value>, w: Evald) -> bool {
    w matches Ok(v) && match base { Some(b) => teq(b, v) == CmpBool::CmpTrue, None => truth(v) == CmpBool::CmpTrue }
}
pub open spec fn base_at(&self, t: Tuple, s: Schema) -> Option<Evald> { match self.base_expr { Some(b) => Some(at(*b, t, s)), None => None } }
pub open spec fn base_at2(&self, lt: Tuple, ls: Schema, rt: Tuple, rs: Schema) -> Option<Evald> { match self.base_expr { Some(b) => Some(at2(*b, lt, ls, rt, rs)), None => None } }
pub open spec fn picks(&self, i: int, t: Tuple, s: Schema) -> bool {
    &&& self.base_at(t, s) matches Some(b) ==> b is Ok
    &&& forall|j: int| 0 <= j < i ==> self.passed(plain(self.base_at(t, s)), at(*#[trigger] self.when_exprs@[j], t, s))
}
pub open spec fn picks2(&self, i: int, lt: Tuple, ls: Schema, rt: Tuple, rs: Schema) -> bool {
    &&& self.base_at2(lt, ls, rt, rs) matches Some(b) ==> b is Ok
    &&& forall|j: int| 0 <= j < i ==> self.passed(plain(self.base_at2(lt, ls, rt, rs)), at2(*#[trigger] self.when_exprs@[j], lt, ls, rt, rs))
}
//@fn ca CaseExpression::evaluate
//@rewrite /let tuple_data[^;]*;/ /
//@rewrite /for \(i, when_expr\) in self\.when_exprs\.iter\(\)\.enumerate\(\)\s*\{/let mut vp_n: usize = 0; while vp_n < self.when_exprs.len() { let i = vp_n; let when_expr = &self.when_exprs[vp_n]; vp_n += 1;/
requires self.inv(),
ensures
    self.base_at(*tuple, *schema) matches Some(b) && b is Err ==> res is Err,
    forall|i: int| 0 <= i < self.when_exprs@.len() && self.picks(i, *tuple, *schema) && self.taken(plain(self.base_at(*tuple, *schema)), at(*#[trigger] self.when_exprs@[i], *tuple, *schema))
        ==> res == at(*self.then_exprs@[i], *tuple, *schema),
    self.picks(self.when_exprs@.len() as int, *tuple, *schema) ==> match self.else_expr { Some(e) => res == at(*e, *tuple, *schema), None => (res matches Ok(v) && v.value_ is Null) },
//@loop 0
invariant
    vp_n <= self.when_exprs@.len(), self.inv(), plain(self.base_at(*tuple, *schema)) == base_value, self.base_at(*tuple, *schema) matches Some(b) ==> b is Ok, base_value matches Some(b) ==> typed(b),
    forall|j: int| 0 <= j < vp_n ==> self.passed(base_value, at(*#[trigger] self.when_exprs@[j], *tuple, *schema)),
decreases self.when_exprs@.len() - vp_n,
//@endfn
//@fn ca CaseExpression::evaluate_join
//@rewrite /for \(i, when_expr\) in self\.when_exprs\.iter\(\)\.enumerate\(\)\s*\{/let mut vp_n: usize = 0; while vp_n < self.when_exprs.len() { let i = vp_n; let when_expr = &self.when_exprs[vp_n]; vp_n += 1;/
requires self.inv(),
ensures
    self.base_at2(*left_tuple, *left_schema, *right_tuple, *right_schema) matches Some(b) && b is Err ==> res is Err,
    forall|i: int| 0 <= i < self.when_exprs@.len() && self.picks2(i, *left_tuple, *left_schema, *right_tuple, *right_schema) && self.taken(plain(self.base_at2(*left_tuple, *left_schema, *right_tuple, *right_schema)), at2(*#[trigger] self.when_exprs@[i], *left_tuple, *left_schema, *right_tuple, *right_schema))
        ==> res == at2(*self.then_exprs@[i], *left_tuple, *left_schema, *right_tuple, *right_schema),
    self.picks2(self.when_exprs@.len() as int, *left_tuple, *left_schema, *right_tuple, *right_schema) ==> match self.else_expr { Some(e) => res == at2(*e, *left_tuple, *left_schema, *right_tuple, *right_schema), None => (res matches Ok(v) && v.value_ is Null) },
//@loop 0
invariant
    vp_n <= self.when_exprs@.len(), self.inv(), plain(self.base_at2(*left_tuple, *left_schema, *right_tuple, *right_schema)) == base_value, self.base_at2(*left_tuple, *left_schema, *right_tuple, *right_schema) matches Some(b) ==> b is Ok, base_value matches Some(b) ==> typed(b),
    forall|j: int| 0 <= j < vp_n ==> self.passed(base_value, at2(*#[trigger] self.when_exprs@[j], *left_tuple, *left_schema, *right_tuple, *right_schema)),
decreases self.when_exprs@.len() - vp_n,
//@endfn
}
pub open spec fn plain(b: Option<Evald>) -> Option<Value> { match b { Some(Ok(v)) => Some(v), _ => None } }
fn main() {}
} // verus!
