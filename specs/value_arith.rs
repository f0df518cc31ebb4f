//@source val src/types_db/value.rs
//@source types src/types_db/types.rs
//@source ty src/types_db/type_id.rs
//@source ax src/sql/execution/expressions/arithmetic_expression.rs
//@source bo src/sql/execution/expressions/binary_op_expression.rs
//@opt strings=vp_string()
//@opt rlimit=200
use vstd::prelude::*;
use std::cmp::Ordering;
use std::sync::Arc;
verus! {
use ArithmeticExpressionError::{Unknown, DivisionByZero, Overflow};
//@include inc_ordeq.rs
//@include inc_value.rs
//@include inc_value_total.rs
//@assumed value_cmp
//@include inc_value_cmp.rs
//@proved
//@include inc_value_expr.rs
//@include inc_value_fns.rs
//@include inc_value_arith.rs
//@rewrite /(\*?\b\w+) == 0\.0/(\1).is_nought()/
//@rewrite /(\*?\b\w+) != 0\.0/!(\1).is_nought()/
//@rewrite /\.checked_div\(/.div_in(/
//@rewrite /\.wrapping_rem\(/.rem_wrap(/
//@rewrite /\*f as (i\d+)\b/vp_trunc_\1(*f)/
pub open spec fn of_type(v: Val, t: TypeId) -> bool {
    match v {
        Val::TinyInt(_) => t == TypeId::TinyInt, Val::SmallInt(_) => t == TypeId::SmallInt, Val::Integer(_) => t == TypeId::Integer, Val::BigInt(_) => t == TypeId::BigInt,
        Val::Decimal(_) => t == TypeId::Decimal, Val::Float(_) => t == TypeId::Float, _ => type_rank(t) == rank(v),
    }
}
impl Value {
//@fn val Value::new_with_type
//@rewrite /debug_assert!\([\s\S]*?\);\s*Self/Self/
//@rewrite /get_type_size\(type_id\) as usize/value_width(type_id)/
requires val is Null || of_type(val, type_id),
ensures res.value_ == val, res.type_id_ == type_id,
//@endfn
}
#[verifier::external_body] pub fn vp_trunc_i8<T>(f: T) -> i8 { unimplemented!() }
#[verifier::external_body] pub fn vp_trunc_i16<T>(f: T) -> i16 { unimplemented!() }
#[verifier::external_body] pub fn vp_trunc_i32<T>(f: T) -> i32 { unimplemented!() }
#[verifier::external_body] pub fn vp_trunc_i64<T>(f: T) -> i64 { unimplemented!() }
#[verifier::external_body] pub fn vp_parse<T>(s: &String) -> Result<T, String> { unimplemented!() }
#[verifier::external_body] pub fn vp_join(a: &String, b: &String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
//@fn val in_range
//@rewrite /result\.ok_or_else\(\|\| (.*?)\)\s*\}/match result { Some(v) => Ok(v), None => Err(\1) }\n}/
ensures match result { Some(v) => res == Ok::<T, String>(v), None => res is Err },
//@endfn
pub open spec fn made_text(r: Evals, o: Option<Val>) -> bool { match o { Some(x) => r matches Ok(v) && v.value_ == x && typed(v), None => r is Err } }
pub type Evals = Result<Value, String>;
// two numbers of one type give the exact result or an error; of two types, never a wrong one
pub open spec fn right(op: Arith, a: Val, b: Val, res: Evals) -> bool {
    &&& is_num(a) && is_num(b) && rank(a) == rank(b) ==> made_text(res, number(op, a, b))
    &&& is_num(a) && is_num(b) && res is Ok ==> made_text(res, number(op, a, b))
}
impl Value {
//@fn val Value::as_integer
//@rewrite /s\s*\.parse\(\)\s*\.map_err\([^,]*,/vp_parse(s),/
ensures self.value_ matches Val::Integer(i) ==> res == Ok::<_, String>(i),
//@endfn
//@fn val Value::as_bigint
//@rewrite /s\s*\.parse\(\)\s*\.map_err\([^,]*,/vp_parse(s),/
ensures self.value_ matches Val::BigInt(i) ==> res == Ok::<_, String>(i),
//@endfn
//@fn val Value::as_smallint
//@rewrite /s\s*\.parse\(\)\s*\.map_err\([^,]*,/vp_parse(s),/
ensures self.value_ matches Val::SmallInt(i) ==> res == Ok::<_, String>(i),
//@endfn
//@fn val Value::as_tinyint
//@rewrite /s\s*\.parse\(\)\s*\.map_err\([^,]*,/vp_parse(s),/
ensures self.value_ matches Val::TinyInt(i) ==> res == Ok::<_, String>(i),
//@endfn
//@fn val Value::as_decimal
//@rewrite /s\s*\.parse\(\)\s*\.map_err\([^,]*,/vp_parse(s),/
//@rewrite /\b([01])\.0\b/\1i32.as64()/
//@rewrite /v\.len\(\) as F64/v.len().as64()/
ensures self.value_ matches Val::Decimal(f) ==> res == Ok::<_, String>(f),
//@endfn
//@fn val Value::is_zero
ensures
    is_num(val.value_) ==> res == zero(val.value_),
    val.value_ is Null ==> !res,
//@endfn
//@fn val Value::add
//@rewrite /a\.clone\(\) \+ b\b/vp_join(a, b)/
requires typed(*self), typed(*other),
ensures
    self.value_ is Null || other.value_ is Null ==> (res matches Ok(v) && v.value_ is Null),
    right(Arith::Add, self.value_, other.value_, res),
    self.value_ matches Val::Interval(a) ==> (other.value_ matches Val::Interval(b) ==> made_text(res, if fits(4, a + b) { Some(Val::Interval((a + b) as i64)) } else { None })),
//@endfn
//@fn val Value::subtract
requires typed(*self), typed(*other),
ensures right(Arith::Sub, self.value_, other.value_, res),
//@endfn
//@fn val Value::multiply
requires typed(*self), typed(*other),
ensures right(Arith::Mul, self.value_, other.value_, res),
//@endfn
//@fn val Value::divide
requires typed(*self), typed(*other),
ensures right(Arith::Div, self.value_, other.value_, res),
//@endfn
//@fn val Value::modulo
requires typed(*self), typed(*other),
ensures
    is_int(self.value_) && is_int(other.value_) && ival(other.value_) == 0 ==> res.value_ is Null,
    is_int(self.value_) && rank(self.value_) == rank(other.value_) && ival(other.value_) != 0 ==> res.value_ == made(rank(self.value_), trem(ival(self.value_), ival(other.value_))) && typed(res),
    is_num(self.value_) && is_num(other.value_) && rank(self.value_) != rank(other.value_) ==> res.value_ is Null || (is_int(self.value_) && is_int(other.value_) && res.value_ == made(wider(self.value_, other.value_), trem(ival(self.value_), ival(other.value_)))),
//@endfn
}
// ---- BinaryOpExpression: the same four operators and %
//@struct bo BinaryOpExpression
impl BinaryOpExpression {
pub open spec fn arith_means(&self, l: Value, r: Value, res: Evald) -> bool {
    &&& self.op is Plus ==> as_text(Arith::Add, l.value_, r.value_, res)
    &&& self.op is Minus ==> as_text(Arith::Sub, l.value_, r.value_, res)
    &&& self.op is Multiply ==> as_text(Arith::Mul, l.value_, r.value_, res)
    &&& self.op is Divide ==> as_text(Arith::Div, l.value_, r.value_, res)
    &&& self.op is Modulo && is_int(l.value_) && rank(l.value_) == rank(r.value_) ==> (res matches Ok(v) && v.value_ == if ival(r.value_) == 0 { Val::Null } else { made(rank(l.value_), trem(ival(l.value_), ival(r.value_))) })
}
//@fn bo BinaryOpExpression::evaluate_arithmetic
//@rewrite /(left_val\s*\.\w+\(right_val\))\s*\.map_err\(ExpressionError::InvalidOperation\)/match \1 { Ok(v) => Ok(v), Err(e) => Err(ExpressionError::InvalidOperation(e)) }/
requires typed(*left_val), typed(*right_val),
ensures self.arith_means(*left_val, *right_val, res),
//@endfn
}
pub open spec fn as_text(op: Arith, a: Val, b: Val, res: Evald) -> bool {
    &&& is_num(a) && is_num(b) && rank(a) == rank(b) ==> gives(res, number(op, a, b))
    &&& is_num(a) && is_num(b) && res is Ok ==> gives(res, number(op, a, b))
}
// ---- ArithmeticExpression
//@enum ax ArithmeticOp attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@struct ax ArithmeticExpression
pub open spec fn arith(op: ArithmeticOp) -> Arith { match op { ArithmeticOp::Add => Arith::Add, ArithmeticOp::Subtract => Arith::Sub, ArithmeticOp::Multiply => Arith::Mul, ArithmeticOp::Divide => Arith::Div } }
pub open spec fn gives(r: Evald, o: Option<Val>) -> bool { match o { Some(x) => r matches Ok(v) && v.value_ == x && typed(v), None => r is Err } }
impl ArithmeticExpression {
//@fn ax ArithmeticExpression::get_left
requires self.children@.len() == 2,
ensures *res == self.children@[0],
//@endfn
//@fn ax ArithmeticExpression::get_right
requires self.children@.len() == 2,
ensures *res == self.children@[1],
//@endfn
pub open spec fn means(&self, l: Evald, r: Evald, res: Evald) -> bool {
    if both(l, r) && is_num(l->Ok_0.value_) && is_num(r->Ok_0.value_) { gives(res, number(arith(self.op), l->Ok_0.value_, r->Ok_0.value_)) } else { res is Err }
}
//@fn ax ArithmeticExpression::compute
//@rewrite /result\s*\.map\(\|v\| (.*?)\)\s*\.ok_or\((.*?)\)\s*\}/match result { Some(v) => Ok(\1), None => Err(\2) }\n}/
//@rewrite /result\s*\.map\(Value::from\)\s*\.ok_or\((.*?)\)\s*\}/match result { Some(v) => Ok(Value::new(v)), None => Err(\1) }\n}/
ensures
    is_num(left_value.value_) && is_num(right_value.value_) ==> gives(res, number(arith(self.op), left_value.value_, right_value.value_)),
    !(is_num(left_value.value_) && is_num(right_value.value_)) ==> res is Err,
//@start
hide(tdiv); hide(rank); hide(type_rank); hide(val_eq); hide(val_cmp); hide(value_eq); hide(value_cmp); hide(vec_cmp);
//@endfn
//@fn ax ArithmeticExpression::evaluate
requires self.children@.len() == 2,
ensures self.means(at(*self.children@[0], *tuple, *schema), at(*self.children@[1], *tuple, *schema), res),
//@endfn
//@fn ax ArithmeticExpression::evaluate_join
requires self.children@.len() == 2,
ensures self.means(at2(*self.children@[0], *left_tuple, *left_schema, *right_tuple, *right_schema), at2(*self.children@[1], *left_tuple, *left_schema, *right_tuple, *right_schema), res),
//@endfn
}
}
fn main() {}
