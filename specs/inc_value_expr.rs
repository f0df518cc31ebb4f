//@rewrite /crate::types_db::(?:value|types):://
//@rewrite /\bValue::from\(/Value::new(/
//@rewrite /left_val != right_val/!value_same(&left_val, &right_val)/
//@rewrite /left_val == right_val/value_same(&left_val, &right_val)/
//@rewrite /\btypes::Type::compare_equals\((\w+), &when_value\)/\1.compare_equals(&when_value)/
//@rewrite /use log::debug;//
//@rewrite /Value::new\(Null\)/Value::new(Val::Null)/
#[verifier::external_body]
pub fn vp_string() -> String { unimplemented!() }
#[verifier::external_body]
pub struct Tuple { x: u64 }
#[verifier::external_body]
pub struct Schema { x: u64 }
#[verifier::external_body]
pub struct Column { x: u64 }
#[verifier::external_body]
pub struct Expression { x: u64 }
pub enum ArithmeticExpressionError { Unknown, DivisionByZero, Overflow }
pub enum ExpressionError { ArithmeticError(ArithmeticExpressionError), InvalidOperation(String), InvalidType(String), TypeMismatch { expected: TypeId, actual: TypeId }, Other(u64) }
pub enum BinaryOperator { Plus, Minus, Multiply, Divide, Modulo, Eq, NotEq, Gt, Lt, GtEq, LtEq, And, Or, Xor, Spaceship, StringConcat, Other(u64) }
pub enum UnaryOperator { Not, Plus, Minus, Other(u64) }
pub type Evald = Result<Value, ExpressionError>;
// what a sub-expression evaluates to, on one row and on a pair of rows
pub uninterp spec fn at(e: Expression, t: Tuple, s: Schema) -> Evald;
pub uninterp spec fn at2(e: Expression, lt: Tuple, ls: Schema, rt: Tuple, rs: Schema) -> Evald;
impl Expression {
    #[verifier::external_body]
    pub fn evaluate(&self, t: &Tuple, s: &Schema) -> (r: Evald) ensures r == at(*self, *t, *s), r matches Ok(v) ==> typed(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn evaluate_join(&self, lt: &Tuple, ls: &Schema, rt: &Tuple, rs: &Schema) -> (r: Evald) ensures r == at2(*self, *lt, *ls, *rt, *rs), r matches Ok(v) ==> typed(v) { unimplemented!() }
}
// Value's ==, proved in value_eq
#[verifier::external_body]
pub fn value_same(a: &Value, b: &Value) -> (r: bool) ensures r == value_eq(*a, *b) { unimplemented!() }
pub trait ToVal: Sized {
    spec fn sv(self) -> Val;
    fn into_val(self) -> (r: Val) ensures r == self.sv();
}
impl ToVal for bool { open spec fn sv(self) -> Val { Val::Boolean(self) } fn into_val(self) -> Val { Val::Boolean(self) } }
impl ToVal for i8 { open spec fn sv(self) -> Val { Val::TinyInt(self) } fn into_val(self) -> Val { Val::TinyInt(self) } }
impl ToVal for i16 { open spec fn sv(self) -> Val { Val::SmallInt(self) } fn into_val(self) -> Val { Val::SmallInt(self) } }
impl ToVal for i32 { open spec fn sv(self) -> Val { Val::Integer(self) } fn into_val(self) -> Val { Val::Integer(self) } }
impl ToVal for i64 { open spec fn sv(self) -> Val { Val::BigInt(self) } fn into_val(self) -> Val { Val::BigInt(self) } }
impl ToVal for F64 { open spec fn sv(self) -> Val { Val::Decimal(self) } fn into_val(self) -> Val { Val::Decimal(self) } }
impl ToVal for F32 { open spec fn sv(self) -> Val { Val::Float(self) } fn into_val(self) -> Val { Val::Float(self) } }
impl ToVal for String { open spec fn sv(self) -> Val { Val::VarLen(self) } fn into_val(self) -> Val { Val::VarLen(self) } }
impl ToVal for Val { open spec fn sv(self) -> Val { self } fn into_val(self) -> Val { self } }
impl ToVal for CmpBool {
    open spec fn sv(self) -> Val { val3(self) }
    fn into_val(self) -> Val { match self { CmpBool::CmpTrue => Val::Boolean(true), CmpBool::CmpFalse => Val::Boolean(false), CmpBool::CmpNull => Val::Null } }
}
// ---- three-valued logic
pub open spec fn val3(t: CmpBool) -> Val { match t { CmpBool::CmpTrue => Val::Boolean(true), CmpBool::CmpFalse => Val::Boolean(false), CmpBool::CmpNull => Val::Null } }
pub open spec fn kand(a: CmpBool, b: CmpBool) -> CmpBool {
    if a == CmpBool::CmpFalse || b == CmpBool::CmpFalse { CmpBool::CmpFalse } else if a == CmpBool::CmpTrue && b == CmpBool::CmpTrue { CmpBool::CmpTrue } else { CmpBool::CmpNull }
}
pub open spec fn kor(a: CmpBool, b: CmpBool) -> CmpBool {
    if a == CmpBool::CmpTrue || b == CmpBool::CmpTrue { CmpBool::CmpTrue } else if a == CmpBool::CmpFalse && b == CmpBool::CmpFalse { CmpBool::CmpFalse } else { CmpBool::CmpNull }
}
pub open spec fn knot(a: CmpBool) -> CmpBool { match a { CmpBool::CmpTrue => CmpBool::CmpFalse, CmpBool::CmpFalse => CmpBool::CmpTrue, CmpBool::CmpNull => CmpBool::CmpNull } }
// a value as a truth value: what is not a boolean is unknown
pub open spec fn truth(v: Value) -> CmpBool { match v.value_ { Val::Boolean(b) => tri(b), _ => CmpBool::CmpNull } }
pub open spec fn logical(v: Value) -> bool { v.value_ is Boolean || v.value_ is Null }
// the operators agree with De Morgan, commute, and NOT undoes itself
pub proof fn de_morgan(a: CmpBool, b: CmpBool)
    ensures knot(kand(a, b)) == kor(knot(a), knot(b)), knot(kor(a, b)) == kand(knot(a), knot(b)), knot(knot(a)) == a, kand(a, b) == kand(b, a), kor(a, b) == kor(b, a)
{}
// ---- the six comparisons, NULL when either side is NULL
pub open spec fn teq(a: Value, b: Value) -> CmpBool { three(a, b, same(a, b)) }
pub open spec fn tne(a: Value, b: Value) -> CmpBool { three(a, b, !same(a, b)) }
pub open spec fn tlt(a: Value, b: Value) -> CmpBool { three(a, b, order(a, b) == Some(Ordering::Less)) }
pub open spec fn tle(a: Value, b: Value) -> CmpBool { three(a, b, order(a, b) matches Some(o) && o != Ordering::Greater) }
pub open spec fn tgt(a: Value, b: Value) -> CmpBool { three(a, b, order(a, b) == Some(Ordering::Greater)) }
pub open spec fn tge(a: Value, b: Value) -> CmpBool { three(a, b, order(a, b) matches Some(o) && o != Ordering::Less) }
pub open spec fn cmp_op(op: BinaryOperator) -> bool { op is Eq || op is NotEq || op is Gt || op is GtEq || op is Lt || op is LtEq }
pub open spec fn by_op(op: BinaryOperator, a: Value, b: Value) -> CmpBool {
    match op { BinaryOperator::Eq => teq(a, b), BinaryOperator::NotEq => tne(a, b), BinaryOperator::Gt => tgt(a, b), BinaryOperator::GtEq => tge(a, b), BinaryOperator::Lt => tlt(a, b), _ => tle(a, b) }
}
pub open spec fn is3(r: Evald, t: CmpBool) -> bool { r matches Ok(v) && v.value_ == val3(t) && typed(v) }
pub open spec fn both(a: Evald, b: Evald) -> bool { a is Ok && b is Ok }
impl Value {
    #[verifier::external_body]
    pub fn cast_to(&self, t: TypeId) -> (r: Result<Value, String>) ensures r matches Ok(v) ==> typed(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_clone(&self) -> (r: Value) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn value_width(t: TypeId) -> usize { unimplemented!() }
pub open spec fn each(op: BinaryOperator, l: Value, s: Seq<Value>, t: CmpBool) -> bool { exists|i: int| 0 <= i < s.len() && by_op(op, l, #[trigger] s[i]) == t }
pub open spec fn for_all(op: BinaryOperator, l: Value, s: Seq<Value>) -> CmpBool {
    if each(op, l, s, CmpBool::CmpFalse) { CmpBool::CmpFalse } else if each(op, l, s, CmpBool::CmpNull) { CmpBool::CmpNull } else { CmpBool::CmpTrue }
}
pub open spec fn for_any(op: BinaryOperator, l: Value, s: Seq<Value>) -> CmpBool {
    if each(op, l, s, CmpBool::CmpTrue) { CmpBool::CmpTrue } else if each(op, l, s, CmpBool::CmpNull) { CmpBool::CmpNull } else { CmpBool::CmpFalse }
}
pub open spec fn all_typed(v: Value) -> bool { match v.value_ { Val::Vector(s) => elems_typed(s), _ => true } }
pub open spec fn elems_typed(s: Vec<Value>) -> bool { forall|i: int| 0 <= i < s@.len() ==> typed(#[trigger] s@[i]) }
pub axiom fn deep_typed(v: Value) requires typed(v) ensures all_typed(v);
