//@source ab src/sql/execution/expressions/abstract_expression.rs
//@source cr src/sql/execution/expressions/column_value_expression.rs
//@source ke src/sql/execution/expressions/constant_value_expression.rs
//@source tu src/storage/table/tuple.rs
//@source sc src/catalog/schema.rs
use vstd::prelude::*;
use std::sync::Arc;
verus! {
// Which evaluation an expression inside a bigger one gets: every kind of
// expression is asked on the rows its parent was asked on, and in a join that
// is the pair of rows, not one of them.
#[verifier::external_body]
pub struct Value { x: u64 }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Column { x: u64 }
#[verifier::external_body]
pub struct RID { x: u64 }
pub enum ExpressionError { InvalidColumnIndex(usize), InvalidTupleIndex(usize), Other(u64) }
pub type Evald = Result<Value, ExpressionError>;
#[verifier::external_body]
pub fn vp_values(v: &Vec<Value>) -> (r: Vec<Value>) ensures r@ == v@ { v.clone() }
//@rewrite /crate::types_db::value:://
//@rewrite /self\.values\.clone\(\)/vp_values(&self.values)/
//@struct tu Tuple
//@struct sc Schema
impl Tuple {
//@fn tu Tuple::get_values impl=^impl.Tuple$
ensures res@ == self.values@
//@endfn
}
impl Schema {
//@fn sc Schema::get_column_count
requires self.columns@.len() <= u32::MAX
ensures res as int == self.columns@.len()
//@endfn
}
// what an expression of some kind gives, on one row and on a pair of rows
pub uninterp spec fn own<T>(e: Node<T>, t: Tuple, s: Schema) -> Evald;
pub uninterp spec fn own2<T>(e: Node<T>, lt: Tuple, ls: Schema, rt: Tuple, rs: Schema) -> Evald;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Node<T> { x: Option<T> }
impl<T> Node<T> {
    #[verifier::external_body]
    pub fn evaluate(&self, t: &Tuple, s: &Schema) -> (r: Evald) ensures r == own(*self, *t, *s) { unimplemented!() }
    #[verifier::external_body]
    pub fn evaluate_join(&self, lt: &Tuple, ls: &Schema, rt: &Tuple, rs: &Schema) -> (r: Evald) ensures r == own2(*self, *lt, *ls, *rt, *rs) { unimplemented!() }
}
pub struct KCase;
pub type CaseExpression = Node<KCase>;
pub struct KCast;
pub type CastExpression = Node<KCast>;
pub struct KArithmetic;
pub type ArithmeticExpression = Node<KArithmetic>;
pub struct KComparison;
pub type ComparisonExpression = Node<KComparison>;
pub struct KLogic;
pub type LogicExpression = Node<KLogic>;
pub struct KString;
pub type StringExpression = Node<KString>;
pub struct KArray;
pub type ArrayExpression = Node<KArray>;
pub struct KAssignment;
pub type AssignmentExpression = Node<KAssignment>;
pub struct KMock;
pub type MockExpression = Node<KMock>;
pub struct KAggregate;
pub type AggregateExpression = Node<KAggregate>;
pub struct KWindow;
pub type WindowExpression = Node<KWindow>;
pub struct KFunction;
pub type FunctionExpression = Node<KFunction>;
pub struct KSubquery;
pub type SubqueryExpression = Node<KSubquery>;
pub struct KIn;
pub type InExpression = Node<KIn>;
pub struct KBetween;
pub type BetweenExpression = Node<KBetween>;
pub struct KLike;
pub type LikeExpression = Node<KLike>;
pub struct KExtract;
pub type ExtractExpression = Node<KExtract>;
pub struct KExists;
pub type ExistsExpression = Node<KExists>;
pub struct KRegex;
pub type RegexExpression = Node<KRegex>;
pub struct KDateTime;
pub type DateTimeExpression = Node<KDateTime>;
pub struct KCoalesce;
pub type CoalesceExpression = Node<KCoalesce>;
pub struct KRandom;
pub type RandomExpression = Node<KRandom>;
pub struct KTrim;
pub type TrimExpression = Node<KTrim>;
pub struct KInterval;
pub type IntervalExpression = Node<KInterval>;
pub struct KGroupingSets;
pub type GroupingSetsExpression = Node<KGroupingSets>;
pub struct KFilter;
pub type FilterExpression = Node<KFilter>;
pub struct KIsDistinct;
pub type IsDistinctExpression = Node<KIsDistinct>;
pub struct KPosition;
pub type PositionExpression = Node<KPosition>;
pub struct KMethod;
pub type MethodExpression = Node<KMethod>;
pub struct KStruct;
pub type StructExpression = Node<KStruct>;
pub struct KOverlay;
pub type OverlayExpression = Node<KOverlay>;
pub struct KCollate;
pub type CollateExpression = Node<KCollate>;
pub struct KAtTimeZone;
pub type AtTimeZoneExpression = Node<KAtTimeZone>;
pub struct KMapAccess;
pub type MapAccessExpression = Node<KMapAccess>;
pub struct KTuple;
pub type TupleExpression = Node<KTuple>;
pub struct KWildcard;
pub type WildcardExpression = Node<KWildcard>;
pub struct KQualifiedWildcard;
pub type QualifiedWildcardExpression = Node<KQualifiedWildcard>;
pub struct KTypedString;
pub type TypedStringExpression = Node<KTypedString>;
pub struct KSubscript;
pub type SubscriptExpression = Node<KSubscript>;
pub struct KIsCheck;
pub type IsCheckExpression = Node<KIsCheck>;
pub struct KBinaryOp;
pub type BinaryOpExpression = Node<KBinaryOp>;
pub struct KAny;
pub type AnyExpression = Node<KAny>;
pub struct KAll;
pub type AllExpression = Node<KAll>;
pub struct KUnaryOp;
pub type UnaryOpExpression = Node<KUnaryOp>;
pub struct KConvert;
pub type ConvertExpression = Node<KConvert>;
pub struct KCeilFloor;
pub type CeilFloorExpression = Node<KCeilFloor>;
pub struct KSubstring;
pub type SubstringExpression = Node<KSubstring>;
pub struct KLiteral;
pub type LiteralValueExpression = Node<KLiteral>;
//@enum ab Expression
//@struct cr ColumnRefExpression
//@struct ke ConstantExpression
// the column a reference names: in a join the right row's columns are numbered
// after the left row's
pub open spec fn nth(v: Seq<Value>, i: int) -> Evald { if 0 <= i < v.len() { Ok(v[i]) } else { Err(ExpressionError::InvalidColumnIndex(i as usize)) } }
impl ColumnRefExpression {
    pub closed spec fn on(self, t: Tuple) -> Evald { nth(t.values@, self.column_index as int) }
    pub closed spec fn on2(self, lt: Tuple, ls: Schema, rt: Tuple) -> Evald {
        let lc = ls.columns@.len();
        if self.tuple_index == 0 { nth(lt.values@, self.column_index as int) }
        else if self.tuple_index == 1 { nth(rt.values@, if self.column_index >= lc { self.column_index - lc } else { self.column_index as int }) }
        else { Err(ExpressionError::InvalidTupleIndex(self.tuple_index)) }
    }
//@fn cr ColumnRefExpression::evaluate
ensures res == self.on(*tuple)
//@endfn
//@fn cr ColumnRefExpression::evaluate_join
requires left_schema.columns@.len() <= u32::MAX
ensures res == self.on2(*left_tuple, *left_schema, *right_tuple)
//@endfn
}
impl ConstantExpression {
    pub closed spec fn con(self) -> Value { self.value }
//@fn ke ConstantExpression::get_value
ensures *res == self.con()
//@endfn
//@fn ke ConstantExpression::evaluate
ensures res == Ok::<Value, ExpressionError>(self.con())
//@endfn
//@fn ke ConstantExpression::evaluate_join
ensures res == Ok::<Value, ExpressionError>(self.con())
//@endfn
}
pub open spec fn row(e: Expression, t: Tuple, s: Schema) -> Evald {
    match e {
        Expression::Constant(x) => Ok(x.con()),
        Expression::ColumnRef(x) => x.on(t),
        Expression::Case(x) => own(x, t, s),
        Expression::Cast(x) => own(x, t, s),
        Expression::Arithmetic(x) => own(x, t, s),
        Expression::Comparison(x) => own(x, t, s),
        Expression::Logic(x) => own(x, t, s),
        Expression::String(x) => own(x, t, s),
        Expression::Array(x) => own(x, t, s),
        Expression::Assignment(x) => own(x, t, s),
        Expression::Mock(x) => own(x, t, s),
        Expression::Aggregate(x) => own(x, t, s),
        Expression::Window(x) => own(x, t, s),
        Expression::Function(x) => own(x, t, s),
        Expression::Subquery(x) => own(x, t, s),
        Expression::In(x) => own(x, t, s),
        Expression::Between(x) => own(x, t, s),
        Expression::Like(x) => own(x, t, s),
        Expression::Extract(x) => own(x, t, s),
        Expression::Exists(x) => own(x, t, s),
        Expression::Regex(x) => own(x, t, s),
        Expression::DateTime(x) => own(x, t, s),
        Expression::Coalesce(x) => own(x, t, s),
        Expression::Random(x) => own(x, t, s),
        Expression::Trim(x) => own(x, t, s),
        Expression::Interval(x) => own(x, t, s),
        Expression::GroupingSets(x) => own(x, t, s),
        Expression::Filter(x) => own(x, t, s),
        Expression::IsDistinct(x) => own(x, t, s),
        Expression::Position(x) => own(x, t, s),
        Expression::Method(x) => own(x, t, s),
        Expression::Struct(x) => own(x, t, s),
        Expression::Overlay(x) => own(x, t, s),
        Expression::Collate(x) => own(x, t, s),
        Expression::AtTimeZone(x) => own(x, t, s),
        Expression::MapAccess(x) => own(x, t, s),
        Expression::Tuple(x) => own(x, t, s),
        Expression::Wildcard(x) => own(x, t, s),
        Expression::QualifiedWildcard(x) => own(x, t, s),
        Expression::TypedString(x) => own(x, t, s),
        Expression::Subscript(x) => own(x, t, s),
        Expression::IsCheck(x) => own(x, t, s),
        Expression::BinaryOp(x) => own(x, t, s),
        Expression::Any(x) => own(x, t, s),
        Expression::All(x) => own(x, t, s),
        Expression::UnaryOp(x) => own(x, t, s),
        Expression::Convert(x) => own(x, t, s),
        Expression::CeilFloor(x) => own(x, t, s),
        Expression::Substring(x) => own(x, t, s),
        Expression::Literal(x) => own(x, t, s),
    }
}
pub open spec fn pair(e: Expression, lt: Tuple, ls: Schema, rt: Tuple, rs: Schema) -> Evald {
    match e {
        Expression::Constant(x) => Ok(x.con()),
        Expression::ColumnRef(x) => x.on2(lt, ls, rt),
        Expression::Case(x) => own2(x, lt, ls, rt, rs),
        Expression::Cast(x) => own2(x, lt, ls, rt, rs),
        Expression::Arithmetic(x) => own2(x, lt, ls, rt, rs),
        Expression::Comparison(x) => own2(x, lt, ls, rt, rs),
        Expression::Logic(x) => own2(x, lt, ls, rt, rs),
        Expression::String(x) => own2(x, lt, ls, rt, rs),
        Expression::Array(x) => own2(x, lt, ls, rt, rs),
        Expression::Assignment(x) => own2(x, lt, ls, rt, rs),
        Expression::Aggregate(x) => own2(x, lt, ls, rt, rs),
        Expression::Window(x) => own2(x, lt, ls, rt, rs),
        Expression::Function(x) => own2(x, lt, ls, rt, rs),
        Expression::Subquery(x) => own2(x, lt, ls, rt, rs),
        Expression::In(x) => own2(x, lt, ls, rt, rs),
        Expression::Between(x) => own2(x, lt, ls, rt, rs),
        Expression::Like(x) => own2(x, lt, ls, rt, rs),
        Expression::Extract(x) => own2(x, lt, ls, rt, rs),
        Expression::Exists(x) => own2(x, lt, ls, rt, rs),
        Expression::Regex(x) => own2(x, lt, ls, rt, rs),
        Expression::DateTime(x) => own2(x, lt, ls, rt, rs),
        Expression::Coalesce(x) => own2(x, lt, ls, rt, rs),
        Expression::Random(x) => own2(x, lt, ls, rt, rs),
        Expression::Trim(x) => own2(x, lt, ls, rt, rs),
        Expression::Interval(x) => own2(x, lt, ls, rt, rs),
        Expression::GroupingSets(x) => own2(x, lt, ls, rt, rs),
        Expression::Filter(x) => own2(x, lt, ls, rt, rs),
        Expression::IsDistinct(x) => own2(x, lt, ls, rt, rs),
        Expression::Position(x) => own2(x, lt, ls, rt, rs),
        Expression::Method(x) => own2(x, lt, ls, rt, rs),
        Expression::Struct(x) => own2(x, lt, ls, rt, rs),
        Expression::Overlay(x) => own2(x, lt, ls, rt, rs),
        Expression::Collate(x) => own2(x, lt, ls, rt, rs),
        Expression::AtTimeZone(x) => own2(x, lt, ls, rt, rs),
        Expression::MapAccess(x) => own2(x, lt, ls, rt, rs),
        Expression::Tuple(x) => own2(x, lt, ls, rt, rs),
        Expression::Wildcard(x) => own2(x, lt, ls, rt, rs),
        Expression::QualifiedWildcard(x) => own2(x, lt, ls, rt, rs),
        Expression::TypedString(x) => own2(x, lt, ls, rt, rs),
        Expression::Subscript(x) => own2(x, lt, ls, rt, rs),
        Expression::IsCheck(x) => own2(x, lt, ls, rt, rs),
        Expression::BinaryOp(x) => own2(x, lt, ls, rt, rs),
        Expression::Any(x) => own2(x, lt, ls, rt, rs),
        Expression::All(x) => own2(x, lt, ls, rt, rs),
        Expression::UnaryOp(x) => own2(x, lt, ls, rt, rs),
        Expression::Convert(x) => own2(x, lt, ls, rt, rs),
        Expression::CeilFloor(x) => own2(x, lt, ls, rt, rs),
        Expression::Substring(x) => own2(x, lt, ls, rt, rs),
        Expression::Literal(x) => own2(x, lt, ls, rt, rs),
        // a stand-in for tests, which knows no pairs of rows
        Expression::Mock(x) => own(x, lt, ls),
    }
}
impl Expression {
//@fn ab Expression::evaluate impl=~ExpressionOps
ensures res == row(*self, *tuple, *schema)
//@endfn
//@fn ab Expression::evaluate_join impl=~ExpressionOps
requires left_schema.columns@.len() <= u32::MAX
ensures res == pair(*self, *left_tuple, *left_schema, *right_tuple, *right_schema)
//@endfn
}
fn main() {}
} // verus!
