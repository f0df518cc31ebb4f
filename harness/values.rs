// Values: the six comparisons, ==, hash and order against an exact oracle; every comparison and logic
// expression against three-valued logic, on one row and on a pair of rows; LIKE against a plain matcher.
#[macro_use] mod common;
use common::*;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::all_expression::AllExpression;
use ferrite::sql::execution::expressions::any_expression::AnyExpression;
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::between_expression::BetweenExpression;
use ferrite::sql::execution::expressions::binary_op_expression::BinaryOpExpression;
use ferrite::sql::execution::expressions::case_expression::CaseExpression;
use ferrite::sql::execution::expressions::coalesce_expression::CoalesceExpression;
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::in_expression::InExpression;
use ferrite::sql::execution::expressions::is_check_expression::{IsCheckExpression, IsCheckType};
use ferrite::sql::execution::expressions::is_distinct_expression::IsDistinctExpression;
use ferrite::sql::execution::expressions::like_expression::LikeExpression;
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::expressions::unary_op_expression::UnaryOpExpression;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::{CmpBool, Type};
use ferrite::types_db::value::{Size, Val, Value};
use sqlparser::ast::{BinaryOperator, UnaryOperator};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn of(v: Val) -> Value { Value::new(v) }
fn structv(d: Vec<Value>) -> Value { Value { value_: Val::Struct, size_: Size::Length(0), manage_data_: false, type_id_: TypeId::Struct, struct_data: Some(d) } }
fn null() -> Value { Value::new(Val::Null) }

fn numbers() -> Vec<Value> {
    let mut v = vec![];
    for i in [i8::MIN, -1, 0, 1, 5, i8::MAX] { v.push(of(Val::TinyInt(i))); }
    for i in [i16::MIN, -1, 0, 5, 127, 128, i16::MAX] { v.push(of(Val::SmallInt(i))); }
    for i in [i32::MIN, -1, 0, 1, 5, 128, 16_777_217, i32::MAX] { v.push(of(Val::Integer(i))); }
    for i in [i64::MIN, -1, 0, 5, i32::MAX as i64 + 1, 16_777_217, (1i64 << 53) + 1, i64::MAX] { v.push(of(Val::BigInt(i))); }
    for f in [f64::NEG_INFINITY, -0.5, -0.0, 0.0, 0.1, 0.1f32 as f64, 1.5, 5.0, 10.5, 16_777_217.0, 9_007_199_254_740_992.0, 1e300, f64::INFINITY, f64::NAN, -f64::NAN] { v.push(of(Val::Decimal(f))); }
    for f in [f32::NEG_INFINITY, -0.0, 0.0, 0.1, 1.5, 5.0, 16_777_216.0, f32::INFINITY, f32::NAN] { v.push(of(Val::Float(f))); }
    v
}
fn others() -> Vec<Value> {
    let s = |x: &str| x.to_string();
    let mut v = vec![null(), of(Val::Boolean(false)), of(Val::Boolean(true))];
    for t in [0u64, 1, u64::MAX] { v.push(of(Val::Timestamp(t))); }
    for t in [-1, 0, 7] { v.push(of(Val::Date(t))); v.push(of(Val::Time(t))); v.push(of(Val::Interval(t as i64))); }
    for t in ["", "a", "A", "ab", "b", "10", "9", "é", "\u{10ffff}", "5"] { v.push(of(Val::VarLen(s(t)))); }
    for t in ["", "a", "ab"] { v.push(of(Val::ConstLen(s(t)))); v.push(of(Val::JSON(s(t)))); v.push(of(Val::UUID(s(t)))); }
    for b in [vec![], vec![0u8], vec![0, 255], vec![255]] { v.push(of(Val::Binary(b))); }
    for (i, t) in [(0, "x"), (0, "y"), (1, "x")] { v.push(of(Val::Enum(i, s(t)))); }
    for (x, y) in [(0.0, 1.0), (-0.0, 1.0), (1.0, f64::NAN), (1.0, 0.0), (f64::NAN, 0.0)] { v.push(of(Val::Point(x, y))); }
    let i = |x: i32| Value::new(x);
    for d in [vec![], vec![i(1)], vec![i(1), i(2)], vec![i(2)], vec![null()], vec![Value::new(0.0)], vec![Value::new(-0.0)], vec![Value::new(f64::NAN), i(1)]] {
        v.push(Value::new_vector(d.clone())); v.push(of(Val::Array(d.clone()))); v.push(structv(d));
    }
    v
}
fn pool() -> Vec<Value> { let mut v = numbers(); v.extend(others()); v }

#[derive(Clone, Copy, PartialEq, Debug)]
enum T3 { T, F, U }
fn t3(b: bool) -> T3 { if b { T3::T } else { T3::F } }
fn of_cmp(c: CmpBool) -> T3 { match c { CmpBool::CmpTrue => T3::T, CmpBool::CmpFalse => T3::F, CmpBool::CmpNull => T3::U } }
fn and(a: T3, b: T3) -> T3 { if a == T3::F || b == T3::F { T3::F } else if a == T3::U || b == T3::U { T3::U } else { T3::T } }
fn not(a: T3) -> T3 { match a { T3::T => T3::F, T3::F => T3::T, T3::U => T3::U } }
fn or(a: T3, b: T3) -> T3 { not(and(not(a), not(b))) }

fn int(v: &Value) -> Option<i128> { match v.get_val() { Val::TinyInt(i) => Some(*i as i128), Val::SmallInt(i) => Some(*i as i128), Val::Integer(i) => Some(*i as i128), Val::BigInt(i) => Some(*i as i128), _ => None } }
fn f64v(v: &Value) -> f64 { match v.get_val() { Val::Decimal(f) => *f, Val::Float(f) => *f as f64, _ => int(v).unwrap() as f64 } }
fn f32v(v: &Value) -> f32 { match v.get_val() { Val::Float(f) => *f, _ => int(v).unwrap() as f32 } }
fn num(v: &Value) -> bool { int(v).is_some() || matches!(v.get_val(), Val::Decimal(_) | Val::Float(_)) }
fn num_cmp(a: &Value, b: &Value) -> Option<Ordering> {
    if let (Some(x), Some(y)) = (int(a), int(b)) { return Some(x.cmp(&y)); }
    if matches!(a.get_val(), Val::Decimal(_)) || matches!(b.get_val(), Val::Decimal(_)) { f64v(a).partial_cmp(&f64v(b)) } else { f32v(a).partial_cmp(&f32v(b)) }
}
fn flat_cmp(a: &Val, b: &Val) -> Option<Ordering> {
    match (a, b) {
        (Val::Boolean(x), Val::Boolean(y)) => Some(x.cmp(y)),
        (Val::Timestamp(x), Val::Timestamp(y)) => Some(x.cmp(y)),
        (Val::Date(x), Val::Date(y)) | (Val::Time(x), Val::Time(y)) => Some(x.cmp(y)),
        (Val::Interval(x), Val::Interval(y)) => Some(x.cmp(y)),
        (Val::VarLen(x), Val::VarLen(y)) | (Val::ConstLen(x), Val::ConstLen(y)) | (Val::JSON(x), Val::JSON(y)) | (Val::UUID(x), Val::UUID(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (Val::Binary(x), Val::Binary(y)) => Some(x.cmp(y)),
        (Val::Enum(i, x), Val::Enum(j, y)) => Some(i.cmp(j).then(x.as_bytes().cmp(y.as_bytes()))),
        (Val::Point(x, y), Val::Point(u, v)) => match x.partial_cmp(u) { Some(Ordering::Equal) => y.partial_cmp(v), o => o },
        _ => None,
    }
}
fn scalar(v: &Value) -> bool { !matches!(v.get_val(), Val::Vector(_) | Val::Array(_) | Val::Struct) }
/// how two scalars stand to each other; None: no order
fn order(a: &Value, b: &Value) -> Option<Ordering> { if num(a) && num(b) { num_cmp(a, b) } else { flat_cmp(a.get_val(), b.get_val()) } }
fn want(op: usize, a: &Value, b: &Value) -> T3 {
    if a.is_null() || b.is_null() { return T3::U; }
    let o = order(a, b);
    t3(match op { 0 => o == Some(Ordering::Equal), 1 => o != Some(Ordering::Equal), 2 => o == Some(Ordering::Less), 3 => matches!(o, Some(Ordering::Less | Ordering::Equal)), 4 => o == Some(Ordering::Greater), _ => matches!(o, Some(Ordering::Greater | Ordering::Equal)) })
}
fn got(op: usize, a: &Value, b: &Value) -> T3 {
    of_cmp(match op { 0 => a.compare_equals(b), 1 => a.compare_not_equals(b), 2 => a.compare_less_than(b), 3 => a.compare_less_than_equals(b), 4 => a.compare_greater_than(b), _ => a.compare_greater_than_equals(b) })
}
const OPS: [&str; 6] = ["=", "<>", "<", "<=", ">", ">="];
fn binop(op: usize) -> BinaryOperator { [BinaryOperator::Eq, BinaryOperator::NotEq, BinaryOperator::Lt, BinaryOperator::LtEq, BinaryOperator::Gt, BinaryOperator::GtEq][op].clone() }
fn cmptype(op: usize) -> ComparisonType { [ComparisonType::Equal, ComparisonType::NotEqual, ComparisonType::LessThan, ComparisonType::LessThanOrEqual, ComparisonType::GreaterThan, ComparisonType::GreaterThanOrEqual][op] }
fn hash(v: &Value) -> u64 { let mut h = DefaultHasher::new(); v.hash(&mut h); h.finish() }
fn show(v: &Value) -> String { format!("{:?}{}", v.get_val(), v.struct_data.as_ref().map(|d| format!("{:?}", d.iter().map(|x| x.get_val().clone()).collect::<Vec<_>>())).unwrap_or_default()) }
fn nan_in(v: &Value) -> bool { match v.get_val() { Val::Decimal(f) => f.is_nan(), Val::Float(f) => f.is_nan(), Val::Point(x, y) => x.is_nan() || y.is_nan(), Val::Vector(d) | Val::Array(d) => d.iter().any(nan_in), Val::Struct => v.struct_data.as_ref().is_some_and(|d| d.iter().any(nan_in)), _ => false } }
/// the truth value an expression returned
fn truth(r: Result<Value, impl std::fmt::Debug>) -> Result<T3, String> {
    match r { Ok(v) => match v.get_val() { Val::Boolean(b) => Ok(t3(*b)), Val::Null => Ok(T3::U), x => Err(format!("not a truth value: {x:?}")) }, Err(e) => Err(format!("error {e:?}")) }
}

/// a row of values, read whole by column references, and the same values split over a pair of rows
struct Row { whole: Tuple, ws: Schema, l: Tuple, ls: Schema, r: Tuple, rs: Schema, n: usize, cut: usize }
fn row(vals: &[Value]) -> Row {
    let sch = |v: &[Value]| Schema::new(v.iter().enumerate().map(|(i, x)| Column::new(&format!("c{i}"), x.get_type_id())).collect());
    let tup = |v: &[Value], s: &Schema| Tuple::new(v, s, RID::new(0, 0));
    let cut = vals.len().div_ceil(2);
    let (ws, ls, rs) = (sch(vals), sch(&vals[..cut]), sch(&vals[cut..]));
    Row { whole: tup(vals, &ws), l: tup(&vals[..cut], &ls), r: tup(&vals[cut..], &rs), ws, ls, rs, n: vals.len(), cut }
}
fn col(r: &Row, i: usize, t: TypeId) -> Arc<Expression> {
    assert!(i < r.n);
    Arc::new(Expression::ColumnRef(ColumnRefExpression::new(if i < r.cut { 0 } else { 1 }, i, Column::new("c", t), vec![])))
}
fn constant(v: &Value) -> Arc<Expression> { Arc::new(Expression::Constant(ConstantExpression::new(v.clone(), Column::new("k", v.get_type_id()), vec![]))) }
fn boolcol() -> Column { Column::new("b", TypeId::Boolean) }
/// both ways of evaluating e give `w`
fn both(r: &Row, e: &Expression, w: T3) -> Res {
    let a = truth(e.evaluate(&r.whole, &r.ws))?;
    ck!(a == w, "evaluate gives {:?}, not {:?}", a, w);
    let b = truth(e.evaluate_join(&r.l, &r.ls, &r.r, &r.rs))?;
    ck!(b == w, "evaluate_join gives {:?}, not {:?}", b, w);
    Ok(())
}
fn same_val(a: &Value, b: &Value) -> bool { a == b }
fn both_val(r: &Row, e: &Expression, w: &Value) -> Res {
    let a = e.evaluate(&r.whole, &r.ws).map_err(|e| format!("error {e:?}"))?;
    ck!(same_val(&a, w), "evaluate gives {}, not {}", show(&a), show(w));
    let b = e.evaluate_join(&r.l, &r.ls, &r.r, &r.rs).map_err(|e| format!("error {e:?}"))?;
    ck!(same_val(&b, w), "evaluate_join gives {}, not {}", show(&b), show(w));
    Ok(())
}
fn both_err(r: &Row, e: &Expression) -> Res {
    ck!(e.evaluate(&r.whole, &r.ws).is_err(), "evaluate returns a value");
    ck!(e.evaluate_join(&r.l, &r.ls, &r.r, &r.rs).is_err(), "evaluate_join returns a value");
    Ok(())
}

fn like(v: &[char], p: &[char], esc: Option<char>, cs: bool) -> bool {
    match p.first() {
        None => v.is_empty(),
        Some(c) if Some(*c) == esc => match p.get(1) {
            Some(d) => !v.is_empty() && eqc(v[0], *d, cs) && like(&v[1..], &p[2..], esc, cs),
            None => v.is_empty(),
        },
        Some('%') => (0..=v.len()).any(|i| like(&v[i..], &p[1..], esc, cs)),
        Some('_') => !v.is_empty() && like(&v[1..], &p[1..], esc, cs),
        Some(c) => !v.is_empty() && eqc(v[0], *c, cs) && like(&v[1..], &p[1..], esc, cs),
    }
}
fn eqc(a: char, b: char, cs: bool) -> bool { if cs { a == b } else { a.eq_ignore_ascii_case(&b) } }

fn main() {
    let mut c = Ctx::new();
    let p = pool();
    if c.group("pairs") {
        for a in &p {
            for b in &p {
                c.case(format!("{} and {}", show(a), show(b)), || {
                    if scalar(a) && scalar(b) {
                        for op in 0..6 { let (g, w) = (got(op, a, b), want(op, a, b)); ck!(g == w, "{} gives {:?}, not {:?}", OPS[op], g, w); }
                    }
                    // whatever the kind: NULL is unknown, <> is not =, and a op b is b op' a
                    for (x, y) in [(0, 0), (1, 1), (2, 4), (3, 5)] { ck!(got(x, a, b) == got(y, b, a), "a {} b and b {} a differ", OPS[x], OPS[y]); }
                    ck!(got(1, a, b) == not(got(0, a, b)), "<> is not the opposite of =");
                    for op in 0..6 { ck!((got(op, a, b) == T3::U) == (a.is_null() || b.is_null()), "{} is unknown only for NULL", OPS[op]); }
                    // == and its order
                    ck!(a == a && (a == b) == (b == a), "== is not symmetric");
                    if a == b { ck!(hash(a) == hash(b), "equal values hash differently"); }
                    let (x, y) = (a.partial_cmp(b), b.partial_cmp(a));
                    ck!(x == y.map(|o| o.reverse()), "the order is not antisymmetric: {:?} and {:?}", x, y);
                    ck!((x == Some(Ordering::Equal)) == (a == b), "the order says {:?}, == says {}", x, a == b);
                    if !nan_in(a) && !nan_in(b) { ck!(x.is_some(), "no order"); }
                    if a.is_null() && !b.is_null() { ck!(x == Some(Ordering::Less), "NULL does not come first"); }
                    Ok(())
                });
            }
        }
    }
    if c.group("triples") {
        let mut r = Rng::new(c.seed);
        for _ in 0..c.n(60_000) {
            let (a, b, d) = (r.pick(&p).clone(), r.pick(&p).clone(), r.pick(&p).clone());
            let b = if r.chance(1, 3) { a.clone() } else { b };
            c.case(format!("{}, {} and {}", show(&a), show(&b), show(&d)), || {
                if a == b && b == d { ck!(a == d, "== is not transitive"); }
                if !nan_in(&a) && !nan_in(&b) && !nan_in(&d) && a <= b && b <= d { ck!(a <= d, "the order is not transitive"); }
                Ok(())
            });
        }
    }
    if c.group("compare") {
        for a in p.iter().filter(|v| scalar(v)) {
            for b in p.iter().filter(|v| scalar(v)) {
                let fits = a.is_null() || b.is_null() || a.get_type_id() == b.get_type_id() || (num(a) && num(b));
                if !fits { continue; }
                c.case(format!("{} and {} in a row", show(a), show(b)), || {
                    let r = row(&[a.clone(), b.clone()]);
                    let (x, y) = (col(&r, 0, a.get_type_id()), col(&r, 1, b.get_type_id()));
                    for op in 0..6 {
                        let w = want(op, a, b);
                        both(&r, &Expression::Comparison(ComparisonExpression::new(x.clone(), y.clone(), cmptype(op), vec![])), w).map_err(|e| format!("{} as a comparison: {e}", OPS[op]))?;
                        let e = BinaryOpExpression::new(x.clone(), y.clone(), binop(op), vec![x.clone(), y.clone()]).map_err(|e| format!("no expression: {e}"))?;
                        both(&r, &Expression::BinaryOp(e), w).map_err(|e| format!("{} as an operator: {e}", OPS[op]))?;
                    }
                    both(&r, &Expression::Comparison(ComparisonExpression::new(x.clone(), y.clone(), ComparisonType::IsNotNull, vec![])), t3(!a.is_null())).map_err(|e| format!("IS NOT NULL: {e}"))?;
                    let distinct = a != b && want(0, a, b) != T3::T;
                    for neg in [false, true] {
                        both(&r, &Expression::IsDistinct(IsDistinctExpression::new(x.clone(), y.clone(), neg, boolcol())), t3(distinct != neg)).map_err(|e| format!("IS DISTINCT FROM: {e}"))?;
                    }
                    Ok(())
                });
            }
        }
    }
    if c.group("logic") {
        let tv = [Value::new(true), Value::new(false), null()];
        let t = |v: &Value| match v.get_val() { Val::Boolean(b) => t3(*b), _ => T3::U };
        for a in &tv {
            for b in &tv {
                c.case(format!("{} and {} as truth values", show(a), show(b)), || {
                    let r = row(&[a.clone(), b.clone()]);
                    let (x, y) = (col(&r, 0, TypeId::Boolean), col(&r, 1, TypeId::Boolean));
                    for (ty, op, w) in [(LogicType::And, BinaryOperator::And, and(t(a), t(b))), (LogicType::Or, BinaryOperator::Or, or(t(a), t(b)))] {
                        both(&r, &Expression::Logic(LogicExpression::new(x.clone(), y.clone(), ty, vec![])), w).map_err(|e| format!("{ty:?}: {e}"))?;
                        let e = BinaryOpExpression::new(x.clone(), y.clone(), op, vec![x.clone(), y.clone()]).map_err(|e| format!("no expression: {e}"))?;
                        both(&r, &Expression::BinaryOp(e), w).map_err(|e| format!("{ty:?} as an operator: {e}"))?;
                    }
                    both(&r, &Expression::Logic(LogicExpression::new_not(y.clone())), not(t(b))).map_err(|e| format!("NOT: {e}"))?;
                    both(&r, &Expression::UnaryOp(UnaryOpExpression::new(y.clone(), UnaryOperator::Not)?), not(t(b))).map_err(|e| format!("NOT as an operator: {e}"))?;
                    for neg in [false, true] {
                        for (k, w) in [(IsCheckType::True { negated: neg }, t(b) == T3::T), (IsCheckType::False { negated: neg }, t(b) == T3::F), (IsCheckType::Unknown { negated: neg }, t(b) == T3::U), (IsCheckType::Null { negated: neg }, t(b) == T3::U)] {
                            both(&r, &Expression::IsCheck(IsCheckExpression::new(y.clone(), k.clone(), boolcol())), t3(w != neg)).map_err(|e| format!("IS {k:?}: {e}"))?;
                        }
                    }
                    // CASE WHEN a THEN 1 WHEN b THEN 2 [ELSE 3] END
                    let k = |i: i32| constant(&Value::new(i));
                    for els in [false, true] {
                        let e = CaseExpression::new(None, vec![x.clone(), y.clone()], vec![k(1), k(2)], els.then(|| k(3)))?;
                        let w = if t(a) == T3::T { Value::new(1) } else if t(b) == T3::T { Value::new(2) } else if els { Value::new(3) } else { null() };
                        both_val(&r, &Expression::Case(e), &w).map_err(|e| format!("CASE: {e}"))?;
                    }
                    Ok(())
                });
            }
        }
    }
    if c.group("ranges") {
        let mut r = Rng::new(c.seed ^ 7);
        let sc: Vec<Value> = p.iter().filter(|v| scalar(v)).cloned().collect();
        for i in 0..c.n(12_000) {
            // three values that compare: numbers, or one kind
            let a = r.pick(&sc).clone();
            let like: Vec<Value> = sc.iter().filter(|v| v.is_null() || v.get_type_id() == a.get_type_id() || (num(v) && num(&a))).cloned().collect();
            let k = 1 + r.usize(4);
            let mut list: Vec<Value> = (0..k + 1).map(|_| r.pick(&like).clone()).collect();
            if i % 5 == 0 { list.clear(); }
            let (lo, hi) = (r.pick(&like).clone(), r.pick(&like).clone());
            c.case(format!("{} between {} and {}; in {:?}", show(&a), show(&lo), show(&hi), list.iter().map(show).collect::<Vec<_>>()), || {
                let q = row(&[a.clone(), lo.clone(), hi.clone(), Value::new_vector(list.clone())]);
                let (x, l, h, v) = (col(&q, 0, a.get_type_id()), col(&q, 1, lo.get_type_id()), col(&q, 2, hi.get_type_id()), constant(&Value::new_vector(list.clone())));
                let inside = and(want(5, &a, &lo), want(3, &a, &hi));
                for neg in [false, true] {
                    both(&q, &Expression::Between(BetweenExpression::new(x.clone(), l.clone(), h.clone(), neg, boolcol())), if neg { not(inside) } else { inside }).map_err(|e| format!("BETWEEN: {e}"))?;
                }
                for op in 0..6 {
                    let ws: Vec<T3> = list.iter().map(|b| want(op, &a, b)).collect();
                    both(&q, &Expression::All(AllExpression::new(x.clone(), v.clone(), binop(op))), ws.iter().fold(T3::T, |s, w| and(s, *w))).map_err(|e| format!("{} ALL: {e}", OPS[op]))?;
                    both(&q, &Expression::Any(AnyExpression::new(x.clone(), v.clone(), binop(op), false)), ws.iter().fold(T3::F, |s, w| or(s, *w))).map_err(|e| format!("{} ANY: {e}", OPS[op]))?;
                }
                if !list.is_empty() {
                    let w = list.iter().map(|b| want(0, &a, b)).fold(T3::F, or);
                    for neg in [false, true] {
                        let w = if neg { not(w) } else { w };
                        both(&q, &Expression::In(InExpression::new_list(x.clone(), v.clone(), neg, boolcol())), w).map_err(|e| format!("IN: {e}"))?;
                        both(&q, &Expression::In(InExpression::new_unnest(x.clone(), v.clone(), neg, boolcol())), w).map_err(|e| format!("IN UNNEST: {e}"))?;
                        both(&q, &Expression::In(InExpression::new_subquery(x.clone(), v.clone(), neg, boolcol())), w).map_err(|e| format!("IN (SELECT): {e}"))?;
                    }
                    let ks: Vec<Arc<Expression>> = list.iter().map(constant).collect();
                    let first = list.iter().find(|b| !b.is_null()).cloned().unwrap_or_else(null);
                    both_val(&q, &Expression::Coalesce(CoalesceExpression::new(ks.clone(), Column::new("c", a.get_type_id()))), &first).map_err(|e| format!("COALESCE: {e}"))?;
                    // CASE a WHEN l0 THEN 0 WHEN l1 THEN 1 ... END
                    let ths: Vec<Arc<Expression>> = (0..list.len()).map(|i| constant(&Value::new(i as i32))).collect();
                    let w = list.iter().position(|b| want(0, &a, b) == T3::T).map(|i| Value::new(i as i32)).unwrap_or_else(null);
                    both_val(&q, &Expression::Case(CaseExpression::new(Some(x.clone()), ks, ths, None)?), &w).map_err(|e| format!("CASE x: {e}"))?;
                }
                Ok(())
            });
        }
    }
    if c.group("minus") {
        for a in p.iter().filter(|v| num(v) || v.is_null()) {
            c.case(format!("-({})", show(a)), || {
                let r = row(&[null(), a.clone()]);
                let x = col(&r, 1, a.get_type_id());
                let Ok(e) = UnaryOpExpression::new(x.clone(), UnaryOperator::Minus) else { return Ok(()) };
                let e = Expression::UnaryOp(e);
                if let Some(i) = int(a) {
                    let w = match a.get_val() { Val::TinyInt(_) => i8::try_from(-i).ok().map(Value::new), Val::SmallInt(_) => i16::try_from(-i).ok().map(Value::new), Val::Integer(_) => i32::try_from(-i).ok().map(Value::new), _ => i64::try_from(-i).ok().map(Value::new) };
                    match w { Some(w) => both_val(&r, &e, &w), None => both_err(&r, &e) }
                } else if let Val::Decimal(f) = a.get_val() { both_val(&r, &e, &Value::new(-f)) } else { Ok(()) }
            });
        }
    }
    if c.group("like") {
        let mut r = Rng::new(c.seed ^ 11);
        let al: Vec<char> = "aAbé%_\\".chars().collect();
        for i in 0..c.n(20_000) {
            let word = |r: &mut Rng, n: usize| (0..r.usize(n)).map(|_| *r.pick(&al)).collect::<String>();
            let (v, q) = (word(&mut r, 7), word(&mut r, 6));
            let (esc, cs, neg) = (if r.bool() { Some('\\') } else { None }, r.bool(), r.bool());
            let hole = i % 50;
            c.case(format!("{v:?} LIKE {q:?} escape {esc:?} case {cs} not {neg} null {}", hole < 2), || {
                let a = if hole == 0 { null() } else { Value::new(v.as_str()) };
                let b = if hole == 1 { null() } else { Value::new(q.as_str()) };
                let w = if hole < 2 { T3::U } else { t3(like(&v.chars().collect::<Vec<_>>(), &q.chars().collect::<Vec<_>>(), esc, cs) != neg) };
                let row = row(&[a.clone(), b.clone()]);
                let e = LikeExpression::new(col(&row, 0, a.get_type_id()), col(&row, 1, b.get_type_id()), esc, neg, cs, boolcol());
                both(&row, &Expression::Like(e), w)
            });
        }
    }
    if c.group("arith") {
        let mut ns = numbers();
        for i in [-7i64, -2, 2, 3, 7, 46341, -46341, 3037000500, i64::MAX / 2 + 1] {
            if let Ok(x) = i8::try_from(i) { ns.push(of(Val::TinyInt(x))); }
            if let Ok(x) = i16::try_from(i) { ns.push(of(Val::SmallInt(x))); }
            if let Ok(x) = i32::try_from(i) { ns.push(of(Val::Integer(x))); }
            ns.push(of(Val::BigInt(i)));
        }
        let mut r = Rng::new(c.seed ^ 17);
        for _ in 0..c.n(10) {
            let b = r.below(64);
            let i = r.next() as i64 >> b;
            if let Ok(x) = i8::try_from(i) { ns.push(of(Val::TinyInt(x))); } else if let Ok(x) = i16::try_from(i) { ns.push(of(Val::SmallInt(x))); } else if let Ok(x) = i32::try_from(i) { ns.push(of(Val::Integer(x))); } else { ns.push(of(Val::BigInt(i))); }
        }
        let mut all = ns.clone();
        all.extend([null(), of(Val::Boolean(true)), of(Val::VarLen("1".to_string()))]);
        for a in &all { for b in &all { for op in 0..5 {
            c.case(format!("{} {} {}", show(a), ["+", "-", "*", "/", "%"][op], show(b)), || {
                let rw = row(&[a.clone(), b.clone()]);
                if op < 4 {
                    let o = [ArithmeticOp::Add, ArithmeticOp::Subtract, ArithmeticOp::Multiply, ArithmeticOp::Divide][op];
                    let e = Expression::Arithmetic(ArithmeticExpression::new(o, vec![col(&rw, 0, a.get_type_id()), col(&rw, 1, b.get_type_id())]));
                    if num(a) && num(b) { match number(op, a, b) { Some(w) => both_val(&rw, &e, &w)?, None => both_err(&rw, &e)? } } else { both_err(&rw, &e)? }
                }
                if !(num(a) && num(b)) { return Ok(()); }
                let o = [BinaryOperator::Plus, BinaryOperator::Minus, BinaryOperator::Multiply, BinaryOperator::Divide, BinaryOperator::Modulo][op].clone();
                let Ok(e) = BinaryOpExpression::new(col(&rw, 0, a.get_type_id()), col(&rw, 1, b.get_type_id()), o, vec![]) else { return Ok(()) };
                let e = Expression::BinaryOp(e);
                let same_type = a.get_type_id() == b.get_type_id();
                if op == 4 {
                    let (Some(x), Some(y)) = (int(a), int(b)) else { return Ok(()) };
                    if same_type { both_val(&rw, &e, &if y == 0 { null() } else { made(wide(a, b), x % y).unwrap() })?; }
                    return Ok(());
                }
                match number(op, a, b) {
                    Some(w) if same_type => both_val(&rw, &e, &w),
                    Some(w) => { if let Ok(v) = e.evaluate(&rw.whole, &rw.ws) { ck!(same_val(&v, &w), "{} not {}", show(&v), show(&w)); } Ok(()) }
                    None => both_err(&rw, &e),
                }
            });
        } } }
    }
    c.done();
}

fn wide(a: &Value, b: &Value) -> usize { let w = |v: &Value| match v.get_val() { Val::TinyInt(_) => 0, Val::SmallInt(_) => 1, Val::Integer(_) => 2, _ => 3 }; w(a).max(w(b)) }
fn made(w: usize, i: i128) -> Option<Value> { match w { 0 => i8::try_from(i).ok().map(Value::new), 1 => i16::try_from(i).ok().map(Value::new), 2 => i32::try_from(i).ok().map(Value::new), _ => i64::try_from(i).ok().map(Value::new) } }
/// a op b on two numbers; None where it has no value
fn number(op: usize, a: &Value, b: &Value) -> Option<Value> {
    if let (Some(x), Some(y)) = (int(a), int(b)) {
        if op == 3 && y == 0 { return None; }
        return made(wide(a, b), match op { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y });
    }
    if matches!(a.get_val(), Val::Decimal(_)) || matches!(b.get_val(), Val::Decimal(_)) {
        let (x, y) = (f64v(a), f64v(b));
        if op == 3 && y == 0.0 { return None; }
        Some(Value::new(match op { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y }))
    } else {
        let (x, y) = (f32v(a), f32v(b));
        if op == 3 && y == 0.0 { return None; }
        Some(Value::new(match op { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y }))
    }
}
