// The row operators (LIMIT, OFFSET, DISTINCT, WHERE, ORDER BY, TOP-N) over scripted inputs, against lists.
#[macro_use] mod common;
use common::*;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::Catalog;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::exception::DBError;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::LockManager;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::concurrency::transaction_manager::TransactionManager;
use ferrite::sql::execution::execution_context::ExecutionContext;
use ferrite::sql::execution::executors::abstract_executor::AbstractExecutor;
use ferrite::sql::execution::executors::distinct_executor::DistinctExecutor;
use ferrite::sql::execution::executors::filter_executor::FilterExecutor;
use ferrite::sql::execution::executors::limit_executor::LimitExecutor;
use ferrite::sql::execution::executors::offset_executor::OffsetExecutor;
use ferrite::sql::execution::executors::sort_executor::SortExecutor;
use ferrite::sql::execution::executors::topn_executor::TopNExecutor;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::filter_plan::FilterNode;
use ferrite::sql::execution::plans::limit_plan::LimitNode;
use ferrite::sql::execution::plans::mock_scan_plan::MockScanNode;
use ferrite::sql::execution::plans::offset_plan::OffsetNode;
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection, SortNode};
use ferrite::sql::execution::plans::topn_plan::TopNNode;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use std::cmp::Ordering;
use std::sync::Arc;

type Ctxt = Arc<RwLock<ExecutionContext>>;
type Row = (Vec<Value>, RID);

fn context(dir: &str, rt: &tokio::runtime::Runtime) -> Ctxt {
    rt.block_on(async {
        let dm = Arc::new(AsyncDiskManager::new(format!("{dir}/r.db"), format!("{dir}/r.log"), DiskManagerConfig::default()).await.unwrap());
        let bpm = Arc::new(BufferPoolManager::new(16, dm, Arc::new(RwLock::new(LRUKReplacer::new(16, 2)))).unwrap());
        let tm = Arc::new(TransactionManager::new());
        let tc = Arc::new(TransactionContext::new(Arc::new(Transaction::new(0, IsolationLevel::ReadUncommitted)), Arc::new(LockManager::new()), tm.clone()));
        let cat = Arc::new(RwLock::new(Catalog::new(bpm.clone(), tm)));
        Arc::new(RwLock::new(ExecutionContext::new(bpm, cat, tc)))
    })
}

/// the executor below: these rows, then the end or an error
struct Script { rows: Vec<(Arc<Tuple>, RID)>, fails: bool, at: usize, schema: Schema, ctx: Ctxt }
impl AbstractExecutor for Script {
    fn init(&mut self) {}
    fn next(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
        if self.at < self.rows.len() { self.at += 1; return Ok(Some(self.rows[self.at - 1].clone())); }
        if self.fails { Err(DBError::Execution("scripted".into())) } else { Ok(None) }
    }
    fn get_output_schema(&self) -> &Schema { &self.schema }
    fn get_executor_context(&self) -> Ctxt { self.ctx.clone() }
}
fn script(rows: &[Row], fails: bool, schema: &Schema, ctx: &Ctxt) -> Box<dyn AbstractExecutor> {
    Box::new(Script { rows: rows.iter().map(|(v, r)| (Arc::new(Tuple::new(v, schema, *r)), *r)).collect(), fails, at: 0, schema: schema.clone(), ctx: ctx.clone() })
}
/// all that an executor gives, and whether it ended in an error
fn collect(e: &mut dyn AbstractExecutor, at_most: usize) -> Result<(Vec<Row>, bool), String> {
    e.init();
    let mut out = vec![];
    loop {
        match e.next() {
            Ok(Some((t, r))) => out.push((t.get_values().to_vec(), r)),
            Ok(None) => { ck!(matches!(e.next(), Ok(None)), "a row after the end"); return Ok((out, false)); }
            Err(_) => return Ok((out, true)),
        }
        ck!(out.len() <= at_most, "more rows than its input has");
    }
}
fn same(got: &(Vec<Row>, bool), want: &(Vec<Row>, bool)) -> Res {
    let ids = |x: &[Row]| x.iter().map(|(_, r)| r.get_slot_num()).collect::<Vec<_>>();
    ck!(ids(&got.0) == ids(&want.0), "rows {:?}, not {:?}", ids(&got.0), ids(&want.0));
    ck!(got.1 == want.1, "{} instead of {}", if got.1 { "an error" } else { "an end" }, if want.1 { "the error" } else { "the end" });
    for (g, w) in got.0.iter().zip(&want.0) { ck!(format!("{:?}", g.0) == format!("{:?}", w.0), "a row came out changed"); }
    Ok(())
}

/// the order of two values of one column: NULL first, NaN last
fn order(a: &Value, b: &Value) -> Ordering {
    match (a.get_val(), b.get_val()) {
        (Val::Null, Val::Null) => Ordering::Equal,
        (Val::Null, _) => Ordering::Less,
        (_, Val::Null) => Ordering::Greater,
        (Val::Boolean(x), Val::Boolean(y)) => x.cmp(y),
        (Val::SmallInt(x), Val::SmallInt(y)) => x.cmp(y),
        (Val::Integer(x), Val::Integer(y)) => x.cmp(y),
        (Val::BigInt(x), Val::BigInt(y)) => x.cmp(y),
        (Val::Decimal(x), Val::Decimal(y)) => x.partial_cmp(y).unwrap_or_else(|| x.is_nan().cmp(&y.is_nan())),
        (Val::Float(x), Val::Float(y)) => x.partial_cmp(y).unwrap_or_else(|| x.is_nan().cmp(&y.is_nan())),
        (Val::VarLen(x), Val::VarLen(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Val::Binary(x), Val::Binary(y)) => x.cmp(y),
        _ => unreachable!(),
    }
}
const TYPES: [TypeId; 8] = [TypeId::Integer, TypeId::Decimal, TypeId::VarChar, TypeId::Boolean, TypeId::SmallInt, TypeId::BigInt, TypeId::Float, TypeId::Binary];
fn value(g: &mut Rng, t: TypeId, few: bool, nan: bool, null: bool) -> Value {
    if null && g.chance(1, 6) { return Value::new(Val::Null); }
    let e = if few { g.range(-1, 3) } else { g.edge() };
    Value::new(match t {
        TypeId::Integer => Val::Integer(e as i32),
        TypeId::SmallInt => Val::SmallInt(e as i16),
        TypeId::BigInt => Val::BigInt(e),
        TypeId::Boolean => Val::Boolean(e & 1 == 1),
        TypeId::Decimal => Val::Decimal(if nan && g.chance(1, 5) { f64::NAN } else if g.chance(1, 5) { *g.pick(&[0.0, -0.0, 0.5, f64::INFINITY, f64::NEG_INFINITY]) } else { e as f64 }),
        TypeId::Float => Val::Float(if nan && g.chance(1, 5) { f32::NAN } else if g.chance(1, 5) { *g.pick(&[0.0, -0.0, 0.5, f32::INFINITY]) } else { e as f32 }),
        TypeId::VarChar => Val::VarLen(if few { g.pick(&["", "a", "b", "ab", "A", "é", "a\0", "\0"]).to_string() } else { format!("{e}") }),
        _ => Val::Binary((0..g.usize(4)).map(|_| *g.pick(&[0u8, 1, 2, 254, 255])).collect()),
    })
}
struct Input { types: Vec<TypeId>, schema: Schema, rows: Vec<Row>, fails: bool }
/// fixed: the types of the first columns
fn input(g: &mut Rng, fixed: &[TypeId], most: usize, nan: bool) -> Input {
    let mut types = fixed.to_vec();
    while types.is_empty() || (types.len() < 4 && g.bool()) { types.push(*g.pick(&TYPES)); }
    let schema = Schema::new(types.iter().enumerate().map(|(i, t)| Column::new(&format!("c{i}"), *t)).collect());
    let (few, null) = (g.chance(2, 3), g.chance(2, 3));
    let n = g.usize(most + 1);
    let mut rows: Vec<Row> = vec![];
    for i in 0..n {
        let v = if i > 0 && g.chance(1, 5) { rows[g.usize(i)].0.clone() } else { types.iter().map(|t| value(g, *t, few, nan, null)).collect() };
        rows.push((v, RID::new(1, i as u32)));
    }
    Input { types, schema, rows, fails: g.chance(1, 4) }
}
fn show(i: &Input) -> String { format!("{:?}{}", i.rows.iter().map(|(v, _)| v.iter().map(|x| x.get_val().clone()).collect::<Vec<_>>()).collect::<Vec<_>>(), if i.fails { " then an error" } else { "" }) }

fn column(i: usize, t: TypeId) -> Arc<Expression> { Arc::new(Expression::ColumnRef(ColumnRefExpression::new(0, i, Column::new(&format!("c{i}"), t), vec![]))) }
fn constant(v: Value) -> Arc<Expression> { let t = v.get_type_id(); Arc::new(Expression::Constant(ConstantExpression::new(v, Column::new("k", t), vec![]))) }
/// 10 / column: an error where the column is 0
fn ten_over(i: usize) -> Arc<Expression> { Arc::new(Expression::Arithmetic(ArithmeticExpression::new(ArithmeticOp::Divide, vec![constant(Value::new(10)), column(i, TypeId::Integer)]))) }
fn as_int(v: &Value) -> Option<i32> { match v.get_val() { Val::Integer(x) => Some(*x), _ => None } }

/// keys of every row, or None where evaluating one fails (kind 1: 10 / column 0)
fn keys(i: &Input, cols: &[usize], over: bool) -> Vec<Option<Vec<Value>>> {
    i.rows.iter().map(|(v, _)| {
        let mut k: Vec<Value> = vec![];
        if over { match as_int(&v[0]) { Some(0) | None => return None, Some(x) => k.push(Value::new(10 / x)) } }
        for c in cols { k.push(v[*c].clone()); }
        Some(k)
    }).collect()
}
fn no_nulls(i: &mut Input) { for (v, _) in i.rows.iter_mut() { if v[0].is_null() { v[0] = Value::new(1); } } }

fn main() {
    let mut c = Ctx::new();
    let dir = format!("{}/rows.{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let ctx = context(&dir, &rt);
    let ctx = &ctx;
    if c.group("limit") {
        for seed in 0..c.n(15000) {
            let mut g = Rng::new(c.seed * 1_000_003 + seed);
            let i = input(&mut g, &[], 12, true);
            let k = match g.below(4) { 0 => 0, 1 => usize::MAX - g.usize(2), _ => g.usize(15) };
            c.case(format!("LIMIT {k} of {}", show(&i)), || {
                let n = i.rows.len().min(k);
                let mut e = LimitExecutor::new(script(&i.rows, i.fails, &i.schema, ctx), ctx.clone(), Arc::new(LimitNode::new(k, i.schema.clone(), vec![])));
                same(&collect(&mut e, i.rows.len())?, &(i.rows[..n].to_vec(), i.fails && k > i.rows.len()))
            });
            c.case(format!("OFFSET {k} of {}", show(&i)), || {
                let n = i.rows.len().min(k);
                let mut e = OffsetExecutor::new(script(&i.rows, i.fails, &i.schema, ctx), ctx.clone(), Arc::new(OffsetNode::new(k, i.schema.clone(), vec![])));
                same(&collect(&mut e, i.rows.len())?, &(i.rows[n..].to_vec(), i.fails))
            });
        }
    }
    if c.group("distinct") {
        for seed in 0..c.n(15000) {
            let mut g = Rng::new(c.seed * 1_000_033 + seed);
            let i = input(&mut g, &[], 16, true);
            c.case(format!("DISTINCT of {}", show(&i)), || {
                let mut want: Vec<Row> = vec![];
                for r in &i.rows {
                    if !want.iter().any(|w| w.0.iter().zip(&r.0).all(|(a, b)| order(a, b) == Ordering::Equal)) { want.push(r.clone()); }
                }
                let mut e = DistinctExecutor::new(i.schema.clone(), script(&i.rows, i.fails, &i.schema, ctx));
                same(&collect(&mut e, i.rows.len())?, &(want, i.fails))
            });
        }
    }
    if c.group("filter") {
        for seed in 0..c.n(15000) {
            let mut g = Rng::new(c.seed * 1_000_037 + seed);
            let mut i = input(&mut g, &[TypeId::Integer, TypeId::Boolean], 12, true);
            let kind = g.below(5);
            if kind == 1 { no_nulls(&mut i); }
            let k = g.range(-2, 4) as i32;
            let cmp = |e: Arc<Expression>| Arc::new(Expression::Comparison(ComparisonExpression::new(e, constant(Value::new(k)), ComparisonType::LessThan, vec![])));
            let (name, cond) = match kind {
                0 => (format!("c0 < {k}"), cmp(column(0, TypeId::Integer))),
                1 => (format!("10 / c0 < {k}"), cmp(ten_over(0))),
                2 => ("c1".into(), column(1, TypeId::Boolean)),
                3 => ("NULL".into(), constant(Value::new(Val::Null))),
                _ => (format!("{}", k > 0), constant(Value::new(k > 0))),
            };
            c.case(format!("WHERE {name} of {}", show(&i)), || {
                let mut want = (vec![], i.fails);
                for r in &i.rows {
                    let pass = match kind {
                        0 => as_int(&r.0[0]).is_some_and(|x| x < k),
                        1 => match as_int(&r.0[0]) { Some(0) | None => { want.1 = true; break; } Some(x) => 10 / x < k },
                        2 => matches!(r.0[1].get_val(), Val::Boolean(true)),
                        3 => false,
                        _ => k > 0,
                    };
                    if pass { want.0.push(r.clone()); }
                }
                let mut e = FilterExecutor::new(script(&i.rows, i.fails, &i.schema, ctx), ctx.clone(), Arc::new(FilterNode::new_where(i.schema.clone(), 0, "t".into(), cond.clone(), vec![])));
                same(&collect(&mut e, i.rows.len())?, &want)
            });
        }
    }
    let order_keys = |a: &[Value], b: &[Value], desc: &[bool]| a.iter().zip(b).zip(desc).map(|((x, y), d)| if *d { order(x, y).reverse() } else { order(x, y) }).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal);
    let each_once = |got: &[Row], rows: &[Row]| -> Res {
        let mut seen = vec![false; rows.len()];
        for (v, r) in got {
            let s = r.get_slot_num() as usize;
            ck!(s < rows.len() && !seen[s], "row {s} twice");
            seen[s] = true;
            ck!(format!("{v:?}") == format!("{:?}", rows[s].0), "a row came out changed");
        }
        Ok(())
    };
    if c.group("sort") {
        for seed in 0..c.n(15000) {
            let mut g = Rng::new(c.seed * 1_000_039 + seed);
            let over = g.chance(1, 5);
            let most = if g.chance(1, 10) { 60 } else { 12 };
            let mut i = input(&mut g, if over { &[TypeId::Integer] } else { &[] }, most, true);
            if over { no_nulls(&mut i); }
            let cols: Vec<usize> = (0..g.usize(3)).map(|_| g.usize(i.types.len())).collect();
            let desc: Vec<bool> = (0..cols.len() + over as usize).map(|_| g.bool()).collect();
            c.case(format!("ORDER BY {}{cols:?} descending {desc:?} of {}", if over { "10 / c0, " } else { "" }, show(&i)), || {
                let ks = keys(&i, &cols, over);
                let mut by: Vec<Arc<Expression>> = if over { vec![ten_over(0)] } else { vec![] };
                by.extend(cols.iter().map(|x| column(*x, i.types[*x])));
                let specs = by.into_iter().zip(&desc).map(|(e, d)| OrderBySpec::new(e, if *d { OrderDirection::Desc } else { OrderDirection::Asc })).collect();
                let mut e = SortExecutor::new(script(&i.rows, i.fails, &i.schema, ctx), ctx.clone(), Arc::new(SortNode::new(i.schema.clone(), specs, vec![])));
                let (got, err) = collect(&mut e, i.rows.len())?;
                if i.fails || ks.iter().any(|k| k.is_none()) { ck!(err && got.is_empty(), "an error is lost, {} rows came", got.len()); return Ok(()); }
                ck!(!err, "an error that nothing caused");
                ck!(got.len() == i.rows.len(), "{} rows of {}", got.len(), i.rows.len());
                each_once(&got, &i.rows)?;
                for w in got.windows(2) {
                    let k = |r: &Row| ks[r.1.get_slot_num() as usize].clone().unwrap();
                    ck!(order_keys(&k(&w[0]), &k(&w[1]), &desc) != Ordering::Greater, "row {} comes before row {}", w[0].1.get_slot_num(), w[1].1.get_slot_num());
                }
                Ok(())
            });
        }
    }
    if c.group("topn") {
        for seed in 0..c.n(15000) {
            let mut g = Rng::new(c.seed * 1_000_081 + seed);
            let over = g.chance(1, 5);
            let most = if g.chance(1, 10) { 60 } else { 12 };
            let mut i = input(&mut g, &[TypeId::Integer], most, true);
            no_nulls(&mut i);
            // an input that fails: a condition below that cannot be evaluated on a row with a zero
            if i.fails { i.fails = i.rows.iter().any(|r| as_int(&r.0[0]) == Some(0)); }
            let k = if g.chance(1, 6) { 0 } else { g.usize(most + 3) };
            let cols: Vec<usize> = (0..g.usize(3)).map(|_| g.usize(i.types.len())).collect();
            c.case(format!("TOP {k} by {}{cols:?} of {}", if over { "10 / c0, " } else { "" }, show(&i)), || {
                let ks = keys(&i, &cols, over);
                let mut by: Vec<Arc<Expression>> = if over { vec![ten_over(0)] } else { vec![] };
                by.extend(cols.iter().map(|x| column(*x, i.types[*x])));
                let scan = PlanNode::MockScan(MockScanNode::new(i.schema.clone(), "t".into(), vec![]).with_tuples(i.rows.clone()));
                let below = if i.fails {
                    let cond = Arc::new(Expression::Comparison(ComparisonExpression::new(ten_over(0), constant(Value::new(1000)), ComparisonType::LessThan, vec![])));
                    PlanNode::Filter(FilterNode::new_where(i.schema.clone(), 0, "t".into(), cond, vec![scan]))
                } else { scan };
                let mut e = TopNExecutor::new(ctx.clone(), Arc::new(TopNNode::new(i.schema.clone(), by, k, vec![below])));
                let (got, err) = collect(&mut e, i.rows.len())?;
                if i.fails || ks.iter().any(|k| k.is_none()) { ck!(err && got.is_empty(), "an error is lost, {} rows came", got.len()); return Ok(()); }
                ck!(!err, "an error that nothing caused");
                each_once(&got, &i.rows)?;
                let desc = vec![true; cols.len() + over as usize];
                let mut want: Vec<Vec<Value>> = ks.iter().map(|k| k.clone().unwrap()).collect();
                want.sort_by(|a, b| order_keys(a, b, &desc));
                want.truncate(k);
                ck!(got.len() == want.len(), "{} rows instead of {}", got.len(), want.len());
                for (p, (r, w)) in got.iter().zip(&want).enumerate() {
                    let have = ks[r.1.get_slot_num() as usize].clone().unwrap();
                    ck!(order_keys(&have, w, &desc) == Ordering::Equal, "row {} at place {p}", r.1.get_slot_num());
                }
                Ok(())
            });
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    c.done();
}
