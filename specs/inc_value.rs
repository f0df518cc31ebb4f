// f32 and f64 as opaque values: comparison, conversion and the canonical bit
// pattern are uninterpreted functions, constrained only by what IEEE 754 says
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F64 { x: f64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F32 { x: f32 }
pub uninterp spec fn cmp64(a: F64, b: F64) -> Option<Ordering>;
pub uninterp spec fn cmp32(a: F32, b: F32) -> Option<Ordering>;
pub uninterp spec fn int64(i: int) -> F64;
pub uninterp spec fn int32(i: int) -> F32;
pub uninterp spec fn widen(f: F32) -> F64;
pub uninterp spec fn narrow(f: F64) -> F32;
pub uninterp spec fn raw64(f: F64) -> u64;
pub uninterp spec fn raw32(f: F32) -> u32;
pub uninterp spec fn zero64() -> F64;
pub uninterp spec fn zero32() -> F32;
pub uninterp spec fn qnan64() -> F64;
pub uninterp spec fn qnan32() -> F32;
// one bit pattern for the two zeros, one for all the NaNs
pub open spec fn bits64(f: F64) -> u64 {
    if cmp64(f, zero64()) == Some(Ordering::Equal) { raw64(zero64()) } else if nan64(f) { raw64(qnan64()) } else { raw64(f) }
}
pub open spec fn bits32(f: F32) -> u32 {
    if cmp32(f, zero32()) == Some(Ordering::Equal) { raw32(zero32()) } else if nan32(f) { raw32(qnan32()) } else { raw32(f) }
}
pub uninterp spec fn nan64(f: F64) -> bool;
pub uninterp spec fn nan32(f: F32) -> bool;
pub open spec fn flip(o: Option<Ordering>) -> Option<Ordering> {
    match o { Some(Ordering::Less) => Some(Ordering::Greater), Some(Ordering::Greater) => Some(Ordering::Less), _ => o }
}
pub axiom fn flip64(a: F64, b: F64) ensures cmp64(a, b) == flip(cmp64(b, a));
pub axiom fn ieee64()
    ensures
        forall|a: F64, b: F64| (#[trigger] cmp64(a, b)).is_none() == (nan64(a) || nan64(b)),
        nan64(qnan64()), !nan64(zero64()),
        forall|a: F64, b: F64| (#[trigger] raw64(a) == #[trigger] raw64(b)) == (a == b),
        forall|a: F64, b: F64| #[trigger] cmp64(a, b) == Some(Ordering::Equal) && a != b ==> cmp64(a, zero64()) == Some(Ordering::Equal),
        forall|a: F64| !#[trigger] nan64(a) ==> cmp64(a, a) == Some(Ordering::Equal);
pub axiom fn flip32(a: F32, b: F32) ensures cmp32(a, b) == flip(cmp32(b, a));
pub axiom fn ieee32()
    ensures
        forall|a: F32, b: F32| (#[trigger] cmp32(a, b)).is_none() == (nan32(a) || nan32(b)),
        nan32(qnan32()), !nan32(zero32()),
        forall|a: F32, b: F32| (#[trigger] raw32(a) == #[trigger] raw32(b)) == (a == b),
        forall|a: F32, b: F32| #[trigger] cmp32(a, b) == Some(Ordering::Equal) && a != b ==> cmp32(a, zero32()) == Some(Ordering::Equal),
        forall|a: F32| !#[trigger] nan32(a) ==> cmp32(a, a) == Some(Ordering::Equal);
impl vstd::std_specs::cmp::PartialEqSpecImpl for F64 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F64) -> bool { cmp64(*self, *o) == Some(Ordering::Equal) }
}
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> bool { self.x == o.x } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F64 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F64) -> Option<Ordering> { cmp64(*self, *o) }
}
impl PartialOrd for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> Option<Ordering> { self.x.partial_cmp(&o.x) } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for F32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F32) -> bool { cmp32(*self, *o) == Some(Ordering::Equal) }
}
impl PartialEq for F32 { #[verifier::external_body] fn eq(&self, o: &F32) -> bool { self.x == o.x } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F32 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F32) -> Option<Ordering> { cmp32(*self, *o) }
}
impl PartialOrd for F32 { #[verifier::external_body] fn partial_cmp(&self, o: &F32) -> Option<Ordering> { self.x.partial_cmp(&o.x) } }
// what `x as f64` and `x as f32` give
pub trait AsFloat: Sized {
    spec fn s64(self) -> F64;
    spec fn s32(self) -> F32;
    fn as64(self) -> (r: F64) ensures r == self.s64();
    fn as32(self) -> (r: F32) ensures r == self.s32();
}
impl AsFloat for i8 {
    open spec fn s64(self) -> F64 { int64(self as int) }
    open spec fn s32(self) -> F32 { int32(self as int) }
    #[verifier::external_body] fn as64(self) -> F64 { F64 { x: self as f64 } }
    #[verifier::external_body] fn as32(self) -> F32 { F32 { x: self as f32 } }
}
impl AsFloat for i16 {
    open spec fn s64(self) -> F64 { int64(self as int) }
    open spec fn s32(self) -> F32 { int32(self as int) }
    #[verifier::external_body] fn as64(self) -> F64 { F64 { x: self as f64 } }
    #[verifier::external_body] fn as32(self) -> F32 { F32 { x: self as f32 } }
}
impl AsFloat for i32 {
    open spec fn s64(self) -> F64 { int64(self as int) }
    open spec fn s32(self) -> F32 { int32(self as int) }
    #[verifier::external_body] fn as64(self) -> F64 { F64 { x: self as f64 } }
    #[verifier::external_body] fn as32(self) -> F32 { F32 { x: self as f32 } }
}
impl AsFloat for i64 {
    open spec fn s64(self) -> F64 { int64(self as int) }
    open spec fn s32(self) -> F32 { int32(self as int) }
    #[verifier::external_body] fn as64(self) -> F64 { F64 { x: self as f64 } }
    #[verifier::external_body] fn as32(self) -> F32 { F32 { x: self as f32 } }
}
impl AsFloat for u64 {
    open spec fn s64(self) -> F64 { int64(self as int) }
    open spec fn s32(self) -> F32 { int32(self as int) }
    #[verifier::external_body] fn as64(self) -> F64 { F64 { x: self as f64 } }
    #[verifier::external_body] fn as32(self) -> F32 { F32 { x: self as f32 } }
}
impl AsFloat for usize {
    open spec fn s64(self) -> F64 { int64(self as int) }
    open spec fn s32(self) -> F32 { int32(self as int) }
    #[verifier::external_body] fn as64(self) -> F64 { F64 { x: self as f64 } }
    #[verifier::external_body] fn as32(self) -> F32 { F32 { x: self as f32 } }
}
impl AsFloat for F32 {
    open spec fn s64(self) -> F64 { widen(self) }
    open spec fn s32(self) -> F32 { self }
    #[verifier::external_body] fn as64(self) -> F64 { F64 { x: self.x as f64 } }
    #[verifier::external_body] fn as32(self) -> F32 { self }
}
impl AsFloat for F64 {
    open spec fn s64(self) -> F64 { self }
    open spec fn s32(self) -> F32 { narrow(self) }
    #[verifier::external_body] fn as64(self) -> F64 { self }
    #[verifier::external_body] fn as32(self) -> F32 { F32 { x: self.x as f32 } }
}
//@rewrite /(\*?\b\w+) as f64\b/(\1).as64()/
//@rewrite /(\*?\b\w+) as f32\b/(\1).as32()/
//@rewrite /\bf64\b/F64/
//@rewrite /\bf32\b/F32/
//@enum ty TypeId attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@enum types CmpBool attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]
//@enum val Val
//@enum val Size
//@struct val Value
impl CmpBool {
//@fn types CmpBool::from
ensures res == tri(b),
//@endfn
// `expr.into()` on a bool
}
pub open spec fn tri(b: bool) -> CmpBool { if b { CmpBool::CmpTrue } else { CmpBool::CmpFalse } }
// text and bytes: ordered totally by their contents
pub uninterp spec fn text_cmp(a: Seq<char>, b: Seq<char>) -> Ordering;
pub uninterp spec fn bytes_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering;
pub open spec fn back(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal }
}
pub axiom fn text_order(a: Seq<char>, b: Seq<char>) ensures text_cmp(a, b) == back(text_cmp(b, a)), (text_cmp(a, b) == Ordering::Equal) == (a == b);
pub axiom fn bytes_order(a: Seq<u8>, b: Seq<u8>) ensures bytes_cmp(a, b) == back(bytes_cmp(b, a)), (bytes_cmp(a, b) == Ordering::Equal) == (a == b);
pub open spec fn icmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn bcmp(a: bool, b: bool) -> Ordering { icmp(if a { 1int } else { 0 }, if b { 1int } else { 0 }) }
pub open spec fn is_int(v: Val) -> bool { v is TinyInt || v is SmallInt || v is Integer || v is BigInt }
pub open spec fn is_num(v: Val) -> bool { is_int(v) || v is Decimal || v is Float }
pub open spec fn ival(v: Val) -> int {
    match v { Val::TinyInt(i) => i as int, Val::SmallInt(i) => i as int, Val::Integer(i) => i as int, Val::BigInt(i) => i as int, _ => 0 }
}
pub open spec fn f64of(v: Val) -> F64 { match v { Val::Decimal(f) => f, Val::Float(f) => widen(f), _ => int64(ival(v)) } }
pub open spec fn f32of(v: Val) -> F32 { match v { Val::Float(f) => f, Val::Decimal(f) => narrow(f), _ => int32(ival(v)) } }
// two numbers compare in the widest of the two types: exactly for integers
pub open spec fn num_cmp(a: Val, b: Val) -> Option<Ordering> {
    if is_int(a) && is_int(b) { Some(icmp(ival(a), ival(b))) }
    else if a is Decimal || b is Decimal { cmp64(f64of(a), f64of(b)) }
    else { cmp32(f32of(a), f32of(b)) }
}
pub open spec fn rank(v: Val) -> int {
    match v {
        Val::Boolean(_) => 0, Val::TinyInt(_) => 1, Val::SmallInt(_) => 2, Val::Integer(_) => 3, Val::BigInt(_) => 4,
        Val::Decimal(_) => 5, Val::Float(_) => 6, Val::Timestamp(_) => 7, Val::Date(_) => 8, Val::Time(_) => 9, Val::Interval(_) => 10,
        Val::VarLen(_) => 11, Val::ConstLen(_) => 12, Val::Binary(_) => 13, Val::JSON(_) => 14, Val::UUID(_) => 15,
        Val::Vector(_) => 16, Val::Array(_) => 17, Val::Enum(_, _) => 18, Val::Point(_, _) => 19, Val::Null => 20, Val::Struct => 21,
    }
}
pub open spec fn type_rank(t: TypeId) -> int {
    match t {
        TypeId::Boolean => 0, TypeId::TinyInt => 1, TypeId::SmallInt => 2, TypeId::Integer => 3, TypeId::BigInt => 4,
        TypeId::Decimal => 5, TypeId::Float => 6, TypeId::Timestamp => 7, TypeId::Date => 8, TypeId::Time => 9, TypeId::Interval => 10,
        TypeId::VarChar => 11, TypeId::Char => 12, TypeId::Binary => 13, TypeId::JSON => 14, TypeId::UUID => 15,
        TypeId::Vector => 16, TypeId::Array => 17, TypeId::Enum => 18, TypeId::Point => 19, TypeId::Invalid => 20, TypeId::Struct => 21,
    }
}
pub open spec fn then(a: Option<Ordering>, b: Option<Ordering>) -> Option<Ordering> { if a == Some(Ordering::Equal) { b } else { a } }
// what #[derive(PartialEq)] on Val means
pub open spec fn val_eq(a: Val, b: Val) -> bool decreases a {
    match (a, b) {
        (Val::Boolean(x), Val::Boolean(y)) => x == y,
        (Val::TinyInt(x), Val::TinyInt(y)) => x == y,
        (Val::SmallInt(x), Val::SmallInt(y)) => x == y,
        (Val::Integer(x), Val::Integer(y)) => x == y,
        (Val::BigInt(x), Val::BigInt(y)) => x == y,
        (Val::Decimal(x), Val::Decimal(y)) => cmp64(x, y) == Some(Ordering::Equal),
        (Val::Float(x), Val::Float(y)) => cmp32(x, y) == Some(Ordering::Equal),
        (Val::Timestamp(x), Val::Timestamp(y)) => x == y,
        (Val::Date(x), Val::Date(y)) => x == y,
        (Val::Time(x), Val::Time(y)) => x == y,
        (Val::Interval(x), Val::Interval(y)) => x == y,
        (Val::VarLen(x), Val::VarLen(y)) => x@ == y@,
        (Val::ConstLen(x), Val::ConstLen(y)) => x@ == y@,
        (Val::Binary(x), Val::Binary(y)) => x@ == y@,
        (Val::JSON(x), Val::JSON(y)) => x@ == y@,
        (Val::UUID(x), Val::UUID(y)) => x@ == y@,
        (Val::Vector(x), Val::Vector(y)) => vec_eq(x, y),
        (Val::Array(x), Val::Array(y)) => vec_eq(x, y),
        (Val::Enum(i, x), Val::Enum(j, y)) => i == j && x@ == y@,
        (Val::Point(x, y), Val::Point(u, v)) => cmp64(x, u) == Some(Ordering::Equal) && cmp64(y, v) == Some(Ordering::Equal),
        (Val::Null, Val::Null) => true,
        (Val::Struct, Val::Struct) => true,
        _ => false,
    }
}
pub open spec fn vec_eq(a: Vec<Value>, b: Vec<Value>) -> bool decreases a {
    a@.len() == b@.len() && forall|i: int| #![trigger a@[i]] #![trigger b@[i]] 0 <= i < a@.len() ==> value_eq(a@[i], b@[i])
}
pub open spec fn opt_eq(a: Option<Vec<Value>>, b: Option<Vec<Value>>) -> bool decreases a {
    match (a, b) { (Some(x), Some(y)) => vec_eq(x, y), (None, None) => true, _ => false }
}
// equality for grouping, DISTINCT and joins: NULLs are one value, and so are the NaNs and the two zeros
pub open spec fn value_eq(a: Value, b: Value) -> bool decreases a {
    if a.value_ is Null && b.value_ is Null { true }
    else if a.type_id_ != b.type_id_ { false }
    else {
        match (a.value_, b.value_) {
            (Val::Decimal(x), Val::Decimal(y)) => bits64(x) == bits64(y),
            (Val::Float(x), Val::Float(y)) => bits32(x) == bits32(y),
            (Val::Point(x, y), Val::Point(u, v)) => bits64(x) == bits64(u) && bits64(y) == bits64(v),
            (Val::Struct, Val::Struct) => opt_eq(a.struct_data, b.struct_data),
            _ => val_eq(a.value_, b.value_),
        }
    }
}
// what #[derive(PartialOrd)] on Val means
pub open spec fn val_cmp(a: Val, b: Val) -> Option<Ordering> decreases a {
    match (a, b) {
        (Val::Boolean(x), Val::Boolean(y)) => Some(bcmp(x, y)),
        (Val::TinyInt(x), Val::TinyInt(y)) => Some(icmp(x as int, y as int)),
        (Val::SmallInt(x), Val::SmallInt(y)) => Some(icmp(x as int, y as int)),
        (Val::Integer(x), Val::Integer(y)) => Some(icmp(x as int, y as int)),
        (Val::BigInt(x), Val::BigInt(y)) => Some(icmp(x as int, y as int)),
        (Val::Decimal(x), Val::Decimal(y)) => cmp64(x, y),
        (Val::Float(x), Val::Float(y)) => cmp32(x, y),
        (Val::Timestamp(x), Val::Timestamp(y)) => Some(icmp(x as int, y as int)),
        (Val::Date(x), Val::Date(y)) => Some(icmp(x as int, y as int)),
        (Val::Time(x), Val::Time(y)) => Some(icmp(x as int, y as int)),
        (Val::Interval(x), Val::Interval(y)) => Some(icmp(x as int, y as int)),
        (Val::VarLen(x), Val::VarLen(y)) => Some(text_cmp(x@, y@)),
        (Val::ConstLen(x), Val::ConstLen(y)) => Some(text_cmp(x@, y@)),
        (Val::Binary(x), Val::Binary(y)) => Some(bytes_cmp(x@, y@)),
        (Val::JSON(x), Val::JSON(y)) => Some(text_cmp(x@, y@)),
        (Val::UUID(x), Val::UUID(y)) => Some(text_cmp(x@, y@)),
        (Val::Vector(x), Val::Vector(y)) => vec_cmp(x, y, 0),
        (Val::Array(x), Val::Array(y)) => vec_cmp(x, y, 0),
        (Val::Enum(i, x), Val::Enum(j, y)) => then(Some(icmp(i as int, j as int)), Some(text_cmp(x@, y@))),
        (Val::Point(x, y), Val::Point(u, v)) => then(cmp64(x, u), cmp64(y, v)),
        (Val::Null, Val::Null) => Some(Ordering::Equal),
        (Val::Struct, Val::Struct) => Some(Ordering::Equal),
        _ => Some(icmp(rank(a), rank(b))),
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Val {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Val) -> bool { val_eq(*self, *o) }
}
impl PartialEq for Val { #[verifier::external_body] fn eq(&self, o: &Val) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Val {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Val) -> Option<Ordering> { val_cmp(*self, *o) }
}
impl PartialOrd for Val { #[verifier::external_body] fn partial_cmp(&self, o: &Val) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for TypeId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &TypeId) -> Option<Ordering> { Some(icmp(type_rank(*self), type_rank(*o))) }
}
impl PartialOrd for TypeId { #[verifier::external_body] fn partial_cmp(&self, o: &TypeId) -> Option<Ordering> { unimplemented!() } }
// Option's and Vec's own == and partial_cmp, element by element
#[verifier::external_body]
pub fn opt_same(a: &Option<Vec<Value>>, b: &Option<Vec<Value>>) -> (r: bool) ensures r == opt_eq(*a, *b) { unimplemented!() }
