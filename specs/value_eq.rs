//@source val src/types_db/value.rs
//@source types src/types_db/types.rs
//@source ty src/types_db/type_id.rs
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
//@include inc_ordeq.rs
//@include inc_value.rs
//@include inc_value_total.rs
//@rewrite /\b0\.0F?64\b|\b0\.0f64\b/F64::zero()/
//@rewrite /\b0\.0F?32\b|\b0\.0f32\b/F32::zero()/
//@rewrite /F64::NAN/F64::nan()/
//@rewrite /F32::NAN/F32::nan()/
//@rewrite /\bself == other\b/self.eq(other)/
//@rewrite /<H: Hasher>//
//@rewrite /&mut H\b/&mut VpHasher/
//@rewrite /self\.struct_data == other\.struct_data/opt_same(&self.struct_data, &other.struct_data)/
//@rewrite /self\.struct_data\.partial_cmp\(&other\.struct_data\)/opt_order(&self.struct_data, &other.struct_data)/
impl F64 {
    #[verifier::external_body] pub fn zero() -> (r: F64) ensures r == zero64() { F64 { x: 0.0 } }
    #[verifier::external_body] pub fn nan() -> (r: F64) ensures r == qnan64() { F64 { x: f64::NAN } }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == nan64(self) { self.x.is_nan() }
    #[verifier::external_body] pub fn to_bits(self) -> (r: u64) ensures r == raw64(self) { self.x.to_bits() }
}
impl F32 {
    #[verifier::external_body] pub fn zero() -> (r: F32) ensures r == zero32() { F32 { x: 0.0 } }
    #[verifier::external_body] pub fn nan() -> (r: F32) ensures r == qnan32() { F32 { x: f32::NAN } }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == nan32(self) { self.x.is_nan() }
    #[verifier::external_body] pub fn to_bits(self) -> (r: u32) ensures r == raw32(self) { self.x.to_bits() }
}
#[verifier::external_body]
pub fn opt_order(a: &Option<Vec<Value>>, b: &Option<Vec<Value>>) -> (r: Option<Ordering>) ensures r == opt_cmp(*a, *b) { unimplemented!() }
//@fn val canonical_f32_bits
ensures res == bits32(v),
//@rewrite /v == 0\.0/v == F32::zero()/
//@endfn
//@fn val canonical_f64_bits
ensures res == bits64(v),
//@rewrite /v == 0\.0/v == F64::zero()/
//@endfn
pub assume_specification [<bool as Ord>::cmp] (a: &bool, b: &bool) -> (r: Ordering)
    ensures r == bcmp(*a, *b);
//@fn val order_f32
ensures res == ord32(a, b),
//@endfn
//@fn val order_f64
ensures res == ord64(a, b),
//@endfn
impl Value {
//@fn val Value::eq impl=~PartialEq
ensures res == value_eq(*self, *other),
//@endfn
//@fn val Value::partial_cmp
ensures res == value_cmp(*self, *other),
//@start
proof { ieee64(); ieee32(); }
//@endfn
}
// a Hasher is the sequence of items it was fed
pub enum Item { Flag(bool), Num(int), Kind(TypeId), Text(Seq<char>), Bytes(Seq<u8>) }
#[verifier::external_body]
pub struct VpHasher { x: u64 }
impl View for VpHasher { type V = Seq<Item>; uninterp spec fn view(&self) -> Seq<Item>; }
pub trait Feed {
    spec fn item(&self) -> Item;
    fn hash(&self, h: &mut VpHasher) ensures final(h)@ == old(h)@.push(self.item());
}
impl Feed for bool { open spec fn item(&self) -> Item { Item::Flag(*self) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for u8 { open spec fn item(&self) -> Item { Item::Num(*self as int) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for u32 { open spec fn item(&self) -> Item { Item::Num(*self as int) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for u64 { open spec fn item(&self) -> Item { Item::Num(*self as int) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for usize { open spec fn item(&self) -> Item { Item::Num(*self as int) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for i8 { open spec fn item(&self) -> Item { Item::Num(*self as int) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for i16 { open spec fn item(&self) -> Item { Item::Num(*self as int) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for i32 { open spec fn item(&self) -> Item { Item::Num(*self as int) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for i64 { open spec fn item(&self) -> Item { Item::Num(*self as int) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for TypeId { open spec fn item(&self) -> Item { Item::Kind(*self) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for String { open spec fn item(&self) -> Item { Item::Text(self@) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
impl Feed for Vec<u8> { open spec fn item(&self) -> Item { Item::Bytes(self@) } #[verifier::external_body] fn hash(&self, h: &mut VpHasher) { } }
pub open spec fn one(i: Item) -> Seq<Item> { seq![i] }
// the items a value is hashed as
pub open spec fn fed(v: Value) -> Seq<Item> decreases v {
    if v.value_ is Null { one(Item::Num(0)) }
    else {
        one(Item::Kind(v.type_id_)) + match v.value_ {
            Val::Struct => match v.struct_data { Some(d) => one(Item::Num(d@.len() as int)) + fed_upto(d, d@.len()), None => one(Item::Num(0)) },
            Val::Boolean(b) => one(Item::Flag(b)),
            Val::TinyInt(i) => one(Item::Num(i as int)),
            Val::SmallInt(i) => one(Item::Num(i as int)),
            Val::Integer(i) => one(Item::Num(i as int)),
            Val::BigInt(i) => one(Item::Num(i as int)),
            Val::Decimal(f) => one(Item::Num(bits64(f) as int)),
            Val::Float(f) => one(Item::Num(bits32(f) as int)),
            Val::Timestamp(i) => one(Item::Num(i as int)),
            Val::Date(i) => one(Item::Num(i as int)),
            Val::Time(i) => one(Item::Num(i as int)),
            Val::Interval(i) => one(Item::Num(i as int)),
            Val::VarLen(s) => one(Item::Text(s@)),
            Val::ConstLen(s) => one(Item::Text(s@)),
            Val::Binary(b) => one(Item::Bytes(b@)),
            Val::JSON(s) => one(Item::Text(s@)),
            Val::UUID(s) => one(Item::Text(s@)),
            Val::Vector(d) => one(Item::Num(d@.len() as int)) + fed_upto(d, d@.len()),
            Val::Array(d) => one(Item::Num(d@.len() as int)) + fed_upto(d, d@.len()),
            Val::Enum(i, s) => one(Item::Num(i as int)).push(Item::Text(s@)),
            Val::Point(x, y) => one(Item::Num(bits64(x) as int)).push(Item::Num(bits64(y) as int)),
            Val::Null => Seq::empty(),
        }
    }
}
pub open spec fn fed_upto(d: Vec<Value>, n: nat) -> Seq<Item> decreases d, n {
    if n == 0 || n > d@.len() { Seq::empty() } else { fed_upto(d, (n - 1) as nat) + fed(d@[n - 1]) }
}
pub proof fn smaller(v: Value)
    ensures
        v.struct_data is Some ==> decreases_to!(v => v.struct_data->0),
        v.value_ is Vector ==> decreases_to!(v => v.value_->Vector_0),
        v.value_ is Array ==> decreases_to!(v => v.value_->Array_0),
{
    match v.struct_data { Some(d) => { assert(decreases_to!(v => d)); }, None => {} }
    match v.value_ { Val::Vector(d) => { assert(decreases_to!(v => d)); }, Val::Array(d) => { assert(decreases_to!(v => d)); }, _ => {} }
}
impl Value {
//@fn val Value::hash
ensures final(state)@ =~= old(state)@ + fed(*self),
decreases *self,
//@rewrite /for value in (\w+) \{/let mut vp_n: usize = 0; while vp_n < \1.len() { let value = &\1[vp_n]; proof { broadcast use vstd::std_specs::vec::group_vec_axioms; assert(decreases_to!(*\1 => \1@[vp_n as int])); smaller(*self); } vp_n += 1;/
//@start
let ghost base = state@;
//@loop 0
invariant 0 <= vp_n <= struct_data@.len(), self.value_ is Struct, self.struct_data == Some(*struct_data),
    state@ =~= base + one(Item::Kind(self.type_id_)) + one(Item::Num(struct_data@.len() as int)) + fed_upto(*struct_data, vp_n as nat),
decreases struct_data@.len() - vp_n,
//@loop 1
invariant 0 <= vp_n <= v@.len(), self.value_ == Val::Vector(*v) || self.value_ == Val::Array(*v),
    state@ =~= base + one(Item::Kind(self.type_id_)) + one(Item::Num(v@.len() as int)) + fed_upto(*v, vp_n as nat),
decreases v@.len() - vp_n,
//@endfn
}
//@include inc_value_order.rs
// == is an equivalence, and equal values are hashed alike
pub proof fn eq_refl(v: Value)
    ensures value_eq(v, v)
    decreases v
{
    smaller(v);
    match v.value_ {
        Val::Vector(d) => { vec_refl(d); },
        Val::Array(d) => { vec_refl(d); },
        Val::Struct => { match v.struct_data { Some(d) => { vec_refl(d); }, None => {} } },
        _ => {},
    }
}
pub proof fn vec_refl(d: Vec<Value>)
    ensures vec_eq(d, d)
    decreases d
{
    broadcast use vstd::std_specs::vec::group_vec_axioms;
    assert forall|i: int| 0 <= i < d@.len() implies value_eq(#[trigger] d@[i], d@[i]) by { eq_refl(d@[i]); }
}
pub proof fn eq_sym(a: Value, b: Value)
    requires value_eq(a, b)
    ensures value_eq(b, a)
    decreases a
{
    smaller(a);
    ieee64(); ieee32();
    match (a.value_, b.value_) {
        (Val::Vector(x), Val::Vector(y)) => { vec_sym(x, y); },
        (Val::Array(x), Val::Array(y)) => { vec_sym(x, y); },
        (Val::Struct, Val::Struct) => { match (a.struct_data, b.struct_data) { (Some(x), Some(y)) => { vec_sym(x, y); }, _ => {} } },
        _ => {},
    }
}
pub proof fn vec_sym(a: Vec<Value>, b: Vec<Value>)
    requires vec_eq(a, b)
    ensures vec_eq(b, a)
    decreases a
{
    broadcast use vstd::std_specs::vec::group_vec_axioms;
    assert forall|i: int| 0 <= i < b@.len() implies value_eq(#[trigger] b@[i], a@[i]) by { eq_sym(a@[i], b@[i]); }
}
pub proof fn eq_trans(a: Value, b: Value, c: Value)
    requires value_eq(a, b), value_eq(b, c)
    ensures value_eq(a, c)
    decreases a
{
    smaller(a);
    ieee64(); ieee32();
    match (a.value_, b.value_, c.value_) {
        (Val::Vector(x), Val::Vector(y), Val::Vector(z)) => { vec_trans(x, y, z); },
        (Val::Array(x), Val::Array(y), Val::Array(z)) => { vec_trans(x, y, z); },
        (Val::Struct, Val::Struct, Val::Struct) => { match (a.struct_data, b.struct_data, c.struct_data) { (Some(x), Some(y), Some(z)) => { vec_trans(x, y, z); }, _ => {} } },
        _ => {},
    }
}
pub proof fn vec_trans(a: Vec<Value>, b: Vec<Value>, c: Vec<Value>)
    requires vec_eq(a, b), vec_eq(b, c)
    ensures vec_eq(a, c)
    decreases a
{
    broadcast use vstd::std_specs::vec::group_vec_axioms;
    assert forall|i: int| 0 <= i < a@.len() implies value_eq(#[trigger] a@[i], c@[i]) by { let m = b@[i]; eq_trans(a@[i], b@[i], c@[i]); }
}
pub proof fn eq_hash(a: Value, b: Value)
    requires value_eq(a, b)
    ensures fed(a) == fed(b)
    decreases a
{
    smaller(a);
    match (a.value_, b.value_) {
        (Val::Vector(x), Val::Vector(y)) => { vec_hash(x, y, x@.len()); },
        (Val::Array(x), Val::Array(y)) => { vec_hash(x, y, x@.len()); },
        (Val::Struct, Val::Struct) => { match (a.struct_data, b.struct_data) { (Some(x), Some(y)) => { vec_hash(x, y, x@.len()); }, _ => {} } },
        _ => {},
    }
}
pub proof fn vec_hash(a: Vec<Value>, b: Vec<Value>, n: nat)
    requires vec_eq(a, b), n <= a@.len()
    ensures fed_upto(a, n) == fed_upto(b, n)
    decreases a, n
{
    broadcast use vstd::std_specs::vec::group_vec_axioms;
    if n > 0 { vec_hash(a, b, (n - 1) as nat); let m = b@[n - 1]; eq_hash(a@[n - 1], b@[n - 1]); }
}
// the order agrees with ==, and turning the question round turns the answer round
pub proof fn cmp_equal(a: Value, b: Value)
    requires shaped(a), shaped(b)
    ensures (value_cmp(a, b) == Some(Ordering::Equal)) == value_eq(a, b)
    decreases a
{
    smaller(a);
    ieee64(); ieee32();
    match (a.value_, b.value_) {
        (Val::Decimal(x), Val::Decimal(y)) => { flip64(x, y); },
        (Val::Float(x), Val::Float(y)) => { flip32(x, y); },
        (Val::Point(x, y), Val::Point(u, v)) => { flip64(x, u); flip64(y, v); },
        (Val::Enum(x, y), Val::Enum(u, v)) => { text_order(y@, v@); },
        (Val::VarLen(x), Val::VarLen(y)) => { text_order(x@, y@); },
        (Val::ConstLen(x), Val::ConstLen(y)) => { text_order(x@, y@); },
        (Val::JSON(x), Val::JSON(y)) => { text_order(x@, y@); },
        (Val::UUID(x), Val::UUID(y)) => { text_order(x@, y@); },
        (Val::Binary(x), Val::Binary(y)) => { bytes_order(x@, y@); },
        (Val::Vector(x), Val::Vector(y)) => { vec_cmp_equal(x, y, 0); },
        (Val::Array(x), Val::Array(y)) => { vec_cmp_equal(x, y, 0); },
        (Val::Struct, Val::Struct) => { match (a.struct_data, b.struct_data) { (Some(x), Some(y)) => { vec_cmp_equal(x, y, 0); }, _ => {} } },
        _ => {},
    }
}
pub open spec fn eq_from(a: Vec<Value>, b: Vec<Value>, n: nat) -> bool {
    a@.len() == b@.len() && forall|i: int| #![trigger a@[i]] #![trigger b@[i]] n <= i < a@.len() ==> value_eq(a@[i], b@[i])
}
pub proof fn vec_cmp_equal(a: Vec<Value>, b: Vec<Value>, n: nat)
    requires all_shaped(a), all_shaped(b)
    ensures n <= a@.len() && n <= b@.len() ==> (vec_cmp(a, b, n) == Some(Ordering::Equal)) == eq_from(a, b, n), n == 0 ==> eq_from(a, b, n) == vec_eq(a, b)
    decreases a, a@.len() - n
{
    broadcast use vstd::std_specs::vec::group_vec_axioms;
    if n < a@.len() && n < b@.len() {
        cmp_equal(a@[n as int], b@[n as int]);
        vec_cmp_equal(a, b, n + 1);
        assert(eq_from(a, b, n) ==> eq_from(a, b, n + 1));
        assert(eq_from(a, b, n + 1) && value_eq(a@[n as int], b@[n as int]) ==> eq_from(a, b, n));
    }
}
pub proof fn cmp_flip(a: Value, b: Value)
    requires shaped(a), shaped(b)
    ensures value_cmp(a, b) == flip(value_cmp(b, a))
    decreases a, 1int
{
    hide(val_eq); hide(vec_eq);
    smaller(a);
    if value_eq(a, b) { eq_sym(a, b); }
    if value_eq(b, a) { eq_sym(b, a); }
    if !(a.value_ is Null) && !(b.value_ is Null) && a.type_id_ == b.type_id_ {
        if let (Val::Struct, Val::Struct) = (a.value_, b.value_) {
            match (a.struct_data, b.struct_data) { (Some(x), Some(y)) => { vec_flip(x, y, 0); }, _ => {} }
        } else if let (Val::Decimal(x), Val::Decimal(y)) = (a.value_, b.value_) {
            flip64(x, y); ieee64();
        } else if let (Val::Float(x), Val::Float(y)) = (a.value_, b.value_) {
            flip32(x, y); ieee32();
        } else if let (Val::Point(x, y), Val::Point(u, v)) = (a.value_, b.value_) {
            flip64(x, u); flip64(y, v); ieee64();
        } else {
            val_flip(a, b);
        }
    }
}
pub proof fn val_flip(a: Value, b: Value)
    requires shaped(a), shaped(b), !(a.value_ is Null), !(b.value_ is Null)
    ensures val_cmp(a.value_, b.value_) == flip(val_cmp(b.value_, a.value_))
    decreases a, 0int
{
    hide(vec_eq); hide(value_eq); hide(val_eq);
    smaller(a);
    if rank(a.value_) != rank(b.value_) {
        other_flip(a.value_, b.value_);
    } else {
        match (a.value_, b.value_) {
            (Val::Vector(x), Val::Vector(y)) => { vec_flip(x, y, 0); },
            (Val::Array(x), Val::Array(y)) => { vec_flip(x, y, 0); },
            _ => { flat_flip(a.value_, b.value_); },
        }
    }
}
pub proof fn other_flip(a: Val, b: Val)
    requires rank(a) != rank(b)
    ensures val_cmp(a, b) == flip(val_cmp(b, a))
{
    hide(vec_cmp); hide(value_cmp);
    assert(val_cmp(a, b) == Some(icmp(rank(a), rank(b))));
    assert(val_cmp(b, a) == Some(icmp(rank(b), rank(a))));
}
pub proof fn flat_flip(a: Val, b: Val)
    requires rank(a) == rank(b), !(a is Vector), !(a is Array)
    ensures val_cmp(a, b) == flip(val_cmp(b, a))
{
    hide(vec_cmp); hide(value_cmp);
    match a {
        Val::Decimal(x) => { match b { Val::Decimal(y) => { flip64(x, y); assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Float(x) => { match b { Val::Float(y) => { flip32(x, y); assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Point(x, y) => { match b { Val::Point(u, v) => { flip64(x, u); flip64(y, v); assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Enum(x, y) => { match b { Val::Enum(u, v) => { text_order(y@, v@); assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Binary(x) => { match b { Val::Binary(y) => { bytes_order(x@, y@); assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::VarLen(x) => { match b { Val::VarLen(y) => { text_order(x@, y@); assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::ConstLen(x) => { match b { Val::ConstLen(y) => { text_order(x@, y@); assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::JSON(x) => { match b { Val::JSON(y) => { text_order(x@, y@); assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::UUID(x) => { match b { Val::UUID(y) => { text_order(x@, y@); assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Boolean(x) => { match b { Val::Boolean(y) => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::TinyInt(x) => { match b { Val::TinyInt(y) => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::SmallInt(x) => { match b { Val::SmallInt(y) => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Integer(x) => { match b { Val::Integer(y) => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::BigInt(x) => { match b { Val::BigInt(y) => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Timestamp(x) => { match b { Val::Timestamp(y) => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Date(x) => { match b { Val::Date(y) => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Time(x) => { match b { Val::Time(y) => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Interval(x) => { match b { Val::Interval(y) => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Null => { match b { Val::Null => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        Val::Struct => { match b { Val::Struct => {  assert(val_cmp(a, b) == flip(val_cmp(b, a))); }, _ => { assert(false); } } },
        _ => { assert(false); },
    }
}
pub proof fn vec_flip(a: Vec<Value>, b: Vec<Value>, n: nat)
    requires all_shaped(a), all_shaped(b)
    ensures vec_cmp(a, b, n) == flip(vec_cmp(b, a, n))
    decreases a, a@.len() - n
{
    broadcast use vstd::std_specs::vec::group_vec_axioms;
    if n < a@.len() && n < b@.len() {
        cmp_flip(a@[n as int], b@[n as int]);
        vec_flip(a, b, n + 1);
    }
}
//@assumed value_cmp
//@include inc_value_cmp.rs
//@proved
// ---- the six comparisons tell one story: a < b is b > a, a = b is b = a, and of a < b, a = b, a > b
// exactly one holds unless a NaN is involved
pub open spec fn scalar(v: Val) -> bool { !(v is Null) && !(v is Vector) && !(v is Array) && !(v is Struct) }
pub proof fn num_flip(a: Val, b: Val)
    requires is_num(a), is_num(b)
    ensures num_cmp(a, b) == flip(num_cmp(b, a))
{
    flip64(f64of(a), f64of(b)); flip32(f32of(a), f32of(b));
}
pub proof fn flat_same(a: Val, b: Val)
    requires scalar(a), scalar(b), rank(a) == rank(b)
    ensures val_eq(a, b) == (val_cmp(a, b) == Some(Ordering::Equal))
{
    match a {
        Val::Binary(x) => { match b { Val::Binary(y) => { bytes_order(x@, y@); }, _ => { assert(false); } } },
        Val::VarLen(x) => { match b { Val::VarLen(y) => { text_order(x@, y@); }, _ => { assert(false); } } },
        Val::ConstLen(x) => { match b { Val::ConstLen(y) => { text_order(x@, y@); }, _ => { assert(false); } } },
        Val::JSON(x) => { match b { Val::JSON(y) => { text_order(x@, y@); }, _ => { assert(false); } } },
        Val::UUID(x) => { match b { Val::UUID(y) => { text_order(x@, y@); }, _ => { assert(false); } } },
        Val::Enum(x, y) => { match b { Val::Enum(u, v) => { text_order(y@, v@); }, _ => { assert(false); } } },
        _ => {},
    }
}
pub proof fn one_story(a: Value, b: Value)
    requires shaped(a), shaped(b), scalar(a.value_), scalar(b.value_)
    ensures
        order(a, b) == flip(order(b, a)),
        same(a, b) == same(b, a),
        same(a, b) == (order(a, b) == Some(Ordering::Equal)),
{
    if is_num(a.value_) && is_num(b.value_) { num_flip(a.value_, b.value_); }
    else if a.type_id_ == b.type_id_ { flat_flip(a.value_, b.value_); flat_same(a.value_, b.value_); flat_same(b.value_, a.value_); }
}
pub open spec fn val_chained(a: Val, b: Val, c: Val) -> bool {
    links(val_cmp(a, b), val_cmp(b, a), val_cmp(b, c), val_cmp(c, b), val_cmp(a, c), val_cmp(c, a))
}
pub open spec fn vec_chained(a: Vec<Value>, b: Vec<Value>, c: Vec<Value>, n: nat) -> bool {
    links(vec_cmp(a, b, n), vec_cmp(b, a, n), vec_cmp(b, c, n), vec_cmp(c, b, n), vec_cmp(a, c, n), vec_cmp(c, a, n))
}
pub open spec fn text_chained(a: Seq<char>, b: Seq<char>, c: Seq<char>) -> bool {
    links(Some(text_cmp(a, b)), Some(text_cmp(b, a)), Some(text_cmp(b, c)), Some(text_cmp(c, b)), Some(text_cmp(a, c)), Some(text_cmp(c, a)))
}
pub open spec fn bytes_chained(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) -> bool {
    links(Some(bytes_cmp(a, b)), Some(bytes_cmp(b, a)), Some(bytes_cmp(b, c)), Some(bytes_cmp(c, b)), Some(bytes_cmp(a, c)), Some(bytes_cmp(c, a)))
}
// str, [u8], f32 and f64 are ordered transitively
pub axiom fn text_link(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures text_chained(a, b, c);
pub axiom fn bytes_link(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures bytes_chained(a, b, c);
pub axiom fn link64(a: F64, b: F64, c: F64) ensures link(cmp64(a, b), cmp64(b, c), cmp64(a, c));
pub axiom fn link32(a: F32, b: F32, c: F32) ensures link(cmp32(a, b), cmp32(b, c), cmp32(a, c));
pub proof fn chain64(a: F64, b: F64, c: F64)
    ensures links(Some(ord64(a, b)), Some(ord64(b, a)), Some(ord64(b, c)), Some(ord64(c, b)), Some(ord64(a, c)), Some(ord64(c, a)))
{
    ieee64();
    flip64(a, b); flip64(b, c); flip64(a, c);
    link64(a, b, c); link64(a, c, b); link64(b, a, c); link64(b, c, a); link64(c, a, b); link64(c, b, a);
}
pub proof fn chain32(a: F32, b: F32, c: F32)
    ensures links(Some(ord32(a, b)), Some(ord32(b, a)), Some(ord32(b, c)), Some(ord32(c, b)), Some(ord32(a, c)), Some(ord32(c, a)))
{
    ieee32();
    flip32(a, b); flip32(b, c); flip32(a, c);
    link32(a, b, c); link32(a, c, b); link32(b, a, c); link32(b, c, a); link32(c, a, b); link32(c, b, a);
}
pub open spec fn plain(v: Val) -> bool { scalar(v) && !(v is Decimal) && !(v is Float) && !(v is Point) }
pub open spec fn number(v: Val, x: int) -> bool {
    match v {
        Val::TinyInt(i) => i == x, Val::SmallInt(i) => i == x, Val::Integer(i) => i == x, Val::BigInt(i) => i == x,
        Val::Timestamp(i) => i == x, Val::Date(i) => i == x, Val::Time(i) => i == x, Val::Interval(i) => i == x, _ => false,
    }
}
pub open spec fn text(v: Val, x: Seq<char>) -> bool {
    match v { Val::VarLen(s) => s@ == x, Val::ConstLen(s) => s@ == x, Val::JSON(s) => s@ == x, Val::UUID(s) => s@ == x, _ => false }
}
pub proof fn by_number(a: Val, b: Val, x: int, y: int) requires number(a, x), number(b, y), rank(a) == rank(b) ensures val_cmp(a, b) == Some(icmp(x, y)) { }
pub proof fn by_text(a: Val, b: Val, x: Seq<char>, y: Seq<char>) requires text(a, x), text(b, y), rank(a) == rank(b) ensures val_cmp(a, b) == Some(text_cmp(x, y)) { }
pub proof fn by_bytes(a: Val, b: Val, x: Seq<u8>, y: Seq<u8>)
    requires a is Binary, b is Binary, a->Binary_0@ == x, b->Binary_0@ == y
    ensures val_cmp(a, b) == Some(bytes_cmp(x, y)) { }
pub proof fn by_flag(a: Val, b: Val) requires a is Boolean, b is Boolean ensures val_cmp(a, b) == Some(bcmp(a->Boolean_0, b->Boolean_0)) { }
pub proof fn by_enum(a: Val, b: Val)
    requires a is Enum, b is Enum
    ensures val_cmp(a, b) == then(Some(icmp(a->Enum_0 as int, b->Enum_0 as int)), Some(text_cmp(a->Enum_1@, b->Enum_1@))) { }
pub proof fn number_chain(x: int, y: int, z: int)
    ensures links(Some(icmp(x, y)), Some(icmp(y, x)), Some(icmp(y, z)), Some(icmp(z, y)), Some(icmp(x, z)), Some(icmp(z, x))) { }
pub proof fn plain_chain(a: Val, b: Val, c: Val)
    requires plain(a), plain(b), plain(c), rank(a) == rank(b), rank(b) == rank(c)
    ensures val_chained(a, b, c)
{
    hide(vec_cmp); hide(value_cmp); hide(val_cmp);
    match a {
        Val::TinyInt(x) => { match (b, c) { (Val::TinyInt(y), Val::TinyInt(z)) => { by_number(a, b, x as int, y as int); by_number(b, a, y as int, x as int); by_number(b, c, y as int, z as int); by_number(c, b, z as int, y as int); by_number(a, c, x as int, z as int); by_number(c, a, z as int, x as int); number_chain(x as int, y as int, z as int); }, _ => { assert(false); } } },
        Val::SmallInt(x) => { match (b, c) { (Val::SmallInt(y), Val::SmallInt(z)) => { by_number(a, b, x as int, y as int); by_number(b, a, y as int, x as int); by_number(b, c, y as int, z as int); by_number(c, b, z as int, y as int); by_number(a, c, x as int, z as int); by_number(c, a, z as int, x as int); number_chain(x as int, y as int, z as int); }, _ => { assert(false); } } },
        Val::Integer(x) => { match (b, c) { (Val::Integer(y), Val::Integer(z)) => { by_number(a, b, x as int, y as int); by_number(b, a, y as int, x as int); by_number(b, c, y as int, z as int); by_number(c, b, z as int, y as int); by_number(a, c, x as int, z as int); by_number(c, a, z as int, x as int); number_chain(x as int, y as int, z as int); }, _ => { assert(false); } } },
        Val::BigInt(x) => { match (b, c) { (Val::BigInt(y), Val::BigInt(z)) => { by_number(a, b, x as int, y as int); by_number(b, a, y as int, x as int); by_number(b, c, y as int, z as int); by_number(c, b, z as int, y as int); by_number(a, c, x as int, z as int); by_number(c, a, z as int, x as int); number_chain(x as int, y as int, z as int); }, _ => { assert(false); } } },
        Val::Timestamp(x) => { match (b, c) { (Val::Timestamp(y), Val::Timestamp(z)) => { by_number(a, b, x as int, y as int); by_number(b, a, y as int, x as int); by_number(b, c, y as int, z as int); by_number(c, b, z as int, y as int); by_number(a, c, x as int, z as int); by_number(c, a, z as int, x as int); number_chain(x as int, y as int, z as int); }, _ => { assert(false); } } },
        Val::Date(x) => { match (b, c) { (Val::Date(y), Val::Date(z)) => { by_number(a, b, x as int, y as int); by_number(b, a, y as int, x as int); by_number(b, c, y as int, z as int); by_number(c, b, z as int, y as int); by_number(a, c, x as int, z as int); by_number(c, a, z as int, x as int); number_chain(x as int, y as int, z as int); }, _ => { assert(false); } } },
        Val::Time(x) => { match (b, c) { (Val::Time(y), Val::Time(z)) => { by_number(a, b, x as int, y as int); by_number(b, a, y as int, x as int); by_number(b, c, y as int, z as int); by_number(c, b, z as int, y as int); by_number(a, c, x as int, z as int); by_number(c, a, z as int, x as int); number_chain(x as int, y as int, z as int); }, _ => { assert(false); } } },
        Val::Interval(x) => { match (b, c) { (Val::Interval(y), Val::Interval(z)) => { by_number(a, b, x as int, y as int); by_number(b, a, y as int, x as int); by_number(b, c, y as int, z as int); by_number(c, b, z as int, y as int); by_number(a, c, x as int, z as int); by_number(c, a, z as int, x as int); number_chain(x as int, y as int, z as int); }, _ => { assert(false); } } },
        Val::Boolean(x) => { match (b, c) { (Val::Boolean(y), Val::Boolean(z)) => { by_flag(a, b); by_flag(b, a); by_flag(b, c); by_flag(c, b); by_flag(a, c); by_flag(c, a); }, _ => { assert(false); } } },
        Val::Enum(x, y) => { match (b, c) { (Val::Enum(u, v), Val::Enum(s, t)) => { text_link(y@, v@, t@); number_chain(x as int, u as int, s as int); by_enum(a, b); by_enum(b, a); by_enum(b, c); by_enum(c, b); by_enum(a, c); by_enum(c, a); }, _ => { assert(false); } } },
        Val::Binary(x) => { match (b, c) { (Val::Binary(y), Val::Binary(z)) => { bytes_link(x@, y@, z@); by_bytes(a, b, x@, y@); by_bytes(b, a, y@, x@); by_bytes(b, c, y@, z@); by_bytes(c, b, z@, y@); by_bytes(a, c, x@, z@); by_bytes(c, a, z@, x@); }, _ => { assert(false); } } },
        Val::VarLen(x) => { match (b, c) { (Val::VarLen(y), Val::VarLen(z)) => { text_link(x@, y@, z@); by_text(a, b, x@, y@); by_text(b, a, y@, x@); by_text(b, c, y@, z@); by_text(c, b, z@, y@); by_text(a, c, x@, z@); by_text(c, a, z@, x@); }, _ => { assert(false); } } },
        Val::ConstLen(x) => { match (b, c) { (Val::ConstLen(y), Val::ConstLen(z)) => { text_link(x@, y@, z@); by_text(a, b, x@, y@); by_text(b, a, y@, x@); by_text(b, c, y@, z@); by_text(c, b, z@, y@); by_text(a, c, x@, z@); by_text(c, a, z@, x@); }, _ => { assert(false); } } },
        Val::JSON(x) => { match (b, c) { (Val::JSON(y), Val::JSON(z)) => { text_link(x@, y@, z@); by_text(a, b, x@, y@); by_text(b, a, y@, x@); by_text(b, c, y@, z@); by_text(c, b, z@, y@); by_text(a, c, x@, z@); by_text(c, a, z@, x@); }, _ => { assert(false); } } },
        Val::UUID(x) => { match (b, c) { (Val::UUID(y), Val::UUID(z)) => { text_link(x@, y@, z@); by_text(a, b, x@, y@); by_text(b, a, y@, x@); by_text(b, c, y@, z@); by_text(c, b, z@, y@); by_text(a, c, x@, z@); by_text(c, a, z@, x@); }, _ => { assert(false); } } },
        _ => { assert(false); },
    }
}
// between values of one type, == and the order of the contents say the same
pub proof fn plain_direct(a: Value, b: Value)
    requires plain(a.value_), plain(b.value_), a.type_id_ == b.type_id_, shaped(a), shaped(b)
    ensures value_cmp(a, b) == val_cmp(a.value_, b.value_)
{
    flat_same(a.value_, b.value_);
}
pub proof fn vec_direct(a: Value, b: Value, x: Vec<Value>, y: Vec<Value>)
    requires
        shaped(a), shaped(b), a.type_id_ == b.type_id_,
        (a.value_ == Val::Vector(x) && b.value_ == Val::Vector(y)) || (a.value_ == Val::Array(x) && b.value_ == Val::Array(y))
            || (a.value_ is Struct && b.value_ is Struct && a.struct_data == Some(x) && b.struct_data == Some(y)),
    ensures value_cmp(a, b) == vec_cmp(x, y, 0), all_shaped(x), all_shaped(y)
{
    vec_cmp_equal(x, y, 0);
}
pub proof fn chain(a: Value, b: Value, c: Value)
    requires shaped(a), shaped(b), shaped(c)
    ensures chained(a, b, c)
    decreases a, 1int
{
    cmp_flip(a, b); cmp_flip(b, c); cmp_flip(a, c);
    cmp_flip(b, a); cmp_flip(c, b); cmp_flip(c, a);
    if a.value_ is Null || b.value_ is Null || c.value_ is Null { null_chain(a, b, c); }
    else if a.type_id_ == b.type_id_ && b.type_id_ == c.type_id_ { same_chain(a, b, c); }
    else { type_chain(a, b, c); }
}
pub proof fn always(a: Value, b: Value)
    requires shaped(a), shaped(b)
    ensures value_cmp(a, b).is_some()
    decreases a
{
    smaller(a);
    match (a.value_, b.value_) {
        (Val::Vector(x), Val::Vector(y)) => { vec_always(x, y, 0); },
        (Val::Array(x), Val::Array(y)) => { vec_always(x, y, 0); },
        (Val::Struct, Val::Struct) => { match (a.struct_data, b.struct_data) { (Some(x), Some(y)) => { vec_always(x, y, 0); }, _ => {} } },
        _ => {},
    }
}
pub proof fn vec_always(a: Vec<Value>, b: Vec<Value>, n: nat)
    requires all_shaped(a), all_shaped(b)
    ensures vec_cmp(a, b, n).is_some()
    decreases a, a@.len() - n
{
    broadcast use vstd::std_specs::vec::group_vec_axioms;
    if n < a@.len() && n < b@.len() { always(a@[n as int], b@[n as int]); vec_always(a, b, n + 1); }
}
pub proof fn null_chain(a: Value, b: Value, c: Value)
    requires shaped(a), shaped(b), shaped(c), a.value_ is Null || b.value_ is Null || c.value_ is Null,
        value_cmp(a, b) == flip(value_cmp(b, a)), value_cmp(b, c) == flip(value_cmp(c, b)), value_cmp(a, c) == flip(value_cmp(c, a)),
    ensures chained(a, b, c)
{
    always(a, b); always(b, c); always(a, c);
}
pub proof fn type_chain(a: Value, b: Value, c: Value)
    requires shaped(a), shaped(b), shaped(c), !(a.value_ is Null), !(b.value_ is Null), !(c.value_ is Null), !(a.type_id_ == b.type_id_ && b.type_id_ == c.type_id_),
        value_cmp(a, b) == flip(value_cmp(b, a)), value_cmp(b, c) == flip(value_cmp(c, b)), value_cmp(a, c) == flip(value_cmp(c, a)),
    ensures chained(a, b, c)
{
    hide(val_cmp); hide(vec_cmp); hide(val_eq); hide(vec_eq); hide(rank); hide(shaped); hide(value_cmp); hide(type_rank); hide(value_eq);
    always(a, b); always(b, c); always(a, c);
    types_apart(a.type_id_, b.type_id_); types_apart(b.type_id_, c.type_id_); types_apart(a.type_id_, c.type_id_);
    by_type(a, b); by_type(b, c); by_type(a, c); by_type(b, a); by_type(c, b); by_type(c, a);
}
pub proof fn by_type(a: Value, b: Value)
    requires !(a.value_ is Null), !(b.value_ is Null)
    ensures a.type_id_ != b.type_id_ ==> value_cmp(a, b) == Some(icmp(type_rank(a.type_id_), type_rank(b.type_id_)))
{ }
pub proof fn types_apart(a: TypeId, b: TypeId) ensures a != b ==> type_rank(a) != type_rank(b) { }
pub proof fn same_chain(a: Value, b: Value, c: Value)
    requires shaped(a), shaped(b), shaped(c), !(a.value_ is Null), !(b.value_ is Null), !(c.value_ is Null), a.type_id_ == b.type_id_, b.type_id_ == c.type_id_,
    ensures chained(a, b, c)
    decreases a, 0int
{
    hide(vec_cmp); hide(val_cmp); hide(vec_eq); hide(val_eq);
    smaller(a);
    match a.value_ {
        Val::Decimal(x) => { match (b.value_, c.value_) { (Val::Decimal(y), Val::Decimal(z)) => { chain64(x, y, z); decimals(a, b, x, y); decimals(b, a, y, x); decimals(b, c, y, z); decimals(c, b, z, y); decimals(a, c, x, z); decimals(c, a, z, x); }, _ => { assert(false); } } },
        Val::Float(x) => { match (b.value_, c.value_) { (Val::Float(y), Val::Float(z)) => { chain32(x, y, z); floats(a, b, x, y); floats(b, a, y, x); floats(b, c, y, z); floats(c, b, z, y); floats(a, c, x, z); floats(c, a, z, x); }, _ => { assert(false); } } },
        Val::Point(x, p) => { match (b.value_, c.value_) { (Val::Point(y, q), Val::Point(z, r)) => { chain64(x, y, z); chain64(p, q, r); points(a, b, x, p, y, q); points(b, a, y, q, x, p); points(b, c, y, q, z, r); points(c, b, z, r, y, q); points(a, c, x, p, z, r); points(c, a, z, r, x, p); }, _ => { assert(false); } } },
        Val::Vector(x) => { match (b.value_, c.value_) { (Val::Vector(y), Val::Vector(z)) => { list_chain(a, b, c, x, y, z); }, _ => { assert(false); } } },
        Val::Array(x) => { match (b.value_, c.value_) { (Val::Array(y), Val::Array(z)) => { list_chain(a, b, c, x, y, z); }, _ => { assert(false); } } },
        Val::Struct => { assert(b.value_ is Struct && c.value_ is Struct);
            match (a.struct_data, b.struct_data, c.struct_data) { (Some(x), Some(y), Some(z)) => { list_chain(a, b, c, x, y, z); }, _ => { cmp_flip(a, b); cmp_flip(b, c); cmp_flip(a, c); always(a, b); always(b, c); always(a, c); } } },
        _ => { plain_chain(a.value_, b.value_, c.value_); plain_direct(a, b); plain_direct(b, a); plain_direct(b, c); plain_direct(c, b); plain_direct(a, c); plain_direct(c, a); },
    }
}
pub proof fn decimals(a: Value, b: Value, x: F64, y: F64)
    requires a.value_ == Val::Decimal(x), b.value_ == Val::Decimal(y), a.type_id_ == b.type_id_
    ensures value_cmp(a, b) == Some(ord64(x, y))
{ ieee64(); flip64(x, y); flip64(x, zero64()); flip64(y, zero64()); link64(x, zero64(), y); link64(y, zero64(), x); }
pub proof fn floats(a: Value, b: Value, x: F32, y: F32)
    requires a.value_ == Val::Float(x), b.value_ == Val::Float(y), a.type_id_ == b.type_id_
    ensures value_cmp(a, b) == Some(ord32(x, y))
{ ieee32(); flip32(x, y); flip32(x, zero32()); flip32(y, zero32()); link32(x, zero32(), y); link32(y, zero32(), x); }
pub proof fn points(a: Value, b: Value, x: F64, p: F64, y: F64, q: F64)
    requires a.value_ == Val::Point(x, p), b.value_ == Val::Point(y, q), a.type_id_ == b.type_id_
    ensures value_cmp(a, b) == then(Some(ord64(x, y)), Some(ord64(p, q)))
{ ieee64(); flip64(x, y); flip64(x, zero64()); flip64(y, zero64()); link64(x, zero64(), y); link64(y, zero64(), x);
  flip64(p, q); flip64(p, zero64()); flip64(q, zero64()); link64(p, zero64(), q); link64(q, zero64(), p); }
pub proof fn list_chain(a: Value, b: Value, c: Value, x: Vec<Value>, y: Vec<Value>, z: Vec<Value>)
    requires shaped(a), shaped(b), shaped(c), a.type_id_ == b.type_id_, b.type_id_ == c.type_id_,
        (a.value_ == Val::Vector(x) && b.value_ == Val::Vector(y) && c.value_ == Val::Vector(z)) || (a.value_ == Val::Array(x) && b.value_ == Val::Array(y) && c.value_ == Val::Array(z))
            || (a.value_ is Struct && b.value_ is Struct && c.value_ is Struct && a.struct_data == Some(x) && b.struct_data == Some(y) && c.struct_data == Some(z)),
    ensures chained(a, b, c)
    decreases x, x@.len() + 1
{
    hide(vec_cmp); hide(val_cmp); hide(vec_eq); hide(val_eq);
    vec_direct(a, b, x, y); vec_direct(b, a, y, x); vec_direct(b, c, y, z); vec_direct(c, b, z, y); vec_direct(a, c, x, z); vec_direct(c, a, z, x);
    vec_chain(x, y, z, 0);
}
pub proof fn vec_step(a: Vec<Value>, b: Vec<Value>, n: nat)
    ensures vec_cmp(a, b, n) == if n >= a@.len() || n >= b@.len() { Some(icmp(a@.len() as int, b@.len() as int)) }
        else { then(value_cmp(a@[n as int], b@[n as int]), vec_cmp(a, b, n + 1)) }
{ }
pub proof fn vec_chain(a: Vec<Value>, b: Vec<Value>, c: Vec<Value>, n: nat)
    requires all_shaped(a), all_shaped(b), all_shaped(c), n <= a@.len(), n <= b@.len(), n <= c@.len()
    ensures vec_chained(a, b, c, n)
    decreases a, a@.len() - n
{
    hide(value_cmp); hide(vec_cmp);
    broadcast use vstd::std_specs::vec::group_vec_axioms;
    vec_flip(a, b, n); vec_flip(b, c, n); vec_flip(a, c, n); vec_flip(b, a, n); vec_flip(c, b, n); vec_flip(c, a, n);
    vec_step(a, b, n); vec_step(b, a, n); vec_step(b, c, n); vec_step(c, b, n); vec_step(a, c, n); vec_step(c, a, n);
    vec_always(a, b, n); vec_always(b, c, n); vec_always(a, c, n);
    if n < a@.len() && n < b@.len() && n < c@.len() {
        chain(a@[n as int], b@[n as int], c@[n as int]);
        vec_chain(a, b, c, n + 1);
        let (x, y, z) = (a@[n as int], b@[n as int], c@[n as int]);
        both_chain([value_cmp(x, y), value_cmp(y, x), value_cmp(y, z), value_cmp(z, y), value_cmp(x, z), value_cmp(z, x)],
            [vec_cmp(a, b, n + 1), vec_cmp(b, a, n + 1), vec_cmp(b, c, n + 1), vec_cmp(c, b, n + 1), vec_cmp(a, c, n + 1), vec_cmp(c, a, n + 1)]);
    }
}
fn main() {}
} // verus!
