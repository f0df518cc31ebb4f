pub open spec fn listy(v: Val) -> bool { v is Vector || v is Array }
pub open spec fn no_null(a: Value, b: Value) -> bool { !(a.value_ is Null) && !(b.value_ is Null) }
// does a = b hold, for two values that are not NULL
pub open spec fn same(a: Value, b: Value) -> bool {
    if is_num(a.value_) && is_num(b.value_) { num_cmp(a.value_, b.value_) == Some(Ordering::Equal) }
    else if a.type_id_ != b.type_id_ { false }
    else if a.value_ is Struct && b.value_ is Struct { opt_eq(a.struct_data, b.struct_data) }
    else { val_eq(a.value_, b.value_) }
}
// how a stands to b, for two values that are not NULL and not vectors; None where they have no order
pub open spec fn order(a: Value, b: Value) -> Option<Ordering> {
    if is_num(a.value_) && is_num(b.value_) { num_cmp(a.value_, b.value_) }
    else if listy(a.value_) || listy(b.value_) { None }
    else if a.type_id_ != b.type_id_ { None }
    else { val_cmp(a.value_, b.value_) }
}
// a number carries its own type
pub open spec fn typed(v: Value) -> bool {
    &&& v.value_ is TinyInt ==> v.type_id_ == TypeId::TinyInt
    &&& v.value_ is SmallInt ==> v.type_id_ == TypeId::SmallInt
    &&& v.value_ is Integer ==> v.type_id_ == TypeId::Integer
    &&& v.value_ is BigInt ==> v.type_id_ == TypeId::BigInt
    &&& v.value_ is Decimal ==> v.type_id_ == TypeId::Decimal
    &&& v.value_ is Struct ==> v.type_id_ == TypeId::Struct
    &&& v.value_ is Float ==> v.type_id_ == TypeId::Float
}
pub open spec fn three(a: Value, b: Value, r: bool) -> CmpBool { if no_null(a, b) { tri(r) } else { CmpBool::CmpNull } }
pub proof fn val_num(a: Val, b: Val)
    requires is_num(a), is_num(b), rank(a) == rank(b)
    ensures val_cmp(a, b) == num_cmp(a, b), val_eq(a, b) == (num_cmp(a, b) == Some(Ordering::Equal))
{}
impl Value {
//@fn val Value::compare_equals split=TinyInt,SmallInt,Integer,BigInt,Decimal,Float
requires typed(*self), typed(*other),
ensures res == three(*self, *other, same(*self, *other)),
//@start
hide(val_eq); hide(val_cmp); hide(opt_eq);
proof { if is_num(self.value_) && is_num(other.value_) && rank(self.value_) == rank(other.value_) { val_num(self.value_, other.value_); } }
//@endfn
//@fn val Value::compare_not_equals split=TinyInt,SmallInt,Integer,BigInt,Decimal,Float
requires typed(*self), typed(*other),
ensures res == three(*self, *other, !same(*self, *other)),
//@start
hide(val_eq); hide(val_cmp); hide(opt_eq);
proof { if is_num(self.value_) && is_num(other.value_) && rank(self.value_) == rank(other.value_) { val_num(self.value_, other.value_); } }
//@endfn
//@fn val Value::compare_less_than split=TinyInt,SmallInt,Integer,BigInt,Decimal,Float
requires typed(*self), typed(*other),
ensures res == three(*self, *other, order(*self, *other) == Some(Ordering::Less)),
//@start
hide(val_eq); hide(val_cmp); hide(opt_eq);
proof { if is_num(self.value_) && is_num(other.value_) && rank(self.value_) == rank(other.value_) { val_num(self.value_, other.value_); } }
//@endfn
//@fn val Value::compare_less_than_equals split=TinyInt,SmallInt,Integer,BigInt,Decimal,Float
requires typed(*self), typed(*other),
ensures res == three(*self, *other, order(*self, *other) matches Some(o) && o != Ordering::Greater),
//@start
hide(val_eq); hide(val_cmp); hide(opt_eq);
proof { if is_num(self.value_) && is_num(other.value_) && rank(self.value_) == rank(other.value_) { val_num(self.value_, other.value_); } }
//@endfn
//@fn val Value::compare_greater_than split=TinyInt,SmallInt,Integer,BigInt,Decimal,Float
requires typed(*self), typed(*other),
ensures res == three(*self, *other, order(*self, *other) == Some(Ordering::Greater)),
//@start
hide(val_eq); hide(val_cmp); hide(opt_eq);
proof { if is_num(self.value_) && is_num(other.value_) && rank(self.value_) == rank(other.value_) { val_num(self.value_, other.value_); } }
//@endfn
//@fn val Value::compare_greater_than_equals split=TinyInt,SmallInt,Integer,BigInt,Decimal,Float
requires typed(*self), typed(*other),
ensures res == three(*self, *other, order(*self, *other) matches Some(o) && o != Ordering::Less),
//@start
hide(val_eq); hide(val_cmp); hide(opt_eq);
proof { if is_num(self.value_) && is_num(other.value_) && rank(self.value_) == rank(other.value_) { val_num(self.value_, other.value_); } }
//@endfn
}
