// numbers in order, and every NaN after them
pub open spec fn ord64(a: F64, b: F64) -> Ordering { match cmp64(a, b) { Some(o) => o, None => bcmp(nan64(a), nan64(b)) } }
pub open spec fn ord32(a: F32, b: F32) -> Ordering { match cmp32(a, b) { Some(o) => o, None => bcmp(nan32(a), nan32(b)) } }
// lexicographic, from element i on
pub open spec fn vec_cmp(a: Vec<Value>, b: Vec<Value>, i: nat) -> Option<Ordering> decreases a, a@.len() - i {
    if i >= a@.len() || i >= b@.len() { Some(icmp(a@.len() as int, b@.len() as int)) }
    else { then(value_cmp(a@[i as int], b@[i as int]), vec_cmp(a, b, i + 1)) }
}
pub open spec fn opt_cmp(a: Option<Vec<Value>>, b: Option<Vec<Value>>) -> Option<Ordering> decreases a {
    match (a, b) {
        (Some(x), Some(y)) => vec_cmp(x, y, 0),
        (None, None) => Some(Ordering::Equal),
        (None, _) => Some(Ordering::Less),
        _ => Some(Ordering::Greater),
    }
}
// the order of ORDER BY: NULL first, then by type, then by value, NaN last
pub open spec fn value_cmp(a: Value, b: Value) -> Option<Ordering> decreases a {
    if value_eq(a, b) { Some(Ordering::Equal) }
    else if a.value_ is Null { Some(Ordering::Less) }
    else if b.value_ is Null { Some(Ordering::Greater) }
    else if a.type_id_ != b.type_id_ { Some(icmp(type_rank(a.type_id_), type_rank(b.type_id_))) }
    else {
        match (a.value_, b.value_) {
            (Val::Decimal(x), Val::Decimal(y)) => Some(ord64(x, y)),
            (Val::Float(x), Val::Float(y)) => Some(ord32(x, y)),
            (Val::Point(x, y), Val::Point(u, v)) => then(Some(ord64(x, u)), Some(ord64(y, v))),
            (Val::Struct, Val::Struct) => opt_cmp(a.struct_data, b.struct_data),
            _ => val_cmp(a.value_, b.value_),
        }
    }
}
