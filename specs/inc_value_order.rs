// every value carries the type of its contents
pub open spec fn shaped(v: Value) -> bool decreases v {
    &&& v.value_ is Null || type_rank(v.type_id_) == rank(v.value_)
    &&& match v.value_ {
        Val::Vector(d) => all_shaped(d),
        Val::Array(d) => all_shaped(d),
        Val::Struct => match v.struct_data { Some(d) => all_shaped(d), None => true },
        _ => true,
    }
}
pub open spec fn all_shaped(d: Vec<Value>) -> bool decreases d { forall|i: int| 0 <= i < d@.len() ==> shaped(#[trigger] d@[i]) }
// ---- <= on values is transitive, so the order of ORDER BY is a total preorder: there is always one answer
pub open spec fn le(o: Option<Ordering>) -> bool { o == Some(Ordering::Less) || o == Some(Ordering::Equal) }
pub open spec fn link(ab: Option<Ordering>, bc: Option<Ordering>, ac: Option<Ordering>) -> bool { le(ab) && le(bc) ==> le(ac) }
// all six ways to chain three things, given the six answers
pub open spec fn links(ab: Option<Ordering>, ba: Option<Ordering>, bc: Option<Ordering>, cb: Option<Ordering>, ac: Option<Ordering>, ca: Option<Ordering>) -> bool {
    &&& ab.is_some() && bc.is_some() && ac.is_some()
    &&& ab == flip(ba) && bc == flip(cb) && ac == flip(ca)
    &&& link(ab, bc, ac) && link(ac, cb, ab) && link(ba, ac, bc) && link(bc, ca, ba) && link(ca, ab, cb) && link(cb, ba, ca)
}
pub open spec fn chained(a: Value, b: Value, c: Value) -> bool {
    links(value_cmp(a, b), value_cmp(b, a), value_cmp(b, c), value_cmp(c, b), value_cmp(a, c), value_cmp(c, a))
}
pub proof fn both_chain(h: [Option<Ordering>; 6], t: [Option<Ordering>; 6])
    requires links(h[0], h[1], h[2], h[3], h[4], h[5]), links(t[0], t[1], t[2], t[3], t[4], t[5])
    ensures links(then(h[0], t[0]), then(h[1], t[1]), then(h[2], t[2]), then(h[3], t[3]), then(h[4], t[4]), then(h[5], t[5]))
{ }
