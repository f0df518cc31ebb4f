// floating-point arithmetic, as uninterpreted functions
pub uninterp spec fn add64(a: F64, b: F64) -> F64;
impl vstd::std_specs::ops::AddSpecImpl<F64> for F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F64) -> bool { true } open spec fn add_spec(self, o: F64) -> F64 { add64(self, o) } }
impl std::ops::Add<F64> for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> F64 { F64 { x: self.x + o.x } } }
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'b F64) -> bool { true } open spec fn add_spec(self, o: &'b F64) -> F64 { add64(*self, *o) } }
impl<'a, 'b> std::ops::Add<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn add(self, o: &'b F64) -> F64 { F64 { x: self.x + o.x } } }
pub uninterp spec fn sub64(a: F64, b: F64) -> F64;
impl vstd::std_specs::ops::SubSpecImpl<F64> for F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F64) -> bool { true } open spec fn sub_spec(self, o: F64) -> F64 { sub64(self, o) } }
impl std::ops::Sub<F64> for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> F64 { F64 { x: self.x - o.x } } }
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &'b F64) -> bool { true } open spec fn sub_spec(self, o: &'b F64) -> F64 { sub64(*self, *o) } }
impl<'a, 'b> std::ops::Sub<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: &'b F64) -> F64 { F64 { x: self.x - o.x } } }
pub uninterp spec fn mul64(a: F64, b: F64) -> F64;
impl vstd::std_specs::ops::MulSpecImpl<F64> for F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F64) -> bool { true } open spec fn mul_spec(self, o: F64) -> F64 { mul64(self, o) } }
impl std::ops::Mul<F64> for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> F64 { F64 { x: self.x * o.x } } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'b F64) -> bool { true } open spec fn mul_spec(self, o: &'b F64) -> F64 { mul64(*self, *o) } }
impl<'a, 'b> std::ops::Mul<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: &'b F64) -> F64 { F64 { x: self.x * o.x } } }
pub uninterp spec fn div64(a: F64, b: F64) -> F64;
impl vstd::std_specs::ops::DivSpecImpl<F64> for F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F64) -> bool { true } open spec fn div_spec(self, o: F64) -> F64 { div64(self, o) } }
impl std::ops::Div<F64> for F64 { type Output = F64; #[verifier::external_body] fn div(self, o: F64) -> F64 { F64 { x: self.x / o.x } } }
impl<'a, 'b> vstd::std_specs::ops::DivSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: &'b F64) -> bool { true } open spec fn div_spec(self, o: &'b F64) -> F64 { div64(*self, *o) } }
impl<'a, 'b> std::ops::Div<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn div(self, o: &'b F64) -> F64 { F64 { x: self.x / o.x } } }
impl F64 { #[verifier::external_body] pub fn is_nought(&self) -> (r: bool) ensures r == (cmp64(*self, zero64()) == Some(Ordering::Equal)) { self.x == 0.0 } }
pub uninterp spec fn add32(a: F32, b: F32) -> F32;
impl vstd::std_specs::ops::AddSpecImpl<F32> for F32 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F32) -> bool { true } open spec fn add_spec(self, o: F32) -> F32 { add32(self, o) } }
impl std::ops::Add<F32> for F32 { type Output = F32; #[verifier::external_body] fn add(self, o: F32) -> F32 { F32 { x: self.x + o.x } } }
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b F32> for &'a F32 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'b F32) -> bool { true } open spec fn add_spec(self, o: &'b F32) -> F32 { add32(*self, *o) } }
impl<'a, 'b> std::ops::Add<&'b F32> for &'a F32 { type Output = F32; #[verifier::external_body] fn add(self, o: &'b F32) -> F32 { F32 { x: self.x + o.x } } }
pub uninterp spec fn sub32(a: F32, b: F32) -> F32;
impl vstd::std_specs::ops::SubSpecImpl<F32> for F32 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F32) -> bool { true } open spec fn sub_spec(self, o: F32) -> F32 { sub32(self, o) } }
impl std::ops::Sub<F32> for F32 { type Output = F32; #[verifier::external_body] fn sub(self, o: F32) -> F32 { F32 { x: self.x - o.x } } }
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b F32> for &'a F32 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &'b F32) -> bool { true } open spec fn sub_spec(self, o: &'b F32) -> F32 { sub32(*self, *o) } }
impl<'a, 'b> std::ops::Sub<&'b F32> for &'a F32 { type Output = F32; #[verifier::external_body] fn sub(self, o: &'b F32) -> F32 { F32 { x: self.x - o.x } } }
pub uninterp spec fn mul32(a: F32, b: F32) -> F32;
impl vstd::std_specs::ops::MulSpecImpl<F32> for F32 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F32) -> bool { true } open spec fn mul_spec(self, o: F32) -> F32 { mul32(self, o) } }
impl std::ops::Mul<F32> for F32 { type Output = F32; #[verifier::external_body] fn mul(self, o: F32) -> F32 { F32 { x: self.x * o.x } } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b F32> for &'a F32 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'b F32) -> bool { true } open spec fn mul_spec(self, o: &'b F32) -> F32 { mul32(*self, *o) } }
impl<'a, 'b> std::ops::Mul<&'b F32> for &'a F32 { type Output = F32; #[verifier::external_body] fn mul(self, o: &'b F32) -> F32 { F32 { x: self.x * o.x } } }
pub uninterp spec fn div32(a: F32, b: F32) -> F32;
impl vstd::std_specs::ops::DivSpecImpl<F32> for F32 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F32) -> bool { true } open spec fn div_spec(self, o: F32) -> F32 { div32(self, o) } }
impl std::ops::Div<F32> for F32 { type Output = F32; #[verifier::external_body] fn div(self, o: F32) -> F32 { F32 { x: self.x / o.x } } }
impl<'a, 'b> vstd::std_specs::ops::DivSpecImpl<&'b F32> for &'a F32 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: &'b F32) -> bool { true } open spec fn div_spec(self, o: &'b F32) -> F32 { div32(*self, *o) } }
impl<'a, 'b> std::ops::Div<&'b F32> for &'a F32 { type Output = F32; #[verifier::external_body] fn div(self, o: &'b F32) -> F32 { F32 { x: self.x / o.x } } }
impl F32 { #[verifier::external_body] pub fn is_nought(&self) -> (r: bool) ensures r == (cmp32(*self, zero32()) == Some(Ordering::Equal)) { self.x == 0.0 } }
// integer division as the machine does it: towards zero
pub open spec fn mag(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn tdiv(a: int, b: int) -> int { if (a < 0) == (b < 0) { mag(a) / mag(b) } else { -(mag(a) / mag(b)) } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
// the standard library's checked_div and wrapping_rem on integers
pub trait DivOps: Sized {
    spec fn num(self) -> int;
    spec fn within(n: int) -> bool;
    fn div_in(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(q) => o.num() != 0 && q.num() == tdiv(self.num(), o.num()), None => o.num() == 0 || !Self::within(tdiv(self.num(), o.num())) };
    fn rem_wrap(self, o: Self) -> (r: Self)
        requires o.num() != 0
        ensures r.num() == trem(self.num(), o.num());
}
impl DivOps for i8 {
    open spec fn num(self) -> int { self as int }
    open spec fn within(n: int) -> bool { i8::MIN <= n <= i8::MAX }
    #[verifier::external_body] fn div_in(self, o: i8) -> Option<i8> { self.checked_div(o) }
    #[verifier::external_body] fn rem_wrap(self, o: i8) -> i8 { self.wrapping_rem(o) }
}
impl DivOps for i16 {
    open spec fn num(self) -> int { self as int }
    open spec fn within(n: int) -> bool { i16::MIN <= n <= i16::MAX }
    #[verifier::external_body] fn div_in(self, o: i16) -> Option<i16> { self.checked_div(o) }
    #[verifier::external_body] fn rem_wrap(self, o: i16) -> i16 { self.wrapping_rem(o) }
}
impl DivOps for i32 {
    open spec fn num(self) -> int { self as int }
    open spec fn within(n: int) -> bool { i32::MIN <= n <= i32::MAX }
    #[verifier::external_body] fn div_in(self, o: i32) -> Option<i32> { self.checked_div(o) }
    #[verifier::external_body] fn rem_wrap(self, o: i32) -> i32 { self.wrapping_rem(o) }
}
impl DivOps for i64 {
    open spec fn num(self) -> int { self as int }
    open spec fn within(n: int) -> bool { i64::MIN <= n <= i64::MAX }
    #[verifier::external_body] fn div_in(self, o: i64) -> Option<i64> { self.checked_div(o) }
    #[verifier::external_body] fn rem_wrap(self, o: i64) -> i64 { self.wrapping_rem(o) }
}
pub enum Arith { Add, Sub, Mul, Div }
pub open spec fn iapply(op: Arith, a: int, b: int) -> int { match op { Arith::Add => a + b, Arith::Sub => a - b, Arith::Mul => a * b, Arith::Div => tdiv(a, b) } }
pub open spec fn apply64(op: Arith, a: F64, b: F64) -> F64 { match op { Arith::Add => add64(a, b), Arith::Sub => sub64(a, b), Arith::Mul => mul64(a, b), Arith::Div => div64(a, b) } }
pub open spec fn apply32(op: Arith, a: F32, b: F32) -> F32 { match op { Arith::Add => add32(a, b), Arith::Sub => sub32(a, b), Arith::Mul => mul32(a, b), Arith::Div => div32(a, b) } }
// the integer type of the same rank as the wider of two integers
pub open spec fn irank(v: Val) -> int { match v { Val::TinyInt(_) => 1, Val::SmallInt(_) => 2, Val::Integer(_) => 3, _ => 4 } }
pub open spec fn wider(a: Val, b: Val) -> int { if irank(a) < irank(b) { irank(b) } else { irank(a) } }
pub open spec fn fits(r: int, n: int) -> bool {
    if r == 1 { i8::MIN <= n <= i8::MAX } else if r == 2 { i16::MIN <= n <= i16::MAX } else if r == 3 { i32::MIN <= n <= i32::MAX } else { i64::MIN <= n <= i64::MAX }
}
pub open spec fn made(r: int, n: int) -> Val { if r == 1 { Val::TinyInt(n as i8) } else if r == 2 { Val::SmallInt(n as i16) } else if r == 3 { Val::Integer(n as i32) } else { Val::BigInt(n as i64) } }
pub open spec fn zero(v: Val) -> bool {
    match v { Val::Decimal(f) => cmp64(f, zero64()) == Some(Ordering::Equal), Val::Float(f) => cmp32(f, zero32()) == Some(Ordering::Equal), _ => ival(v) == 0 }
}
// the value of `a op b` on two numbers; None where there is none
pub open spec fn number(op: Arith, a: Val, b: Val) -> Option<Val> {
    if is_int(a) && is_int(b) {
        if op is Div && ival(b) == 0 { None }
        else if fits(wider(a, b), iapply(op, ival(a), ival(b))) { Some(made(wider(a, b), iapply(op, ival(a), ival(b)))) }
        else { None }
    }
    else if a is Decimal || b is Decimal { if op is Div && cmp64(f64of(b), zero64()) == Some(Ordering::Equal) { None } else { Some(Val::Decimal(apply64(op, f64of(a), f64of(b)))) } }
    else { if op is Div && cmp32(f32of(b), zero32()) == Some(Ordering::Equal) { None } else { Some(Val::Float(apply32(op, f32of(a), f32of(b)))) } }
}
