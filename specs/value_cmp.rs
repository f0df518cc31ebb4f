//@source val src/types_db/value.rs
//@source types src/types_db/types.rs
//@source ty src/types_db/type_id.rs
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
//@include inc_ordeq.rs
//@include inc_value.rs
//@include inc_value_total.rs
//@rewrite /self\.struct_data == other\.struct_data/opt_same(&self.struct_data, &other.struct_data)/
//@rewrite /self\.struct_data != other\.struct_data/!opt_same(&self.struct_data, &other.struct_data)/
//@rewrite /\(self\.value_ == other\.value_\)\.into\(\)/CmpBool::from(self.value_.vp_eq(&other.value_))/
//@rewrite /\(self\.value_ != other\.value_\)\.into\(\)/CmpBool::from(self.value_.vp_ne(&other.value_))/
//@rewrite /\(self\.value_ <= other\.value_\)\.into\(\)/CmpBool::from(self.value_.vp_le(&other.value_))/
//@rewrite /\(self\.value_ >= other\.value_\)\.into\(\)/CmpBool::from(self.value_.vp_ge(&other.value_))/
//@rewrite /\(self\.value_ < other\.value_\)\.into\(\)/CmpBool::from(self.value_.vp_lt(&other.value_))/
//@rewrite /\(self\.value_ > other\.value_\)\.into\(\)/CmpBool::from(self.value_.vp_gt(&other.value_))/
//@rewrite /(\((?:Val::(?:Decimal|Float)\(a\), Val::\w+\(b\)|Val::\w+\(a\), Val::(?:Decimal|Float)\(b\))\)\s*=>\s*\{?\s*CmpBool::from\()([^=<>!]+?) == ([^=<>!,]+?)\)(?=,|\s*\})/\1vp_eq(\2, \3))/
//@rewrite /(\((?:Val::(?:Decimal|Float)\(a\), Val::\w+\(b\)|Val::\w+\(a\), Val::(?:Decimal|Float)\(b\))\)\s*=>\s*\{?\s*CmpBool::from\()([^=<>!]+?) != ([^=<>!,]+?)\)(?=,|\s*\})/\1vp_ne(\2, \3))/
//@rewrite /(\((?:Val::(?:Decimal|Float)\(a\), Val::\w+\(b\)|Val::\w+\(a\), Val::(?:Decimal|Float)\(b\))\)\s*=>\s*\{?\s*CmpBool::from\()([^=<>!]+?) <= ([^=<>!,]+?)\)(?=,|\s*\})/\1vp_le(\2, \3))/
//@rewrite /(\((?:Val::(?:Decimal|Float)\(a\), Val::\w+\(b\)|Val::\w+\(a\), Val::(?:Decimal|Float)\(b\))\)\s*=>\s*\{?\s*CmpBool::from\()([^=<>!]+?) >= ([^=<>!,]+?)\)(?=,|\s*\})/\1vp_ge(\2, \3))/
//@rewrite /(\((?:Val::(?:Decimal|Float)\(a\), Val::\w+\(b\)|Val::\w+\(a\), Val::(?:Decimal|Float)\(b\))\)\s*=>\s*\{?\s*CmpBool::from\()([^=<>!]+?) < ([^=<>!,]+?)\)(?=,|\s*\})/\1vp_lt(\2, \3))/
//@rewrite /(\((?:Val::(?:Decimal|Float)\(a\), Val::\w+\(b\)|Val::\w+\(a\), Val::(?:Decimal|Float)\(b\))\)\s*=>\s*\{?\s*CmpBool::from\()([^=<>!]+?) > ([^=<>!,]+?)\)(?=,|\s*\})/\1vp_gt(\2, \3))/
//@rewrite /=> CmpBool::from\(/=> return CmpBool::from(/
// the comparison operators of f32, f64 and (derived) Val, as plain functions
pub trait Cmp: Sized {
    spec fn by(&self, o: Self) -> Option<Ordering>;
    spec fn is(&self, o: Self) -> bool;
    fn vp_eq(&self, o: &Self) -> (r: bool) ensures r == self.is(*o);
    fn vp_ne(&self, o: &Self) -> (r: bool) ensures r == !self.is(*o);
    fn vp_lt(&self, o: &Self) -> (r: bool) ensures r == (self.by(*o) == Some(Ordering::Less));
    fn vp_gt(&self, o: &Self) -> (r: bool) ensures r == (self.by(*o) == Some(Ordering::Greater));
    fn vp_le(&self, o: &Self) -> (r: bool) ensures r == (self.by(*o) matches Some(c) && c != Ordering::Greater);
    fn vp_ge(&self, o: &Self) -> (r: bool) ensures r == (self.by(*o) matches Some(c) && c != Ordering::Less);
}
impl Cmp for F64 {
    open spec fn by(&self, o: F64) -> Option<Ordering> { cmp64(*self, o) }
    open spec fn is(&self, o: F64) -> bool { cmp64(*self, o) == Some(Ordering::Equal) }
    #[verifier::external_body] fn vp_eq(&self, o: &F64) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_ne(&self, o: &F64) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_le(&self, o: &F64) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_ge(&self, o: &F64) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_lt(&self, o: &F64) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_gt(&self, o: &F64) -> bool { unimplemented!() }
}
impl Cmp for F32 {
    open spec fn by(&self, o: F32) -> Option<Ordering> { cmp32(*self, o) }
    open spec fn is(&self, o: F32) -> bool { cmp32(*self, o) == Some(Ordering::Equal) }
    #[verifier::external_body] fn vp_eq(&self, o: &F32) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_ne(&self, o: &F32) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_le(&self, o: &F32) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_ge(&self, o: &F32) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_lt(&self, o: &F32) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_gt(&self, o: &F32) -> bool { unimplemented!() }
}
impl Cmp for Val {
    open spec fn by(&self, o: Val) -> Option<Ordering> { val_cmp(*self, o) }
    open spec fn is(&self, o: Val) -> bool { val_eq(*self, o) }
    #[verifier::external_body] fn vp_eq(&self, o: &Val) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_ne(&self, o: &Val) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_le(&self, o: &Val) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_ge(&self, o: &Val) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_lt(&self, o: &Val) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_gt(&self, o: &Val) -> bool { unimplemented!() }
}
pub fn vp_eq<T: Cmp>(a: T, b: T) -> (r: bool) ensures r == a.is(b) { a.vp_eq(&b) }
pub fn vp_ne<T: Cmp>(a: T, b: T) -> (r: bool) ensures r == !a.is(b) { a.vp_ne(&b) }
pub fn vp_lt<T: Cmp>(a: T, b: T) -> (r: bool) ensures r == (a.by(b) == Some(Ordering::Less)) { a.vp_lt(&b) }
pub fn vp_gt<T: Cmp>(a: T, b: T) -> (r: bool) ensures r == (a.by(b) == Some(Ordering::Greater)) { a.vp_gt(&b) }
pub fn vp_le<T: Cmp>(a: T, b: T) -> (r: bool) ensures r == (a.by(b) matches Some(c) && c != Ordering::Greater) { a.vp_le(&b) }
pub fn vp_ge<T: Cmp>(a: T, b: T) -> (r: bool) ensures r == (a.by(b) matches Some(c) && c != Ordering::Less) { a.vp_ge(&b) }
//@include inc_value_cmp.rs
fn main() {}
} // verus!
