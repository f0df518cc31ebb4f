// byte conversions: std's to_le_bytes/from_le_bytes through vstd's byte specs
pub trait VpBytes: Sized { spec fn lebytes(&self) -> Seq<u8>; spec fn wide() -> int; fn vp_le(&self) -> (r: Vec<u8>) ensures r@ == self.lebytes(), r@.len() == Self::wide(); }
impl VpBytes for u16 { open spec fn wide() -> int { 2 } open spec fn lebytes(&self) -> Seq<u8> { vstd::bytes::spec_u16_to_le_bytes(*self) } #[verifier::external_body] fn vp_le(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } }
impl VpBytes for u32 { open spec fn wide() -> int { 4 } open spec fn lebytes(&self) -> Seq<u8> { vstd::bytes::spec_u32_to_le_bytes(*self) } #[verifier::external_body] fn vp_le(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } }
impl VpBytes for u64 { open spec fn wide() -> int { 8 } open spec fn lebytes(&self) -> Seq<u8> { vstd::bytes::spec_u64_to_le_bytes(*self) } #[verifier::external_body] fn vp_le(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } }
#[verifier::external_body]
pub fn vp_u16_at(b: &[u8], lo: usize, hi: usize) -> (r: u16) requires lo + 2 == hi, hi <= b@.len(), ensures r == vstd::bytes::spec_u16_from_le_bytes(b@.subrange(lo as int, hi as int)), { u16::from_le_bytes(b[lo..hi].try_into().unwrap()) }
#[verifier::external_body]
pub fn vp_u64_at(b: &[u8], lo: usize, hi: usize) -> (r: u64) requires lo + 8 == hi, hi <= b@.len(), ensures r == vstd::bytes::spec_u64_from_le_bytes(b@.subrange(lo as int, hi as int)), { u64::from_le_bytes(b[lo..hi].try_into().unwrap()) }
pub uninterp spec fn be32(x: u32) -> Seq<u8>;
pub uninterp spec fn be32_back(s: Seq<u8>) -> u32;
pub axiom fn axiom_be32(x: u32) ensures be32(x).len() == 4, be32_back(be32(x)) == x;
#[verifier::external_body]
pub fn vp_be32(x: u32) -> (r: Vec<u8>) ensures r@ == be32(x), r@.len() == 4, be32_back(r@) == x, { x.to_be_bytes().to_vec() }
#[verifier::external_body]
pub fn vp_be32_at(b: &[u8], lo: usize, hi: usize) -> (r: u32) requires lo + 4 == hi, hi <= b@.len(), ensures r == be32_back(b@.subrange(lo as int, hi as int)), { u32::from_be_bytes(b[lo..hi].try_into().unwrap()) }
// slices of a page: `b[lo..hi].copy_from_slice(s)`, `b[lo..hi].fill(x)`, `&b[lo..hi]`
pub open spec fn spliced(b: Seq<u8>, lo: int, hi: int, s: Seq<u8>) -> Seq<u8> { b.subrange(0, lo) + s + b.subrange(hi, b.len() as int) }
pub trait VpPage { spec fn bytes(&self) -> Seq<u8>;
    fn vp_copy(&mut self, lo: usize, hi: usize, s: &[u8]) requires lo <= hi <= old(self).bytes().len(), s@.len() == hi - lo, ensures final(self).bytes() == spliced(old(self).bytes(), lo as int, hi as int, s@);
    fn vp_fill(&mut self, lo: usize, hi: usize, x: u8) requires lo <= hi <= old(self).bytes().len(), ensures final(self).bytes() == spliced(old(self).bytes(), lo as int, hi as int, Seq::new((hi - lo) as nat, |i: int| x));
    fn vp_slice(&self, lo: usize, hi: usize) -> (r: &[u8]) requires lo <= hi <= self.bytes().len(), ensures r@ == self.bytes().subrange(lo as int, hi as int);
}
impl VpPage for [u8; 4096] { open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vp_copy(&mut self, lo: usize, hi: usize, s: &[u8]) { self[lo..hi].copy_from_slice(s) }
    #[verifier::external_body] fn vp_fill(&mut self, lo: usize, hi: usize, x: u8) { self[lo..hi].fill(x) }
    #[verifier::external_body] fn vp_slice(&self, lo: usize, hi: usize) -> (r: &[u8]) { &self[lo..hi] }
}
impl VpPage for Box<[u8; 4096]> { open spec fn bytes(&self) -> Seq<u8> { (**self)@ }
    #[verifier::external_body] fn vp_copy(&mut self, lo: usize, hi: usize, s: &[u8]) { self[lo..hi].copy_from_slice(s) }
    #[verifier::external_body] fn vp_fill(&mut self, lo: usize, hi: usize, x: u8) { self[lo..hi].fill(x) }
    #[verifier::external_body] fn vp_slice(&self, lo: usize, hi: usize) -> (r: &[u8]) { &self[lo..hi] }
}
#[verifier::external_body] pub fn vp_string() -> String { String::new() }
// postcard: an opaque, self-delimiting encoding
pub uninterp spec fn enc<T>(t: T) -> Seq<u8>;
pub uninterp spec fn encodable<T>(t: T) -> bool;
pub uninterp spec fn dec<T>(b: Seq<u8>) -> Option<T>;
pub mod postcard { use super::*;
    #[derive(Debug)] pub struct Error;
    #[verifier::external_body] pub fn to_allocvec<T>(t: &T) -> (r: Result<Vec<u8>, Error>) ensures r matches Ok(v) ==> v@ == enc(*t) && v@.len() < 0x7fff_ffff_ffff_0000, r.is_ok() == encodable(*t), { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes<T>(b: &[u8]) -> (r: Result<T, Error>) ensures r matches Ok(t) ==> dec::<T>(b@) == Some(t), dec::<T>(b@).is_some() ==> r.is_ok(), r matches Ok(t) ==> enc(t).len() <= b@.len(), { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_slice_of(b: &[u8], lo: usize, hi: usize) -> (r: &[u8]) requires lo <= hi <= b@.len(), ensures r@ == b@.subrange(lo as int, hi as int), { &b[lo..hi] }
// bytes s stand at position p of b
pub open spec fn at(b: Seq<u8>, p: int, s: Seq<u8>) -> bool { 0 <= p && p + s.len() <= b.len() && b.subrange(p, p + s.len()) == s }
pub open spec fn splice_facts(b: Seq<u8>, lo: int, hi: int, s: Seq<u8>, c: Seq<u8>) -> bool {
    &&& c.len() == b.len()
    &&& at(c, lo, s)
    &&& forall|p: int, x: Seq<u8>| (p + x.len() <= lo || hi <= p) && #[trigger] at(b, p, x) ==> at(c, p, x)
    &&& forall|i: int| 0 <= i < b.len() && (i < lo || hi <= i) ==> #[trigger] c[i] == b[i]
    &&& forall|p: int, q: int| 0 <= p <= q <= b.len() && (q <= lo || hi <= p) ==> #[trigger] c.subrange(p, q) == b.subrange(p, q)
}
pub proof fn lemma_splice(b: Seq<u8>, lo: int, hi: int, s: Seq<u8>)
    requires 0 <= lo <= hi <= b.len(), s.len() == hi - lo,
    ensures splice_facts(b, lo, hi, s, spliced(b, lo, hi, s)),
{
    let c = spliced(b, lo, hi, s);
    assert(c.subrange(lo, lo + s.len()) =~= s);
    assert forall|p: int, q: int| 0 <= p <= q <= b.len() && (q <= lo || hi <= p) implies #[trigger] c.subrange(p, q) == b.subrange(p, q) by { assert(c.subrange(p, q) =~= b.subrange(p, q)); }
    assert forall|p: int, x: Seq<u8>| (p + x.len() <= lo || hi <= p) && #[trigger] at(b, p, x) implies at(c, p, x) by {
        assert(c.subrange(p, p + x.len()) =~= b.subrange(p, p + x.len()));
    }
}
