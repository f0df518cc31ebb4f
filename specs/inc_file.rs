// tokio's File as a byte sequence with a position; what std and tokio do is an assumed contract
pub enum ErrorKind { InvalidInput, InvalidData, UnexpectedEof, Other }
// eof: the file ends before the range read; any other failure is the device's
pub uninterp spec fn healthy() -> bool;
pub struct IoError { pub eof: Ghost<bool> }
pub type IoResult<T> = Result<T, IoError>;
impl IoError {
    #[verifier::external_body] pub fn new<M>(k: ErrorKind, m: M) -> (r: IoError) ensures r.eof@ == (k is UnexpectedEof), { unimplemented!() }
    #[verifier::external_body] pub fn says_eof(&self) -> (r: bool) ensures r == self.eof@, { unimplemented!() }
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub struct Meta { pub n: Ghost<int> }
impl Meta { #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self.n@, { unimplemented!() } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn padded(b: Seq<u8>, p: int) -> Seq<u8> { if p <= b.len() { b } else { b + zeros(p - b.len()) } }
pub open spec fn written(b: Seq<u8>, p: int, s: Seq<u8>) -> Seq<u8> {
    let c = padded(b, p);
    if p + s.len() >= c.len() { c.subrange(0, p) + s } else { c.subrange(0, p) + s + c.subrange(p + s.len(), c.len() as int) }
}
// a write that failed leaves everything outside its range alone
pub open spec fn torn(b: Seq<u8>, p: int, n: int, c: Seq<u8>) -> bool {
    &&& c.len() >= b.len()
    &&& forall|i: int| 0 <= i < b.len() && !(p <= i < p + n) ==> #[trigger] c[i] == b[i]
}
pub struct File { pub bytes: Ghost<Seq<u8>>, pub pos: Ghost<int>, pub flushed: Ghost<bool>, pub synced: Ghost<Seq<u8>> }
impl File {
    #[verifier::external_body]
    pub fn seek(&mut self, s: SeekFrom) -> (r: IoResult<u64>)
        ensures final(self).bytes == old(self).bytes, final(self).flushed == old(self).flushed, final(self).synced == old(self).synced,
            r is Err ==> !healthy(),
            r matches Ok(o) ==> final(self).pos@ == o, r is Ok ==> match s { SeekFrom::Start(x) => final(self).pos@ == x, SeekFrom::End(d) => final(self).pos@ == old(self).bytes@.len() + d, SeekFrom::Current(d) => final(self).pos@ == old(self).pos@ + d },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, data: &[u8]) -> (r: IoResult<()>)
        ensures final(self).synced == old(self).synced, data@.len() > 0 ==> !final(self).flushed@,
            r is Ok ==> final(self).bytes@ == written(old(self).bytes@, old(self).pos@, data@) && final(self).pos@ == old(self).pos@ + data@.len(),
            r is Err ==> !healthy() && torn(old(self).bytes@, old(self).pos@, data@.len() as int, final(self).bytes@),
    { unimplemented!() }
    // tokio writes in the background: only a flush says that the bytes arrived
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: IoResult<()>)
        ensures final(self).synced == old(self).synced, final(self).pos == old(self).pos, final(self).bytes == old(self).bytes, r is Ok ==> final(self).flushed@, r is Err ==> !healthy(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, b: &mut Vec<u8>) -> (r: IoResult<()>)
        ensures final(self).bytes == old(self).bytes, final(self).flushed == old(self).flushed, final(self).synced == old(self).synced, final(b)@.len() == old(b)@.len(),
            r is Ok ==> old(self).pos@ + old(b)@.len() <= old(self).bytes@.len() && final(b)@ == old(self).bytes@.subrange(old(self).pos@, old(self).pos@ + old(b)@.len()),
            r matches Err(e) ==> !healthy() || (e.eof@ && old(self).pos@ + old(b)@.len() > old(self).bytes@.len()),
    { unimplemented!() }
    // try_clone().into_std(): a second handle on the same open file
    #[verifier::external_body]
    pub fn vp_handle(&mut self) -> (r: IoResult<()>) ensures *final(self) == *old(self), r is Err ==> !healthy(), { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_all(&mut self) -> (r: IoResult<()>)
        ensures final(self).bytes == old(self).bytes, final(self).flushed == old(self).flushed, final(self).pos == old(self).pos, r is Ok && old(self).flushed@ ==> final(self).synced@ == old(self).bytes@, r is Err ==> !healthy() && final(self).synced == old(self).synced,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_data(&mut self) -> (r: IoResult<()>)
        ensures final(self).bytes == old(self).bytes, final(self).flushed == old(self).flushed, final(self).pos == old(self).pos, r is Ok && old(self).flushed@ ==> final(self).synced@ == old(self).bytes@, r is Err ==> !healthy() && final(self).synced == old(self).synced,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&mut self) -> (r: IoResult<Meta>)
        ensures *final(self) == *old(self), r matches Ok(m) ==> m.n@ == old(self).bytes@.len(), r is Err ==> !healthy(),
    { unimplemented!() }
}
// direct_io.rs's aligned buffer (raw memory): contents only
pub struct AlignedBuffer { pub b: Ghost<Seq<u8>> }
impl AlignedBuffer {
    pub open spec fn view(&self) -> Seq<u8> { self.b@ }
    #[verifier::external_body] pub fn new(n: usize, align: usize) -> (r: Self) ensures r@ == zeros(n as int), { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body] pub fn first(&self, n: usize) -> (r: Vec<u8>) requires n <= self@.len(), ensures r@ == self@.take(n as int), { unimplemented!() }
    // as_mut_slice().copy_from_slice(d)
    #[verifier::external_body] pub fn vp_copy(&mut self, d: &[u8]) requires d@.len() == old(self)@.len(), ensures final(self)@ == d@, { unimplemented!() }
}
#[verifier::external_body] pub fn vp_chance() -> bool { unimplemented!() }
pub open spec fn le64(x: u64) -> Seq<u8> { vstd::bytes::spec_u64_to_le_bytes(x) }
#[verifier::external_body] pub fn vp_le64(x: u64) -> (r: Vec<u8>) ensures r@ == le64(x), r@.len() == 8, { x.to_le_bytes().to_vec() }
