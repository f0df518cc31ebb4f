use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[verifier::external_body] pub fn vp_string() -> String { String::new() }
//@include inc_file.rs
//@include inc_exec.rs
//@rewrite /IoError::new\(ErrorKind::InvalidInput, msg\.into\(\)\)/IoError::new(ErrorKind::InvalidInput, msg)/
//@rewrite /msg: impl Into<String>/msg: String/
//@rewrite /invalid_input\("[^"]*"\)/invalid_input(vp_string())/
//@rewrite /(\w+)\.is_multiple_of\(([^()]*)\)/(\1 % (\2) == 0)/
//@rewrite /(\w+)\.is_power_of_two\(\)/vp_pow2(\1)/
//@rewrite /cfg!\(any\([^()]*\)\)/vp_os()/
//@rewrite /read_exact_at\((\w+), (\w+), buffer\.as_mut_slice\(\)\)/read_exact_at(\1, \2, &mut buffer)/
//@rewrite /write_all_at\((\w+), (\w+), aligned\.as_slice\(\)\)/write_all_at(\1, \2, aligned.as_slice())/
//@rewrite /(\w+)\.as_mut_slice\(\)\.copy_from_slice\((\w+)\)/\1.vp_copy(\2)/
// which system this is compiled for, and where a buffer happens to lie
#[verifier::external_body] pub fn vp_os() -> bool { unimplemented!() }
#[verifier::external_body] pub fn is_aligned(d: &[u8], a: usize) -> bool { unimplemented!() }
#[verifier::external_body] pub fn vp_pow2(a: usize) -> (r: bool) ensures a > 0 && 4096int % (a as int) == 0 ==> r, { a.is_power_of_two() }
pub open spec fn divides(c: DirectIOConfig, n: int) -> bool { c.alignment > 0 && 4096int % (c.alignment as int) == 0 && n % (c.alignment as int) == 0 }
// positioned reads and writes of the system (loops over pread and pwrite)
#[verifier::external_body]
pub fn read_exact_at(f: &mut File, offset: u64, b: &mut AlignedBuffer) -> (r: IoResult<()>)
    ensures final(f).bytes == old(f).bytes, final(f).flushed == old(f).flushed, final(f).synced == old(f).synced, final(b)@.len() == old(b)@.len(), read_at_says(old(f).bytes@, offset as int, final(b)@, r),
{ unimplemented!() }
pub open spec fn read_at_says(b: Seq<u8>, o: int, d: Seq<u8>, r: IoResult<()>) -> bool {
    &&& r is Ok ==> o + d.len() <= b.len() && d == b.subrange(o, o + d.len())
    &&& r matches Err(e) ==> !healthy() || (e.eof@ && o + d.len() > b.len())
}
#[verifier::external_body]
pub fn write_all_at(f: &mut File, offset: u64, b: &[u8]) -> (r: IoResult<()>)
    ensures final(f).synced == old(f).synced, b@.len() > 0 ==> !final(f).flushed@,
        r is Ok ==> final(f).bytes@ == written(old(f).bytes@, offset as int, b@), r is Err ==> !healthy() && torn(old(f).bytes@, offset as int, b@.len() as int, final(f).bytes@),
{ unimplemented!() }
pub proof fn page_divides(p: int, a: int)
    requires a > 0, 4096int % a == 0,
    ensures (p * 4096) % a == 0, a <= 4096,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(4096, a);
    let k = 4096int / a;
    assert(p * 4096 == (p * k) * a) by(nonlinear_arith) requires 4096 == a * k;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(p * k, a);
    if a > 4096 { vstd::arithmetic::div_mod::lemma_small_mod(4096, a as nat); }
}
//@fn dio invalid_input
//@endfn
//@fn dio is_offset_aligned
ensures alignment > 0 && offset as int % (alignment as int) == 0 ==> res,
//@endfn
//@fn dio is_size_aligned
ensures alignment > 0 && size as int % (alignment as int) == 0 ==> res,
//@endfn
//@fn dio direct_io_requires_alignment
ensures res ==> config.enabled,
//@endfn
//@fn dio validate_alignment
ensures alignment > 0 && 4096int % (alignment as int) == 0 ==> res is Ok,
//@endfn
//@fn dio round_up_to_alignment
requires size + alignment <= usize::MAX,
ensures alignment > 0 && size as int % (alignment as int) == 0 ==> res == size, res >= size,
//@before /\(adjusted \/ alignment\)/
proof {
    let a = alignment as int; let n = size as int; let q = (n + a - 1) / a;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + a - 1, a);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, a);
    assert(q * a == a * q) by(nonlinear_arith);
    assert(n <= q * a <= n + a - 1);
    if n % a == 0 {
        let k = n / a;
        assert(n == k * a) by(nonlinear_arith) requires n == a * k;
        assert(q == k) by(nonlinear_arith) requires k * a <= q * a <= k * a + a - 1, a > 0;
    }
}
//@endfn
//@fn dio create_aligned_buffer
ensures res@ == zeros(size as int),
//@endfn
//@fn dio read_aligned extern=read_exact_at,is_aligned
requires size == 4096, divides(*config, offset as int),
ensures final(file).bytes == old(file).bytes, final(file).flushed == old(file).flushed, final(file).synced == old(file).synced,
    res matches Ok(b) ==> read_at_says(old(file).bytes@, offset as int, b@, Ok(())) && b@.len() == size,
    res matches Err(e) ==> !healthy() || (e.eof@ && offset + size > old(file).bytes@.len()),
//@start
proof { page_divides(1, config.alignment as int); }
//@endfn
//@fn dio write_aligned extern=write_all_at,is_aligned
requires data@.len() == 4096, divides(*config, offset as int),
ensures final(file).synced == old(file).synced,
    res is Ok ==> final(file).bytes@ == written(old(file).bytes@, offset as int, data@),
    res is Err ==> !healthy() && torn(old(file).bytes@, offset as int, 4096, final(file).bytes@),
//@endfn
impl IOOperationExecutor {
//@fn exec IOOperationExecutor::execute_operation_type
requires op_ok(*old(self), operation_type),
ensures done(*old(self), operation_type, *final(self), res),
//@endfn
//@fn exec IOOperationExecutor::execute_read_page
requires old(self).page_ok(), page_id <= 0xf_ffff_ffff_ffff,
ensures final(self).cfg_same(old(self)), final(self).db_same(old(self)), final(self).log_same(old(self)), read_says(old(self).db_file.bytes@, page_id * 4096int, 4096, res),
//@start
proof { if self.page_ok() && self.db_direct_io_config.enabled { page_divides(page_id as int, self.db_direct_io_config.alignment as int); } }
//@before /Ok\(aligned_buf/
assert(aligned_buf@.take(size as int) =~= aligned_buf@);
//@endfn
//@fn exec IOOperationExecutor::execute_write_page
requires old(self).page_ok(), page_id <= 0xf_ffff_ffff_ffff,
ensures final(self).cfg_same(old(self)), final(self).log_same(old(self)), final(self).db_file.synced == old(self).db_file.synced,
    res is Ok ==> data@.len() == 4096 && final(self).db_file.bytes@ == written(old(self).db_file.bytes@, page_id * 4096int, data@) && final(self).db_file.flushed@,
    res is Err ==> (!healthy() || data@.len() != 4096) && torn(old(self).db_file.bytes@, page_id * 4096int, 4096, final(self).db_file.bytes@),
    data@.len() != 4096 ==> res is Err && final(self).db_same(old(self)),
//@start
proof { if self.page_ok() && self.db_direct_io_config.enabled { page_divides(page_id as int, self.db_direct_io_config.alignment as int); } }
//@endfn
//@fn exec IOOperationExecutor::execute_read_log
ensures final(self).cfg_same(old(self)), final(self).db_same(old(self)), final(self).log_same(old(self)), size > 0 ==> read_says(old(self).log_file.bytes@, offset as int, size as int, res), size == 0 ==> (res matches Ok(v) && v@.len() == 0),
//@endfn
//@fn exec IOOperationExecutor::execute_write_log
ensures final(self).cfg_same(old(self)), final(self).db_same(old(self)), final(self).log_file.synced == old(self).log_file.synced,
    res is Ok && data@.len() > 0 ==> final(self).log_file.bytes@ == written(old(self).log_file.bytes@, offset as int, data@) && final(self).log_file.flushed@,
    res is Ok && data@.len() == 0 ==> final(self).log_same(old(self)),
    res is Err ==> !healthy() && torn(old(self).log_file.bytes@, offset as int, data@.len() as int, final(self).log_file.bytes@),
//@endfn
//@fn exec IOOperationExecutor::execute_append_log
ensures final(self).cfg_same(old(self)), final(self).db_same(old(self)), final(self).log_file.synced == old(self).log_file.synced,
    res matches Ok(o) ==> o == old(self).log_file.bytes@.len() && final(self).log_file.bytes@ == old(self).log_file.bytes@ + data@ && (data@.len() > 0 || old(self).log_file.flushed@ ==> final(self).log_file.flushed@),
    res is Err ==> !healthy() && torn(old(self).log_file.bytes@, old(self).log_file.bytes@.len() as int, data@.len() as int, final(self).log_file.bytes@),
//@before /Ok\(offset\)\s*\Z/
assert(final(self).log_file.bytes@ =~= old(self).log_file.bytes@ + data@);
//@endfn
//@fn exec IOOperationExecutor::execute_sync
ensures final(self).cfg_same(old(self)), final(self).log_same(old(self)), final(self).db_file.bytes == old(self).db_file.bytes, final(self).db_file.flushed == old(self).db_file.flushed,
    res is Err ==> !healthy() && final(self).db_file.synced == old(self).db_file.synced, res is Ok && old(self).db_file.flushed@ ==> final(self).db_file.synced@ == old(self).db_file.bytes@,
//@endfn
//@fn exec IOOperationExecutor::execute_sync_log
ensures final(self).cfg_same(old(self)), final(self).db_same(old(self)), final(self).log_file.bytes == old(self).log_file.bytes, final(self).log_file.flushed == old(self).log_file.flushed,
    res is Err ==> !healthy() && final(self).log_file.synced == old(self).log_file.synced, res is Ok && old(self).log_file.flushed@ ==> final(self).log_file.synced@ == old(self).log_file.bytes@,
//@endfn
}
fn main() {}
}
