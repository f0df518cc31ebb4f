use vstd::prelude::*;
use std::sync::Arc;
verus! {
broadcast use vstd::std_specs::vec::group_vec_axioms;
global size_of usize == 8;
//@include inc_bytes.rs
//@include inc_file.rs
//@include inc_exec.rs
//@include inc_wal.rs
//@assumed io_exec
impl IOOperationExecutor {
//@fn exec IOOperationExecutor::execute_operation_type
requires op_ok(*old(self), operation_type),
ensures done(*old(self), operation_type, *final(self), res),
//@endfn
}
//@proved
//@include inc_wal_fns.rs
//@struct it LogIterator
//@fn it is_eof_error
ensures res == e.eof@,
//@endfn
impl LogIterator {
pub open spec fn log(&self) -> Seq<u8> { self.disk_manager.log() }
//@fn it LogIterator::with_offset
ensures res.disk_manager == disk_manager, res.current_offset == start_offset, !res.reached_eof,
//@endfn
//@fn it LogIterator::new
ensures res.disk_manager == disk_manager, res.current_offset == 0, !res.reached_eof,
//@endfn
//@fn it LogIterator::next
requires old(self).disk_manager.io_engine.executor.page_ok(), old(self).current_offset <= i64::MAX, old(self).log().len() <= i64::MAX,
ensures final(self).disk_manager.kept_log(&old(self).disk_manager),
    old(self).reached_eof ==> res is None,
    !old(self).reached_eof && healthy() ==> forall|r: LogRecord| #[trigger] whole(old(self).log(), old(self).current_offset as int, r) ==> res == Some(r) && final(self).current_offset == old(self).current_offset + size_at(old(self).log(), old(self).current_offset as int) && !final(self).reached_eof,
    !old(self).reached_eof && healthy() && ends(old(self).log(), old(self).current_offset as int) ==> res is None && final(self).current_offset == old(self).current_offset,
    res matches Some(r) ==> exists|o: int| old(self).current_offset <= o && #[trigger] whole(old(self).log(), o, r) && final(self).current_offset == o + size_at(old(self).log(), o) && !final(self).reached_eof,
    res is None ==> final(self).reached_eof,
    final(self).current_offset >= old(self).current_offset,
//@loop 0
invariant max_attempts == 100, attempts <= max_attempts, self.disk_manager.kept_log(&old(self).disk_manager), self.disk_manager.io_engine.executor.page_ok(), !self.reached_eof, !old(self).reached_eof, old(self).log().len() <= i64::MAX, old(self).current_offset <= i64::MAX,
    old(self).current_offset <= self.current_offset <= old(self).current_offset + attempts * 4096,
    attempts == 0 ==> self.current_offset == old(self).current_offset,
    attempts > 0 && healthy() ==> !any_whole(old(self).log(), old(self).current_offset as int) && !ends(old(self).log(), old(self).current_offset as int),
decreases max_attempts - attempts,
//@after /let page = DB_PAGE_SIZE;/
proof { let x = self.current_offset; assert(x as int <= ((x / page) + 1) * page <= x as int + 4096) by(nonlinear_arith) requires page == 4096u64; }
//@before /return Some\(record\);/
proof { assert(whole(old(self).log(), offset as int, record)); }
//@before /let record = match LogRecord::from_bytes/
proof {
    let log = old(self).log(); let o = offset as int; let n = record_size as int;
    if n >= 4 { assert(record_bytes@.subrange(4, n) =~= log.subrange(o + 4, o + n)); }
    if any_whole(log, o) { assert(whole(log, o, rec_at(log, o))); }
}
//@endfn
//@fn it LogIterator::collect
requires old(self).disk_manager.io_engine.executor.page_ok(), old(self).current_offset <= i64::MAX, old(self).log().len() <= i64::MAX,
ensures final(self).disk_manager.kept_log(&old(self).disk_manager),
    !old(self).reached_eof && healthy() && clean(old(self).log(), old(self).current_offset as int) ==> res@ == parse(old(self).log(), old(self).current_offset as int),
//@loop 0
invariant_except_break self.disk_manager.kept_log(&old(self).disk_manager), self.disk_manager.io_engine.executor.page_ok(), self.current_offset <= i64::MAX, old(self).log().len() <= i64::MAX, !self.reached_eof || old(self).reached_eof,
    old(self).reached_eof == self.reached_eof,
    !old(self).reached_eof && healthy() && clean(old(self).log(), old(self).current_offset as int) ==> clean(old(self).log(), self.current_offset as int) && records@ + parse(old(self).log(), self.current_offset as int) == parse(old(self).log(), old(self).current_offset as int),
ensures self.disk_manager.kept_log(&old(self).disk_manager), !old(self).reached_eof && healthy() && clean(old(self).log(), old(self).current_offset as int) ==> records@ == parse(old(self).log(), old(self).current_offset as int),
decreases old(self).log().len() - self.current_offset,
//@loopstart 0
let ghost o0 = self.current_offset as int; let ghost rs0 = records@; let ghost log = old(self).log();
proof { if clean(log, o0) { if any_whole(log, o0) { assert(whole(log, o0, rec_at(log, o0))); } else { assert(parse(log, o0) =~= Seq::<LogRecord>::empty()); assert(rs0 + parse(log, o0) =~= rs0); } } }
//@loopend 0
proof { if !old(self).reached_eof && healthy() && clean(log, old(self).current_offset as int) { assert(any_whole(log, o0)); assert(rs0 + parse(log, o0) =~= records@ + parse(log, self.current_offset as int)); } }
//@endfn
}

// ---- what the contracts say about whole logs ----
pub open spec fn pos(rs: Seq<LogRecord>, i: int) -> int { laid(rs.take(i)).len() as int }
pub open spec fn all_storable(rs: Seq<LogRecord>) -> bool { forall|i: int| 0 <= i < rs.len() ==> storable(#[trigger] rs[i]) }
pub proof fn lemma_pos(rs: Seq<LogRecord>, i: int)
    requires 0 <= i < rs.len(), storable(rs[i]),
    ensures pos(rs, i + 1) == pos(rs, i) + 4 + enc(rs[i]).len(), laid(rs.take(i + 1)) == laid(rs.take(i)) + rec_bytes(rs[i]), rec_bytes(rs[i]).len() == 4 + enc(rs[i]).len(),
{
    axiom_le_i32((4 + enc(rs[i]).len()) as i32);
    assert(rs.take(i + 1).drop_last() =~= rs.take(i)); assert(rs.take(i + 1).last() == rs[i]);
}
pub proof fn lemma_prefix(rs: Seq<LogRecord>, i: int)
    requires 0 <= i <= rs.len(), all_storable(rs),
    ensures pos(rs, i) <= laid(rs).len(), laid(rs).take(pos(rs, i)) == laid(rs.take(i)),
    decreases rs.len() - i,
{
    if i == rs.len() { assert(rs.take(i) =~= rs); assert(laid(rs).take(pos(rs, i)) =~= laid(rs)); }
    else {
        lemma_pos(rs, i); lemma_prefix(rs, i + 1);
        assert(laid(rs).take(pos(rs, i)) =~= laid(rs).take(pos(rs, i + 1)).take(pos(rs, i)));
        assert(laid(rs.take(i + 1)).take(pos(rs, i)) =~= laid(rs.take(i)));
    }
}
// a crash may leave any prefix of the bytes: reading gives the records that are whole in it, all of them and nothing else
pub proof fn lemma_crash(rs: Seq<LogRecord>, k: int, i: int) -> (j: int)
    requires all_storable(rs), 0 <= i <= rs.len(), pos(rs, i) <= k <= laid(rs).len(),
    ensures i <= j <= rs.len(), pos(rs, j) <= k, j < rs.len() ==> k < pos(rs, j + 1),
        clean(laid(rs).take(k), pos(rs, i)), parse(laid(rs).take(k), pos(rs, i)) == rs.subrange(i, j),
    decreases rs.len() - i,
{
    let log = laid(rs).take(k); let o = pos(rs, i);
    if i == rs.len() {
        lemma_prefix(rs, i); assert(rs.take(i) =~= rs);
        assert(parse(log, o) =~= rs.subrange(i, i));
        i
    } else {
        let r = rs[i]; let n = 4 + enc(r).len() as int;
        lemma_pos(rs, i); lemma_prefix(rs, i + 1); axiom_le_i32(n as i32); axiom_postcard(r);
        let w = laid(rs.take(i + 1));
        if o + 4 <= k {
            assert(log.subrange(o, o + 4) =~= laid(rs).take(o + n).subrange(o, o + 4));
            assert(w.subrange(o, o + 4) =~= le_i32(n as i32));
            assert(size_at(log, o) == n);
        }
        if o + n <= k {
            assert(log.subrange(o + 4, o + n) =~= laid(rs).take(o + n).subrange(o + 4, o + n));
            assert(w.subrange(o + 4, o + n) =~= enc(r));
            assert(whole(log, o, r));
            assert(rec_at(log, o) == r);
            let j = lemma_crash(rs, k, i + 1);
            assert(seq![r] + rs.subrange(i + 1, j) =~= rs.subrange(i, j));
            j
        } else {
            assert(!any_whole(log, o));
            assert(parse(log, o) =~= rs.subrange(i, i));
            i
        }
    }
}
// appending a record to a log adds exactly that record to what is read, whatever was there before
pub proof fn lemma_append(rs: Seq<LogRecord>, r: LogRecord)
    requires all_storable(rs), storable(r),
    ensures laid(rs.push(r)) == laid(rs) + rec_bytes(r), parse(laid(rs) + rec_bytes(r), 0) == rs.push(r), clean(laid(rs) + rec_bytes(r), 0), parse(laid(rs), 0) == rs,
{
    let rs2 = rs.push(r);
    assert(rs2.drop_last() =~= rs);
    assert(all_storable(rs2)) by { assert forall|i: int| 0 <= i < rs2.len() implies storable(#[trigger] rs2[i]) by { if i < rs.len() { assert(rs2[i] == rs[i]); } } }
    assert(rs.take(0) =~= Seq::empty()); assert(rs2.take(0) =~= Seq::empty());
    let j = lemma_crash(rs, laid(rs).len() as int, 0);
    if j < rs.len() { lemma_pos(rs, j); lemma_prefix(rs, j + 1); }
    assert(laid(rs).take(laid(rs).len() as int) =~= laid(rs)); assert(rs.subrange(0, j) =~= rs);
    let j2 = lemma_crash(rs2, laid(rs2).len() as int, 0);
    if j2 < rs2.len() { lemma_pos(rs2, j2); lemma_prefix(rs2, j2 + 1); }
    assert(laid(rs2).take(laid(rs2).len() as int) =~= laid(rs2)); assert(rs2.subrange(0, j2) =~= rs2);
}
fn main() {}
}
