// a queued operation is run once by a worker of the engine and its own result comes back (see the I/O engine's property)
pub struct OpReceiver { pub out: Ghost<IoResult<Vec<u8>>> }
impl AsyncIOEngine {
    #[verifier::external_body]
    pub fn enqueue_tracked_operation(&mut self, op: IOOperationType, priority: u8) -> (r: (u64, OpReceiver))
        requires op_ok(old(self).executor, op), ensures done(old(self).executor, op, final(self).executor, r.1.out@), { unimplemented!() }
    #[verifier::external_body]
    pub fn await_operation(receiver: OpReceiver) -> (r: IoResult<Vec<u8>>) ensures r == receiver.out@, { unimplemented!() }
}
impl LogRecord {
//@fn rec LogRecord::get_lsn
ensures res == self.lsn.v,
//@endfn
//@fn rec LogRecord::set_lsn
ensures final(self).lsn.v == lsn, *final(self) == (LogRecord { lsn: VpCell { v: lsn }, ..*old(self) }),
//@endfn
//@fn rec LogRecord::get_log_record_type
ensures res == self.log_record_type,
//@endfn
//@fn rec LogRecord::is_commit
ensures res == (self.log_record_type == LogRecordType::Commit),
//@endfn
//@fn rec LogRecord::to_bytes
requires 4 + enc(*self).len() <= i32::MAX,
ensures res is Ok == encodable(*self), res matches Ok(v) ==> v@ == rec_bytes(*self),
//@before /Ok\(out\)\s*\Z/
assert(out@ =~= rec_bytes(*self));
//@endfn
//@fn rec LogRecord::from_bytes
ensures bytes@.len() < 4 ==> res is Err,
    bytes@.len() >= 4 ==> (res is Ok == dec::<LogRecord>(bytes@.subrange(4, bytes@.len() as int)).is_some()) && (res matches Ok(r) ==> dec::<LogRecord>(bytes@.subrange(4, bytes@.len() as int)) == Some(r)),
//@endfn
}

// a new record of this kind: only these fields are filled in
pub open spec fn fresh(r: LogRecord, t: TxnId, prev: Lsn, k: LogRecordType) -> bool { r.lsn.v == INVALID_LSN && r.txn_id == t && r.prev_lsn == prev && r.log_record_type == k }
pub open spec fn no_delete(r: LogRecord) -> bool { r.delete_rid is None && r.delete_tuple is None }
pub open spec fn no_insert(r: LogRecord) -> bool { r.insert_rid is None && r.insert_tuple is None }
pub open spec fn no_update(r: LogRecord) -> bool { r.update_rid is None && r.old_tuple is None && r.new_tuple is None }
pub open spec fn no_page(r: LogRecord) -> bool { r.prev_page_id is None && r.page_id is None }
impl LogRecord {
//@fn rec LogRecord::refresh_size_from_encoding
ensures *final(self) == (LogRecord { size: final(self).size, ..*old(self) }),
//@rewrite /for _ in 0\.\.5/for _vp in 0..5/
//@rewrite /postcard::to_allocvec\(&\*self\)/postcard::to_allocvec(&*self)/
//@loop 0
invariant *self == (LogRecord { size: self.size, ..*old(self) }),
//@endfn
//@fn rec LogRecord::new_transaction_record
ensures fresh(res, txn_id, prev_lsn, log_record_type), no_delete(res), no_insert(res), no_update(res), no_page(res),
//@endfn
//@fn rec LogRecord::new_insert_delete_record
ensures ({
    let ins = log_record_type == LogRecordType::Insert;
    let del = log_record_type == LogRecordType::MarkDelete || log_record_type == LogRecordType::ApplyDelete || log_record_type == LogRecordType::RollbackDelete;
    &&& fresh(res, txn_id, prev_lsn, if ins || del { log_record_type } else { LogRecordType::Invalid })
    &&& no_update(res) && no_page(res)
    &&& if ins { res.insert_rid == Some(rid) && res.insert_tuple == Some(*tuple_arc) } else { no_insert(res) }
    &&& if del { res.delete_rid == Some(rid) && res.delete_tuple == Some(*tuple_arc) } else { no_delete(res) }
}),
//@endfn
//@fn rec LogRecord::new_update_record
ensures fresh(res, txn_id, prev_lsn, log_record_type), no_delete(res), no_insert(res), no_page(res), res.update_rid == Some(update_rid), res.old_tuple == Some(*old_tuple_arc), res.new_tuple == Some(*new_tuple_arc),
//@endfn
//@fn rec LogRecord::new_page_record
ensures fresh(res, txn_id, prev_lsn, log_record_type), no_delete(res), no_insert(res), no_update(res), res.prev_page_id == Some(prev_page_id), res.page_id == Some(page_id),
//@endfn
//@fn rec LogRecord::get_txn_id
ensures res == self.txn_id,
//@endfn
//@fn rec LogRecord::get_prev_lsn
ensures res == self.prev_lsn,
//@endfn
}
impl AsyncIOEngine {
//@fn eng AsyncIOEngine::append_log_direct
requires old(self).executor.page_ok(),
ensures final(self).executor.db_same(&old(self).executor), final(self).executor.cfg_same(&old(self).executor), final(self).executor.log_file.synced == old(self).executor.log_file.synced,
    res matches Ok(o) ==> o == old(self).log().len() && final(self).log() == old(self).log() + data@ && (data@.len() > 0 || old(self).executor.log_file.flushed@ ==> final(self).executor.log_file.flushed@),
    res is Err ==> !healthy() && torn(old(self).log(), old(self).log().len() as int, data@.len() as int, final(self).log()),
//@start
proof { vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes(); assert forall|s: Seq<u8>| s.len() == 8 implies #[trigger] s.subrange(0, 8) == s by { assert(s.subrange(0, 8) =~= s); } }
//@endfn
//@fn eng AsyncIOEngine::sync_log_direct
requires old(self).executor.page_ok(),
ensures final(self).executor.db_same(&old(self).executor), final(self).executor.cfg_same(&old(self).executor), final(self).log() == old(self).log(), final(self).executor.log_file.flushed == old(self).executor.log_file.flushed,
    res is Err ==> !healthy() && final(self).executor.log_file.synced == old(self).executor.log_file.synced, res is Ok && old(self).executor.log_file.flushed@ ==> final(self).executor.log_file.synced@ == old(self).log(),
//@endfn
//@fn eng AsyncIOEngine::read_log
requires old(self).executor.page_ok(),
ensures final(self).executor.db_same(&old(self).executor), final(self).executor.cfg_same(&old(self).executor), final(self).executor.log_same(&old(self).executor), size > 0 ==> read_says(old(self).log(), offset as int, size as int, res),
//@endfn
//@fn eng AsyncIOEngine::read_log_with_priority extern=enqueue_tracked_operation,await_operation
requires old(self).executor.page_ok(),
ensures final(self).executor.db_same(&old(self).executor), final(self).executor.cfg_same(&old(self).executor), final(self).executor.log_same(&old(self).executor), size > 0 ==> read_says(old(self).log(), offset as int, size as int, res),
//@endfn
}
impl AsyncDiskManager {
//@fn mgr AsyncDiskManager::read_log_sized
requires old(self).io_engine.executor.page_ok(),
ensures final(self).kept_log(old(self)), size > 0 ==> read_says(old(self).log(), offset as int, size as int, res),
//@endfn
//@fn mgr AsyncDiskManager::write_log
requires old(self).io_engine.executor.page_ok(), 4 + enc(*log_record).len() <= i32::MAX,
ensures final(self).kept(old(self)), final(self).lf().synced == old(self).lf().synced,
    res matches Ok(o) ==> encodable(*log_record) && o == old(self).log().len() && final(self).log() == old(self).log() + rec_bytes(*log_record) && final(self).lf().flushed@,
    res is Err ==> (!healthy() || !encodable(*log_record)) && torn(old(self).log(), old(self).log().len() as int, rec_bytes(*log_record).len() as int, final(self).log()),
//@start
proof { axiom_le_i32((4 + enc(*log_record).len()) as i32); }
//@endfn
//@fn mgr AsyncDiskManager::sync_log_direct
requires old(self).io_engine.executor.page_ok(),
ensures final(self).kept(old(self)), final(self).log() == old(self).log(), final(self).lf().flushed == old(self).lf().flushed, res is Err ==> !healthy() && final(self).lf().synced == old(self).lf().synced, res is Ok && old(self).lf().flushed@ ==> final(self).durable(),
//@endfn
}
