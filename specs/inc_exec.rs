//@source exec src/storage/disk/async_disk/io/executor.rs
//@source ops src/storage/disk/async_disk/io/operations.rs
//@source dio src/storage/disk/direct_io.rs
//@source cfg src/common/config.rs
//@opt strings=vp_string()
//@opt rlimit=60
//@rewrite /async fn/fn/
//@rewrite /\.await//
//@rewrite /Arc<Mutex<File>>/File/
//@rewrite /let (?:mut )?file = self\.(\w+)\.lock\(\)/let file = &mut self.\1/
//@rewrite /std::io::SeekFrom/SeekFrom/
//@rewrite /(?:std::)?\bio::ErrorKind/ErrorKind/
//@rewrite /(?:std::)?\bio::Error\b/IoError/
//@rewrite /log::log_enabled!\(log::Level::Debug\)/vp_chance()/
//@rewrite /let mut std_file = file\.try_clone\(\)\?\.into_std\(\);/file.vp_handle()?; let std_file = &mut *file;/
//@rewrite /tokio::task::spawn_blocking\(move \|\| \{\s*(\w+)\(&mut std_file, ([^()]*)\)\s*\}\)\s*\.map_err\(IoError::other\)\?\?/\1(std_file, \2)?/
//@rewrite /aligned_buf\[\.\.(\w+)\]\.to_vec\(\)/aligned_buf.first(\1)/
//@rewrite /\bfn (execute_\w+|read_log\w*|write_log\w*|append_log\w*|sync\w*|read_page\w*|write_page\w*|enqueue_\w+|get_db_file_size|set_lsn)(\s*\(\s*)&self\b/fn \1\2&mut self/
//@rewrite /(self\s*\.execute_append_log\(&data\))\s*\.map\(\|offset\| (offset\.to_le_bytes\(\)\.to_vec\(\))\)/match \1 { Ok(offset) => Ok(\2), Err(e) => Err(e) }/
//@rewrite /(\w+)\.to_le_bytes\(\)\.to_vec\(\)/vp_le64(\1)/
//@rewrite /let data = data\.to_vec\(\);//
//@const cfg DB_PAGE_SIZE
//@type cfg PageId
//@struct dio DirectIOConfig
impl Clone for DirectIOConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
//@struct exec IOOperationExecutor attr=
//@enum ops IOOperationType
impl IOOperationExecutor {
pub open spec fn page_ok(&self) -> bool { self.db_direct_io_config.enabled ==> self.db_direct_io_config.alignment > 0 && 4096int % (self.db_direct_io_config.alignment as int) == 0 }
pub open spec fn log_same(&self, o: &Self) -> bool { self.log_file.bytes == o.log_file.bytes && self.log_file.flushed == o.log_file.flushed && self.log_file.synced == o.log_file.synced }
pub open spec fn db_same(&self, o: &Self) -> bool { self.db_file.bytes == o.db_file.bytes && self.db_file.flushed == o.db_file.flushed && self.db_file.synced == o.db_file.synced }
pub open spec fn cfg_same(&self, o: &Self) -> bool { self.db_direct_io_config == o.db_direct_io_config }
}
// what one operation does to the two files and answers
pub open spec fn read_says(b: Seq<u8>, off: int, n: int, r: IoResult<Vec<u8>>) -> bool {
    &&& r matches Ok(v) ==> off + n <= b.len() && v@ == b.subrange(off, off + n)
    &&& r matches Err(e) ==> !healthy() || (e.eof@ && off + n > b.len())
}
pub open spec fn done(pre: IOOperationExecutor, op: IOOperationType, post: IOOperationExecutor, r: IoResult<Vec<u8>>) -> bool {
    &&& post.cfg_same(&pre)
    &&& match op {
        IOOperationType::ReadPage { page_id } => post.db_same(&pre) && post.log_same(&pre) && read_says(pre.db_file.bytes@, page_id * 4096int, 4096, r),
        IOOperationType::WritePage { page_id, data } => post.log_same(&pre) && post.db_file.synced == pre.db_file.synced
            && (r is Ok ==> data@.len() == 4096 && post.db_file.bytes@ == written(pre.db_file.bytes@, page_id * 4096int, data@) && post.db_file.flushed@)
            && (r is Err ==> (!healthy() || data@.len() != 4096) && torn(pre.db_file.bytes@, page_id * 4096int, 4096, post.db_file.bytes@))
            && (data@.len() != 4096 ==> r is Err && post.db_same(&pre)),
        IOOperationType::ReadLog { offset, size } => post.db_same(&pre) && post.log_same(&pre) && (size > 0 ==> read_says(pre.log_file.bytes@, offset as int, size as int, r)) && (size == 0 ==> (r matches Ok(v) && v@.len() == 0)),
        IOOperationType::WriteLog { data, offset } => post.db_same(&pre) && post.log_file.synced == pre.log_file.synced
            && (r is Ok ==> (data@.len() > 0 ==> post.log_file.bytes@ == written(pre.log_file.bytes@, offset as int, data@) && post.log_file.flushed@) && (data@.len() == 0 ==> post.log_same(&pre)))
            && (r is Err ==> !healthy() && torn(pre.log_file.bytes@, offset as int, data@.len() as int, post.log_file.bytes@)),
        IOOperationType::AppendLog { data } => post.db_same(&pre) && post.log_file.synced == pre.log_file.synced
            && (r matches Ok(v) ==> v@ == le64(pre.log_file.bytes@.len() as u64) && pre.log_file.bytes@.len() <= u64::MAX && post.log_file.bytes@ == pre.log_file.bytes@ + data@ && (data@.len() > 0 || pre.log_file.flushed@ ==> post.log_file.flushed@))
            && (r is Err ==> !healthy() && torn(pre.log_file.bytes@, pre.log_file.bytes@.len() as int, data@.len() as int, post.log_file.bytes@)),
        IOOperationType::Sync => post.log_same(&pre) && post.db_file.bytes == pre.db_file.bytes && post.db_file.flushed == pre.db_file.flushed && (r is Ok && pre.db_file.flushed@ ==> post.db_file.synced@ == pre.db_file.bytes@) && (r is Err ==> !healthy() && post.db_file.synced == pre.db_file.synced),
        IOOperationType::SyncLog => post.db_same(&pre) && post.log_file.bytes == pre.log_file.bytes && post.log_file.flushed == pre.log_file.flushed && (r is Ok && pre.log_file.flushed@ ==> post.log_file.synced@ == pre.log_file.bytes@) && (r is Err ==> !healthy() && post.log_file.synced == pre.log_file.synced),
    }
}
pub open spec fn op_ok(e: IOOperationExecutor, op: IOOperationType) -> bool {
    &&& e.page_ok()
    &&& match op { IOOperationType::ReadPage { page_id } => page_id <= 0xf_ffff_ffff_ffff, IOOperationType::WritePage { page_id, data } => page_id <= 0xf_ffff_ffff_ffff, _ => true }
}
