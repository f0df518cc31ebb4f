//@source st src/storage/disk/async_disk/io/operation_status.rs
//@source ct src/storage/disk/async_disk/io/completion.rs
//@source qu src/storage/disk/async_disk/io/queue.rs
//@source wk src/storage/disk/async_disk/io/worker.rs
//@source eng src/storage/disk/async_disk/io/io_impl.rs
//@rewrite /Arc<(IOQueueManager|CompletionTracker|IOOperationExecutor|IOMetrics)>/\1/
//@rewrite /Arc<RwLock<HashMap<OperationId, OperationStatus>>>/HashMap<OperationId, OperationStatus>/
//@rewrite /broadcast::Sender<OperationEvent>/Announcer/
//@rewrite /broadcast::error::RecvError/RecvError/
//@rewrite /oneshot::Sender<OperationResult>/Notifier/
//@rewrite /oneshot::Receiver<OperationResult>/Answer/
//@rewrite /oneshot::channel\(\)/vp_channel(Ghost(id))/
//@rewrite /fn new_pending\(timeout: Option<Duration>\)/fn new_pending(timeout: Option<Duration>, Ghost(id): Ghost<int>)/
//@rewrite /OperationStatus::new_pending\((\w+)\)/OperationStatus::new_pending(\1, Ghost(op_id as int))/
//@rewrite /PriorityQueue<IOOperation>/VpHeap/
//@rewrite /Arc::new\(Mutex::new\(BinaryHeap::new\(\)\)\)/VpHeap::new()/
//@rewrite /AtomicU64/VpCell/
//@rewrite /self\s*\.metrics\s*\.record_\w+\([^;]*\)\s*;//
//@rewrite /metrics\s*\.record_\w+\([^;]*\)\s*;//
//@rewrite /let mut operations = self\.operations\.write\(\)/let operations = &mut self.operations/
//@rewrite /let operations = self\.operations\.read\(\)/let operations = &self.operations/
//@rewrite /let mut queue = self\.queue\.lock\(\)/let queue = &mut self.queue/
//@rewrite /let queue = self\.queue\.lock\(\)/let queue = &self.queue/
//@rewrite /\b(operations|ops)\.get_mut\(/hm_get_mut(&mut *\1, /
//@rewrite /std::mem::replace\(/vp_replace(/
//@rewrite /matches!\(\s*result, OperationResult::Success\(_\)\)/result.vp_success()/
//@rewrite /matches!\(\s*operations\.get\(&op_id\),\s*Some\(OperationStatus::Pending \{ \.\. \}\)\s*\)/match operations.get(&op_id) { Some(OperationStatus::Pending { .. }) => true, _ => false }/
//@rewrite /\bfn (start_operation|complete_operation\w*|fail_operation|cancel_\w+|check_timeouts|enqueue_\w+|dequeue_\w+|drain_\w+|clear_\w+|read_page\w*|write_page\w*|read_log\w*|write_log\w*|append_log\w*|sync\w*|check_and_\w+)(\s*\(\s*)&self\b/fn \1\2&mut self/
//@rewrite /self\.cleanup_old_operations\(&mut operations\)/Self::cleanup_old_operations(&self.config, &mut *operations)/
//@rewrite /timeout\.or\(self\.config\.default_timeout\)/vp_or(timeout, self.config.default_timeout)/
//@rewrite /started_at\.elapsed\(\) > \*timeout/vp_longer(started_at, timeout)/
//@rewrite /\*(\w+) > cutoff_time/vp_after(\1, &cutoff_time)/
//@rewrite /Instant::now\(\) - ([\w.]+)/vp_before_now(\1)/
//@rewrite /\.map\(\|status\| status\.is_completed\(\)\)/.vp_completed()/
//@rewrite /self\s*\.priority\s*\.cmp\(&other\.priority\)\s*\.then_with\(\|\| ([^\n]*\))\s*\)/vp_then(vp_cmp_u8(self.priority, other.priority), \1)/
//@rewrite /(\w+)\.submitted_at\.cmp\(&(\w+)\.submitted_at\)/vp_cmp_t(&\1.submitted_at, &\2.submitted_at)/
//@rewrite /std::cmp::Ordering/Cmp/
//@rewrite /\.map\(\|op\| op\.priority\)/.vp_priority()/
//@rewrite /queue_manager: &IOQueueManager/queue_manager: &mut IOQueueManager/
//@rewrite /executor: &IOOperationExecutor/executor: &mut IOOperationExecutor/
//@rewrite /completion_tracker: &CompletionTracker/completion_tracker: &mut CompletionTracker/
//@rewrite /let result = executor\b/vp_others(&mut *completion_tracker); let result = executor/
//@rewrite /match receiver \{/match receiver.vp_recv() {/
//@rewrite /priorities::\w+/vp_prio()/
//@rewrite /data\.to_vec\(\)/vp_to_vec(data)/
//@rewrite /Self::await_operation\(receiver\)\s*\.map\(\|_\| \(\)\)/Self::vp_unit(Self::await_operation(receiver))/
//@rewrite /let (?:offset_bytes): \[u8;\s*8\] = bytes\[0\.\.8\]\s*\.try_into\(\)\s*\.(?:expect\([^)]*\)|unwrap\(\));//
//@rewrite /u64::from_le_bytes\(offset_bytes\)/vp_u64_at(&bytes)/
//@rewrite /"[A-Z][^"]*"\.to_string\(\)/vp_string()/
//@rewrite /self\s*\.completion_tracker\s*\.cancel_operation\(op\.id, ([^\n]*?)\)\s*\.is_ok\(\)/self.completion_tracker.cancel_operation(op.id, \1).is_ok()/
//@rewrite /for op in drained \{/let mut vp_n: usize = 0; while vp_n < drained.len() { let op = &drained[vp_n]; vp_n += 1;/
