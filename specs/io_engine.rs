use vstd::prelude::*;
use std::collections::{HashMap, HashSet, VecDeque};
verus! {
global size_of usize == 8;
broadcast use vstd::std_specs::hash::group_hash_axioms;
#[verifier::external_body] pub fn vp_string() -> String { String::new() }
//@include inc_file.rs
//@include inc_exec.rs
//@include inc_io_engine.rs
//@include inc_maps.rs
pub enum Ordering { SeqCst, Acquire, Release, AcqRel, Relaxed }
pub struct VpCell { pub v: u64 }
impl VpCell {
    pub fn fetch_add(&mut self, n: u64, o: Ordering) -> (r: u64) requires old(self).v + n <= u64::MAX, ensures r == old(self).v, final(self).v == old(self).v + n, { let r = self.v; self.v = self.v + n; r }
}
// clocks: only an order of moments
#[derive(Clone, Copy)]
pub struct Duration { pub ms: u64 }
#[derive(Clone, Copy)]
pub struct Instant { pub t: u64 }
impl Instant {
    #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() }
}
#[verifier::external_body] pub fn vp_longer(a: &Instant, b: &Duration) -> bool { unimplemented!() }
#[verifier::external_body] pub fn vp_after(a: &Instant, b: &Instant) -> bool { unimplemented!() }
#[verifier::external_body] pub fn vp_before_now(d: Duration) -> Instant { unimplemented!() }
pub fn vp_or(a: Option<Duration>, b: Option<Duration>) -> (r: Option<Duration>) ensures r == if a is Some { a } else { b }, { if a.is_some() { a } else { b } }
pub fn vp_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b, { let mut b = b; core::mem::swap(a, &mut b); b }
pub type OperationId = u64;
//@enum st OperationResult
//@enum st OperationStatus
//@struct ct OperationEvent
//@struct ct CompletionTrackerConfig
//@struct ct CompletionTracker drop=metrics,cleanup_task
//@struct ops IOOperation
impl Clone for OperationResult { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl OperationResult { pub fn vp_success(&self) -> (r: bool) ensures r == (self is Success), { match self { OperationResult::Success(_) => true, _ => false } } }
// what an operation was submitted as, a history variable written once, when its id is new
pub uninterp spec fn asked(id: int) -> IOOperationType;
// that operation, run on the files, gave this
pub open spec fn ran(op: IOOperationType, v: Seq<u8>) -> bool { exists|a: IOOperationExecutor, b: IOOperationExecutor, r: IoResult<Vec<u8>>| #[trigger] done(a, op, b, r) && r is Ok && r->Ok_0@ == v }
// success may be reported for an operation only with what its own run gave
pub open spec fn came_to(id: int, r: OperationResult) -> bool { r matches OperationResult::Success(v) ==> ran(asked(id), v@) }
// one-shot channel of an operation: the sender is used up by the one send; the receiver gets only what was sent
pub struct Notifier { pub id: Ghost<int> }
pub struct Answer { pub id: Ghost<int> }
pub struct Gone;
#[verifier::external_body] pub fn vp_channel(Ghost(id): Ghost<int>) -> (r: (Notifier, Answer)) ensures r.0.id@ == id, r.1.id@ == id, { unimplemented!() }
impl Notifier { #[verifier::external_body] pub fn send(self, r: OperationResult) -> (ok: Result<(), OperationResult>) requires came_to(self.id@, r), { unimplemented!() } }
impl Answer { #[verifier::external_body] pub fn vp_recv(self) -> (r: Result<OperationResult, Gone>) ensures r matches Ok(x) ==> came_to(self.id@, x), { unimplemented!() } }
// announcements to all waiters: a listener hears only what was announced; a channel whose sender lives is not closed
pub enum RecvError { Closed, Lagged(u64) }
pub struct Announcer { pub x: u8 }
pub struct Listener { pub x: u8 }
impl Announcer {
    #[verifier::external_body] pub fn send(&self, e: OperationEvent) -> Result<usize, OperationEvent> requires came_to(e.operation_id as int, e.result), { unimplemented!() }
    #[verifier::external_body] pub fn subscribe(&self) -> Listener { unimplemented!() }
}
impl Listener { #[verifier::external_body] pub fn recv(&mut self) -> (r: Result<OperationEvent, RecvError>) ensures r matches Ok(e) ==> came_to(e.operation_id as int, e.result), !(r matches Err(RecvError::Closed)), { unimplemented!() } }
pub open spec fn right(id: int, s: OperationStatus) -> bool { match s { OperationStatus::Pending { notifier, .. } => notifier.id@ == id, OperationStatus::Completed { result, .. } => came_to(id, result), OperationStatus::Cancelled { .. } => true } }
pub open spec fn fine(m: Map<u64, OperationStatus>) -> bool { forall|id: u64| #[trigger] m.contains_key(id) ==> right(id as int, m[id]) }
pub open spec fn waits(m: Map<u64, OperationStatus>, id: u64) -> bool { m.contains_key(id) && m[id] is Pending }
// finished operations never change; nothing that still runs is forgotten
pub open spec fn follows(a: Map<u64, OperationStatus>, b: Map<u64, OperationStatus>) -> bool {
    &&& forall|id: u64| a.contains_key(id) && !(a[id] is Pending) && #[trigger] b.contains_key(id) ==> b[id] == a[id]
    &&& forall|id: u64| #[trigger] a.contains_key(id) && a[id] is Pending ==> b.contains_key(id) && (b[id] is Pending ==> b[id] == a[id])
}
impl CompletionTracker {
    pub open spec fn fine(&self) -> bool { fine(self.operations@) && forall|id: u64| #[trigger] self.operations@.contains_key(id) ==> id < self.next_id.v }
    pub open spec fn same(&self, o: &Self) -> bool { self.operations@ == o.operations@ && self.next_id == o.next_id && self.config == o.config }
    pub open spec fn grew(&self, o: &Self) -> bool { self.fine() && follows(o.operations@, self.operations@) && self.next_id.v >= o.next_id.v }
    pub open spec fn only(&self, o: &Self, id: u64) -> bool { self.operations@ == o.operations@.insert(id, self.operations@[id]) && self.next_id == o.next_id && self.config == o.config }
}
// the map as another moment finds it
#[verifier::external_body] pub fn vp_now(m: &HashMap<u64, OperationStatus>) -> (r: &HashMap<u64, OperationStatus>) requires fine(m@), ensures fine(r@), { unimplemented!() }
pub trait VpCompleted { spec fn is_done(&self) -> Option<bool>; fn vp_completed(&self) -> (r: Option<bool>) ensures r == self.is_done(); }
impl VpCompleted for Option<&OperationStatus> {
    open spec fn is_done(&self) -> Option<bool> { match self { Some(s) => Some(*s is Completed), None => None } }
    fn vp_completed(&self) -> (r: Option<bool>) { match self { Some(s) => Some(s.is_completed()), None => None } }
}
impl OperationStatus {
//@fn st OperationStatus::new_pending ret=r
ensures r.0 matches OperationStatus::Pending { notifier, timeout: t, .. } && notifier.id@ == id && t == timeout, r.1.id@ == id,
//@endfn
//@fn st OperationStatus::complete
requires self matches OperationStatus::Pending { notifier, .. } ==> came_to(notifier.id@, result),
ensures self is Pending ==> (res matches OperationStatus::Completed { result: x, .. } && x == result), !(self is Pending) ==> res == self,
//@endfn
//@fn st OperationStatus::cancel
ensures self is Pending ==> res is Cancelled, !(self is Pending) ==> res == self,
//@endfn
//@fn st OperationStatus::is_pending
ensures res == (self is Pending),
//@rewrite /matches!\(self, Self::Pending \{\s*\.\. \}\s*\)/match self { Self::Pending { .. } => true, _ => false }/
//@endfn
//@fn st OperationStatus::is_completed
ensures res == (self is Completed),
//@rewrite /matches!\(self, Self::Completed \{\s*\.\. \}\s*\)/match self { Self::Completed { .. } => true, _ => false }/
//@endfn
//@fn st OperationStatus::elapsed
//@endfn
//@fn st OperationStatus::is_timed_out
ensures res ==> self is Pending && self->timeout is Some,
//@endfn
}
// retain with the closure under the contract below: what it says no to is gone, all else stays as it was
pub open spec fn trimmed(a: Map<u64, OperationStatus>, b: Map<u64, OperationStatus>) -> bool {
    &&& forall|id: u64| #[trigger] b.contains_key(id) ==> a.contains_key(id) && b[id] == a[id]
    &&& forall|id: u64| #[trigger] waits(a, id) ==> b.contains_key(id)
}
#[verifier::external_body]
pub fn vp_retain(m: &mut HashMap<u64, OperationStatus>, cutoff: &Instant)
    ensures trimmed(old(m)@, final(m)@), final(m)@.len() <= old(m)@.len(),
{ unimplemented!() }
// iter().filter_map(..).collect() over the statuses
#[verifier::external_body]
pub fn vp_ids_pending(m: &HashMap<u64, OperationStatus>) -> (r: Vec<u64>) ensures r@.no_duplicates(), r@.len() <= m@.len(), forall|i: int| 0 <= i < r@.len() ==> waits(m@, #[trigger] r@[i]), forall|id: u64| #[trigger] waits(m@, id) ==> r@.contains(id), { unimplemented!() }
#[verifier::external_body]
pub fn vp_ids_timed_out(m: &HashMap<u64, OperationStatus>) -> (r: Vec<u64>) ensures r@.no_duplicates(), r@.len() <= m@.len(), forall|i: int| 0 <= i < r@.len() ==> waits(m@, #[trigger] r@[i]), { unimplemented!() }
impl CompletionTracker {
//@fn ct CompletionTracker::cleanup_old_operations
//@rewrite /&self, operations/config: &CompletionTrackerConfig, operations/
//@rewrite /self\.config/config/
//@hole /operations\.retain\(\|_, status\| \{/ vp_retain(operations, &cutoff_time
requires fine(old(operations)@),
ensures fine(final(operations)@), follows(old(operations)@, final(operations)@), forall|id: u64| #[trigger] final(operations)@.contains_key(id) ==> old(operations)@.contains_key(id),
//@before /\Z/
proof { assert forall|id: u64| #[trigger] old(operations)@.contains_key(id) && old(operations)@[id] is Pending implies operations@.contains_key(id) by { assert(waits(old(operations)@, id)); } }
//@endfn
//@fn ct CompletionTracker::cleanup_old_operations
//@at /operations\.retain\(\|_, status\| \{/
ensures status is Pending ==> res,
//@sig
fn keeps_old(status: &OperationStatus, cutoff_time: Instant) -> bool
//@endfn
//@fn ct CompletionTracker::start_operation ret=r
requires old(self).fine(), old(self).next_id.v < u64::MAX,
ensures final(self).grew(old(self)), r.0 == old(self).next_id.v, final(self).next_id.v == r.0 + 1, r.1.id@ == r.0, waits(final(self).operations@, r.0), final(self).config == old(self).config,
//@endfn
//@fn ct CompletionTracker::complete_operation
requires old(self).fine(), came_to(op_id as int, OperationResult::Success(result)),
ensures final(self).grew(old(self)), res is Ok == waits(old(self).operations@, op_id), res is Err ==> final(self).same(old(self)),
    res is Ok ==> final(self).only(old(self), op_id) && (final(self).operations@[op_id] matches OperationStatus::Completed { result: x, .. } && x == OperationResult::Success(result)),
//@endfn
//@fn ct CompletionTracker::complete_operation_with_result
requires old(self).fine(), came_to(op_id as int, result),
ensures final(self).grew(old(self)), res is Ok == waits(old(self).operations@, op_id), res is Err ==> final(self).same(old(self)),
    res is Ok ==> final(self).only(old(self), op_id) && (final(self).operations@[op_id] matches OperationStatus::Completed { result: x, .. } && x == result),
//@endfn
//@fn ct CompletionTracker::fail_operation
requires old(self).fine(),
ensures final(self).grew(old(self)), res is Ok == waits(old(self).operations@, op_id), res is Err ==> final(self).same(old(self)),
    res is Ok ==> final(self).only(old(self), op_id) && (final(self).operations@[op_id] matches OperationStatus::Completed { result: x, .. } && x is Error),
//@endfn
//@fn ct CompletionTracker::cancel_operation
requires old(self).fine(),
ensures final(self).grew(old(self)), res is Ok == waits(old(self).operations@, op_id), res is Err ==> final(self).same(old(self)),
    res is Ok ==> final(self).only(old(self), op_id) && final(self).operations@[op_id] is Cancelled,
//@endfn
//@fn ct CompletionTracker::get_operation_status
ensures res == if self.operations@.contains_key(op_id) { Some(self.operations@[op_id] is Completed) } else { None },
//@endfn
//@fn ct CompletionTracker::is_operation_pending
ensures res == waits(self.operations@, op_id),
//@endfn
//@fn ct CompletionTracker::tracked_operations_count
ensures res == self.operations@.len(),
//@endfn
//@fn ct CompletionTracker::wait_for_operation
//@rewrite /tokio::select! \{/match vp_chance() {/
//@rewrite /_ = sleep\(wait_timeout\) =>/false =>/
//@rewrite /\}\s*=> \{\s*Ok\(result\)/} => { let result = self.await_event(op_id, event_receiver); Ok(result)/
//@hole /result = async \{/ true
requires self.fine(),
ensures res matches Ok(r) ==> came_to(op_id as int, r),
    self.operations@.contains_key(op_id) && self.operations@[op_id] is Completed ==> (res matches Ok(r) && r == self.operations@[op_id]->Completed_result),
    !self.operations@.contains_key(op_id) || self.operations@[op_id] is Cancelled ==> res is Err,
//@endfn
//@fn ct CompletionTracker::wait_for_operation attr=#[verifier::exec_allows_no_decreases_clause]
//@at /result = async \{/
//@rewrite /let operations = &self\.operations/let operations = vp_now(&self.operations)/
//@rewrite /matches!\(e, RecvError::Lagged\(_\)\)/match e { RecvError::Lagged(_) => true, _ => false }/
//@rewrite /Some\(OperationStatus::Pending \{\s*\.\. \}\) if missed => \{\}\s*_ => return ([^;]*?), \}/Some(OperationStatus::Pending { .. }) => { if !missed { return \1; } }, _ => return \1, }/
requires fine(self.operations@),
ensures came_to(op_id as int, res),
//@loop 0
invariant fine(self.operations@),
//@sig
fn await_event(&self, op_id: OperationId, event_receiver: Listener) -> OperationResult
//@start
let mut event_receiver = event_receiver;
//@endfn
//@fn ct CompletionTracker::cancel_all_pending
//@rewrite /operations\s*\.iter\(\)\s*\.filter_map\(\s*\|\(id, status\)\| \{\s*if status\.is_pending\(\) \{\s*Some\(\*id\) \}\s*else \{\s*None \}\s*\},?\s*\)\s*\.collect::<Vec<_>>\(\)/vp_ids_pending(operations)/
//@rewrite /for op_id in pending_ids \{/let mut vp_n: usize = 0; while vp_n < pending_ids.len() { let op_id = pending_ids[vp_n]; vp_n += 1;/
requires old(self).fine(),
ensures final(self).grew(old(self)), forall|id: u64| !#[trigger] waits(final(self).operations@, id), res <= old(self).operations@.len(), final(self).operations@.dom() == old(self).operations@.dom(),
//@loop 0
invariant 0 <= vp_n <= pending_ids@.len(), cancelled_count <= vp_n, pending_ids@.len() <= old(self).operations@.len(), pending_ids@.no_duplicates(), self.grew(old(self)), self.operations@.dom() =~= old(self).operations@.dom(),
    forall|i: int| 0 <= i < vp_n ==> !waits(self.operations@, #[trigger] pending_ids@[i]), forall|id: u64| #[trigger] waits(self.operations@, id) ==> pending_ids@.contains(id),
decreases pending_ids@.len() - vp_n,
//@loopstart 0
let ghost before = self.operations@;
//@loopend 0
assert(forall|id: u64| #[trigger] waits(self.operations@, id) ==> waits(before, id));
//@endfn
//@fn ct CompletionTracker::check_timeouts
//@rewrite /operations\s*\.iter\(\)\s*\.filter_map\(\s*\|\(id, status\)\| \{\s*if status\.is_timed_out\(\) \{\s*Some\(\*id\) \}\s*else \{\s*None \}\s*\},?\s*\)\s*\.collect::<Vec<_>>\(\)/vp_ids_timed_out(operations)/
//@rewrite /for op_id in timed_out_ids \{/let mut vp_n: usize = 0; while vp_n < timed_out_ids.len() { let op_id = timed_out_ids[vp_n]; vp_n += 1;/
requires old(self).fine(),
ensures final(self).grew(old(self)),
//@loop 0
invariant 0 <= vp_n <= timed_out_ids@.len(), timed_out_count <= vp_n, self.grew(old(self)),
decreases timed_out_ids@.len() - vp_n,
//@endfn
}
// wait for several: every id asked for has an answer of its own
pub open spec fn answers(v: Seq<(u64, OperationResult)>) -> bool { forall|i: int| 0 <= i < v.len() ==> came_to(#[trigger] v[i].0 as int, v[i].1) }
pub open spec fn has(v: Seq<(u64, OperationResult)>, id: u64) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i].0 == id }
pub open spec fn covered(ids: Seq<u64>, v: Seq<(u64, OperationResult)>, left: Set<u64>) -> bool { forall|i: int| 0 <= i < ids.len() ==> left.contains(#[trigger] ids[i]) || has(v, ids[i]) }
#[verifier::external_body]
pub fn vp_idset(ids: &[u64]) -> (r: HashSet<u64>) ensures r@ == ids@.to_set(), { unimplemented!() }
pub fn vp_add(v: &mut Vec<(u64, OperationResult)>, left: &mut HashSet<u64>, ids: &[u64], id: u64, r: OperationResult)
    requires answers(old(v)@), covered(ids@, old(v)@, old(left)@), came_to(id as int, r),
    ensures answers(final(v)@), covered(ids@, final(v)@, final(left)@),
{
    let ghost a = v@;
    v.push((id, r));
    left.remove(&id);
    proof {
        assert(v@[a.len() as int].0 == id);
        assert forall|i: int| 0 <= i < ids@.len() implies left@.contains(#[trigger] ids@[i]) || has(v@, ids@[i]) by {
            if has(a, ids@[i]) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j].0 == ids@[i]; assert(v@[j].0 == ids@[i]); }
        }
    }
}
impl CompletionTracker {
//@fn ct CompletionTracker::wait_for_operations
//@rewrite /std::collections::HashSet<OperationId>/HashSet<u64>/
//@rewrite /op_ids\.iter\(\)\.copied\(\)\.collect\(\)/vp_idset(op_ids)/
//@rewrite /for &op_id in op_ids \{/let mut vp_n: usize = 0; while vp_n < op_ids.len() { let op_id = op_ids[vp_n]; vp_n += 1;/
//@rewrite /results\.push\(\(\s*op_id, ([^;]*?),?\s*\)\);\s*remaining_ids\.remove\(&op_id\);/vp_add(&mut results, &mut remaining_ids, op_ids, op_id, \1);/
//@rewrite /tokio::select! \{/match vp_chance() {/
//@rewrite /_ = sleep\(wait_timeout\) =>/false =>/
//@rewrite /\}\s*=> \{\}/} => { self.await_events(op_ids, event_receiver, &mut remaining_ids, &mut results); }/
//@hole /_ = async \{/ true
requires self.fine(),
ensures res matches Ok(v) ==> answers(v@) && covered(op_ids@, v@, Set::empty()),
//@loop 0
invariant 0 <= vp_n <= op_ids@.len(), self.fine(), fine(operations@), answers(results@), covered(op_ids@, results@, remaining_ids@),
decreases op_ids@.len() - vp_n,
//@before /return Ok\(results\)/
assert(remaining_ids@ =~= Set::empty());
//@endfn
//@fn ct CompletionTracker::wait_for_operations attr=#[verifier::exec_allows_no_decreases_clause]
//@at /_ = async \{/
//@rewrite /for &op_id in op_ids \{/let mut vp_n: usize = 0; while vp_n < op_ids.len() { let op_id = op_ids[vp_n]; vp_n += 1;/
//@rewrite /results\.push\(\(\s*op_id, ([^;]*?),?\s*\)\);\s*remaining_ids\.remove\(&op_id\);/vp_add(results, remaining_ids, op_ids, op_id, \1);/
//@rewrite /results\.push\(\(\s*event\.operation_id, event\.result\)\);\s*remaining_ids\.remove\(&event\.operation_id\);/vp_add(results, remaining_ids, op_ids, event.operation_id, event.result);/
//@rewrite /let operations = &self\.operations/let operations = vp_now(&self.operations)/
requires self.fine(), answers(old(results)@), covered(op_ids@, old(results)@, old(remaining_ids)@),
ensures answers(final(results)@), covered(op_ids@, final(results)@, Set::empty()),
//@loop 0
invariant self.fine(), answers(results@), covered(op_ids@, results@, remaining_ids@),
ensures answers(results@), covered(op_ids@, results@, remaining_ids@), remaining_ids@ =~= Set::empty(),
//@loop 1
invariant 0 <= vp_n <= op_ids@.len(), answers(results@), covered(op_ids@, results@, remaining_ids@), fine(operations@),
decreases op_ids@.len() - vp_n,
//@sig
fn await_events(&self, op_ids: &[OperationId], event_receiver: Listener, remaining_ids: &mut HashSet<u64>, results: &mut Vec<(OperationId, OperationResult)>)
//@start
let mut event_receiver = event_receiver;
//@endfn
// one round of the background task that gives up what takes too long and forgets what ended long ago
//@fn ct CompletionTracker::start_cleanup_task
//@at /\bloop \{/
//@rewrite /interval\.tick\(\);//
//@rewrite /let (?:mut )?ops = operations\.(?:read|write)\(\);/let ops = &mut *operations;/
//@rewrite /ops\.iter\(\)\s*\.filter_map\(\s*\|\(id, status\)\| \{\s*if status\.is_timed_out\(\) \{\s*Some\(\*id\) \}\s*else \{\s*None \}\s*\},?\s*\)\s*\.collect::<Vec<_>>\(\)/vp_ids_timed_out(ops)/
//@rewrite /for op_id in timed_out_ids \{/let mut vp_n: usize = 0; while vp_n < timed_out_ids.len() { let op_id = timed_out_ids[vp_n]; vp_n += 1;/
//@rewrite /if let Some\(status\) = (hm_get_mut\([^)]*\)) && (status\.is_pending\(\)) && (status\.is_timed_out\(\)) \{/if vp_due(&*ops, &op_id) { let status = hm_get_mut(&mut *ops, &op_id).unwrap();/
//@hole /ops\.retain\(\|_, status\| \{/ vp_retain(ops, &cutoff_time
requires fine(old(operations)@), old(operations)@.len() < i32::MAX,
ensures fine(final(operations)@), exists|mid: Map<u64, OperationStatus>| #[trigger] follows(old(operations)@, mid) && trimmed(mid, final(operations)@),
//@loop 0
invariant 0 <= vp_n <= timed_out_ids@.len() < i32::MAX, count <= vp_n, fine(operations@), follows(old(operations)@, operations@), operations@.dom() == old(operations)@.dom(),
decreases timed_out_ids@.len() - vp_n,
//@before /vp_retain/
let ghost mid = ops@;
//@before /let removed_count/
assert(follows(old(operations)@, mid) && trimmed(mid, ops@));
//@sig
fn cleanup_round(operations: &mut HashMap<OperationId, OperationStatus>, config: &CompletionTrackerConfig, event_sender: &Announcer)
//@endfn
//@fn ct CompletionTracker::start_cleanup_task
//@at /ops\.retain\(\|_, status\| \{/
ensures status is Pending ==> res,
//@sig
fn keeps_in_round(status: &OperationStatus, cutoff_time: Instant) -> bool
//@endfn
}
pub fn vp_due(m: &HashMap<u64, OperationStatus>, id: &u64) -> (r: bool) ensures r ==> waits(m@, *id), { match m.get(id) { Some(s) => s.is_pending() && s.is_timed_out(), None => false } }
// the queue: what comes out is one of the highest priority, and of those the one submitted first
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Cmp { Less, Equal, Greater }
pub fn vp_then(a: Cmp, b: Cmp) -> (r: Cmp) ensures r == if a == Cmp::Equal { b } else { a }, { match a { Cmp::Equal => b, _ => a } }
pub fn vp_cmp_u8(a: u8, b: u8) -> (r: Cmp) ensures r == num_cmp(a as int, b as int), { if a < b { Cmp::Less } else if a > b { Cmp::Greater } else { Cmp::Equal } }
pub fn vp_cmp_t(a: &Instant, b: &Instant) -> (r: Cmp) ensures r == num_cmp(a.t as int, b.t as int), { if a.t < b.t { Cmp::Less } else if a.t > b.t { Cmp::Greater } else { Cmp::Equal } }
pub open spec fn num_cmp(a: int, b: int) -> Cmp { if a < b { Cmp::Less } else if a > b { Cmp::Greater } else { Cmp::Equal } }
pub open spec fn urgent(a: IOOperation, b: IOOperation) -> bool { a.priority > b.priority || (a.priority == b.priority && a.submitted_at.t <= b.submitted_at.t) }
impl IOOperation {
//@fn ops IOOperation::cmp
ensures (res == Cmp::Less) == !urgent(*self, *other), (res == Cmp::Greater) == !urgent(*other, *self),
//@endfn
}
// std's BinaryHeap over the order above
pub struct VpHeap { pub v: Ghost<Seq<IOOperation>> }
pub open spec fn at(s: Seq<IOOperation>, i: int, x: IOOperation) -> bool { 0 <= i < s.len() && s[i] == x }
pub open spec fn taken(a: Seq<IOOperation>, x: IOOperation, b: Seq<IOOperation>) -> bool { (exists|i: int| #[trigger] at(a, i, x) && b == a.remove(i)) && forall|j: int| 0 <= j < a.len() ==> urgent(x, #[trigger] a[j]) }
impl VpHeap {
    pub open spec fn view(&self) -> Seq<IOOperation> { self.v@ }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<IOOperation>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: IOOperation) ensures final(self)@ == old(self)@.push(x), { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<IOOperation>) ensures r is None == (old(self)@.len() == 0), r is None ==> final(self)@ == old(self)@, r matches Some(x) ==> taken(old(self)@, x, final(self)@), { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<&IOOperation>) ensures r is None == (self@.len() == 0), r matches Some(x) ==> self@.contains(*x) && forall|j: int| 0 <= j < self@.len() ==> urgent(*x, #[trigger] self@[j]), { unimplemented!() }
}
pub trait VpPriority { spec fn prio(&self) -> Option<u8>; fn vp_priority(&self) -> (r: Option<u8>) ensures r == self.prio(); }
impl VpPriority for Option<&IOOperation> {
    open spec fn prio(&self) -> Option<u8> { match self { Some(o) => Some(o.priority), None => None } }
    fn vp_priority(&self) -> (r: Option<u8>) { match self { Some(o) => Some(o.priority), None => None } }
}
//@struct qu IOQueueManager
pub open spec fn ids(s: Seq<IOOperation>) -> Seq<u64> { s.map_values(|o: IOOperation| o.id) }
// every queued operation is one that was submitted, under an id of its own
pub open spec fn queued_ok(s: Seq<IOOperation>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).operation_type == asked(s[i].id as int)
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).id != (#[trigger] s[j]).id
}
impl IOQueueManager {
//@fn qu IOQueueManager::new
ensures res.queue@.len() == 0,
//@endfn
//@fn qu IOQueueManager::enqueue_operation
ensures final(self).queue@.len() == old(self).queue@.len() + 1, final(self).queue@.drop_last() == old(self).queue@,
    final(self).queue@.last().id == id, final(self).queue@.last().operation_type == operation_type, final(self).queue@.last().priority == priority,
//@before /\Z/
assert(self.queue@.drop_last() =~= old(self).queue@);
//@endfn
//@fn qu IOQueueManager::dequeue_operation
ensures res is None == (old(self).queue@.len() == 0), res is None ==> final(self).queue@ == old(self).queue@, res matches Some(x) ==> taken(old(self).queue@, x, final(self).queue@),
//@endfn
//@fn qu IOQueueManager::queue_size
ensures res == self.queue@.len(),
//@endfn
//@fn qu IOQueueManager::is_empty
ensures res == (self.queue@.len() == 0),
//@endfn
//@fn qu IOQueueManager::peek_highest_priority
ensures res is None == (self.queue@.len() == 0), res matches Some(p) ==> forall|j: int| 0 <= j < self.queue@.len() ==> p >= (#[trigger] self.queue@[j]).priority,
//@endfn
//@fn qu IOQueueManager::drain_queue
ensures final(self).queue@.len() == 0, res@.len() == old(self).queue@.len(), res@.to_multiset() =~= old(self).queue@.to_multiset(), forall|x: IOOperation| #[trigger] old(self).queue@.contains(x) ==> res@.contains(x),
//@rewrite /while let Some\(op\) = queue\.pop\(\) \{/loop { let Some(op) = queue.pop() else { break };/
//@loop 0
invariant_except_break drained@.to_multiset().add(queue@.to_multiset()) =~= old(self).queue@.to_multiset(),
ensures queue@.len() == 0, drained@.to_multiset() =~= old(self).queue@.to_multiset(),
decreases queue@.len(),
//@start
broadcast use vstd::seq_lib::group_to_multiset_ensures;
//@beforeloop 0
assert(drained@.to_multiset() =~= vstd::multiset::Multiset::empty());
//@loopstart 0
broadcast use vstd::seq_lib::group_to_multiset_ensures;
let ghost qb = queue@;
let ghost db = drained@;
//@loopend 0
proof {
    let i = choose|i: int| #[trigger] at(qb, i, op) && queue@ == qb.remove(i);
    assert(queue@.to_multiset() =~= qb.to_multiset().remove(op));
    assert(qb.to_multiset().count(op) > 0);
    assert(drained@.to_multiset() =~= db.to_multiset().insert(op));
}
//@before /drained\s*\Z/
proof { assert(drained@.to_multiset().len() == drained@.len()); assert(old(self).queue@.to_multiset().len() == old(self).queue@.len());
    assert forall|x: IOOperation| #[trigger] old(self).queue@.contains(x) implies drained@.contains(x) by { assert(drained@.to_multiset().count(x) > 0); } }
//@endfn
//@fn qu IOQueueManager::clear_queue
ensures final(self).queue@.len() == 0, res == old(self).queue@.len(),
//@endfn
}
// what others did to the tracker in the meantime: finished stays finished, a waiting one may have been answered
#[verifier::external_body] pub fn vp_others(t: &mut CompletionTracker) requires old(t).fine(), ensures final(t).grew(old(t)), { unimplemented!() }
#[verifier::external_body] pub fn vp_prio() -> u8 { unimplemented!() }
#[verifier::external_body] pub fn vp_to_vec(d: &[u8]) -> (r: Vec<u8>) ensures r@ == d@, { d.to_vec() }
#[verifier::external_body] pub fn vp_u64_at(d: &Vec<u8>) -> (r: u64) requires d@.len() >= 8, ensures d@.len() == 8 ==> le64(r) == d@, { unimplemented!() }
pub struct Semaphore { pub x: u8 }
pub struct Permit { pub x: u8 }
pub struct AcquireError;
impl Semaphore { #[verifier::external_body] pub fn acquire(&self) -> Result<Permit, AcquireError> { unimplemented!() } }
impl IoError { #[verifier::external_body] pub fn kind(&self) -> ErrorKind { unimplemented!() }
    #[verifier::external_body] pub fn other<M>(m: M) -> (r: IoError) ensures !r.eof@, { unimplemented!() } }
//@assumed io_exec
impl IOOperationExecutor {
//@fn exec IOOperationExecutor::execute_operation_type
requires op_ok(*old(self), operation_type),
ensures done(*old(self), operation_type, *final(self), res),
//@endfn
//@fn exec IOOperationExecutor::get_db_file_size
ensures *final(self) == *old(self),
//@endfn
}
//@proved
pub open spec fn idle(a: IOOperationExecutor, b: IOOperationExecutor) -> bool { a.db_same(&b) && a.log_same(&b) && a.cfg_same(&b) }
pub struct IOWorkerManager { pub concurrency_limiter: Semaphore }
impl IOWorkerManager {
//@fn wk IOWorkerManager::process_operation
requires old(completion_tracker).fine(), operation.operation_type == asked(operation.id as int), op_ok(*old(executor), operation.operation_type),
ensures final(completion_tracker).grew(old(completion_tracker)),
    !waits(old(completion_tracker).operations@, operation.id) ==> *final(executor) == *old(executor) && *final(completion_tracker) == *old(completion_tracker),
    *final(executor) == *old(executor) || (exists|r: IoResult<Vec<u8>>| #[trigger] done(*old(executor), operation.operation_type, *final(executor), r)) && !waits(final(completion_tracker).operations@, operation.id),
//@endfn
}
//@struct eng AsyncIOEngine drop=worker_manager
impl AsyncIOEngine {
    pub open spec fn fine(&self) -> bool { self.completion_tracker.fine() && self.completion_tracker.next_id.v < u64::MAX && queued_ok(self.queue_manager.queue@) && self.executor.page_ok()
        && forall|i: int| 0 <= i < self.queue_manager.queue@.len() ==> (#[trigger] self.queue_manager.queue@[i]).id < self.completion_tracker.next_id.v }
    // the id is new, so its history variable was not written yet
    #[verifier::external_body] pub proof fn note_asked(&self, id: u64, op: IOOperationType) requires id >= self.completion_tracker.next_id.v, ensures asked(id as int) == op, {}
    pub fn vp_unit(r: IoResult<Vec<u8>>) -> (x: IoResult<()>) ensures x is Ok == r is Ok, x matches Err(e) ==> r == Err::<Vec<u8>, IoError>(e), { match r { Ok(_) => Ok(()), Err(e) => Err(e) } }
    pub open spec fn grew(&self, o: &Self) -> bool { self.completion_tracker.grew(&o.completion_tracker) && self.executor == o.executor && queued_ok(self.queue_manager.queue@) }
//@fn eng AsyncIOEngine::enqueue_tracked_operation ret=r
requires old(self).fine(),
ensures final(self).grew(old(self)), r.0 == old(self).completion_tracker.next_id.v, r.1.id@ == r.0, asked(r.0 as int) == operation_type, waits(final(self).completion_tracker.operations@, r.0),
    final(self).queue_manager.queue@.drop_last() == old(self).queue_manager.queue@, final(self).queue_manager.queue@.last().id == r.0, final(self).queue_manager.queue@.last().priority == priority,
    final(self).queue_manager.queue@.last().operation_type == operation_type,
//@start
proof { self.note_asked(self.completion_tracker.next_id.v, operation_type); }
//@before /\(op_id, receiver\)\s*\Z/
proof {
    let q = self.queue_manager.queue@; let p = old(self).queue_manager.queue@;
    assert forall|i: int| 0 <= i < p.len() implies q[i] == p[i] by { assert(q.drop_last()[i] == p[i]); }
}
//@endfn
//@fn eng AsyncIOEngine::await_operation
ensures res matches Ok(v) ==> ran(asked(receiver.id@), v@),
//@endfn
//@fn eng AsyncIOEngine::read_page
requires old(self).fine(), page_id <= 0xf_ffff_ffff_ffff,
ensures final(self).grew(old(self)), res matches Ok(v) ==> ran(IOOperationType::ReadPage { page_id }, v@),
//@endfn
//@fn eng AsyncIOEngine::read_page_with_priority
requires old(self).fine(), page_id <= 0xf_ffff_ffff_ffff,
ensures final(self).grew(old(self)), res matches Ok(v) ==> ran(IOOperationType::ReadPage { page_id }, v@),
//@endfn
//@fn eng AsyncIOEngine::read_log
requires old(self).fine(),
ensures final(self).grew(old(self)), res matches Ok(v) ==> ran(IOOperationType::ReadLog { offset, size }, v@),
//@endfn
//@fn eng AsyncIOEngine::read_log_with_priority
requires old(self).fine(),
ensures final(self).grew(old(self)), res matches Ok(v) ==> ran(IOOperationType::ReadLog { offset, size }, v@),
//@endfn
//@fn eng AsyncIOEngine::sync
requires old(self).fine(),
ensures final(self).grew(old(self)), res is Ok ==> exists|v: Seq<u8>| #[trigger] ran(IOOperationType::Sync, v),
//@endfn
//@fn eng AsyncIOEngine::sync_with_priority
requires old(self).fine(),
ensures final(self).grew(old(self)), res is Ok ==> exists|v: Seq<u8>| #[trigger] ran(IOOperationType::Sync, v),
//@endfn
//@fn eng AsyncIOEngine::sync_log
requires old(self).fine(),
ensures final(self).grew(old(self)), res is Ok ==> exists|v: Seq<u8>| #[trigger] ran(IOOperationType::SyncLog, v),
//@endfn
//@fn eng AsyncIOEngine::sync_log_with_priority
requires old(self).fine(),
ensures final(self).grew(old(self)), res is Ok ==> exists|v: Seq<u8>| #[trigger] ran(IOOperationType::SyncLog, v),
//@endfn
//@fn eng AsyncIOEngine::write_page
requires old(self).fine(), page_id <= 0xf_ffff_ffff_ffff,
ensures final(self).grew(old(self)), res is Ok ==> exists|d: Vec<u8>, v: Seq<u8>| d@ == data@ && #[trigger] ran(IOOperationType::WritePage { page_id, data: d }, v),
//@endfn
//@fn eng AsyncIOEngine::write_page_with_priority
requires old(self).fine(), page_id <= 0xf_ffff_ffff_ffff,
ensures final(self).grew(old(self)), res is Ok ==> exists|d: Vec<u8>, v: Seq<u8>| d@ == data@ && #[trigger] ran(IOOperationType::WritePage { page_id, data: d }, v),
//@endfn
//@fn eng AsyncIOEngine::write_log
requires old(self).fine(),
ensures final(self).grew(old(self)), res is Ok ==> exists|d: Vec<u8>, v: Seq<u8>| d@ == data@ && #[trigger] ran(IOOperationType::WriteLog { data: d, offset }, v),
//@endfn
//@fn eng AsyncIOEngine::write_log_with_priority
requires old(self).fine(),
ensures final(self).grew(old(self)), res is Ok ==> exists|d: Vec<u8>, v: Seq<u8>| d@ == data@ && #[trigger] ran(IOOperationType::WriteLog { data: d, offset }, v),
//@endfn
//@fn eng AsyncIOEngine::append_log
requires old(self).fine(),
ensures final(self).grew(old(self)), res matches Ok(o) ==> exists|d: Vec<u8>, v: Seq<u8>| d@ == data@ && v == le64(o) && #[trigger] ran(IOOperationType::AppendLog { data: d }, v),
//@endfn
//@fn eng AsyncIOEngine::append_log_with_priority
requires old(self).fine(),
ensures final(self).grew(old(self)), res matches Ok(o) ==> exists|d: Vec<u8>, v: Seq<u8>| d@ == data@ && v == le64(o) && #[trigger] ran(IOOperationType::AppendLog { data: d }, v),
//@start
proof { vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes(); }
//@before /if bytes\.len\(\) >= 8/
let ghost d0 = choose|d: Vec<u8>| d@ == data@ && #[trigger] ran(IOOperationType::AppendLog { data: d }, bytes@);
assert(ran(IOOperationType::AppendLog { data: d0 }, bytes@));
proof { let (a, b, r) = choose|a: IOOperationExecutor, b: IOOperationExecutor, r: IoResult<Vec<u8>>| #[trigger] done(a, IOOperationType::AppendLog { data: d0 }, b, r) && r is Ok && r->Ok_0@ == bytes@; assert(bytes@ == le64(a.log_file.bytes@.len() as u64)); assert(bytes@.len() == 8); }
//@endfn
//@fn eng AsyncIOEngine::clear_queue
requires old(self).fine(),
ensures final(self).grew(old(self)), final(self).queue_manager.queue@.len() == 0, res <= old(self).queue_manager.queue@.len(),
    forall|i: int| 0 <= i < old(self).queue_manager.queue@.len() ==> !waits(final(self).completion_tracker.operations@, (#[trigger] old(self).queue_manager.queue@[i]).id),
//@loop 0
invariant 0 <= vp_n <= drained@.len(), cancelled <= vp_n, self.completion_tracker.grew(&old(self).completion_tracker), self.queue_manager.queue@.len() == 0, self.executor == old(self).executor,
    drained@.len() == old(self).queue_manager.queue@.len(), forall|x: IOOperation| #[trigger] old(self).queue_manager.queue@.contains(x) ==> drained@.contains(x),
    forall|i: int| 0 <= i < vp_n ==> !waits(self.completion_tracker.operations@, (#[trigger] drained@[i]).id),
decreases drained@.len() - vp_n,
//@before /\bcancelled\s*\Z/
proof { assert forall|i: int| 0 <= i < old(self).queue_manager.queue@.len() implies !waits(self.completion_tracker.operations@, (#[trigger] old(self).queue_manager.queue@[i]).id) by { assert(old(self).queue_manager.queue@.contains(old(self).queue_manager.queue@[i])); } }
//@endfn
//@fn eng AsyncIOEngine::cancel_all_pending_operations
//@rewrite /reason\.to_string\(\)/vp_string()/
requires old(self).fine(), old(self).queue_manager.queue@.len() + old(self).completion_tracker.operations@.len() < usize::MAX,
ensures final(self).grew(old(self)), final(self).queue_manager.queue@.len() == 0, forall|id: u64| !#[trigger] waits(final(self).completion_tracker.operations@, id),
//@loop 0
invariant 0 <= vp_n <= drained@.len(), cancelled <= vp_n, self.completion_tracker.grew(&old(self).completion_tracker), self.queue_manager.queue@.len() == 0, self.executor == old(self).executor,
    self.completion_tracker.operations@.len() == old(self).completion_tracker.operations@.len(), drained@.len() == old(self).queue_manager.queue@.len(),
decreases drained@.len() - vp_n,
//@endfn
//@fn eng AsyncIOEngine::check_and_handle_timeouts
requires old(self).fine(),
ensures final(self).grew(old(self)), final(self).queue_manager == old(self).queue_manager,
//@endfn
}
fn main() {}
}
