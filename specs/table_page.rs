//@source tp src/storage/page/page_types/table_page.rs
//@source tu src/storage/table/tuple.rs
//@source rid src/common/rid.rs
//@source cfg src/common/config.rs
//@source pg src/storage/page/page_impl.rs
//@opt strings=vp_string()
//@opt rlimit=40
//@rewrite /(buffer)\[(\w+)\.\.\]\s*\.copy_from_slice\(/\1.vp_copy(\2, 4096, /
//@rewrite /([\w.]+)\[([^\[\]]*?)\.\.([^\[\]]*?)\]\s*\.copy_from_slice\(/\1.vp_copy(\2, \3, /
//@rewrite /([\w.]+)\[([^\[\]]*?)\.\.([^\[\]]*?)\]\s*\.fill\(/\1.vp_fill(\2, \3, /
//@rewrite /self\.data\.fill\(/self.data.vp_fill(0, 4096, /
//@rewrite /self\.data\.copy_from_slice\(/self.data.vp_copy(0, 4096, /
//@rewrite /(u16|u64|PageId)::from_le_bytes\((\w+)\[([^\[\]]*?)\.\.([^\[\]]*?)\]\s*\.try_into\(\)\s*\.unwrap\(\)\)/vp_\1_at(\2, \3, \4)/
//@rewrite /u32::from_be_bytes\((\w+)\[([^\[\]]*?)\.\.\]\s*\.try_into\(\)\s*\.unwrap\(\)\)/vp_be32_at(\1, \2, \1.len())/
//@rewrite /u32::from_be_bytes\((\w+)\[([^\[\]]*?)\.\.([^\[\]]*?)\]\s*\.try_into\(\)\s*\.unwrap\(\)\)/vp_be32_at(\1, \2, \3)/
//@rewrite /u16::from_le_bytes\((\w+)\.try_into\(\)\.unwrap\(\)\)/vp_u16_at(\1, 0, 2)/
//@rewrite /vp_PageId_at/vp_u64_at/
//@rewrite /&(self\.data)\[([^\[\]]*?)\.\.([^\[\]]*?)\]/self.data.vp_slice(\2, \3)/
//@rewrite /&(bytes)\[([^\[\]]*?)\.\.\]/vp_slice_of(\1, \2, \1.len())/
//@rewrite /&(bytes)\[([^\[\]]*?)\.\.([^\[\]]*?)\]/vp_slice_of(\1, \2, \3)/
//@rewrite /\.to_le_bytes\(\)/.vp_le()/
//@rewrite /(0x[0-9A-F]+u32)\.to_be_bytes\(\)/vp_be32(\1)/
//@rewrite /for \((\w+), (\([^()]*\))\) in ([\w.]+)\s*\.iter\(\)\s*\.enumerate\(\) \{/for \1 in 0..\3.len() {\nlet \2 = &\3[\1];/
use vstd::prelude::*;
verus! {
//@type cfg PageId
//@type cfg TxnId
//@type cfg Timestamp
//@const cfg DB_PAGE_SIZE
//@const cfg INVALID_PAGE_ID
//@const cfg TUPLE_MAX_SERIALIZED_SIZE
//@const pg PAGE_TYPE_OFFSET
//@const pg PAGE_ID_OFFSET
//@const pg PAGE_TYPE_INVALID
//@const pg PAGE_TYPE_BASIC
//@const pg PAGE_TYPE_TABLE
//@const pg PAGE_TYPE_HASH_TABLE_DIRECTORY
//@const pg PAGE_TYPE_HASH_TABLE_BUCKET
//@const pg PAGE_TYPE_HASH_TABLE_HEADER
//@const pg PAGE_TYPE_BTREE_HEADER
//@const pg PAGE_TYPE_BTREE_INTERNAL
//@const pg PAGE_TYPE_BTREE_LEAF
//@const pg PAGE_TYPE_BTREE_NODE
//@const tp TUPLE_META_MAX_ENCODED_LEN
//@include inc_bytes.rs
//@enum pg PageType attr=#[derive(PartialEq,Eq,Clone,Copy,Structural)]#[repr(u8)]
impl PageType {
pub open spec fn code(self) -> u8 { match self { PageType::Invalid => 0, PageType::Basic => 1, PageType::Table => 2, PageType::HashTableDirectory => 3, PageType::HashTableBucket => 4,
    PageType::HashTableHeader => 5, PageType::BTreeHeader => 6, PageType::BTreeInternal => 7, PageType::BTreeLeaf => 8, PageType::BTreeNode => 9 } }
//@fn pg PageType::from_u8
ensures res.is_some() == (value < 10), res matches Some(t) ==> t.code() == value,
//@endfn
//@fn pg PageType::to_u8
ensures res == self.code(),
//@endfn
}
//@struct rid RID attr=#[derive(Clone,Copy,PartialEq,Eq,Structural)]
impl RID {
//@fn rid RID::new
ensures res == (RID { page_id, slot_num }),
//@endfn
//@fn rid RID::get_page_id
ensures res == self.page_id,
//@endfn
//@fn rid RID::get_slot_num
ensures res == self.slot_num,
//@endfn
}
#[verifier::external_body] pub fn vp_meta_bytes(t: &Vec<Slot>) -> (r: usize) ensures r <= t@.len() * 37, { unimplemented!() }
pub enum TupleError { Other }
impl TupleError { #[verifier::external_body] pub fn to_string(&self) -> String { String::new() } }
//@struct tu TupleMeta attr=#[derive(Clone,Copy)]
impl TupleMeta {
//@fn tu TupleMeta::new
ensures res == (TupleMeta { creator_txn_id: txn_id, commit_timestamp: None, deleted: false, undo_log_idx: None }),
//@endfn
//@fn tu TupleMeta::is_deleted
ensures res == self.deleted,
//@endfn
}
#[verifier::external_body] pub struct Value;
pub struct Tuple { pub values: Vec<Value>, pub rid: RID }
impl Tuple {
//@fn tu Tuple::get_rid
ensures res == self.rid,
//@endfn
}
// postcard facts about the metadata of a slot: varints of at most 10 bytes, two options, one bool; decoding reads its own encoding back whatever follows
pub axiom fn axiom_meta_code(m: TupleMeta) ensures enc(m).len() <= 33, encodable(m);
pub axiom fn axiom_meta_decode(m: TupleMeta, rest: Seq<u8>) ensures dec::<TupleMeta>(enc(m) + rest) == Some(m);
pub enum PageError { InvalidOffset { offset: usize, page_size: usize }, TupleInvalid, SerializationError }
//@struct tp TablePageHeader
//@struct tp TablePage
pub type Slot = (u16, u16, TupleMeta);
pub open spec fn foot(n: int) -> int { 37 + n * 37 }
pub open spec fn placed(t: Slot, n: int) -> bool { foot(n) <= t.0 && t.0 + t.1 <= 4096 }
pub open spec fn apart(a: Slot, b: Slot) -> bool { a.0 + a.1 <= b.0 || b.0 + b.1 <= a.0 }
pub open spec fn laid_out(s: Seq<Slot>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> placed(#[trigger] s[i], s.len() as int)
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> apart(#[trigger] s[i], #[trigger] s[j])
}
pub open spec fn dead(s: Seq<Slot>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dead(s.drop_last()) + if s.last().2.deleted { 1int } else { 0 } } }
pub proof fn lemma_dead(s: Seq<Slot>) ensures 0 <= dead(s) <= s.len(), decreases s.len() { if s.len() > 0 { lemma_dead(s.drop_last()); } }
pub proof fn lemma_dead_has(s: Seq<Slot>, i: int) requires 0 <= i < s.len(), ensures s[i].2.deleted ==> dead(s) >= 1, !s[i].2.deleted ==> dead(s) < s.len(), decreases s.len()
{ lemma_dead(s.drop_last()); if i < s.len() - 1 { lemma_dead_has(s.drop_last(), i); } }
pub proof fn lemma_dead_update(s: Seq<Slot>, i: int, x: Slot) requires 0 <= i < s.len(),
    ensures dead(s.update(i, x)) == dead(s) - (if s[i].2.deleted { 1int } else { 0 }) + if x.2.deleted { 1int } else { 0 }, decreases s.len()
{
    if i < s.len() - 1 { lemma_dead_update(s.drop_last(), i, x); assert(s.update(i, x).drop_last() =~= s.drop_last().update(i, x)); }
    else { assert(s.update(i, x).drop_last() =~= s.drop_last()); }
}
pub proof fn lemma_dead_push(s: Seq<Slot>, x: Slot) ensures dead(s.push(x)) == dead(s) + if x.2.deleted { 1int } else { 0 } { assert(s.push(x).drop_last() =~= s); }
pub open spec fn row_bytes(data: Seq<u8>, t: Slot) -> Seq<u8> { data.subrange(t.0 as int, t.0 + t.1) }
impl TablePage {
pub const TYPE_ID: PageType = PageType::Table;
pub open spec fn wf(&self) -> bool {
    &&& self.header.num_tuples == self.tuple_info@.len()
    &&& laid_out(self.tuple_info@)
    &&& self.header.num_deleted_tuples == dead(self.tuple_info@)
}
// the page as a list of rows: metadata and stored bytes
pub open spec fn rows(&self) -> Seq<(TupleMeta, Seq<u8>)> { Seq::new(self.tuple_info@.len(), |i: int| (self.tuple_info@[i].2, row_bytes(self.data@, self.tuple_info@[i]))) }
pub open spec fn same_links(&self, o: &Self) -> bool { self.header.page_id == o.header.page_id && self.header.next_page_id == o.header.next_page_id && self.header.prev_page_id == o.header.prev_page_id && self.pin_count == o.pin_count }
pub open spec fn untouched(&self, o: &Self) -> bool { self.same_links(o) && self.rows() == o.rows() && self.is_dirty == o.is_dirty }
//@fn tp TablePage::get_num_tuples
ensures res == self.header.num_tuples,
//@endfn
//@fn tp TablePage::get_num_deleted_tuples
ensures res == self.header.num_deleted_tuples,
//@endfn
//@fn tp TablePage::get_next_page_id
ensures res == self.header.next_page_id,
//@endfn
//@fn tp TablePage::get_prev_page_id
ensures res == self.header.prev_page_id,
//@endfn
//@fn tp TablePage::get_next_rid
ensures res == (RID { page_id: self.header.page_id, slot_num: self.header.num_tuples as u32 }),
//@endfn
//@fn tp TablePage::encoded_tuple_info_bytes
requires self.tuple_info@.len() <= 65535,
ensures res == self.tuple_info@.len() * 37,
//@start
proof { assert(TUPLE_META_MAX_ENCODED_LEN == 33); let n = self.tuple_info@.len() as int; assert(n * (4 + TUPLE_META_MAX_ENCODED_LEN as int) == n * 37) by (nonlinear_arith) requires TUPLE_META_MAX_ENCODED_LEN == 33; }
//@endfn
//@fn tp TablePage::metadata_footprint_bytes
requires self.tuple_info@.len() <= 65535,
ensures res == foot(self.tuple_info@.len() as int),
//@endfn
//@fn tp TablePage::metadata_footprint_with_new
requires self.tuple_info@.len() <= 65535,
ensures res == Some(foot(self.tuple_info@.len() as int + 1) as usize),
//@start
proof { axiom_meta_code(*meta); }
//@endfn
//@fn tp TablePage::is_tuple_too_large
requires self.wf(),
ensures !res ==> encodable(*tuple) && enc(*tuple).len() <= 3500,
    res && encodable(*tuple) ==> enc(*tuple).len() > 3500 || enc(*tuple).len() + foot(self.tuple_info@.len() as int + 1) > 4096,
//@endfn
//@fn tp TablePage::note_deleted
//@rewrite /\bis\b/now/
requires now && !was ==> old(self).header.num_deleted_tuples < 65535,
    was && !now ==> old(self).header.num_deleted_tuples > 0,
ensures final(self).header.num_deleted_tuples == old(self).header.num_deleted_tuples - (if was { 1int } else { 0 }) + if now { 1int } else { 0 },
    final(self).same_links(old(self)), final(self).tuple_info == old(self).tuple_info, final(self).data == old(self).data, final(self).is_dirty == old(self).is_dirty, final(self).header.num_tuples == old(self).header.num_tuples,
//@endfn
}
pub open spec fn hdr(h: TablePageHeader) -> Seq<u8> { h.page_id.lebytes() + h.next_page_id.lebytes() + h.prev_page_id.lebytes() + h.num_tuples.lebytes() + h.num_deleted_tuples.lebytes() }
pub open spec fn pos(s: Seq<Slot>, i: int) -> int decreases i { if i <= 0 { 33 } else { pos(s, i - 1) + 4 + enc(s[i - 1].2).len() } }
pub open spec fn entry(t: Slot) -> Seq<u8> { t.0.lebytes() + t.1.lebytes() + enc(t.2) }
// b is the written form of header h and slots s (the rows themselves are wherever the slots say)
pub open spec fn written(b: Seq<u8>, h: TablePageHeader, s: Seq<Slot>) -> bool {
    &&& b.len() == 4096 && b[0] == 2
    &&& h.num_tuples == s.len()
    &&& at(b, 1, hdr(h))
    &&& at(b, 29, be32(0xDEADBEEF))
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] entry_at(b, s, i)
    &&& pos(s, s.len() as int) + 4 <= 4096
    &&& at(b, pos(s, s.len() as int), be32(0xCAFEBABE))
}
pub open spec fn entry_at(b: Seq<u8>, s: Seq<Slot>, i: int) -> bool { at(b, pos(s, i), s[i].0.lebytes()) && at(b, pos(s, i) + 2, s[i].1.lebytes()) && at(b, pos(s, i) + 4, enc(s[i].2)) }
pub proof fn lemma_pos(s: Seq<Slot>, i: int, j: int) requires 0 <= i <= j, ensures pos(s, i) + 4 * (j - i) <= pos(s, j), 33 <= pos(s, i), pos(s, j) <= pos(s, i) + 37 * (j - i), decreases j
{ if i < j { lemma_pos(s, i, j - 1); axiom_meta_code(s[j - 1].2); } else if i > 0 { lemma_pos(s, i - 1, i - 1); axiom_meta_code(s[i - 1].2); } }
impl TablePageHeader {
//@fn tp TablePageHeader::serialize
ensures res@ == hdr(*self), res@.len() == 28,
//@start
proof { lemma_le_lens(*self); }
//@endfn
//@fn tp TablePageHeader::size
ensures res == 28,
//@endfn
}
pub proof fn lemma_laid_len(s: Seq<Slot>) requires laid_out(s), ensures s.len() == 0 || foot(s.len() as int) <= 4096, { if s.len() > 0 { assert(placed(s[0], s.len() as int)); } }
// entries before i end before pos(i)
pub proof fn lemma_before(s: Seq<Slot>, i: int) requires 0 <= i, ensures forall|j: int| 0 <= j < i ==> #[trigger] pos(s, j) + 4 + enc(s[j].2).len() <= pos(s, i),
{ assert forall|j: int| 0 <= j < i implies #[trigger] pos(s, j) + 4 + enc(s[j].2).len() <= pos(s, i) by { lemma_pos(s, j + 1, i); } }
pub open spec fn head_at(b: Seq<u8>, h: TablePageHeader) -> bool { b.len() == 4096 && b[0] == 2 && at(b, 1, hdr(h)) && at(b, 29, be32(0xDEADBEEF)) }
pub proof fn lemma_widths() ensures forall|x: u16| (#[trigger] x.lebytes()).len() == 2, forall|x: u64| (#[trigger] x.lebytes()).len() == 8
{ vstd::bytes::lemma_auto_spec_u16_to_from_le_bytes(); vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes(); }
pub proof fn lemma_add_entry(b: Seq<u8>, h: TablePageHeader, s: Seq<Slot>, i: int, c: Seq<u8>)
    requires head_at(b, h), 0 <= i < s.len(), be32(0xDEADBEEF).len() == 4, pos(s, i) + 4 + enc(s[i].2).len() <= 4096,
        c == spliced(spliced(spliced(b, pos(s, i), pos(s, i) + 2, s[i].0.lebytes()), pos(s, i) + 2, pos(s, i) + 4, s[i].1.lebytes()), pos(s, i) + 4, pos(s, i) + 4 + enc(s[i].2).len(), enc(s[i].2)),
        forall|j: int| 0 <= j < i ==> #[trigger] entry_at(b, s, j),
    ensures head_at(c, h), forall|j: int| 0 <= j < i + 1 ==> #[trigger] entry_at(c, s, j),
{
    lemma_widths(); lemma_le_lens(h); lemma_pos(s, 0, i); lemma_before(s, i);
    let p = pos(s, i); let e = enc(s[i].2);
    let b1 = spliced(b, p, p + 2, s[i].0.lebytes()); let b2 = spliced(b1, p + 2, p + 4, s[i].1.lebytes());
    lemma_splice(b, p, p + 2, s[i].0.lebytes()); lemma_splice(b1, p + 2, p + 4, s[i].1.lebytes()); lemma_splice(b2, p + 4, p + 4 + e.len(), e);
    assert(b1[0] == 2 && b2[0] == 2);
    assert(at(b1, p, s[i].0.lebytes()) && at(b2, p, s[i].0.lebytes()) && at(b2, p + 2, s[i].1.lebytes()));
    assert(at(b1, 1, hdr(h)) && at(b2, 1, hdr(h)) && at(b1, 29, be32(0xDEADBEEF)) && at(b2, 29, be32(0xDEADBEEF)));
    assert forall|j: int| 0 <= j < i + 1 implies #[trigger] entry_at(c, s, j) by {
        if j < i {
            assert(entry_at(b, s, j)); assert(pos(s, j) + 4 + enc(s[j].2).len() <= p);
            assert(at(b1, pos(s, j), s[j].0.lebytes()) && at(b1, pos(s, j) + 2, s[j].1.lebytes()) && at(b1, pos(s, j) + 4, enc(s[j].2)));
            assert(at(b2, pos(s, j), s[j].0.lebytes()) && at(b2, pos(s, j) + 2, s[j].1.lebytes()) && at(b2, pos(s, j) + 4, enc(s[j].2)));
        }
    }
}
pub proof fn lemma_add_end(b: Seq<u8>, h: TablePageHeader, s: Seq<Slot>, c: Seq<u8>)
    requires head_at(b, h), h.num_tuples == s.len(), be32(0xDEADBEEF).len() == 4, be32(0xCAFEBABE).len() == 4, pos(s, s.len() as int) + 4 <= 4096,
        c == spliced(b, pos(s, s.len() as int), pos(s, s.len() as int) + 4, be32(0xCAFEBABE)),
        forall|j: int| 0 <= j < s.len() ==> #[trigger] entry_at(b, s, j),
    ensures written(c, h, s),
{
    lemma_widths(); lemma_le_lens(h); lemma_pos(s, 0, s.len() as int); lemma_before(s, s.len() as int);
    let p = pos(s, s.len() as int);
    lemma_splice(b, p, p + 4, be32(0xCAFEBABE));
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] entry_at(c, s, j) by { assert(entry_at(b, s, j)); assert(pos(s, j) + 4 + enc(s[j].2).len() <= p); }
}
pub proof fn lemma_add_row(b: Seq<u8>, h: TablePageHeader, s: Seq<Slot>, d: Seq<u8>, k: int, c: Seq<u8>)
    requires written(b, h, s), laid_out(s), 0 <= k < s.len(), d.len() == 4096, be32(0xDEADBEEF).len() == 4, be32(0xCAFEBABE).len() == 4,
        c == spliced(b, s[k].0 as int, s[k].0 + s[k].1, row_bytes(d, s[k])),
        forall|j: int| 0 <= j < k ==> #[trigger] row_bytes(b, s[j]) == row_bytes(d, s[j]),
    ensures written(c, h, s), forall|j: int| 0 <= j < k + 1 ==> #[trigger] row_bytes(c, s[j]) == row_bytes(d, s[j]),
{
    assert(placed(s[k], s.len() as int));
    lemma_widths(); lemma_le_lens(h); lemma_pos(s, 0, s.len() as int); lemma_before(s, s.len() as int);
    let lo = s[k].0 as int; let hi = s[k].0 + s[k].1; let p = pos(s, s.len() as int);
    assert(p + 4 <= lo);
    lemma_splice(b, lo, hi, row_bytes(d, s[k]));
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] entry_at(c, s, j) by { assert(entry_at(b, s, j)); assert(pos(s, j) + 4 + enc(s[j].2).len() <= p); }
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] row_bytes(c, s[j]) == row_bytes(d, s[j]) by {
        assert(placed(s[j], s.len() as int));
        if j < k { assert(apart(s[j], s[k])); assert(row_bytes(b, s[j]) == row_bytes(d, s[j])); assert(c.subrange(s[j].0 as int, s[j].0 + s[j].1) == b.subrange(s[j].0 as int, s[j].0 + s[j].1)); }
        else { assert(row_bytes(d, s[k]).len() == s[k].1); } }
}
pub proof fn lemma_le_lens(h: TablePageHeader) ensures h.page_id.lebytes().len() == 8, h.next_page_id.lebytes().len() == 8, h.prev_page_id.lebytes().len() == 8, h.num_tuples.lebytes().len() == 2, h.num_deleted_tuples.lebytes().len() == 2, hdr(h).len() == 28
{ vstd::bytes::lemma_auto_spec_u16_to_from_le_bytes(); vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes(); }
impl TablePage {
//@fn tp TablePage::serialize attr=#[verifier::loop_isolation(false)]
requires self.header.num_tuples == self.tuple_info@.len(), laid_out(self.tuple_info@),
ensures written(res@, self.header, self.tuple_info@),
    forall|i: int| 0 <= i < self.tuple_info@.len() ==> #[trigger] row_bytes(res@, self.tuple_info@[i]) == row_bytes(self.data@, self.tuple_info@[i]),
//@rewrite /let tuple_info_size: usize = self\s*\.tuple_info\s*\.iter\(\)\s*\.map\(\|\(_, _, meta\)\| \{\s*4 \+ postcard::to_allocvec\(meta\)\s*\.expect\("Failed to serialize meta"\)\s*\.len\(\) \}\)\s*\.sum\(\);/let tuple_info_size: usize = vp_meta_bytes(&self.tuple_info);/
//@rewrite /for \(tuple_offset, size, _\) in &self\.tuple_info \{/for k in 0..self.tuple_info.len() {\nlet (tuple_offset, size, _) = &self.tuple_info[k];/
//@start
proof { lemma_le_lens(self.header); lemma_widths(); lemma_laid_len(self.tuple_info@); lemma_pos(self.tuple_info@, 0, self.tuple_info@.len() as int); }
//@beforeloop 0
proof {
    let b0 = Seq::new(4096, |i: int| 0u8).update(0, 2u8); let b1 = spliced(b0, 1, 29, hdr(self.header)); let b2 = spliced(b1, 29, 33, be32(0xDEADBEEF));
    lemma_splice(b0, 1, 29, hdr(self.header)); lemma_splice(b1, 29, 33, be32(0xDEADBEEF));
    assert(b1[0] == 2 && b2[0] == 2 && at(b1, 1, hdr(self.header)));
    assert(buffer@ =~= b2);
}
//@loop 0
invariant head_at(buffer@, self.header), offset == pos(self.tuple_info@, i as int),
   forall|j: int| 0 <= j < i ==> #[trigger] entry_at(buffer@, self.tuple_info@, j),
ensures offset == pos(self.tuple_info@, self.tuple_info@.len() as int), forall|j: int| 0 <= j < self.tuple_info@.len() ==> #[trigger] entry_at(buffer@, self.tuple_info@, j),
//@loopstart 0
let ghost b0 = buffer@;
proof { lemma_pos(self.tuple_info@, 0, i as int); lemma_pos(self.tuple_info@, i as int, i + 1); lemma_pos(self.tuple_info@, i + 1, self.tuple_info@.len() as int); axiom_meta_code(self.tuple_info@[i as int].2); }
//@loopend 0
proof { lemma_add_entry(b0, self.header, self.tuple_info@, i as int, buffer@); }
//@afterloop 0
let ghost bl = buffer@;
//@beforeloop 1
proof { lemma_add_end(bl, self.header, self.tuple_info@, buffer@); }
//@loop 1
invariant written(buffer@, self.header, self.tuple_info@),
   forall|j: int| 0 <= j < k ==> #[trigger] row_bytes(buffer@, self.tuple_info@[j]) == row_bytes(self.data@, self.tuple_info@[j]),
//@loopstart 1
let ghost c0 = buffer@;
//@loopend 1
proof { lemma_add_row(c0, self.header, self.tuple_info@, self.data@, k as int, buffer@); }
//@endfn
//@fn tp TablePage::sync_image
requires old(self).header.num_tuples == old(self).tuple_info@.len(), laid_out(old(self).tuple_info@),
ensures final(self).rows() == old(self).rows(), final(self).header == old(self).header, final(self).tuple_info == old(self).tuple_info, final(self).is_dirty == old(self).is_dirty, final(self).pin_count == old(self).pin_count,
    final(self).imaged(),
//@endfn
// the byte image is the written form of the page
pub open spec fn imaged(&self) -> bool { written(self.data@, self.header, self.tuple_info@) }
}
impl TablePageHeader {
//@fn tp TablePageHeader::deserialize
ensures res.is_ok() == (bytes@.len() >= 28),
    forall|h: TablePageHeader| bytes@ == #[trigger] hdr(h) ==> res == Ok::<TablePageHeader, String>(h),
//@start
proof { lemma_hdr_back(); if bytes@.len() >= 28 { assert(bytes@.subrange(24, 26).subrange(0, 2) =~= bytes@.subrange(24, 26)); }
  assert forall|h: TablePageHeader| bytes@ == #[trigger] hdr(h) implies hdr_reads(bytes@, h) by { } }
//@endfn
}
pub open spec fn hdr_reads(b: Seq<u8>, h: TablePageHeader) -> bool {
      b.len() == 28 && vstd::bytes::spec_u64_from_le_bytes(b.subrange(0, 8)) == h.page_id && vstd::bytes::spec_u64_from_le_bytes(b.subrange(8, 16)) == h.next_page_id
      && vstd::bytes::spec_u64_from_le_bytes(b.subrange(16, 24)) == h.prev_page_id && vstd::bytes::spec_u16_from_le_bytes(b.subrange(24, 26)) == h.num_tuples && vstd::bytes::spec_u16_from_le_bytes(b.subrange(26, 28)) == h.num_deleted_tuples }
pub proof fn lemma_hdr_back() ensures forall|h: TablePageHeader| hdr_reads(#[trigger] hdr(h), h)
{
    assert forall|h: TablePageHeader| hdr_reads(#[trigger] hdr(h), h) by {
        lemma_widths(); lemma_le_lens(h); let b = hdr(h);
        vstd::bytes::lemma_auto_spec_u16_to_from_le_bytes(); vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes();
        assert(b.subrange(0, 8) =~= h.page_id.lebytes()); assert(b.subrange(8, 16) =~= h.next_page_id.lebytes()); assert(b.subrange(16, 24) =~= h.prev_page_id.lebytes());
        assert(b.subrange(24, 26) =~= h.num_tuples.lebytes()); assert(b.subrange(26, 28) =~= h.num_deleted_tuples.lebytes());
    }
}
// the lowest row offset, or the end of the page
pub open spec fn lowest(s: Seq<Slot>, skip: int) -> int decreases s.len() { if s.len() == 0 { 4096 } else { let r = lowest(s.drop_last(), skip); if s.len() - 1 != skip && s.last().0 < r { s.last().0 as int } else { r } } }
pub proof fn lemma_lowest(s: Seq<Slot>, skip: int) ensures forall|i: int| 0 <= i < s.len() && i != skip ==> lowest(s, skip) <= (#[trigger] s[i]).0, 0 <= lowest(s, skip) <= 4096, decreases s.len()
{ if s.len() > 0 { lemma_lowest(s.drop_last(), skip); assert forall|i: int| 0 <= i < s.len() && i != skip implies lowest(s, skip) <= (#[trigger] s[i]).0 by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } }
// stands for `.iter()[.enumerate().filter(|(i, _)| *i != skip)].map(|(offset, _, _)| *offset).min().unwrap_or(4096)`
pub fn vp_min_offset(v: &Vec<Slot>, skip: usize) -> (r: u16) requires forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 <= 4096, v@.len() < usize::MAX, ensures r == lowest(v@, skip as int),
{
    let mut r: u16 = 4096;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r == lowest(v@.take(i as int), skip as int), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 <= 4096, v@.len() < usize::MAX,
        decreases v@.len() - i
    {
        proof { assert(v@.take(i + 1).drop_last() =~= v@.take(i as int)); }
        if i != skip && v[i].0 < r { r = v[i].0; }
        i = i + 1;
    }
    proof { assert(v@.take(i as int) =~= v@); }
    r
}
// the lowest row offset at or above `from`, or the end of the page
pub open spec fn ceiling(s: Seq<Slot>, skip: int, from: int) -> int decreases s.len() { if s.len() == 0 { 4096 } else { let r = ceiling(s.drop_last(), skip, from); if s.len() - 1 != skip && s.last().0 >= from && s.last().0 < r { s.last().0 as int } else { r } } }
pub proof fn lemma_ceiling(s: Seq<Slot>, skip: int, from: int) ensures forall|i: int| 0 <= i < s.len() && i != skip && (#[trigger] s[i]).0 >= from ==> ceiling(s, skip, from) <= s[i].0, from <= 4096 ==> from <= ceiling(s, skip, from), ceiling(s, skip, from) <= 4096, decreases s.len()
{ if s.len() > 0 { lemma_ceiling(s.drop_last(), skip, from); assert forall|i: int| 0 <= i < s.len() && i != skip && (#[trigger] s[i]).0 >= from implies ceiling(s, skip, from) <= s[i].0 by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } }
pub open spec fn room(s: Seq<Slot>, k: int) -> int { ceiling(s, k, s[k].0 + s[k].1) - s[k].0 }
pub fn vp_min_offset_from(v: &Vec<Slot>, skip: usize, from: u16) -> (r: u16) requires v@.len() < usize::MAX, ensures r == ceiling(v@, skip as int, from as int),
{
    let mut r: u16 = 4096;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r == ceiling(v@.take(i as int), skip as int, from as int), v@.len() < usize::MAX,
        decreases v@.len() - i
    {
        proof { assert(v@.take(i + 1).drop_last() =~= v@.take(i as int)); }
        if i != skip && v[i].0 >= from && v[i].0 < r { r = v[i].0; }
        i = i + 1;
    }
    proof { assert(v@.take(i as int) =~= v@); }
    r
}
// a row that shrank in place can always grow back: an update can be undone
pub proof fn lemma_undo_shrink(s: Seq<Slot>, k: int, n: u16, m: TupleMeta) requires laid_out(s), 0 <= k < s.len(), 0 < n <= s[k].1,
    ensures room(s.update(k, (s[k].0, n, m)), k) >= s[k].1,
{ let t = s.update(k, (s[k].0, n, m)); assert(placed(s[k], s.len() as int)); lemma_ceiling_ge(t, k, s[k].0 + n, s[k].0 + s[k].1);  }
pub proof fn lemma_ceiling_ge(t: Seq<Slot>, k: int, from: int, lim: int) requires lim <= 4096, forall|i: int| 0 <= i < t.len() && i != k && (#[trigger] t[i]).0 >= from ==> t[i].0 >= lim, ensures ceiling(t, k, from) >= lim, decreases t.len()
{ if t.len() > 0 { assert forall|i: int| 0 <= i < t.drop_last().len() && i != k && (#[trigger] t.drop_last()[i]).0 >= from implies t.drop_last()[i].0 >= lim by { assert(t[i].0 >= lim || t[i].0 < from); } lemma_ceiling_ge(t.drop_last(), k, from, lim); assert(t[t.len() - 1] == t.last()); } }
pub open spec fn same_meta(a: TupleMeta, b: TupleMeta) -> bool { a == b }
// writing bytes x at lo..hi away from slot j leaves j's row alone
pub proof fn lemma_row_apart(d: Seq<u8>, lo: int, hi: int, x: Seq<u8>) requires 0 <= lo <= hi <= d.len(), x.len() == hi - lo,
    ensures spliced(d, lo, hi, x).len() == d.len(), spliced(d, lo, hi, x).subrange(lo, hi) == x,
        forall|t: Slot| (t.0 + t.1 <= lo || hi <= t.0) && t.0 + t.1 <= d.len() ==> #[trigger] row_bytes(spliced(d, lo, hi, x), t) == row_bytes(d, t),
{ lemma_splice(d, lo, hi, x); assert(spliced(d, lo, hi, x).subrange(lo, hi) =~= x);
  assert forall|t: Slot| (t.0 + t.1 <= lo || hi <= t.0) && t.0 + t.1 <= d.len() implies #[trigger] row_bytes(spliced(d, lo, hi, x), t) == row_bytes(d, t) by {
    assert(spliced(d, lo, hi, x).subrange(t.0 as int, t.0 + t.1) == d.subrange(t.0 as int, t.0 + t.1)); } }
pub open spec fn fits(s: Seq<Slot>, t: Tuple) -> bool { encodable(t) && enc(t).len() <= 3500 && foot(s.len() as int + 1) + enc(t).len() <= lowest(s, -1) }
impl TupleMeta {
//@fn tu TupleMeta::new_with_delete
ensures res == (TupleMeta { creator_txn_id: txn_id, commit_timestamp: None, deleted: deleted, undo_log_idx: None }),
//@endfn
//@fn tu TupleMeta::get_creator_txn_id
ensures res == self.creator_txn_id,
//@endfn
//@fn tu TupleMeta::get_commit_timestamp
ensures res == self.commit_timestamp,
//@endfn
//@fn tu TupleMeta::set_commit_timestamp_opt
ensures *final(self) == (TupleMeta { commit_timestamp: ts, ..*old(self) }),
//@endfn
//@fn tu TupleMeta::try_get_undo_log_idx_opt
//@rewrite /usize::try_from\(raw\)\s*\.map\(Some\)/vp_u64_usize(raw).map(|x: usize| -> (o: Option<usize>) ensures o == Some(x) { Some(x) })/
//@rewrite /TupleError::UndoLogIndexOverflow\(raw\)/TupleError::Other/
ensures res == Ok::<Option<usize>, TupleError>(match self.undo_log_idx { Some(x) => Some(x as usize), None => None }), self.undo_log_idx matches Some(x) ==> x == x as usize,
//@endfn
//@fn tu TupleMeta::set_undo_log_idx
//@rewrite /u64::try_from\(idx\)/vp_usize_u64(idx)/
//@rewrite /TupleError::UndoLogIndexU64Overflow\(idx\)/TupleError::Other/
ensures *final(self) == (TupleMeta { undo_log_idx: Some(idx as u64), ..*old(self) }), res.is_ok(),
//@endfn
//@fn tu TupleMeta::clear_undo_log_idx
ensures *final(self) == (TupleMeta { undo_log_idx: None, ..*old(self) }),
//@endfn
}
global size_of usize == 8;
pub struct NoErr;
// usize is 64 bits here, so neither conversion fails
pub fn vp_u64_usize(x: u64) -> (r: Result<usize, NoErr>) ensures r == Ok::<usize, NoErr>(x as usize), { Ok(x as usize) }
pub fn vp_usize_u64(x: usize) -> (r: Result<u64, NoErr>) ensures r == Ok::<u64, NoErr>(x as u64), { Ok(x as u64) }
impl Tuple {
//@fn tu Tuple::set_rid
ensures final(self).rid == rid, final(self).values == old(self).values,
//@endfn
}
impl TablePage {
//@fn tp TablePage::get_next_tuple_offset
requires self.wf(),
ensures res.is_some() == fits(self.tuple_info@, *tuple), res matches Some(o) ==> o == lowest(self.tuple_info@, -1) - enc(*tuple).len(),
//@rewrite /self\s*\.tuple_info\s*\.iter\(\)\s*\.map\(\|\(offset, _, _\)\| \*offset\)\s*\.min\(\)\s*\.unwrap_or\(DB_PAGE_SIZE as u16\)/vp_min_offset(&self.tuple_info, usize::MAX)/
//@start
proof { lemma_laid_len(self.tuple_info@); lemma_lowest(self.tuple_info@, -1); lemma_skip_none(self.tuple_info@, usize::MAX as int); axiom_meta_code(*meta); }
//@endfn
//@fn tp TablePage::has_space_for
requires self.wf(),
ensures res == fits(self.tuple_info@, *tuple),
//@start
proof { lemma_lowest(self.tuple_info@, -1); lemma_laid_len(self.tuple_info@); }
//@endfn
//@fn tp TablePage::insert_tuple
requires old(self).wf(),
ensures final(self).wf(), final(self).same_links(old(self)),
    res.is_some() == (fits(old(self).tuple_info@, *tuple) && tuple.rid == (RID { page_id: old(self).header.page_id, slot_num: old(self).header.num_tuples as u32 })),
    res matches Some(r) ==> r == tuple.rid && final(self).rows() == old(self).rows().push((*meta, enc(*tuple))) && final(self).is_dirty && final(self).imaged(),
    res.is_none() ==> *final(self) == *old(self),
//@start
proof { lemma_laid_len(self.tuple_info@); lemma_lowest(self.tuple_info@, -1); lemma_dead(self.tuple_info@); }
let ghost p0 = *self;
//@before /self\.data\.vp_copy/
proof { lemma_push(p0.tuple_info@, tuple_offset, tuple_data@.len() as u16, *meta); lemma_row_apart(self.data@, start as int, end as int, tuple_data@); }
//@after /self\.sync_image\(\);/
proof { assert(self.rows() =~= p0.rows().push((*meta, enc(*tuple)))); }
//@endfn
}
impl TablePage {
//@fn tp TablePage::insert_tuple_with_rid
requires old(self).wf(),
ensures final(self).wf(), final(self).same_links(old(self)),
    res.is_some() == fits(old(self).tuple_info@, *tuple),
    res matches Some(r) ==> r == rid && final(self).rows() == old(self).rows().push((*meta, enc(*tuple))) && final(self).is_dirty && final(self).imaged(),
    res.is_none() ==> *final(self) == *old(self),
//@start
proof { lemma_laid_len(self.tuple_info@); lemma_lowest(self.tuple_info@, -1); lemma_dead(self.tuple_info@); }
let ghost p0 = *self;
//@before /self\.data\.vp_copy/
proof { lemma_push(p0.tuple_info@, tuple_offset, tuple_data@.len() as u16, *meta); lemma_row_apart(self.data@, start as int, end as int, tuple_data@); }
//@after /self\.sync_image\(\);/
proof { assert(self.rows() =~= p0.rows().push((*meta, enc(*tuple)))); }
//@endfn
//@fn tp TablePage::update_tuple_meta
requires old(self).wf(),
ensures final(self).wf(), final(self).same_links(old(self)),
    res.is_ok() == (rid.slot_num < old(self).rows().len()),
    res.is_ok() ==> final(self).rows() == old(self).rows().update(rid.slot_num as int, (meta, old(self).rows()[rid.slot_num as int].1)) && final(self).is_dirty && final(self).imaged(),
    res.is_err() ==> *final(self) == *old(self),
//@start
let ghost p0 = *self;
proof { lemma_laid_len(self.tuple_info@); lemma_dead(self.tuple_info@); }
//@before /self\.note_deleted/
proof { lemma_dead_has(p0.tuple_info@, tuple_id as int); let t = p0.tuple_info@[tuple_id as int]; lemma_dead_update(p0.tuple_info@, tuple_id as int, (t.0, t.1, meta)); lemma_swap(p0.tuple_info@, tuple_id as int, (t.0, t.1, meta)); }
//@before /self\.sync_image\(\);/
proof { let t = p0.tuple_info@[tuple_id as int]; assert(self.tuple_info@ =~= p0.tuple_info@.update(tuple_id as int, (t.0, t.1, meta))); }
//@after /self\.sync_image\(\);/
proof { assert(self.rows() =~= p0.rows().update(rid.slot_num as int, (meta, p0.rows()[rid.slot_num as int].1))); }
//@endfn
//@fn tp TablePage::update_tuple
requires old(self).wf(),
ensures final(self).wf(), final(self).same_links(old(self)),
    res.is_ok() ==> rid.slot_num < old(self).rows().len() && final(self).rows() == old(self).rows().update(rid.slot_num as int, (meta, enc(*tuple))) && final(self).is_dirty && final(self).imaged(),
    res.is_err() ==> *final(self) == *old(self),
    res.is_ok() == (rid.slot_num < old(self).rows().len() && encodable(*tuple) && (enc(*tuple).len() <= room(old(self).tuple_info@, rid.slot_num as int)
        || foot(old(self).rows().len() as int) + enc(*tuple).len() <= lowest(old(self).tuple_info@, rid.slot_num as int))),
//@rewrite /self\s*\.tuple_info\s*\.iter\(\)\s*\.enumerate\(\)\s*\.filter\(\|\(i, _\)\| \*i != tuple_id\)\s*\.map\(\|\(_, \(offset, _, _\)\)\| \*offset\)\s*\.min\(\)\s*\.unwrap_or\(DB_PAGE_SIZE as u16\)/vp_min_offset(&self.tuple_info, tuple_id)/
//@rewrite /self\s*\.tuple_info\s*\.iter\(\)\s*\.enumerate\(\)\s*\.filter\(\|\(i, \(offset, _, _\)\)\| \*i != tuple_id && \*offset >= current_end\)\s*\.map\(\|\(_, \(offset, _, _\)\)\| \*offset\)\s*\.min\(\)\s*\.unwrap_or\(DB_PAGE_SIZE as u16\)/vp_min_offset_from(&self.tuple_info, tuple_id, current_end)/
//@start
let ghost p0 = *self;
proof { lemma_laid_len(self.tuple_info@); lemma_dead(self.tuple_info@); lemma_lowest(self.tuple_info@, rid.slot_num as int);
  if rid.slot_num < self.tuple_info@.len() { let k = rid.slot_num as int; assert(placed(self.tuple_info@[k], self.tuple_info@.len() as int)); lemma_ceiling(self.tuple_info@, k, self.tuple_info@[k].0 + self.tuple_info@[k].1); } }
//@before /self\.note_deleted/
proof {
  let x = (if new_size <= room_end - current_offset { current_offset } else { new_offset_of(p0, tuple_id as int, new_size) }, new_size, meta);
  assert(self.tuple_info@ =~= p0.tuple_info@.update(tuple_id as int, x));
  lemma_dead_has(p0.tuple_info@, tuple_id as int); lemma_dead_update(p0.tuple_info@, tuple_id as int, x);
  lemma_swap(p0.tuple_info@, tuple_id as int, x);
}
//@before /self\.data\.vp_copy/
proof { lemma_row_apart(self.data@, start as int, end as int, tuple_data@); }
//@before /self\.data\.vp_fill\(clear_start/
proof { lemma_row_apart(self.data@, clear_start as int, clear_end as int, Seq::new((clear_end - clear_start) as nat, |i: int| 0u8)); lemma_splice(self.data@, clear_start as int, clear_end as int, Seq::new((clear_end - clear_start) as nat, |i: int| 0u8)); }
//@before /self\.data\.vp_fill\(old_start/
proof { lemma_row_apart(self.data@, old_start as int, old_end as int, Seq::new((old_end - old_start) as nat, |i: int| 0u8)); }
//@after /self\.sync_image\(\);/
proof { assert(self.rows() =~= p0.rows().update(rid.slot_num as int, (meta, enc(*tuple)))); }
//@endfn
//@fn tp TablePage::set_data
requires old(self).wf(), offset + new_data@.len() <= usize::MAX,
ensures res.is_ok() == (offset + new_data@.len() <= 4096), res.is_err() ==> *final(self) == *old(self),
    res.is_ok() ==> final(self).is_dirty && final(self).pin_count == old(self).pin_count && final(self).data@ == spliced(old(self).data@, offset as int, offset + new_data@.len(), new_data@),
    forall|h: TablePageHeader, s: Seq<Slot>| offset == 0 && new_data@.len() == 4096 && #[trigger] written(new_data@, h, s) && laid_out(s) ==> final(self).header == h && final(self).tuple_info@ == s && final(self).data@ == new_data@,
//@rewrite /&& let Ok\(page\) = Self::deserialize\(&self\.data\)\s*\{(.*?)\}/{ if let Ok(page) = Self::deserialize(&self.data) {\1} }/
//@after /vp_copy\(offset, offset \+ new_data\.len\(\), new_data\);/
proof { if offset == 0 && new_data@.len() == 4096 { assert(self.data@ =~= new_data@); } }
//@endfn
//@fn tp TablePage::set_next_page_id
requires old(self).wf(),
ensures final(self).wf(), final(self).rows() == old(self).rows(), final(self).header == (TablePageHeader { next_page_id: page_id, ..old(self).header }), final(self).pin_count == old(self).pin_count, final(self).is_dirty, final(self).imaged(),
//@endfn
//@fn tp TablePage::set_prev_page_id
requires old(self).wf(),
ensures final(self).wf(), final(self).rows() == old(self).rows(), final(self).header == (TablePageHeader { prev_page_id: page_id, ..old(self).header }), final(self).pin_count == old(self).pin_count, final(self).is_dirty, final(self).imaged(),
//@endfn
//@fn tp TablePage::init
ensures final(self).wf(), final(self).rows() == Seq::<(TupleMeta, Seq<u8>)>::empty(), final(self).header.page_id == old(self).header.page_id, final(self).header.next_page_id == INVALID_PAGE_ID, final(self).header.prev_page_id == INVALID_PAGE_ID, !final(self).is_dirty,
//@after /self\.is_dirty = false;/
proof { assert(self.rows() =~= Seq::<(TupleMeta, Seq<u8>)>::empty()); }
//@endfn
//@fn tp TablePage::reset_memory
ensures final(self).wf(), final(self).rows() == Seq::<(TupleMeta, Seq<u8>)>::empty(), final(self).header.page_id == old(self).header.page_id, final(self).header.next_page_id == INVALID_PAGE_ID, final(self).header.prev_page_id == INVALID_PAGE_ID, !final(self).is_dirty,
//@after /self\.is_dirty = false;/
proof { assert(self.rows() =~= Seq::<(TupleMeta, Seq<u8>)>::empty()); }
//@endfn
//@fn tp TablePage::get_tuple_meta
requires self.wf(),
ensures res.is_ok() == (rid.slot_num < self.rows().len()), res matches Ok(m) ==> m == self.rows()[rid.slot_num as int].0,
//@endfn
//@fn tp TablePage::get_tuple
requires self.wf(),
ensures res matches Ok(p) ==> rid.page_id == self.header.page_id && rid.slot_num < self.rows().len() && p.0 == self.rows()[rid.slot_num as int].0 && p.1.rid == *rid && (p.0.deleted ==> allow_deleted)
      && (exists|t: Tuple| dec::<Tuple>(self.rows()[rid.slot_num as int].1) == Some(t) && #[trigger] t.values == p.1.values),
    rid.page_id == self.header.page_id && rid.slot_num < self.rows().len() && (allow_deleted || !self.rows()[rid.slot_num as int].0.deleted) && dec::<Tuple>(self.rows()[rid.slot_num as int].1).is_some() ==> res.is_ok(),
//@endfn
//@fn tp TablePage::deserialize attr=#[verifier::loop_isolation(false)]
ensures forall|h: TablePageHeader, s: Seq<Slot>| #[trigger] written(bytes@, h, s) && laid_out(s) ==> (res matches Ok(p) && p.header == h && p.tuple_info@ == s && p.data@ == bytes@),
   res matches Ok(p) ==> p.data@ == bytes@ && p.header.num_tuples == p.tuple_info@.len(),
//@start
let ghost good = exists|h: TablePageHeader, s: Seq<Slot>| #[trigger] written(bytes@, h, s) && laid_out(s);
let ghost (h0, s0): (TablePageHeader, Seq<Slot>) = choose|h: TablePageHeader, s: Seq<Slot>| #[trigger] written(bytes@, h, s) && laid_out(s);
proof {
  lemma_widths(); lemma_le_lens(h0); lemma_magic();
  if good { assert forall|h: TablePageHeader, s: Seq<Slot>| #[trigger] written(bytes@, h, s) && laid_out(s) implies h == h0 && s == s0 by { lemma_written_unique(bytes@, h, s, h0, s0); }
     assert(bytes@.subrange(1, 29) == hdr(h0)); assert(bytes@.subrange(29, 33) == be32(0xDEADBEEF)); }
}
//@loop 0
invariant page.data@ == bytes@, page.header == header, 33 <= offset <= 4096, page.tuple_info@.len() == i, page.header.num_tuples == header.num_tuples,
   good ==> page.header == h0 && offset == pos(s0, i as int) && page.tuple_info@ == s0.take(i as int),
//@loopstart 0
proof { if good { assert(entry_at(bytes@, s0, i as int)); lemma_pos(s0, i as int, i + 1); lemma_pos(s0, i + 1, s0.len() as int); lemma_entry(bytes@, s0, i as int); assert(placed(s0[i as int], s0.len() as int)); } }
//@before /let meta_size/
proof { axiom_meta_code(meta); }
//@loopend 0
proof { if good { assert(s0.take(i + 1) =~= s0.take(i as int).push(s0[i as int])); } }
//@afterloop 0
proof { if good { assert(s0.take(s0.len() as int) =~= s0); lemma_pos(s0, 0, s0.len() as int); } }
//@endfn
}
pub proof fn lemma_magic() ensures be32(0xDEADBEEF).len() == 4, be32(0xCAFEBABE).len() == 4, be32_back(be32(0xDEADBEEF)) == 0xDEADBEEFu32, be32_back(be32(0xCAFEBABE)) == 0xCAFEBABEu32 { axiom_be32(0xDEADBEEF); axiom_be32(0xCAFEBABE); }
pub proof fn lemma_entry(b: Seq<u8>, s: Seq<Slot>, i: int) requires b.len() == 4096, entry_at(b, s, i), 0 <= i < s.len(),
    ensures ({ let p = pos(s, i); vstd::bytes::spec_u16_from_le_bytes(b.subrange(p, p + 2)) == s[i].0 && vstd::bytes::spec_u16_from_le_bytes(b.subrange(p + 2, p + 4)) == s[i].1 && dec::<TupleMeta>(b.subrange(p + 4, 4096)) == Some(s[i].2) }),
{ lemma_widths(); vstd::bytes::lemma_auto_spec_u16_to_from_le_bytes(); let p = pos(s, i); let e = enc(s[i].2);
  axiom_meta_decode(s[i].2, b.subrange(p + 4 + e.len(), 4096));
  assert(b.subrange(p + 4, 4096) =~= b.subrange(p + 4, p + 4 + e.len()) + b.subrange(p + 4 + e.len(), 4096)); }
pub proof fn lemma_written_unique(b: Seq<u8>, h: TablePageHeader, s: Seq<Slot>, h2: TablePageHeader, s2: Seq<Slot>) requires written(b, h, s), written(b, h2, s2), ensures h == h2, s == s2,
{ lemma_hdr_back(); lemma_le_lens(h); lemma_le_lens(h2); assert(hdr(h) == hdr(h2)); assert(hdr_reads(hdr(h), h) && hdr_reads(hdr(h), h2));
  lemma_same_slots(b, s, s2, s.len() as int); assert(s.take(s.len() as int) =~= s && s2.take(s.len() as int) =~= s2); }
pub proof fn lemma_same_slots(b: Seq<u8>, s: Seq<Slot>, s2: Seq<Slot>, n: int) requires b.len() == 4096, s.len() == s2.len(), 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] entry_at(b, s, i), forall|i: int| 0 <= i < s.len() ==> #[trigger] entry_at(b, s2, i),
    ensures s.take(n) == s2.take(n), pos(s, n) == pos(s2, n), decreases n
{ if n > 0 { lemma_same_slots(b, s, s2, n - 1); assert(entry_at(b, s, n - 1) && entry_at(b, s2, n - 1)); lemma_entry(b, s, n - 1); lemma_entry(b, s2, n - 1);
    assert(s[n - 1] == s2[n - 1]); assert forall|i: int| 0 <= i < n implies s.take(n)[i] == s2.take(n)[i] by { if i < n - 1 { assert(s.take(n - 1)[i] == s2.take(n - 1)[i]); } } assert(s.take(n) =~= s2.take(n)); } else { assert(s.take(0) =~= s2.take(0)); } }
pub open spec fn new_offset_of(p: TablePage, k: int, n: u16) -> u16 { (lowest(p.tuple_info@, k) - n) as u16 }
// slot k replaced by x, either inside its old room or below every other row
pub proof fn lemma_swap(s: Seq<Slot>, k: int, x: Slot) requires laid_out(s), 0 <= k < s.len(), (x.0 == s[k].0 && (x.1 <= room(s, k) || x.1 <= s[k].1)) || (foot(s.len() as int) <= x.0 && x.0 + x.1 == lowest(s, k)),
    ensures laid_out(s.update(k, x)),
{ lemma_lowest(s, k); lemma_ceiling(s, k, s[k].0 + s[k].1); let t = s.update(k, x);
  assert forall|i: int| 0 <= i < t.len() implies placed(#[trigger] t[i], t.len() as int) by { assert(placed(s[i], s.len() as int)); }
  assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies apart(#[trigger] t[i], #[trigger] t[j]) by { assert(apart(s[i], s[j])); assert(placed(s[i], s.len() as int) && placed(s[j], s.len() as int)); } }
pub proof fn lemma_skip_none(s: Seq<Slot>, k: int) requires s.len() <= k, ensures lowest(s, k) == lowest(s, -1), decreases s.len() { if s.len() > 0 { lemma_skip_none(s.drop_last(), k); } }
pub proof fn lemma_push(s: Seq<Slot>, o: u16, n: u16, m: TupleMeta) requires laid_out(s), o + n == lowest(s, -1), foot(s.len() as int + 1) <= o,
    ensures laid_out(s.push((o, n, m))), dead(s.push((o, n, m))) == dead(s) + if m.deleted { 1int } else { 0 },
{ lemma_lowest(s, -1); lemma_dead_push(s, (o, n, m)); let t = s.push((o, n, m));
  assert forall|i: int| 0 <= i < t.len() implies placed(#[trigger] t[i], t.len() as int) by { if i < s.len() { assert(placed(s[i], s.len() as int)); assert(lowest(s, -1) <= s[i].0); } }
  assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies apart(#[trigger] t[i], #[trigger] t[j]) by {
     if i < s.len() && j < s.len() { assert(apart(s[i], s[j])); } else if i < s.len() { assert(lowest(s, -1) <= s[i].0); } else { assert(lowest(s, -1) <= s[j].0); } } }
}
fn main() {}
