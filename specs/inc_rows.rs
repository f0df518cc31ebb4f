//@rewrite /Box<dyn AbstractExecutor>/Child/
//@rewrite /Arc<RwLock<ExecutionContext>>/Ctx/
//@rewrite /\bArc<Tuple>/Tuple/
//@rewrite /\bArc<(LimitNode|OffsetNode|FilterNode|SortNode|TopNNode)>/\1/
#[verifier::external_body]
pub struct Ctx { x: u64 }
#[verifier::external_body]
pub struct PlanNode { x: u64 }
pub enum DBError { Execution(String), Other(u64) }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct RID { x: u64 }
pub type Row = (Tuple, RID);
pub type Answer = Result<Option<Row>, DBError>;
pub uninterp spec fn values_of(t: Tuple) -> Seq<Value>;
impl Tuple {
    #[verifier::external_body]
    pub fn get_values(&self) -> (r: Vec<Value>) ensures r@ == values_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_rid(&self) -> (r: RID) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Tuple) ensures r == *self { unimplemented!() }
}
// an executor is the rows it has yet to give, and whether an error comes after them instead of the end
pub open spec fn step(res: Answer, rows: Seq<Row>, fails: bool, rows2: Seq<Row>, fails2: bool) -> bool {
    match res {
        Ok(Some(r)) => rows.len() > 0 && r == rows[0] && rows2 =~= rows.skip(1) && fails2 == fails,
        Ok(None) => rows.len() == 0 && !fails && rows2.len() == 0 && !fails2,
        Err(_) => rows.len() == 0 && fails,
    }
}
// the executor below: any executor
#[verifier::external_body]
pub struct Child { x: u64 }
impl Child {
    pub uninterp spec fn rows(&self) -> Seq<Row>;
    pub uninterp spec fn fails(&self) -> bool;
    pub uninterp spec fn schema(&self) -> Schema;
    #[verifier::external_body]
    pub fn init(&mut self) ensures final(self).rows() == old(self).rows(), final(self).fails() == old(self).fails(), final(self).schema() == old(self).schema() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (res: Answer)
        ensures step(res, old(self).rows(), old(self).fails(), final(self).rows(), final(self).fails()), final(self).schema() == old(self).schema()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_output_schema(&self) -> (r: &Schema) ensures *r == self.schema() { unimplemented!() }
}
pub open spec fn rows_of(c: Option<Child>) -> Seq<Row> { match c { Some(x) => x.rows(), None => Seq::empty() } }
pub open spec fn fails_of(c: Option<Child>) -> bool { match c { Some(x) => x.fails(), None => false } }
