// the contract of a function that recognises one token
pub type P<'a> = Result<(CST, &'a [Token])>;
pub open spec fn leaf_p(ts: Seq<Token>, n: N, r: Result<(CST, &[Token])>) -> bool {
  ((r is Ok) == (ts.len() > 0 && tk(ts[0]) == n)) && (r is Ok ==> made(r->Ok_0.0, ts[0]) && r->Ok_0.1@ == ts.skip(1))
}
