@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@include ../lib/base.rs
@include ../lib/tokens.rs
@include ../lib/cst.rs
@include ../lib/leaf.rs
@include ../lib/parsefns.vx
@prelude
pub type Leaf = (N, Option<Seq<char>>);
// the tokens, without their positions
pub open spec fn tl(t: Token) -> Leaf { (tk(t), tval(t)) }
pub open spec fn kinds(ts: Seq<Token>) -> Seq<Leaf> { ts.map_values(|t: Token| tl(t)) }
// the leaves of a tree, in order; a backslash node is a backslash and the character it escapes
pub open spec fn escaped(c: CST) -> Leaf {
  let s = value(c)->0;
  (if s == one('\\') { N::BackSlash } else if s == one('<') { N::AngleOpen } else if s == one('>') { N::AngleClose } else if s == one('{') { N::CurlyOpen } else if s == one('}') { N::CurlyClose }
  else if s == one('[') { N::SquareOpen } else if s == one(']') { N::SquareClose } else if s == one('.') { N::Dot } else if s == one(',') { N::Comma } else { N::Invalid }, None)
}
pub open spec fn leaves(c: CST) -> Seq<Leaf> decreases c, 0nat via leaves_dec
{
  if nk(c) is BackSlash { seq![(N::BackSlash, None)] + (if kids(c).len() == 1 && nk(kids(c)[0]) is Text { seq![escaped(kids(c)[0])] } else { upto(kids(c), kids(c).len()) }) }
  else if inner(c) { upto(kids(c), kids(c).len()) } else { seq![(nk(c), value(c))] }
}
pub open spec fn upto(v: Seq<CST>, n: nat) -> Seq<Leaf> decreases v, n via upto_dec
{
  if n == 0 || n > v.len() { Seq::empty() } else { upto(v, (n - 1) as nat) + leaves(v[n - 1]) }
}
#[via_fn] proof fn leaves_dec(c: CST) { if inner(c) { lemma_smaller_kids(c); } }
#[via_fn] proof fn upto_dec(v: Seq<CST>, n: nat) { }
pub open spec fn all(v: Seq<CST>) -> Seq<Leaf> { upto(v, v.len()) }
pub proof fn lemma_upto(v: Seq<CST>, x: CST, n: nat) requires n <= v.len() ensures upto(v.push(x), n) == upto(v, n) decreases n { if n > 0 { lemma_upto(v, x, (n - 1) as nat); } }
pub broadcast proof fn lemma_all(v: Seq<CST>, x: CST) ensures #![trigger all(v.push(x))] all(v.push(x)) == all(v) + leaves(x) { lemma_upto(v, x, v.len()); }
pub broadcast proof fn lemma_cut(ts: Seq<Token>) requires ts.len() > 0 ensures #![trigger ts.skip(1)] kinds(ts) == seq![tl(ts[0])] + kinds(ts.skip(1)) { assert(kinds(ts) =~= seq![tl(ts[0])] + kinds(ts.skip(1))); }
pub broadcast proof fn lemma_assoc(a: Seq<Leaf>, b: Seq<Leaf>, c: Seq<Leaf>) ensures #![trigger (a + b) + c] (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
// contracts
pub open spec fn leaf(c: CST, n: N, val: Option<Seq<char>>, at: Location) -> bool { nk(c) == n && value(c) == val }
pub open spec fn made(c: CST, t: Token) -> bool { leaves(c) == seq![tl(t)] }
pub open spec fn fresh(c: CST, n: N) -> bool { nk(c) == n && kids(c).len() == 0 }
pub open spec fn fresh_at(c: CST, n: N, at: Location) -> bool { fresh(c, n) }
pub open spec fn added(old: CST, x: CST, new: CST) -> bool { nk(new) == nk(old) && kids(new) == kids(old).push(x) }
pub open spec fn relocated(old: CST, at: Location, new: CST) -> bool { nk(new) == nk(old) && kids(new) == kids(old) && value(new) == value(old) }
pub open spec fn merged(a: Location, b: Location, r: Location) -> bool { true }
pub open spec fn parsed(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { r is Ok ==> kinds(ts) == leaves(r->Ok_0.0) + kinds(r->Ok_0.1@) && tail(ts, r->Ok_0.1@) && r->Ok_0.1@.len() < ts.len() }
pub open spec fn escape_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { parsed(ts, r) }
pub open spec fn expr_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { parsed(ts, r) }
pub open spec fn bracket_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { parsed(ts, r) }
pub open spec fn one_bracket_p(ts: Seq<Token>, open: N, r: Result<(CST, &[Token])>) -> bool { parsed(ts, r) }
pub open spec fn close_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { parsed(ts, r) }
pub open spec fn item_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { parsed(ts, r) }
pub open spec fn stmt_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { parsed(ts, r) }
pub open spec fn so_far(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { kinds(ts) == all(kids(c)) + kinds(rest) && tail(ts, rest) }
pub open spec fn expr_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Expr && so_far(ts, c, rest) && (kids(c).len() > 0 ==> rest.len() < ts.len()) }
pub open spec fn bracket_inv(ts: Seq<Token>, open: N, c: CST, rest: Seq<Token>) -> bool { (nk(c) is Angle || nk(c) is Curly || nk(c) is Square) && so_far(ts, c, rest) && rest.len() < ts.len() }
pub open spec fn bracket_end(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { true }
pub open spec fn stmt_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Stmt && so_far(ts, c, rest) && rest.len() < ts.len() }
pub open spec fn expr_done(rest: Seq<Token>) -> bool { true }
pub open spec fn bracket_done(rest: Seq<Token>) -> bool { true }
pub open spec fn stmt_done(rest: Seq<Token>) -> bool { true }
pub open spec fn doc_done(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { true }
pub open spec fn doc_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Document && so_far(ts, c, rest) }
pub open spec fn doc_end(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { doc_inv(ts, c, rest) }
pub open spec fn nls_inv(ts: Seq<Token>, v: Seq<CST>, rest: Seq<Token>) -> bool { kinds(ts) == all(v) + kinds(rest) && tail(ts, rest) && rest.len() < ts.len() }
pub open spec fn doc_adding(ts0: Seq<Token>, ts: Seq<Token>, old: CST, v: Seq<CST>, n: int, c: CST) -> bool { 0 <= n <= v.len() && nk(c) is Document && all(kids(c)) == all(kids(old)) + upto(v, n as nat) }
pub open spec fn whole(ts: Seq<Token>, r: Result<CST>) -> bool { r is Ok ==> leaves(r->Ok_0) == kinds(ts) }
pub broadcast proof fn lemma_leaves(c: CST) requires inner(c), !(nk(c) is BackSlash) ensures #[trigger] leaves(c) == all(kids(c)) { }
broadcast use {lemma_leaves, lemma_all, lemma_cut, lemma_assoc};
