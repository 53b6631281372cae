@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@include ../lib/base.rs
@include ../lib/tokens.rs
@include ../lib/cst.rs
@include ../lib/leaf.rs
@include ../lib/grammar.rs
@include ../lib/parsefns.vx
@prelude
// contracts
pub open spec fn stop(ts: Seq<Token>) -> bool { tk(ts[0]) is NewLine || tk(ts[0]) is End || closer(tk(ts[0])) }
pub open spec fn leaf(c: CST, n: N, val: Option<Seq<char>>, at: Location) -> bool { nk(c) == n && !inner(c) }
pub open spec fn made(c: CST, t: Token) -> bool { nk(c) == tk(t) && !inner(c) }
pub open spec fn fresh(c: CST, n: N) -> bool { nk(c) == n && kids(c).len() == 0 }
pub open spec fn fresh_at(c: CST, n: N, at: Location) -> bool { fresh(c, n) }
pub open spec fn added(old: CST, x: CST, new: CST) -> bool { nk(new) == nk(old) && kids(new) == kids(old).push(x) }
pub open spec fn relocated(old: CST, at: Location, new: CST) -> bool { nk(new) == nk(old) && kids(new) == kids(old) }
pub open spec fn merged(a: Location, b: Location, r: Location) -> bool { true }
pub open spec fn node(ts: Seq<Token>, n: N, r: Result<(CST, &[Token])>) -> bool { nk(r->Ok_0.0) == n && conforms(r->Ok_0.0) && tail(ts, r->Ok_0.1@) && r->Ok_0.1@.len() < ts.len() }
pub open spec fn escape_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == (tk(ts[0]) is BackSlash)) && (r is Ok ==> node(ts, N::BackSlash, r)) }
pub open spec fn expr_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == !stop(ts)) && (r is Ok ==> node(ts, N::Expr, r) && stop(r->Ok_0.1@)) }
pub open spec fn kind_of(open: N) -> N { if open is AngleOpen { N::Angle } else if open is CurlyOpen { N::Curly } else { N::Square } }
pub open spec fn opens(n: N) -> bool { n is AngleOpen || n is CurlyOpen || n is SquareOpen }
pub open spec fn bracket_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == opens(tk(ts[0]))) && (r is Ok ==> node(ts, kind_of(tk(ts[0])), r)) }
pub open spec fn one_bracket_p(ts: Seq<Token>, open: N, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == (tk(ts[0]) == open)) && (r is Ok ==> node(ts, kind_of(open), r)) }
pub open spec fn close_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == closer(tk(ts[0]))) && (r is Ok ==> node(ts, tk(ts[0]), r)) }
pub open spec fn item_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Err) == (tk(ts[0]) is NewLine || tk(ts[0]) is End)) && (r is Ok ==> node(ts, nk(r->Ok_0.0), r) && item(nk(r->Ok_0.0))) }
pub open spec fn ended(ts: Seq<Token>) -> bool { tk(ts[0]) is NewLine ==> tk(ts[1]) is NewLine || tk(ts[1]) is End }
pub open spec fn stmt_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Err) == (tk(ts[0]) is NewLine || tk(ts[0]) is End)) && (r is Ok ==> node(ts, N::Stmt, r) && ended(r->Ok_0.1@)) }
pub open spec fn expr_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool {
  nk(c) is Expr && good(kids(c)) && tail(ts, rest) && (if kids(c).len() == 0 { rest == ts && at(c) == 0 } else { rest.len() < ts.len() && !stop(ts) && at(c) == 1 }) }
pub open spec fn expr_done(rest: Seq<Token>) -> bool { stop(rest) }
pub open spec fn bracket_inv(ts: Seq<Token>, open: N, c: CST, rest: Seq<Token>) -> bool {
  nk(c) == kind_of(open) && tk(ts[0]) == open && good(kids(c)) && tail(ts, rest) && rest.len() < ts.len() && (at(c) == 1 || at(c) == 2 && stop(rest)) }
pub open spec fn bracket_done(rest: Seq<Token>) -> bool { true }
pub open spec fn bracket_end(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { true }
pub open spec fn stmt_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Stmt && good(kids(c)) && at(c) == 1 && tail(ts, rest) && rest.len() < ts.len() && !(tk(ts[0]) is NewLine || tk(ts[0]) is End) }
pub open spec fn stmt_done(rest: Seq<Token>) -> bool { ended(rest) }
pub open spec fn doc_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Document && good(kids(c)) && tail(ts, rest) && (at(c) == 0 || at(c) == 3 || at(c) == 2 && tk(rest[0]) is End) }
pub open spec fn doc_done(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { true }
pub open spec fn doc_end(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Document && good(kids(c)) && tail(ts, rest) && 0 <= at(c) <= 4 }
// a statement, then newlines, which lead from either state in which a statement may come to the same state
pub open spec fn nls_inv(ts: Seq<Token>, v: Seq<CST>, rest: Seq<Token>) -> bool {
  let q = fold(N::Document, 0, v, v.len());
  good(v) && v.len() > 0 && q == fold(N::Document, 3, v, v.len()) && tail(ts, rest) && rest.len() < ts.len() && (q == 3 || q == 2 && (tk(rest[0]) is NewLine || tk(rest[0]) is End)) }
pub open spec fn doc_adding(ts0: Seq<Token>, ts: Seq<Token>, old: CST, v: Seq<CST>, n: int, c: CST) -> bool { 0 <= n <= v.len() && nk(c) is Document && good(kids(c)) && good(v) && at(c) == fold(N::Document, at(old), v, n as nat) }
pub open spec fn whole(ts: Seq<Token>, r: Result<CST>) -> bool { r is Ok ==> nk(r->Ok_0) is Document && conforms(r->Ok_0) }
broadcast use {lemma_good_at, lemma_good, lemma_conforms, lemma_fold};
