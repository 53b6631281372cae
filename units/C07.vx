@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@include ../lib/base.rs
@include ../lib/tokens.rs
@include ../lib/cst.rs
@include ../lib/leaf.rs
@include ../lib/parsefns.vx
@prelude
// how many tokens a tree covers: its leaves, a backslash node being itself and the character it escapes
pub open spec fn width(c: CST) -> nat decreases c, 0nat via width_dec { if !inner(c) { 1 } else if nk(c) is BackSlash { 1 + wide(kids(c), kids(c).len()) } else { wide(kids(c), kids(c).len()) } }
pub open spec fn wide(v: Seq<CST>, m: nat) -> nat decreases v, m { if m == 0 || m > v.len() { 0 } else { wide(v, (m - 1) as nat) + width(v[m - 1]) } }
#[via_fn] proof fn width_dec(c: CST) { if inner(c) { lemma_smaller_kids(c); } }
pub open spec fn closer(n: N) -> bool { n is AngleClose || n is CurlyClose || n is SquareClose }
pub open spec fn unclosed(c: CST) -> bool { nk(c) is Angle && !(nk(kids(c).last()) is AngleClose) || nk(c) is Curly && !(nk(kids(c).last()) is CurlyClose) || nk(c) is Square && !(nk(kids(c).last()) is SquareClose) }
// every node of the tree c, whose first token is ts[0], spans what it should
pub open spec fn placed(c: CST, ts: Seq<Token>) -> bool decreases c, 0nat via placed_dec {
  if !inner(c) { cloc(c) == tloc(ts[0]) }
  else if nk(c) is BackSlash { cloc(c) == tloc(ts[0]) && all_placed(kids(c), kids(c).len(), ts.skip(1)) }
  else {
    kids(c).len() > 0 && all_placed(kids(c), kids(c).len(), ts) && cloc(c).start == cloc(kids(c)[0]).start
    // an unclosed command reaches to the end of the token that stopped it
    && cloc(c).end == if unclosed(c) { tloc(ts[width(c) as int]).end } else { cloc(kids(c).last()).end }
  }
}
pub open spec fn all_placed(v: Seq<CST>, m: nat, ts: Seq<Token>) -> bool decreases v, m { m == 0 || m > v.len() || all_placed(v, (m - 1) as nat, ts) && fits(v[m - 1], ts.skip(wide(v, (m - 1) as nat) as int)) && placed(v[m - 1], ts.skip(wide(v, (m - 1) as nat) as int)) }
pub open spec fn from(ts: Seq<Token>, c: Location, rest: Seq<Token>) -> bool { c.start == tloc(ts[0]).start && le(tloc(ts[0]).end, c.end) && le(c.end, tloc(rest[0]).end) }
// a child starts with its first token, and does not reach beyond the token after it
pub open spec fn fits(c: CST, ts: Seq<Token>) -> bool { 0 < width(c) < ts.len() && from(ts, cloc(c), ts.skip(width(c) as int)) || nk(c) is End && ts.len() == 1 }
#[via_fn] proof fn placed_dec(c: CST, ts: Seq<Token>) { if inner(c) { lemma_smaller_kids(c); } }
pub open spec fn sum(v: Seq<CST>) -> nat { wide(v, v.len()) }
pub open spec fn right(v: Seq<CST>, ts: Seq<Token>) -> bool { all_placed(v, v.len(), ts) }
pub proof fn lemma_wide(v: Seq<CST>, x: CST, m: nat) requires m <= v.len() ensures wide(v.push(x), m) == wide(v, m) decreases m { if m > 0 { lemma_wide(v, x, (m - 1) as nat); } }
pub broadcast proof fn lemma_sum(v: Seq<CST>, x: CST) ensures #![trigger sum(v.push(x))] sum(v.push(x)) == sum(v) + width(x) { lemma_wide(v, x, v.len()); }
pub proof fn lemma_all_placed(v: Seq<CST>, x: CST, m: nat, ts: Seq<Token>) requires m <= v.len() ensures all_placed(v.push(x), m, ts) == all_placed(v, m, ts) decreases m { if m > 0 { lemma_all_placed(v, x, (m - 1) as nat, ts); lemma_wide(v, x, (m - 1) as nat); } }
pub broadcast proof fn lemma_right(v: Seq<CST>, x: CST, ts: Seq<Token>) ensures #![trigger right(v.push(x), ts)] right(v.push(x), ts) == (right(v, ts) && fits(x, ts.skip(sum(v) as int)) && placed(x, ts.skip(sum(v) as int))) { lemma_all_placed(v, x, v.len(), ts); lemma_wide(v, x, v.len()); }
pub broadcast proof fn lemma_placed(c: CST, ts: Seq<Token>) requires inner(c), !(nk(c) is BackSlash) ensures #[trigger] placed(c, ts) == (kids(c).len() > 0 && right(kids(c), ts) && cloc(c).start == cloc(kids(c)[0]).start
    && cloc(c).end == if unclosed(c) { tloc(ts[width(c) as int]).end } else { cloc(kids(c).last()).end }), width(c) == sum(kids(c)) { }
pub broadcast proof fn lemma_skip(ts: Seq<Token>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= ts.len() ensures #![trigger ts.skip(a).skip(b)] ts.skip(a).skip(b) == ts.skip(a + b) { assert(ts.skip(a).skip(b) =~= ts.skip(a + b)); }
// contracts
pub open spec fn leaf(c: CST, n: N, val: Option<Seq<char>>, at: Location) -> bool { nk(c) == n && !inner(c) && cloc(c) == at }
pub open spec fn made(c: CST, t: Token) -> bool { nk(c) == tk(t) && !inner(c) && cloc(c) == tloc(t) }
pub open spec fn fresh(c: CST, n: N) -> bool { nk(c) == n && kids(c).len() == 0 }
pub open spec fn fresh_at(c: CST, n: N, at: Location) -> bool { fresh(c, n) && cloc(c) == at }
pub open spec fn relocated(old: CST, at: Location, new: CST) -> bool { nk(new) == nk(old) && kids(new) == kids(old) && cloc(new) == at }
pub open spec fn merged(a: Location, b: Location, r: Location) -> bool { r.start == (if le(a.start, b.start) { a.start } else { b.start }) && r.end == (if le(a.end, b.end) { b.end } else { a.end }) }
pub open spec fn added(old: CST, x: CST, new: CST) -> bool { nk(new) == nk(old) && kids(new) == kids(old).push(x) && (if kids(old).len() == 0 { cloc(new) == cloc(x) } else { merged(cloc(old), cloc(x), cloc(new)) }) }
pub open spec fn spanned(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool {
  r is Ok ==> { let c = r->Ok_0.0; let rest = r->Ok_0.1@; 0 < width(c) < ts.len() && rest == ts.skip(width(c) as int) && tail(ts, rest) && (ordered(ts) ==> placed(c, ts) && fits(c, ts)) } }
pub open spec fn escape_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { spanned(ts, r) }
pub open spec fn expr_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { spanned(ts, r) && (r is Ok ==> nk(r->Ok_0.0) is Expr) }
pub open spec fn bracket_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { spanned(ts, r) }
pub open spec fn one_bracket_p(ts: Seq<Token>, open: N, r: Result<(CST, &[Token])>) -> bool { spanned(ts, r) }
pub open spec fn close_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { spanned(ts, r) }
pub open spec fn item_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { spanned(ts, r) }
pub open spec fn stmt_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { spanned(ts, r) && (r is Ok ==> nk(r->Ok_0.0) is Stmt) }
#[verifier::opaque] pub open spec fn fat(v: Seq<CST>) -> bool { forall|i: int| 0 <= i < v.len() ==> 0 < width(#[trigger] v[i]) }
pub broadcast proof fn lemma_fat(v: Seq<CST>, x: CST) requires fat(v), 0 < width(x) ensures #[trigger] fat(v.push(x)) { reveal(fat); }
pub broadcast proof fn lemma_fat0(v: Seq<CST>) requires v.len() == 0 ensures #[trigger] fat(v) { reveal(fat); }
pub open spec fn so_far(ts: Seq<Token>, v: Seq<CST>, rest: Seq<Token>) -> bool {
  0 <= sum(v) < ts.len() && rest == ts.skip(sum(v) as int) && tail(ts, rest)
  && (v.len() > 0 && ordered(ts) ==> right(v, ts) && cloc(v[0]).start == tloc(ts[0]).start && le(tloc(ts[0]).end, cloc(v.last()).end) && le(cloc(v.last()).end, tloc(rest[0]).end)) && (v.len() > 0) == (sum(v) > 0) && fat(v) }
pub open spec fn spans(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { so_far(ts, kids(c), rest) && kids(c).len() > 0 && ordered(ts) ==> cloc(c).start == cloc(kids(c)[0]).start && cloc(c).end == cloc(kids(c).last()).end }
pub open spec fn expr_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Expr && so_far(ts, kids(c), rest) && (kids(c).len() == 0 ==> rest == ts) }
pub open spec fn expr_done(rest: Seq<Token>) -> bool { true }
pub open spec fn node_of(open: N) -> N { if open is AngleOpen { N::Angle } else if open is CurlyOpen { N::Curly } else { N::Square } }
pub open spec fn bracket_inv(ts: Seq<Token>, open: N, c: CST, rest: Seq<Token>) -> bool { nk(c) == node_of(open) && kids(c).len() > 0 && !closer(nk(kids(c).last())) && so_far(ts, kids(c), rest) }
pub open spec fn bracket_done(rest: Seq<Token>) -> bool { true }
pub open spec fn bracket_end(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { so_far(ts, kids(c), rest) }
pub open spec fn stmt_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Stmt && kids(c).len() > 0 && so_far(ts, kids(c), rest) && spans(ts, c, rest) }
pub open spec fn stmt_done(rest: Seq<Token>) -> bool { true }
pub open spec fn doc_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Document && so_far(ts, kids(c), rest) && spans(ts, c, rest) && (kids(c).len() == 0 ==> rest == ts) }
pub open spec fn doc_done(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { true }
pub open spec fn doc_end(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { doc_inv(ts, c, rest) }
pub open spec fn nls_inv(ts: Seq<Token>, v: Seq<CST>, rest: Seq<Token>) -> bool { v.len() > 0 && so_far(ts, v, rest) }
pub open spec fn doc_adding(ts0: Seq<Token>, ts: Seq<Token>, old: CST, v: Seq<CST>, n: int, c: CST) -> bool { 0 <= n <= v.len() && nk(c) is Document && adding(ts0, ts, old, v, n, c) }
#[verifier::opaque] pub open spec fn adding(ts0: Seq<Token>, ts: Seq<Token>, old: CST, v: Seq<CST>, n: int, c: CST) -> bool {
  0 <= n <= v.len() && (ordered(ts) ==> right(v, ts)) && fat(v) && sum(v) < ts.len() && so_far(ts0, kids(old), ts)
  && so_far(ts0, kids(c), ts.skip(wide(v, n as nat) as int)) && spans(ts0, c, ts.skip(wide(v, n as nat) as int)) && (n > 0 ==> kids(c).len() > 0) }
pub open spec fn whole(ts: Seq<Token>, r: Result<CST>) -> bool { r is Ok && ordered(ts) ==> placed(r->Ok_0, ts) }
pub broadcast proof fn lemma_skip0(ts: Seq<Token>, n: int) requires n == 0 ensures #![trigger ts.skip(n)] ts.skip(n) == ts { assert(ts.skip(n) =~= ts); }
pub proof fn lemma_ordered(ts: Seq<Token>, n: int) requires ordered(ts), 0 <= n < ts.len() ensures ordered(ts.skip(n)), le(tloc(ts[0]).start, tloc(ts[n]).start), le(tloc(ts[0]).end, tloc(ts[n]).end)
{ reveal(ordered); let r = ts.skip(n); assert forall|i: int, j: int| 0 <= i <= j < r.len() implies le(#[trigger] tloc(r[i]).start, #[trigger] tloc(r[j]).start) && le(tloc(r[i]).end, tloc(r[j]).end) by { assert(r[i] == ts[i + n] && r[j] == ts[j + n]); assert(le(tloc(ts[i + n]).start, tloc(ts[j + n]).start)); } assert(le(tloc(ts[0]).start, tloc(ts[n]).start)); }
pub broadcast proof fn lemma_leaf(c: CST, ts: Seq<Token>) requires !inner(c), ordered(ts), ts.len() > 1, cloc(c) == tloc(ts[0]) ensures #[trigger] fits(c, ts) { lemma_ordered(ts, 1); assert(ts.skip(1)[0] == ts[1]); }
pub broadcast proof fn lemma_push(ts: Seq<Token>, v: Seq<CST>, rest: Seq<Token>, x: CST, rest2: Seq<Token>)
  requires #[trigger] so_far(ts, v, rest), 0 < width(x) < rest.len(), rest2 == rest.skip(width(x) as int), ordered(ts) && ordered(rest) ==> fits(x, rest) && placed(x, rest)
  ensures #[trigger] so_far(ts, v.push(x), rest2), ordered(ts) ==> le(tloc(ts[0]).start, cloc(x).start) && cloc(x).start == tloc(rest[0]).start && (v.len() > 0 ==> le(cloc(v.last()).end, cloc(x).end))
{ lemma_fat(v, x); lemma_sum(v, x); lemma_right(v, x, ts); lemma_skip(ts, sum(v) as int, width(x) as int); if ordered(ts) { lemma_ordered(ts, sum(v) as int); assert(ts[sum(v) as int] == rest[0]); assert(right(v.push(x), ts)); assert(v.push(x).last() == x); if v.len() > 0 { assert(v.push(x)[0] == v[0]); } else { assert(v.push(x)[0] == x); } } }
pub broadcast proof fn lemma_escape(c: CST) requires nk(c) is BackSlash, kids(c).len() == 0 || kids(c).len() == 1 && !inner(kids(c)[0]) ensures #[trigger] width(c) == 1 + kids(c).len() { let v = kids(c); if v.len() == 1 { assert(wide(v, 0) == 0); assert(wide(v, 1) == wide(v, 0) + width(v[0])); } }
pub broadcast proof fn lemma_backslash(c: CST, ts: Seq<Token>)
  requires nk(c) is BackSlash, ts.len() > 1, cloc(c) == tloc(ts[0]), kids(c).len() == 0 || kids(c).len() == 1 && !inner(kids(c)[0]) && cloc(kids(c)[0]) == tloc(ts[1]) && ts.len() > 2
  ensures width(c) == 1 + kids(c).len(), ordered(ts) ==> #[trigger] placed(c, ts) && fits(c, ts)
{
  let v = kids(c);
  if v.len() == 1 { assert(wide(v, 0) == 0); assert(wide(v, 1) == wide(v, 0) + width(v[0])); }
  if ordered(ts) {
    lemma_ordered(ts, 1); lemma_ordered(ts, width(c) as int); assert(ts.skip(width(c) as int)[0] == ts[width(c) as int]);
    if v.len() == 1 { let t1 = ts.skip(1); assert(wide(v, 0) == 0); assert(t1.skip(wide(v, 0) as int) =~= t1); assert(t1[0] == ts[1]); lemma_leaf(v[0], t1); assert(all_placed(v, 0, t1)); assert(fits(v[0], t1)); assert(placed(v[0], t1)); assert(v[1 - 1] == v[0]); assert(all_placed(v, 1, t1)); }
  }
}
pub broadcast proof fn lemma_push2(ts: Seq<Token>, v: Seq<CST>, rest: Seq<Token>, x: CST, y: CST, rest3: Seq<Token>)
  requires #[trigger] so_far(ts, v, rest), v.len() > 0, !inner(x), cloc(x) == tloc(rest[0]), 0 < width(y) < rest.skip(1).len(), rest3 == rest.skip(1).skip(width(y) as int),
    ordered(rest.skip(1)) ==> fits(y, rest.skip(1)) && placed(y, rest.skip(1))
  ensures #[trigger] so_far(ts, v.push(x).push(y), rest3), ordered(ts) ==> le(tloc(ts[0]).start, cloc(x).start) && le(cloc(v.last()).end, cloc(x).end) && le(tloc(ts[0]).start, cloc(y).start) && le(cloc(x).end, cloc(y).end)
{ let r2 = rest.skip(1); assert(width(x) == 1); if ordered(rest) { lemma_leaf(x, rest); assert(placed(x, rest)); } lemma_push(ts, v, rest, x, r2); assert(so_far(ts, v.push(x), r2)); lemma_push(ts, v.push(x), r2, y, rest3); assert(v.push(x).last() == x); }
pub broadcast proof fn lemma_push_end(ts: Seq<Token>, v: Seq<CST>, rest: Seq<Token>, x: CST)
  requires #[trigger] so_far(ts, v, rest), rest.len() == 1, !inner(x), nk(x) is End, cloc(x) == tloc(rest[0])
  ensures ordered(ts) ==> #[trigger] right(v.push(x), ts) && le(tloc(ts[0]).start, cloc(x).start) && (v.len() > 0 ==> le(cloc(v.last()).end, cloc(x).end))
{ lemma_right(v, x, ts); if ordered(ts) { lemma_ordered(ts, sum(v) as int); assert(ts[sum(v) as int] == rest[0]); } }
// all of v, one after the other
pub proof fn lemma_all_at(v: Seq<CST>, i: int, m: nat, ts: Seq<Token>) requires all_placed(v, m, ts), 0 <= i < m <= v.len() ensures fits(v[i], ts.skip(wide(v, i as nat) as int)), placed(v[i], ts.skip(wide(v, i as nat) as int)), wide(v, (i + 1) as nat) == wide(v, i as nat) + width(v[i]) decreases m { if i < m - 1 { lemma_all_at(v, i, (m - 1) as nat, ts); } }
pub proof fn lemma_wide_le(v: Seq<CST>, m: nat) requires m <= v.len() ensures wide(v, m) <= sum(v) decreases v.len() - m { if m < v.len() { assert(wide(v, m + 1) == wide(v, m) + width(v[m as int])); lemma_wide_le(v, m + 1); } }
pub proof fn lemma_wide_at(v: Seq<CST>, i: nat) requires i < v.len() ensures wide(v, i + 1) == wide(v, i) + width(v[i as int]) { }
pub broadcast proof fn lemma_adding0(ts0: Seq<Token>, ts: Seq<Token>, v: Seq<CST>, n: int, c: CST, rest: Seq<Token>)
  requires nk(c) is Document, so_far(ts0, kids(c), ts), n == 0, spans(ts0, c, ts), #[trigger] so_far(ts, v, rest)
  ensures #[trigger] adding(ts0, ts, c, v, n, c)
{ reveal(adding); assert(wide(v, 0) == 0); assert(ts.skip(wide(v, 0) as int) =~= ts); lemma_so_far_right(ts, v, rest); }
pub proof fn lemma_so_far_right(ts: Seq<Token>, v: Seq<CST>, rest: Seq<Token>) requires so_far(ts, v, rest) ensures ordered(ts) ==> right(v, ts) { if v.len() == 0 { assert(all_placed(v, 0, ts)); } }
pub broadcast proof fn lemma_adding1(ts0: Seq<Token>, ts: Seq<Token>, old: CST, v: Seq<CST>, n: int, c: CST, m: int, new: CST)
  requires #[trigger] adding(ts0, ts, old, v, n, c), n < v.len(), m == n + 1, added(c, v[n], new)
  ensures #[trigger] adding(ts0, ts, old, v, m, new)
{
  reveal(adding); reveal(fat); let x = v[n]; let r = ts.skip(wide(v, n as nat) as int); let r2 = ts.skip(wide(v, m as nat) as int);
  lemma_wide_at(v, n as nat); lemma_wide_le(v, m as nat); assert(0 < width(x)); lemma_skip(ts, wide(v, n as nat) as int, width(x) as int); assert(r2 == r.skip(width(x) as int));
  if ordered(ts0) { lemma_ordered(ts0, sum(kids(old)) as int); assert(ordered(ts)); lemma_ordered(ts, wide(v, n as nat) as int); lemma_all_at(v, n, v.len(), ts); assert(fits(x, r) && placed(x, r)); }
  lemma_push(ts0, kids(c), r, x, r2);
}
pub broadcast proof fn lemma_added(ts0: Seq<Token>, ts: Seq<Token>, old: CST, v: Seq<CST>, n: int, c: CST, rest: Seq<Token>)
  requires #[trigger] adding(ts0, ts, old, v, n, c), n == v.len(), #[trigger] so_far(ts, v, rest)
  ensures so_far(ts0, kids(c), rest), spans(ts0, c, rest)
{ reveal(adding); }
pub broadcast proof fn lemma_two(ts: Seq<Token>, e: Seq<CST>, x: CST, y: CST, rest3: Seq<Token>)
  requires e.len() == 0, !inner(y), 0 < width(x) < ts.len() - 1, cloc(y) == tloc(ts.skip(width(x) as int)[0]), rest3 == ts.skip(width(x) as int).skip(1), ordered(ts) ==> fits(x, ts) && placed(x, ts)
  ensures #[trigger] so_far(ts, e.push(x).push(y), rest3)
{ let r2 = ts.skip(width(x) as int); assert(sum(e) == 0); assert(ts.skip(0) =~= ts); lemma_fat0(e); assert(so_far(ts, e, ts)); lemma_push(ts, e, ts, x, r2); assert(so_far(ts, e.push(x), r2)); assert(width(y) == 1); if ordered(ts) { lemma_ordered(ts, width(x) as int); lemma_leaf(y, r2); assert(placed(y, r2)); } lemma_push(ts, e.push(x), r2, y, rest3); }
pub broadcast proof fn lemma_whole(ts: Seq<Token>, old: CST, rest: Seq<Token>, new: CST)
  requires #[trigger] doc_end(ts, old, rest), rest.len() == 1, kids(new).len() > 0, added(old, kids(new).last(), new), nk(kids(new).last()) is End, !inner(kids(new).last()), cloc(kids(new).last()) == tloc(rest[0])
  ensures ordered(ts) ==> #[trigger] placed(new, ts)
{ let v = kids(old); let x = kids(new).last(); lemma_push_end(ts, v, rest, x); lemma_placed(new, ts); if ordered(ts) { assert(right(v.push(x), ts)); assert(v.push(x).last() == x); if v.len() > 0 { assert(v.push(x)[0] == v[0]); } } }
broadcast use {lemma_whole, lemma_fat, lemma_fat0, lemma_adding0, lemma_adding1, lemma_added, lemma_two, lemma_push2, lemma_push_end, lemma_escape, lemma_backslash, lemma_skip0, lemma_leaf, lemma_push, lemma_sum, lemma_right, lemma_placed};
