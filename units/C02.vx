@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@include ../lib/base.rs
@include ../lib/tokens.rs
@include ../lib/tok.rs
@include ../lib/tokfns.vx
@prelude
pub type Clusters = Seq<Seq<char>>;
// a text ends where one of its own clusters ends: what precedes a cluster boundary segments as it did before (UAX #29, TRUSTED)
pub broadcast axiom fn axiom_gr_prefix(a: Seq<char>, h: Seq<char>, t: Seq<char>)
  ensures #![trigger gr(a + h), gr(a + (h + t))]
    gr(h + t).len() > 0 && h == gr(h + t)[0] && gr(t) == gr(h + t).skip(1) && gr(a + (h + t)) == gr(a) + gr(h + t) ==> gr(a + h) == gr(a).push(h);
pub struct Pos { pub line: int, pub col: int }
// where the n-th cluster of the source starts
pub open spec fn at(g: Clusters, n: int) -> Pos decreases n {
  if n <= 0 { Pos { line: 0, col: 0 } } else { let p = at(g, n - 1); if g[n - 1] == one('\n') { Pos { line: p.line + 1, col: 0 } } else { Pos { line: p.line, col: p.col + 1 } } }
}
pub broadcast proof fn lemma_at(g: Clusters, n: int) requires n >= 0
  ensures #![trigger at(g, n + 1)] at(g, n + 1) == if g[n] == one('\n') { Pos { line: at(g, n).line + 1, col: 0 } } else { Pos { line: at(g, n).line, col: at(g, n).col + 1 } } {}
pub open spec fn loc(t: Token) -> Location {
  match t {
    Token::Text(_, l) => l, Token::Module(_, l) => l, Token::Ident(_, l) => l, Token::NewLine(l) => l, Token::WhiteSpace(l) => l, Token::Dot(l) => l,
    Token::BackSlash(l) => l, Token::AngleBracketOpen(l) => l, Token::AngleBracketClose(l) => l, Token::SquareBracketOpen(l) => l, Token::SquareBracketClose(l) => l,
    Token::CurlyBracketOpen(l) => l, Token::CurlyBracketClose(l) => l, Token::Comma(l) => l, Token::EOF(l) => l, Token::Empty(l) => l,
  }
}
pub open spec fn is_at(l: LocationData, p: Pos) -> bool { l.line == p.line && l.character == p.col }
// how many clusters of the source a token covers
pub open spec fn width(t: Token) -> int {
  match t { Token::Text(s, _) => gr(s@).len() as int, Token::Module(s, _) => gr(s@).len() as int, Token::Ident(s, _) => gr(s@).len() as int, Token::EOF(_) => 0, Token::Empty(_) => 0, _ => 1 }
}
pub open spec fn off(ts: Seq<Token>) -> int decreases ts.len() { if ts.len() == 0 { 0 } else { off(ts.drop_last()) + width(ts.last()) } }
// every token starts where its first cluster starts, and ends just after its last one
pub open spec fn tile(ts: Seq<Token>, g: Clusters) -> bool decreases ts.len() {
  ts.len() == 0 || tile(ts.drop_last(), g) && is_at(loc(ts.last()).start, at(g, off(ts.drop_last())))
    && loc(ts.last()).end.line == loc(ts.last()).start.line && loc(ts.last()).end.character == loc(ts.last()).start.character + width(ts.last())
}
pub broadcast proof fn lemma_tile_push(ts: Seq<Token>, t: Token, g: Clusters)
  ensures #![trigger tile(ts.push(t), g)] #![trigger off(ts.push(t)), tile(ts, g)]
    off(ts.push(t)) == off(ts) + width(t),
    tile(ts.push(t), g) == (tile(ts, g) && is_at(loc(t).start, at(g, off(ts))) && loc(t).end.line == loc(t).start.line && loc(t).end.character == loc(t).start.character + width(t))
{ assert(ts.push(t).drop_last() =~= ts); }
pub open spec fn here(t: Tokenizer, g: Clusters) -> bool {
  let o = off(toks(t)); let n = gr(pool(t)).len();
  tile(toks(t), g) && 0 <= o && o + n + gr(rest(t)).len() == g.len() && (forall|i: int| 0 <= i < gr(rest(t)).len() ==> #[trigger] gr(rest(t))[i] == g[o + n + i])
  && gr(pool(t) + rest(t)) == gr(pool(t)) + gr(rest(t))
  && at(g, o) == (Pos { line: t.token_start_line->0 as int, col: t.token_start_column->0 as int })
  && at(g, o + n) == (Pos { line: t.line->0 as int, col: t.column->0 as int })
  && t.line == t.token_start_line && t.column->0 == t.token_start_column->0 + n
}
pub open spec fn ok(t: Tokenizer) -> bool { true }
pub open spec fn mark_ok(t: Tokenizer, c: Seq<char>) -> bool { rest(t).len() > 0 && gr(rest(t))[0] == c && pool(t).len() == 0 }
pub open spec fn text_ok(t: Tokenizer) -> bool { gr(rest(t))[0] != one('\n') }
pub open spec fn module_ok(t: Tokenizer) -> bool { gr(rest(t))[0] != one('\n') }
pub open spec fn identifier_ok(t: Tokenizer) -> bool { gr(rest(t))[0] != one('\n') }
pub open spec fn escaped_as(head: Seq<char>, l: Location, r: Option<Token>) -> bool { r is Some ==> width(r->0) == 1 && loc(r->0) == l && head != one('\n') && head != one('\0') }
pub open spec fn placed(g: Clusters, r: Result<Vec<Token>>) -> bool { r is Ok && tile(r->Ok_0@, g) && off(r->Ok_0@) == g.len() }
pub open spec fn done(t: Tokenizer, r: Result<Vec<Token>>) -> bool { forall|g: Clusters| here(t, g) ==> #[trigger] placed(g, r) }
pub open spec fn finished(src: Seq<char>, r: Result<Vec<Token>>) -> bool { placed(gr(src), r) && ordered(r->Ok_0@) }
// nothing read yet
pub open spec fn fresh(t: Tokenizer) -> bool { toks(t).len() == 0 && pool(t).len() == 0 && t.line == Some(0usize) && t.column == Some(0usize) && t.token_start_line == Some(0usize) && t.token_start_column == Some(0usize) }
pub proof fn lemma_start(src: Seq<char>) ensures forall|t: Tokenizer| #[trigger] fresh(t) && rest(t) == src ==> here(t, gr(src))
{ assert forall|t: Tokenizer| #[trigger] fresh(t) && rest(t) == src implies here(t, gr(src)) by { broadcast use axiom_gr_empty; assert(off(toks(t)) == 0); assert(gr(pool(t)) + gr(rest(t)) =~= gr(rest(t))); assert(pool(t) + rest(t) =~= rest(t)); } }
pub broadcast proof fn lemma_empty_l(a: Seq<char>) ensures #![trigger Seq::<char>::empty() + a] Seq::<char>::empty() + a == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn lemma_gr_empty(a: Seq<char>) requires a.len() == 0 ensures #![trigger gr(a)] gr(a).len() == 0 { broadcast use axiom_gr_empty; }
// moving one cluster h from the rest to the pool
pub broadcast proof fn lemma_shift(p: Seq<char>, h: Seq<char>, t: Seq<char>)
  requires gr(h + t).len() > 0, h == gr(h + t)[0], gr(t) == gr(h + t).skip(1), gr(p + (h + t)) == gr(p) + gr(h + t)
  ensures #![trigger gr(p), p + h, gr(h + t)] gr(p + h) == gr(p).push(h), gr((p + h) + t) == gr(p + h) + gr(t)
{ broadcast use axiom_gr_prefix; assert((p + h) + t =~= p + (h + t)); assert(gr(p) + gr(h + t) =~= gr(p).push(h) + gr(t)); }
// positions never go back: what the contracts of the parser (C07) ask of the tokens
pub proof fn lemma_at_le(g: Clusters, a: int, b: int) requires 0 <= a <= b
  ensures at(g, a).line <= at(g, b).line, at(g, a).line == at(g, b).line ==> at(g, b).col == at(g, a).col + (b - a) decreases b { if a < b { lemma_at_le(g, a, b - 1); lemma_at(g, b - 1); lemma_col(g, b - 1); } }
pub proof fn lemma_col(g: Clusters, n: int) ensures at(g, n).col >= 0 decreases n { if n > 0 { lemma_col(g, n - 1); } }
pub proof fn lemma_off(ts: Seq<Token>) ensures off(ts) >= 0 decreases ts.len() { if ts.len() > 0 { lemma_off(ts.drop_last()); } }
pub proof fn lemma_ordered(ts: Seq<Token>, g: Clusters, i: int, j: int)
  requires tile(ts, g), 0 <= i <= j < ts.len()
  ensures le(tloc(ts[i]).start, tloc(ts[j]).start), le(tloc(ts[i]).end, tloc(ts[j]).end),
    j == ts.len() - 1 && i < j ==> le(tloc(ts[i]).end, tloc(ts[j]).start)
  decreases ts.len()
{
  let d = ts.drop_last(); let l = d.len() as int;
  assert forall|t: Token| #[trigger] loc(t) == tloc(t) by {}
  assert(loc(ts.last()) == tloc(ts.last()));
  assert(ts[i] == if i < l { d[i] } else { ts.last() }); assert(ts[j] == if j < l { d[j] } else { ts.last() });
  if j < l { lemma_ordered(d, g, i, j); }
  else if i < l {
    lemma_ordered(d, g, i, l - 1);
    let e = d.drop_last(); let u = d.last();
    assert(loc(u) == tloc(u));
    lemma_off(e); lemma_off(d); assert(off(d) == off(e) + width(u));
    lemma_at_le(g, off(e), off(d));
    assert(le(tloc(u).end, tloc(ts.last()).start));
  }
}
pub broadcast proof fn lemma_tiled(r: Result<Vec<Token>>, g: Clusters) requires #[trigger] placed(g, r) ensures ordered(r->Ok_0@)
{ reveal(ordered); let ts = r->Ok_0@; assert forall|i: int, j: int| 0 <= i <= j < ts.len() implies le(#[trigger] tloc(ts[i]).start, #[trigger] tloc(ts[j]).start) && le(tloc(ts[i]).end, tloc(ts[j]).end) by { lemma_ordered(ts, g, i, j); } }
broadcast use {lemma_tiled, lemma_at, lemma_tile_push, lemma_empty_l, lemma_gr_empty, lemma_shift};
