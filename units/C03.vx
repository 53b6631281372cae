@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@include ../lib/base.rs
@include ../lib/tokens.rs
@include ../lib/tok.rs
@include ../lib/tokfns.vx
@prelude
// a token without its position
pub enum K { Text(Seq<char>), Module(Seq<char>), Ident(Seq<char>), NewLine, Space, Dot, BackSlash, AngleOpen, AngleClose, SquareOpen, SquareClose, CurlyOpen, CurlyClose, Comma, End, Empty }
pub open spec fn kind(t: Token) -> K {
  match t {
    Token::Text(s, _) => K::Text(s@), Token::Module(s, _) => K::Module(s@), Token::Ident(s, _) => K::Ident(s@), Token::NewLine(_) => K::NewLine, Token::WhiteSpace(_) => K::Space,
    Token::Dot(_) => K::Dot, Token::BackSlash(_) => K::BackSlash, Token::AngleBracketOpen(_) => K::AngleOpen, Token::AngleBracketClose(_) => K::AngleClose,
    Token::SquareBracketOpen(_) => K::SquareOpen, Token::SquareBracketClose(_) => K::SquareClose, Token::CurlyBracketOpen(_) => K::CurlyOpen, Token::CurlyBracketClose(_) => K::CurlyClose,
    Token::Comma(_) => K::Comma, Token::EOF(_) => K::End, Token::Empty(_) => K::Empty,
  }
}
pub open spec fn kinds(ts: Seq<Token>) -> Seq<K> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { kinds(ts.drop_last()).push(kind(ts.last())) } }
pub broadcast proof fn lemma_kinds_push(ts: Seq<Token>, t: Token) ensures #![trigger kinds(ts.push(t))] kinds(ts.push(t)) == kinds(ts).push(kind(t)) { assert(ts.push(t).drop_last() =~= ts); }
// lexical state: open brackets of each kind, and whether the name of a command is still to come
pub struct St { pub a: int, pub c: int, pub s: int, pub name: bool }
pub open spec fn inside(s: St) -> bool { s.a + s.c + s.s > 0 }
pub open spec fn mark(c: Seq<char>, inside: bool) -> Option<K> {
  if c == one('\\') { Some(K::BackSlash) } else if c == one('<') { Some(K::AngleOpen) } else if c == one('>') { Some(K::AngleClose) }
  else if c == one('{') { Some(K::CurlyOpen) } else if c == one('}') { Some(K::CurlyClose) } else if c == one('[') { Some(K::SquareOpen) } else if c == one(']') { Some(K::SquareClose) }
  else if c == one('\n') { Some(K::NewLine) } else if inside && c == one('.') { Some(K::Dot) } else if inside && c == one(',') { Some(K::Comma) } else if inside && c == one(' ') { Some(K::Space) }
  else { None }
}
// what a backslash can escape
pub open spec fn escapable(c: Seq<char>) -> Option<K> { if c == one('\n') || c == one(' ') { None } else { mark(c, true) } }
pub open spec fn dec(n: int) -> int { if n > 0 { n - 1 } else { 0 } }
pub open spec fn step(s: St, k: K) -> St {
  match k {
    K::AngleOpen => St { a: s.a + 1, name: true, ..s }, K::CurlyOpen => St { c: s.c + 1, name: true, ..s }, K::SquareOpen => St { s: s.s + 1, name: true, ..s },
    K::AngleClose => St { a: dec(s.a), name: false, ..s }, K::CurlyClose => St { c: dec(s.c), name: false, ..s }, K::SquareClose => St { s: dec(s.s), name: false, ..s },
    _ => s,
  }
}
// the token, if any, that a run of text ending before `next` makes
pub enum Run { Ident, Module, Text, More }
pub open spec fn run(next: Seq<char>, s: St) -> Run {
  if s.name && (next == one('>') || next == one('}') || next == one(']') || next == one(' ') || next == one('\n')) { Run::Ident }
  else if s.name && next == one('.') { Run::Module }
  else if mark(next, inside(s)) is Some || next == one('\0') { Run::Text }
  else { Run::More }
}
pub open spec fn lex(g: Seq<Seq<char>>, s: St, acc: Seq<char>) -> Seq<K> decreases g.len() {
  if g.len() == 0 { seq![K::End] }
  else {
    let rest = g.skip(1);
    let next = if rest.len() == 0 { one('\0') } else { rest[0] };
    match mark(g[0], inside(s)) {
      Some(K::BackSlash) => if rest.len() > 0 && escapable(rest[0]) is Some { seq![K::BackSlash] + (seq![escapable(rest[0])->0] + lex(rest.skip(1), s, Seq::empty())) } else { seq![K::BackSlash] + lex(rest, s, Seq::empty()) },
      Some(k) => seq![k] + lex(rest, step(s, k), Seq::empty()),
      None => match run(next, s) {
        Run::Ident => seq![K::Ident(acc + g[0])] + lex(rest, St { name: false, ..s }, Seq::empty()),
        Run::Module => seq![K::Module(acc + g[0])] + lex(rest, s, Seq::empty()),
        Run::Text => seq![K::Text(acc + g[0])] + lex(rest, s, Seq::empty()),
        Run::More => lex(rest, s, acc + g[0]),
      },
    }
  }
}
pub open spec fn st(t: Tokenizer) -> St { St { a: t.angle_nest_count->0 as int, c: t.curly_nest_count->0 as int, s: t.square_nest_count->0 as int, name: t.looking_for_identifier->0 } }
pub open spec fn next_of(t: Tokenizer) -> Seq<char> { if gr(rest(t)).len() > 1 { gr(rest(t))[1] } else { one('\0') } }
pub open spec fn ok(t: Tokenizer) -> bool { st(t).a >= 0 && st(t).c >= 0 && st(t).s >= 0 && (st(t).name ==> nested(t)) }
pub open spec fn mark_ok(t: Tokenizer, c: Seq<char>) -> bool { rest(t).len() > 0 && gr(rest(t))[0] == c && pool(t).len() == 0 && (c == one('.') || c == one(',') || c == one(' ') ==> nested(t)) }
pub open spec fn run_ok(t: Tokenizer) -> bool { mark(gr(rest(t))[0], nested(t)) is None }
pub open spec fn text_ok(t: Tokenizer) -> bool { run_ok(t) && run(next_of(t), st(t)) is Text }
pub open spec fn module_ok(t: Tokenizer) -> bool { run_ok(t) && run(next_of(t), st(t)) is Module }
pub open spec fn identifier_ok(t: Tokenizer) -> bool { run_ok(t) && run(next_of(t), st(t)) is Ident }
pub open spec fn escaped_as(head: Seq<char>, l: Location, r: Option<Token>) -> bool { (r is Some) == (escapable(head) is Some) && (r is Some ==> kind(r->0) == escapable(head)->0) }
pub open spec fn done(t: Tokenizer, r: Result<Vec<Token>>) -> bool { r is Ok && kinds(r->Ok_0@) == kinds(toks(t)) + lex(gr(rest(t)), st(t), pool(t)) }
pub proof fn lemma_start(src: Seq<char>) {}
pub open spec fn finished(src: Seq<char>, r: Result<Vec<Token>>) -> bool { r is Ok && kinds(r->Ok_0@) == lex(gr(src), St { a: 0, c: 0, s: 0, name: false }, Seq::empty()) && given(r->Ok_0@) }
pub broadcast proof fn lemma_push_cat(a: Seq<K>, k: K, b: Seq<K>) ensures #![trigger a.push(k) + b] a.push(k) + b == a + (seq![k] + b) { assert(a.push(k) + b =~= a + (seq![k] + b)); }
pub broadcast proof fn lemma_cat(b: Seq<K>) ensures #![trigger Seq::<K>::empty() + b] Seq::<K>::empty() + b == b { assert(Seq::<K>::empty() + b =~= b); }
pub broadcast proof fn lemma_end(a: Seq<K>, k: K) ensures #![trigger a.push(k)] a.push(k) == a + seq![k] { assert(a.push(k) =~= a + seq![k]); }
pub broadcast proof fn lemma_len0(s: Seq<char>) ensures #![trigger s.len()] s.len() == 0 ==> s == Seq::<char>::empty() { if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } }
// one end-of-file token, at the end: what the contracts of the parser (C04 to C07) ask of the tokens
pub open spec fn given_k(ks: Seq<K>) -> bool { ks.len() > 0 && forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i] is End <==> i == ks.len() - 1) && !(ks[i] is Empty) }
pub proof fn lemma_lex(g: Seq<Seq<char>>, s: St, acc: Seq<char>) ensures given_k(lex(g, s, acc)) decreases g.len()
{
  if g.len() > 0 {
    let rest = g.skip(1); let e = Seq::<char>::empty();
    match mark(g[0], inside(s)) {
      Some(K::BackSlash) => if rest.len() > 0 && escapable(rest[0]) is Some { lemma_lex(rest.skip(1), s, e); lemma_one_more(escapable(rest[0])->0, lex(rest.skip(1), s, e)); lemma_one_more(K::BackSlash, seq![escapable(rest[0])->0] + lex(rest.skip(1), s, e)); } else { lemma_lex(rest, s, e); lemma_one_more(K::BackSlash, lex(rest, s, e)); },
      Some(k) => { lemma_lex(rest, step(s, k), e); lemma_one_more(k, lex(rest, step(s, k), e)); },
      None => {
        let next = if rest.len() == 0 { one('\0') } else { rest[0] };
        match run(next, s) {
          Run::Ident => { let s1 = St { name: false, ..s }; lemma_lex(rest, s1, e); lemma_one_more(K::Ident(acc + g[0]), lex(rest, s1, e)); },
          Run::Module => { lemma_lex(rest, s, e); lemma_one_more(K::Module(acc + g[0]), lex(rest, s, e)); },
          Run::Text => { lemma_lex(rest, s, e); lemma_one_more(K::Text(acc + g[0]), lex(rest, s, e)); },
          Run::More => { lemma_lex(rest, s, acc + g[0]); },
        }
      },
    }
  }
}
pub proof fn lemma_one_more(k: K, ks: Seq<K>) requires given_k(ks), !(k is End), !(k is Empty) ensures given_k(seq![k] + ks)
{ let r = seq![k] + ks; assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i] is End <==> i == r.len() - 1) && !(r[i] is Empty) by { if i > 0 { assert(r[i] == ks[i - 1]); assert(ks[i - 1] is End <==> i - 1 == ks.len() - 1); } } }
pub proof fn lemma_kinds_at(ts: Seq<Token>) ensures kinds(ts).len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> #[trigger] kinds(ts)[i] == kind(ts[i]) decreases ts.len()
{ if ts.len() > 0 { let d = ts.drop_last(); lemma_kinds_at(d); assert forall|i: int| 0 <= i < ts.len() implies #[trigger] kinds(ts)[i] == kind(ts[i]) by { if i < d.len() { assert(kinds(ts)[i] == kinds(d)[i]); } } } }
pub broadcast proof fn lemma_given(ts: Seq<Token>, g: Seq<Seq<char>>, s: St, acc: Seq<char>) requires #[trigger] kinds(ts) == #[trigger] lex(g, s, acc) ensures given(ts)
{ reveal(given); lemma_lex(g, s, acc); lemma_kinds_at(ts); let ks = kinds(ts); assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] tk(ts[i]) is End <==> i == ts.len() - 1) && !(tk(ts[i]) is Empty) by { assert(ks[i] == kind(ts[i])); assert(ks[i] is End <==> i == ks.len() - 1); } }
broadcast use {lemma_given, lemma_kinds_push, lemma_push_cat, lemma_cat, lemma_end, lemma_len0};
