// Specification vocabulary for the tokenizer.
use crate::brack_tokenizer::tokens::{Token, Location, LocationData};
use crate::brack_tokenizer::tokenizer::Tokenizer;

// gr(s): the extended grapheme clusters of s (unicode-segmentation, TRUSTED)
pub uninterp spec fn gr(s: Seq<char>) -> Seq<Seq<char>>;
pub broadcast axiom fn axiom_gr_empty(s: Seq<char>) ensures #![trigger gr(s)] (gr(s).len() == 0) == (s.len() == 0);
pub broadcast axiom fn axiom_gr_nonempty(s: Seq<char>, i: int) requires 0 <= i < gr(s).len() ensures #![trigger gr(s)[i]] gr(s)[i].len() > 0;
// the clusters put together; the text is its clusters, and what follows a cluster is cut where it was cut before
pub open spec fn joined(c: Seq<Seq<char>>) -> Seq<char> decreases c.len() { if c.len() == 0 { Seq::empty() } else { c[0] + joined(c.skip(1)) } }
pub broadcast axiom fn axiom_gr_joined(s: Seq<char>) ensures #![trigger gr(s)] joined(gr(s)) == s;
pub broadcast axiom fn axiom_gr_rest(s: Seq<char>) requires gr(s).len() > 0 ensures #![trigger gr(s).skip(1)] gr(joined(gr(s).skip(1))) == gr(s).skip(1);
#[verifier::external_body] pub struct Graphemes<'a> { x: &'a u8 }
pub uninterp spec fn left(g: Graphemes) -> Seq<Seq<char>>;
pub trait VClusters: Sized { spec fn spells(&self, c: Seq<Seq<char>>) -> bool; }
impl VClusters for String { open spec fn spells(&self, c: Seq<Seq<char>>) -> bool { self@ == joined(c) } }
impl<'a> Graphemes<'a> {
  #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r as nat == left(self).len() { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>) ensures match r { Some(c) => left(*old(self)).len() > 0 && c@ == left(*old(self))[0] && left(*final(self)) == left(*old(self)).skip(1), None => left(*old(self)).len() == 0 && left(*final(self)) == left(*old(self)) } { unimplemented!() }
  #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == joined(left(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn collect<T: VClusters>(self) -> (r: T) ensures r.spells(left(self)) { unimplemented!() }
}
pub trait UnicodeSegmentation { fn graphemes(&self, extended: bool) -> (r: Graphemes<'_>) ensures extended ==> left(r) == gr(self.clustered()); spec fn clustered(&self) -> Seq<char>; }
impl UnicodeSegmentation for str { open spec fn clustered(&self) -> Seq<char> { self@ } #[verifier::external_body] fn graphemes(&self, extended: bool) -> (r: Graphemes<'_>) { unimplemented!() } }
impl UnicodeSegmentation for String { open spec fn clustered(&self) -> Seq<char> { self@ } #[verifier::external_body] fn graphemes(&self, extended: bool) -> (r: Graphemes<'_>) { unimplemented!() } }

pub open spec fn one(c: char) -> Seq<char> { seq![c] }
pub broadcast proof fn lemma_one(c: char) ensures #![trigger one(c)] one(c).len() == 1, one(c)[0] == c {}

pub open spec fn nested(t: Tokenizer) -> bool { t.angle_nest_count->0 + t.curly_nest_count->0 + t.square_nest_count->0 > 0 }
// clusters that end the text before them
pub open spec fn special(c: Seq<char>, nested: bool) -> bool {
  c == one('<') || c == one('>') || c == one('{') || c == one('}') || c == one('[') || c == one(']') || c == one('\\') || c == one('\n')
  || nested && (c == one('.') || c == one(',') || c == one(' '))
}
pub open spec fn tok_text(t: Token) -> Seq<char> {
  match t {
    Token::Text(s, _) => s@, Token::Module(s, _) => s@, Token::Ident(s, _) => s@,
    Token::NewLine(_) => one('\n'), Token::WhiteSpace(_) => one(' '), Token::Dot(_) => one('.'), Token::BackSlash(_) => one('\\'),
    Token::AngleBracketOpen(_) => one('<'), Token::AngleBracketClose(_) => one('>'),
    Token::SquareBracketOpen(_) => one('['), Token::SquareBracketClose(_) => one(']'),
    Token::CurlyBracketOpen(_) => one('{'), Token::CurlyBracketClose(_) => one('}'),
    Token::Comma(_) => one(','),
    Token::EOF(_) => Seq::empty(), Token::Empty(_) => Seq::empty(),
  }
}
pub open spec fn render(ts: Seq<Token>) -> Seq<char> decreases ts.len() {
  if ts.len() == 0 { Seq::empty() } else { render(ts.drop_last()) + tok_text(ts.last()) }
}
pub broadcast proof fn lemma_render_push(ts: Seq<Token>, t: Token)
  ensures #![trigger render(ts.push(t))] render(ts.push(t)) == render(ts) + tok_text(t)
{ assert(ts.push(t).drop_last() =~= ts); }

pub open spec fn set(t: Tokenizer) -> bool {
  t.untreated is Some && t.pool is Some && t.tokens is Some && t.line is Some && t.column is Some && t.token_start_line is Some
  && t.token_start_column is Some && t.angle_nest_count is Some && t.curly_nest_count is Some && t.square_nest_count is Some
  && t.looking_for_identifier is Some
}
pub spec const BIG: int = 0x1fff_ffff;
pub open spec fn rest(t: Tokenizer) -> Seq<char> { t.untreated->0@ }
pub open spec fn toks(t: Tokenizer) -> Seq<Token> { t.tokens->0@ }
pub open spec fn pool(t: Tokenizer) -> Seq<char> { t.pool->0@ }
// no counter can overflow before the input is used up
pub open spec fn fits(t: Tokenizer) -> bool {
  let n = gr(rest(t)).len();
  t.line->0 + n <= BIG && t.column->0 + n <= BIG
  && -BIG <= t.angle_nest_count->0 - n && t.angle_nest_count->0 + n <= BIG
  && -BIG <= t.curly_nest_count->0 - n && t.curly_nest_count->0 + n <= BIG
  && -BIG <= t.square_nest_count->0 - n && t.square_nest_count->0 + n <= BIG
}
// characters waiting in the pool are followed by something that is still part of the same text
pub open spec fn mid(t: Tokenizer) -> bool { pool(t).len() > 0 ==> gr(rest(t)).len() > 0 && !special(gr(rest(t))[0], nested(t)) }
// o, unless u overrides it
pub open spec fn over<T>(o: Option<T>, u: Option<T>) -> Option<T> { if u is Some { u } else { o } }
pub open spec fn merged(a: Tokenizer, b: Tokenizer, r: Tokenizer) -> bool {
  r.line == over(a.line, b.line) && r.column == over(a.column, b.column)
  && r.token_start_line == over(a.token_start_line, b.token_start_line) && r.token_start_column == over(a.token_start_column, b.token_start_column)
  && r.untreated == over(a.untreated, b.untreated) && r.pool == over(a.pool, b.pool) && r.tokens == over(a.tokens, b.tokens)
  && r.angle_nest_count == over(a.angle_nest_count, b.angle_nest_count) && r.curly_nest_count == over(a.curly_nest_count, b.curly_nest_count)
  && r.square_nest_count == over(a.square_nest_count, b.square_nest_count) && r.looking_for_identifier == over(a.looking_for_identifier, b.looking_for_identifier)
}
broadcast use {axiom_gr_empty, axiom_gr_nonempty, lemma_render_push, lemma_one};
