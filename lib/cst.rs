// Concrete syntax trees, seen by the specifications.
use crate::brack_parser::cst::*;
pub open spec fn nk(c: CST) -> N {
  match c {
    CST::Document(_) => N::Document, CST::Stmt(_) => N::Stmt, CST::Expr(_) => N::Expr, CST::Angle(_) => N::Angle, CST::Curly(_) => N::Curly, CST::Square(_) => N::Square, CST::BackSlash(_) => N::BackSlash,
    CST::AngleBracketOpen(_) => N::AngleOpen, CST::AngleBracketClose(_) => N::AngleClose, CST::SquareBracketOpen(_) => N::SquareOpen, CST::SquareBracketClose(_) => N::SquareClose,
    CST::CurlyBracketOpen(_) => N::CurlyOpen, CST::CurlyBracketClose(_) => N::CurlyClose, CST::Module(_) => N::Module, CST::Ident(_) => N::Ident, CST::Text(_) => N::Text,
    CST::Whitespace(_) => N::Space, CST::Newline(_) => N::NewLine, CST::Dot(_) => N::Dot, CST::Comma(_) => N::Comma, CST::EOF(_) => N::End, CST::Invalid(_) => N::Invalid,
  }
}
pub open spec fn inner(c: CST) -> bool { c is Document || c is Stmt || c is Expr || c is Angle || c is Curly || c is Square || c is BackSlash }
pub open spec fn kids(c: CST) -> Seq<CST> {
  match c { CST::Document(n) => n.children@, CST::Stmt(n) => n.children@, CST::Expr(n) => n.children@, CST::Angle(n) => n.children@, CST::Curly(n) => n.children@, CST::Square(n) => n.children@, CST::BackSlash(n) => n.children@, _ => Seq::empty() }
}
pub open spec fn cloc(c: CST) -> Location {
  match c {
    CST::Document(n) => n.location, CST::Stmt(n) => n.location, CST::Expr(n) => n.location, CST::Angle(n) => n.location, CST::Curly(n) => n.location, CST::Square(n) => n.location, CST::BackSlash(n) => n.location,
    CST::AngleBracketOpen(n) => n.location, CST::AngleBracketClose(n) => n.location, CST::SquareBracketOpen(n) => n.location, CST::SquareBracketClose(n) => n.location, CST::CurlyBracketOpen(n) => n.location,
    CST::CurlyBracketClose(n) => n.location, CST::Module(n) => n.location, CST::Ident(n) => n.location, CST::Text(n) => n.location, CST::Whitespace(n) => n.location, CST::Newline(n) => n.location,
    CST::Dot(n) => n.location, CST::Comma(n) => n.location, CST::EOF(n) => n.location, CST::Invalid(n) => n.location,
  }
}
pub open spec fn cval(c: CST) -> Option<String> {
  match c {
    CST::AngleBracketOpen(n) => n.value, CST::AngleBracketClose(n) => n.value, CST::SquareBracketOpen(n) => n.value, CST::SquareBracketClose(n) => n.value, CST::CurlyBracketOpen(n) => n.value,
    CST::CurlyBracketClose(n) => n.value, CST::Module(n) => n.value, CST::Ident(n) => n.value, CST::Text(n) => n.value, CST::Whitespace(n) => n.value, CST::Newline(n) => n.value,
    CST::Dot(n) => n.value, CST::Comma(n) => n.value, CST::EOF(n) => n.value, CST::Invalid(n) => n.value, _ => None,
  }
}
pub open spec fn value(c: CST) -> Option<Seq<char>> { match cval(c) { Some(s) => Some(s@), None => None } }
// children are smaller than their parent, so specifications may recurse over a tree
pub proof fn lemma_smaller(c: CST, i: int)
  requires 0 <= i < kids(c).len()
  ensures decreases_to!(c => kids(c)[i])
{
  match c { CST::Document(n) => { assert(decreases_to!(c => n.children@)); }, CST::Stmt(n) => { assert(decreases_to!(c => n.children@)); }, CST::Expr(n) => { assert(decreases_to!(c => n.children@)); },
    CST::Angle(n) => { assert(decreases_to!(c => n.children@)); }, CST::Curly(n) => { assert(decreases_to!(c => n.children@)); }, CST::Square(n) => { assert(decreases_to!(c => n.children@)); }, CST::BackSlash(n) => { assert(decreases_to!(c => n.children@)); }, _ => {} }
}
pub proof fn lemma_smaller_kids(c: CST)
  requires inner(c)
  ensures decreases_to!(c => kids(c))
{
  match c { CST::Document(n) => { assert(decreases_to!(c => n.children@)); }, CST::Stmt(n) => { assert(decreases_to!(c => n.children@)); }, CST::Expr(n) => { assert(decreases_to!(c => n.children@)); },
    CST::Angle(n) => { assert(decreases_to!(c => n.children@)); }, CST::Curly(n) => { assert(decreases_to!(c => n.children@)); }, CST::Square(n) => { assert(decreases_to!(c => n.children@)); }, CST::BackSlash(n) => { assert(decreases_to!(c => n.children@)); }, _ => {} }
}
// random node identities
#[verifier::external_body] pub struct Uuid { x: u8 }
impl Uuid { #[verifier::external_body] pub fn new_v4() -> (r: Uuid) { unimplemented!() } }
pub uninterp spec fn uuid_text(u: Uuid) -> Seq<char>;
impl VToString for Uuid { open spec fn vx_text(&self) -> Seq<char> { uuid_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }

pub open spec fn one(c: char) -> Seq<char> { seq![c] }
// rest is what remains of ts
pub open spec fn tail(ts: Seq<Token>, rest: Seq<Token>) -> bool { 0 < rest.len() <= ts.len() && rest == ts.skip(ts.len() - rest.len()) }
pub broadcast proof fn lemma_given(ts: Seq<Token>) requires given(ts), !(tk(ts[0]) is End) ensures #![trigger ts.skip(1)] given(ts.skip(1)), tail(ts, ts.skip(1)), ts.skip(1).len() < ts.len()
{ reveal(given); let r = ts.skip(1); assert(tk(ts.last()) is End); assert forall|i: int| 0 <= i < r.len() implies (#[trigger] tk(r[i]) is End <==> i == r.len() - 1) && !(tk(r[i]) is Empty) by { assert(r[i] == ts[i + 1]); assert(tk(ts[i + 1]) is End <==> i + 1 == ts.len() - 1); } }
pub broadcast proof fn lemma_given_tail(ts: Seq<Token>, rest: Seq<Token>) requires given(ts), #[trigger] tail(ts, rest) ensures given(rest)
{ reveal(given); let k = ts.len() - rest.len(); assert forall|i: int| 0 <= i < rest.len() implies (#[trigger] tk(rest[i]) is End <==> i == rest.len() - 1) && !(tk(rest[i]) is Empty) by { assert(rest[i] == ts[i + k]); assert(tk(ts[i + k]) is End <==> i + k == ts.len() - 1); } }
pub broadcast proof fn lemma_tail_tail(a: Seq<Token>, b: Seq<Token>, c: Seq<Token>) requires #[trigger] tail(a, b), #[trigger] tail(b, c) ensures tail(a, c)
{ assert(c =~= a.skip(a.len() - c.len())); }
pub broadcast proof fn lemma_tail_self(a: Seq<Token>) requires a.len() > 0 ensures #[trigger] tail(a, a) { assert(a.skip(0) =~= a); }
pub broadcast proof fn lemma_given_first(ts: Seq<Token>) requires #[trigger] given(ts) ensures ts.len() > 0, tk(ts[0]) is End <==> ts.len() == 1, !(tk(ts[0]) is Empty) { reveal(given); }
broadcast use {lemma_given_first, lemma_given, lemma_given_tail, lemma_tail_tail, lemma_tail_self};
