// Tokens, and what the parser may rely on about them.
use crate::brack_tokenizer::tokens::*;
pub enum N { Document, Stmt, Expr, Angle, Curly, Square, BackSlash, AngleOpen, AngleClose, SquareOpen, SquareClose, CurlyOpen, CurlyClose, Module, Ident, Text, Space, NewLine, Dot, Comma, End, Invalid, Empty }
pub open spec fn tk(t: Token) -> N {
  match t {
    Token::Empty(_) => N::Empty, Token::Text(_, _) => N::Text, Token::Module(_, _) => N::Module, Token::Ident(_, _) => N::Ident, Token::NewLine(_) => N::NewLine, Token::WhiteSpace(_) => N::Space,
    Token::Dot(_) => N::Dot, Token::BackSlash(_) => N::BackSlash, Token::AngleBracketOpen(_) => N::AngleOpen, Token::AngleBracketClose(_) => N::AngleClose,
    Token::SquareBracketOpen(_) => N::SquareOpen, Token::SquareBracketClose(_) => N::SquareClose, Token::CurlyBracketOpen(_) => N::CurlyOpen, Token::CurlyBracketClose(_) => N::CurlyClose,
    Token::Comma(_) => N::Comma, Token::EOF(_) => N::End,
  }
}
pub open spec fn tval(t: Token) -> Option<Seq<char>> { match t { Token::Text(s, _) => Some(s@), Token::Module(s, _) => Some(s@), Token::Ident(s, _) => Some(s@), _ => None } }
pub open spec fn tloc(t: Token) -> Location {
  match t {
    Token::Empty(l) => l, Token::Text(_, l) => l, Token::Module(_, l) => l, Token::Ident(_, l) => l, Token::NewLine(l) => l, Token::WhiteSpace(l) => l,
    Token::Dot(l) => l, Token::BackSlash(l) => l, Token::AngleBracketOpen(l) => l, Token::AngleBracketClose(l) => l,
    Token::SquareBracketOpen(l) => l, Token::SquareBracketClose(l) => l, Token::CurlyBracketOpen(l) => l, Token::CurlyBracketClose(l) => l,
    Token::Comma(l) => l, Token::EOF(l) => l,
  }
}
// what the tokenizer yields (C03): one end-of-file, at the end
#[verifier::opaque] pub open spec fn given(ts: Seq<Token>) -> bool { ts.len() > 0 && (forall|i: int| 0 <= i < ts.len() ==> (#[trigger] tk(ts[i]) is End <==> i == ts.len() - 1) && !(tk(ts[i]) is Empty)) }
pub open spec fn le(a: LocationData, b: LocationData) -> bool { a.line < b.line || a.line == b.line && a.character <= b.character }
// what the tokenizer yields (C02): positions never go back
#[verifier::opaque] pub open spec fn ordered(ts: Seq<Token>) -> bool { forall|i: int, j: int| 0 <= i <= j < ts.len() ==> le(#[trigger] tloc(ts[i]).start, #[trigger] tloc(ts[j]).start) && le(tloc(ts[i]).end, tloc(ts[j]).end) }
