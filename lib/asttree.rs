// Abstract trees.
use crate::brack_transformer::ast::*;
pub open spec fn akids(a: AST) -> Seq<AST> { match a { AST::Document(n) => n.children@, AST::Stmt(n) => n.children@, AST::Expr(n) => n.children@, AST::Angle(n) => n.children@, AST::Square(n) => n.children@, AST::Curly(n) => n.children@, _ => Seq::empty() } }
pub open spec fn ainner(a: AST) -> bool { a is Document || a is Stmt || a is Expr || a is Angle || a is Square || a is Curly }
pub open spec fn ak(a: AST) -> N { match a { AST::Document(_) => N::Document, AST::Stmt(_) => N::Stmt, AST::Expr(_) => N::Expr, AST::Angle(_) => N::Angle, AST::Square(_) => N::Square, AST::Curly(_) => N::Curly,
  AST::Ident(_) => N::Ident, AST::Module(_) => N::Module, AST::Text(_) => N::Text, AST::Invalid(_) => N::Invalid, AST::Ignored(_) => N::Empty } }
pub open spec fn text(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn aval(a: AST) -> Option<Seq<char>> { match a { AST::Ident(n) => text(n.value), AST::Module(n) => text(n.value), AST::Text(n) => text(n.value), AST::Invalid(n) => text(n.value), AST::Ignored(n) => text(n.value), _ => None } }
pub proof fn lemma_asmaller(a: AST) requires ainner(a) ensures decreases_to!(a => akids(a))
{ match a { AST::Document(n) => { assert(decreases_to!(a => n.children@)); }, AST::Stmt(n) => { assert(decreases_to!(a => n.children@)); }, AST::Expr(n) => { assert(decreases_to!(a => n.children@)); },
    AST::Angle(n) => { assert(decreases_to!(a => n.children@)); }, AST::Square(n) => { assert(decreases_to!(a => n.children@)); }, AST::Curly(n) => { assert(decreases_to!(a => n.children@)); }, _ => {} } }
