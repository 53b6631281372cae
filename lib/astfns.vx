// The accessors of abstract trees.
@fn brack_transformer::ast::AST::children
  requires ainner(*$0)
  ensures r@ == akids(*$0)
@fn brack_transformer::ast::AST::value
  requires $0 is Ident || $0 is Module || $0 is Text
  ensures text(r) == aval(*$0)
@fn brack_transformer::ast::AST::id
  ensures r@ == aid(*$0)
