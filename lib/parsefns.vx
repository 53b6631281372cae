// Contracts of the parser functions.  A unit defines
//   made(c, t)           what the leaf c made from token t must be
//   added(old, c, new)   what adding child c must do
//   escape_p, expr_p, bracket_p, close_p, item_p, stmt_p (tokens, result): what the productions must return
//   whole(tokens, result)
@fn brack_parser::cst::CST::children
  requires inner(*$0)
  ensures r@ == kids(*$0)
@fn brack_parser::cst::CST::location
  ensures r == cloc(*$0)
@fn brack_parser::cst::CST::set_location
  ensures relocated(*old($0), $1, *final($0))
@fn brack_parser::cst::CST::add
  requires inner(*old($0))
  ensures added(*old($0), $1, *final($0))
@fn brack_tokenizer::tokens::Token::get_location
  ensures r == tloc(*$0)
@fn brack_tokenizer::tokens::mock_location
@fn brack_tokenizer::tokens::merge_location
  ensures merged(*$0, *$1, r)
@fn brack_parser::cst::new_document
  ensures fresh(r, N::Document)
@fn brack_parser::cst::new_stmt
  ensures fresh(r, N::Stmt)
@fn brack_parser::cst::new_expr
  ensures fresh(r, N::Expr)
@fn brack_parser::cst::new_angle
  ensures fresh(r, N::Angle)
@fn brack_parser::cst::new_curly
  ensures fresh(r, N::Curly)
@fn brack_parser::cst::new_square
  ensures fresh(r, N::Square)
@fn brack_parser::cst::new_backslash
  ensures fresh_at(r, N::BackSlash, $0)
@fn brack_parser::cst::new_eof
  ensures leaf(r, N::End, None, $0)
@fn brack_parser::cst::new_whitespace
  ensures leaf(r, N::Space, None, $0)
@fn brack_parser::cst::new_newline
  ensures leaf(r, N::NewLine, None, $0)
@fn brack_parser::cst::new_text
  ensures leaf(r, N::Text, Some($0@), $1)
@fn brack_parser::cst::new_ident
  ensures leaf(r, N::Ident, Some($0@), $1)
@fn brack_parser::cst::new_module
  ensures leaf(r, N::Module, Some($0@), $1)
@fn brack_parser::cst::new_comma
  ensures leaf(r, N::Comma, None, $0)
@fn brack_parser::cst::new_dot
  ensures leaf(r, N::Dot, None, $0)
@fn brack_parser::cst::new_angle_bracket_open
  ensures leaf(r, N::AngleOpen, None, $0)
@fn brack_parser::cst::new_angle_bracket_close
  ensures leaf(r, N::AngleClose, None, $0)
@fn brack_parser::cst::new_square_bracket_open
  ensures leaf(r, N::SquareOpen, None, $0)
@fn brack_parser::cst::new_square_bracket_close
  ensures leaf(r, N::SquareClose, None, $0)
@fn brack_parser::cst::new_curly_bracket_open
  ensures leaf(r, N::CurlyOpen, None, $0)
@fn brack_parser::cst::new_curly_bracket_close
  ensures leaf(r, N::CurlyClose, None, $0)
@fn brack_parser::eof::parse
  ensures leaf_p($0@, N::End, r)
@fn brack_parser::newline::parse
  ensures leaf_p($0@, N::NewLine, r)
@fn brack_parser::whitespace::parse
  ensures leaf_p($0@, N::Space, r)
@fn brack_parser::text::parse
  ensures leaf_p($0@, N::Text, r)
@fn brack_parser::ident::parse
  ensures leaf_p($0@, N::Ident, r)
@fn brack_parser::modules::parse
  ensures leaf_p($0@, N::Module, r)
@fn brack_parser::comma::parse
  ensures leaf_p($0@, N::Comma, r)
@fn brack_parser::dot::parse
  ensures leaf_p($0@, N::Dot, r)
@fn brack_parser::angle::parse_angle_bracket_open
  ensures leaf_p($0@, N::AngleOpen, r)
@fn brack_parser::angle::parse_angle_bracket_close
  ensures leaf_p($0@, N::AngleClose, r)
@fn brack_parser::curly::parse_curly_bracket_open
  ensures leaf_p($0@, N::CurlyOpen, r)
@fn brack_parser::curly::parse_curly_bracket_close
  ensures leaf_p($0@, N::CurlyClose, r)
@fn brack_parser::square::parse_square_bracket_open
  ensures leaf_p($0@, N::SquareOpen, r)
@fn brack_parser::square::parse_square_bracket_close
  ensures leaf_p($0@, N::SquareClose, r)
@fn brack_parser::bracket_close::parse
  requires given($0@)
  ensures close_p($0@, r)
@fn brack_parser::escaped::parse
  requires given($0@)
  ensures escape_p($0@, r)
@fn brack_parser::expr::parse attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
  requires given($0@)
  ensures expr_p($0@, r)
  decreases $0@.len(), 2int
@hook entry
  let ghost ts0 = $0@;
@loop 0
  invariant given(tokens@), expr_inv(ts0, expr, tokens@)
  ensures expr_done(tokens@)
  decreases tokens@.len()
@fn brack_parser::bracket::parse
  requires given($0@)
  ensures bracket_p($0@, r)
  decreases $0@.len(), 1int
@fn brack_parser::angle::parse attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
  requires given($0@)
  ensures one_bracket_p($0@, N::AngleOpen, r)
  decreases $0@.len(), 0int
@hook entry
  let ghost ts0 = $0@;
@loop 0
  invariant given(tokens@), bracket_inv(ts0, N::AngleOpen, result, tokens@)
  ensures bracket_done(tokens@)
  decreases tokens@.len()
@hook tail
  assert(bracket_end(ts0, result, tokens@));
@fn brack_parser::curly::parse attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
  requires given($0@)
  ensures one_bracket_p($0@, N::CurlyOpen, r)
  decreases $0@.len(), 0int
@hook entry
  let ghost ts0 = $0@;
@loop 0
  invariant given(tokens@), bracket_inv(ts0, N::CurlyOpen, result, tokens@)
  ensures bracket_done(tokens@)
  decreases tokens@.len()
@hook tail
  assert(bracket_end(ts0, result, tokens@));
@fn brack_parser::square::parse attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
  requires given($0@)
  ensures one_bracket_p($0@, N::SquareOpen, r)
  decreases $0@.len(), 0int
@hook entry
  let ghost ts0 = $0@;
@loop 0
  invariant given(tokens@), bracket_inv(ts0, N::SquareOpen, result, tokens@)
  ensures bracket_done(tokens@)
  decreases tokens@.len()
@hook tail
  assert(bracket_end(ts0, result, tokens@));
@fn brack_parser::expr_or_close::parse
  requires given($0@)
  ensures item_p($0@, r)
@fn brack_parser::stmt::parse attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
  requires given($0@)
  ensures stmt_p($0@, r)
@hook entry
  let ghost ts0 = $0@;
@loop 0
  invariant given(tokens@), stmt_inv(ts0, stmt, tokens@)
  ensures stmt_done(tokens@)
  decreases tokens@.len()
@fn brack_parser::parse::parse attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
  requires given($0@)
  ensures whole($0@, r)
@hook entry
  let ghost ts0 = $0@;
@hook loop 0 entry
  let ghost tok0 = tokens@; let ghost doc0 = cst;
@loop 0
  invariant given(tokens@), doc_inv(ts0, cst, tokens@)
  ensures doc_done(ts0, cst, tokens@)
  decreases tokens@.len()
@loop 1
  invariant given(tokens1@), nls_inv(tokens@, csts@, tokens1@)
  decreases tokens1@.len()
@hook before loop 2
  let ghost csts0 = csts@;
@loop 2
  invariant vx_s2@ == csts0, doc_adding(ts0, tok0, doc0, csts0, vx_i2 as int, cst)
  decreases csts0.len() - vx_i2
@loop 3
  invariant given(tokens@), doc_end(ts0, cst, tokens@)
  decreases tokens@.len()
