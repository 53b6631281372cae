// Contracts of the transformer functions.  A unit defines
//   says(errors, a, b)      a: some reported diagnostic is hit; b: there is one at all
//   out_p(c, out)           what simplifying c must yield
//   elems_p, args_p, kept_p what the passes over the elements of a command must yield
//   done(c, ast)            what transforming c must yield
@fn brack_parser::cst::CST::children
  requires inner(*$0)
  ensures r@ == kids(*$0)
@fn brack_parser::cst::CST::location
  ensures located(*$0, r)
@fn brack_parser::cst::CST::add
  requires inner(*old($0))
  ensures nk(*final($0)) == nk(*old($0)), kids(*final($0)) == kids(*old($0)).push($1), joins(*old($0), $1, *final($0))
@fn brack_tokenizer::tokens::mock_location
@fn brack_tokenizer::tokens::merge_location
  ensures joined(*$0, *$1, r)
@fn brack_parser::cst::new_expr
  ensures nk(r) is Expr, kids(r).len() == 0
@fn brack_parser::cst::new_text
  ensures nk(r) is Text, located(r, $1), cval(r) == Some($0)
@fn brack_parser::cst::new_invalid
  ensures nk(r) is Invalid, located(r, $0)
@fn brack_transformer::utils::check_if_module_or_angle_bracket
  ensures says(r@, no_module(absv($0@), H::This), no_module(absv($0@), H::All))
@fn brack_transformer::utils::check_if_dot
  ensures says(r@, no_dot(absv($0@), H::This), no_dot(absv($0@), H::All))
@fn brack_transformer::utils::check_if_ident_or_angle_bracket
  ensures says(r@, no_name(absv($0@), H::This), no_name(absv($0@), H::All))
@fn brack_transformer::utils::remove_elements_not_included_ast
  requires kept_pre($0@)
  ensures kept_p($0@, r@)
@loop 0 acc=new_csts
  invariant vx_s0@ == $0@, vx_i0 <= vx_s0@.len(), kept_inv($0@, vx_i0 as int, new_csts@)
  decreases vx_s0@.len() - vx_i0
@fn brack_transformer::utils::check_valid_arguments
  requires args_pre($0@)
  ensures says(r.1@, bad_args(absv($0@), H::This), bad_args(absv($0@), H::All)), args_p($0@, r.0@)
@loop 0
  invariant_except_break says(errors@, com(absv(csts@), vx_i0 as nat, H::This).hit, com(absv(csts@), vx_i0 as nat, H::All).hit),
    in_args(absv(csts@), vx_i0 as nat, kids(expr).len() == 0, previous_comma, H::This), in_args(absv(csts@), vx_i0 as nat, kids(expr).len() == 0, previous_comma, H::All),
    args_inv(csts@, vx_i0 as int, new_csts@, expr)
  invariant vx_s0 == csts@.len(), 4 <= vx_i0 <= csts@.len(), nk(expr) is Expr, args_pre(csts@)
  ensures says(errors@, bad_args(absv(csts@), H::This), bad_args(absv(csts@), H::All)), args_end(csts@, new_csts@, expr)
  decreases vx_s0 - vx_i0
@hook loop 0 item
  proof { lemma_step(absv(csts@), vx_i0 as nat, H::This); lemma_step(absv(csts@), vx_i0 as nat, H::All); lemma_arg(csts@, vx_i0 as int); }
@fn brack_transformer::utils::check_unexpected_dot
  ensures says(r@, dots(absv($0@), $0@.len(), H::This), dots(absv($0@), $0@.len(), H::All))
@loop 0 acc=errors
  invariant vx_s0@ == csts@, 3 <= vx_i0, csts@.len() <= 3 || vx_i0 <= csts@.len(), says(errors@, dots(absv(csts@), vx_i0 as nat, H::This), dots(absv(csts@), vx_i0 as nat, H::All))
  decreases vx_s0@.len() - vx_i0
@fn brack_transformer::utils::is_part_of_argument
  ensures r == partk(nk(*$0))
@fn brack_transformer::utils::remove_whitespaces_and_newlines
  requires elems_pre($0@)
  ensures absv(r@) == squeeze(absv($0@), $0@.len()).res, elems_p($0@, r@)
@loop 0
  invariant vx_s0@ == $0@, vx_i0 <= vx_s0@.len(), squeeze(absv($0@), vx_i0 as nat) == (Q { res: absv(result@), ws: absv(whitespaces@) }), elems_inv($0@, vx_i0 as int, result@, whitespaces@)
  decreases vx_s0@.len() - vx_i0
@fn brack_transformer::angle::check_if_the_first_and_last_node_are_brackets
  requires ends_ok(N::Angle, absv($0@))
  ensures says(r@, unclosed(N::Angle, absv($0@), H::This), unclosed(N::Angle, absv($0@), H::All))
@fn brack_transformer::curly::check_if_the_first_and_last_node_are_brackets
  requires ends_ok(N::Curly, absv($0@))
  ensures says(r@, unclosed(N::Curly, absv($0@), H::This), unclosed(N::Curly, absv($0@), H::All))
@fn brack_transformer::square::check_if_the_first_and_last_node_are_brackets
  requires ends_ok(N::Square, absv($0@))
  ensures says(r@, unclosed(N::Square, absv($0@), H::This), unclosed(N::Square, absv($0@), H::All))
@fn brack_transformer::angle::simplify
  requires conforms(*$0), ready(*$0), nk(*$0) is Angle
  ensures out_p(*$0, r.0), told(*$0, r.1@)
  decreases *$0, 0int
@loop 0
  invariant conforms(*cst), ready(*cst), command(nk(*cst)), vx_s0@ == kids(*cst), vx_i0 <= vx_s0@.len(), command_inv(*cst, vx_i0 as int, csts@, errors@)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_smaller(*cst, vx_i0 - 1); lemma_child(*cst, vx_i0 - 1); lemma_ready(*cst, vx_i0 - 1); }
@hook after loop 0
  proof { lemma_command(*cst); }
@fn brack_transformer::curly::simplify
  requires conforms(*$0), ready(*$0), nk(*$0) is Curly
  ensures out_p(*$0, r.0), told(*$0, r.1@)
  decreases *$0, 0int
@loop 0
  invariant conforms(*cst), ready(*cst), command(nk(*cst)), vx_s0@ == kids(*cst), vx_i0 <= vx_s0@.len(), command_inv(*cst, vx_i0 as int, csts@, errors@)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_smaller(*cst, vx_i0 - 1); lemma_child(*cst, vx_i0 - 1); lemma_ready(*cst, vx_i0 - 1); }
@hook after loop 0
  proof { lemma_command(*cst); }
@fn brack_transformer::square::simplify
  requires conforms(*$0), ready(*$0), nk(*$0) is Square
  ensures out_p(*$0, r.0), told(*$0, r.1@)
  decreases *$0, 0int
@loop 0
  invariant conforms(*cst), ready(*cst), command(nk(*cst)), vx_s0@ == kids(*cst), vx_i0 <= vx_s0@.len(), command_inv(*cst, vx_i0 as int, csts@, errors@)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_smaller(*cst, vx_i0 - 1); lemma_child(*cst, vx_i0 - 1); lemma_ready(*cst, vx_i0 - 1); }
@hook after loop 0
  proof { lemma_command(*cst); }
@fn brack_transformer::backslash::simplify
  requires conforms(*$0), ready(*$0), nk(*$0) is BackSlash
  ensures out_p(*$0, r.0), told(*$0, r.1@)
@hook entry
  proof { if kids(*$0).len() > 0 { lemma_child(*$0, 0); } }
@fn brack_transformer::expr::simplify
  requires conforms(*$0), ready(*$0), nk(*$0) is Expr
  ensures out_p(*$0, r.0), told(*$0, r.1@)
  decreases *$0, 0int
@loop 0
  invariant conforms(*cst), ready(*cst), nk(*cst) is Expr, vx_s0@ == kids(*cst), vx_i0 <= vx_s0@.len(), expr_inv(*cst, vx_i0 as int, csts@, errors@)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_smaller(*cst, vx_i0 - 1); lemma_child(*cst, vx_i0 - 1); lemma_ready(*cst, vx_i0 - 1); }
@fn brack_transformer::stmt::simplify
  requires conforms(*$0), ready(*$0), nk(*$0) is Stmt
  ensures out_p(*$0, r.0), told(*$0, r.1@)
  decreases *$0, 0int
@loop 0
  invariant conforms(*cst), ready(*cst), nk(*cst) is Stmt, vx_s0@ == kids(*cst), vx_i0 <= vx_s0@.len(), stmt_inv(*cst, vx_i0 as int, csts@, errors@)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_smaller(*cst, vx_i0 - 1); lemma_child(*cst, vx_i0 - 1); lemma_ready(*cst, vx_i0 - 1); }
@fn brack_transformer::document::simplify
  requires conforms(*$0), ready(*$0), nk(*$0) is Document
  ensures out_p(*$0, r.0), told(*$0, r.1@)
  decreases *$0, 0int
@loop 0
  invariant conforms(*cst), ready(*cst), nk(*cst) is Document, vx_s0@ == kids(*cst), vx_i0 <= vx_s0@.len(), doc_inv(*cst, vx_i0 as int, csts@, errors@)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_smaller(*cst, vx_i0 - 1); lemma_child(*cst, vx_i0 - 1); lemma_ready(*cst, vx_i0 - 1); }
@fn brack_transformer::simplify::simplify
  requires conforms(*$0), ready(*$0)
  ensures out_p(*$0, r.0), told(*$0, r.1@)
  decreases *$0, 1int
@fn brack_transformer::transform::transform
  requires conforms(*$0), ready(*$0), nk(*$0) is Document
  ensures whole(*$0, r.0, r.1@)
@hook entry
  proof { lemma_end(*$0); }
