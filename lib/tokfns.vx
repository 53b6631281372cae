// Contracts of the tokenizer functions; a unit defines ok, mark_ok, text_ok, name_ok, done and finished.
@fn brack_tokenizer::utils::separate
  ensures
    $0@.len() == 0 ==> r.0@ == one('\0') && r.1@.len() == 0,
    $0@.len() > 0 ==> r.0@ == gr($0@)[0] && r.0@ + r.1@ == $0@ && gr(r.1@) == gr($0@).skip(1),
@hook entry
  broadcast use crate::vx::axiom_gr_joined, crate::vx::axiom_gr_rest;
@fn brack_tokenizer::tokenizer::Tokenizer::merge
  ensures merged(*$0, *$1, r)
@fn brack_tokenizer::tokenize::tokenize_str
  requires gr($0@).len() <= 0xfff_ffff
  ensures finished($0@, r)
@hook entry
  proof { lemma_start($0@); }
@fn brack_tokenizer::dispatch::dispatch
  requires set(*$0), fits(*$0), ok(*$0), mid(*$0)
  ensures done(*$0, r)
  decreases rest(*$0).len(), 1int
@fn brack_tokenizer::backslash::escaped
  ensures escaped_as($0@, $1, r)
@fn brack_tokenizer::angle_bracket_close::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one('>'))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::curly_bracket_close::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one('}'))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::square_bracket_close::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one(']'))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::angle_bracket_open::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one('<'))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::curly_bracket_open::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one('{'))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::square_bracket_open::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one('['))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::comma::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one(','))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::dot::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one('.'))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::whitespace::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one(' '))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::newline::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one('\n'))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::backslash::tokenize
  requires set(*$0), fits(*$0), ok(*$0), mark_ok(*$0, one('\\'))
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::module::tokenize
  requires set(*$0), fits(*$0), ok(*$0), rest(*$0).len() > 0, module_ok(*$0)
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::identifier::tokenize
  requires set(*$0), fits(*$0), ok(*$0), rest(*$0).len() > 0, identifier_ok(*$0)
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
@fn brack_tokenizer::text::tokenize
  requires set(*$0), fits(*$0), ok(*$0), rest(*$0).len() > 0, text_ok(*$0)
  ensures done(*$0, r)
  decreases rest(*$0).len(), 0int
