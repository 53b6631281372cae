@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@include ../lib/base.rs
@include ../lib/tok.rs
@include ../lib/tokfns.vx
@prelude
pub open spec fn no_eof(ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> !(#[trigger] ts[i] is EOF) }
pub open spec fn ok(t: Tokenizer) -> bool { no_eof(toks(t)) }
// C01: the tokens spell the source, and end with the only end-of-file token
pub open spec fn complete(src: Seq<char>, r: Result<Vec<Token>>) -> bool {
  r is Ok && r->Ok_0@.len() > 0 && r->Ok_0@.last() is EOF && no_eof(r->Ok_0@.drop_last()) && render(r->Ok_0@) =~= src
}
pub open spec fn done(t: Tokenizer, r: Result<Vec<Token>>) -> bool { complete(render(toks(t)) + pool(t) + rest(t), r) }
pub open spec fn mark_ok(t: Tokenizer, c: Seq<char>) -> bool { rest(t).len() > 0 && gr(rest(t))[0] == c && pool(t).len() == 0 }
pub open spec fn text_ok(t: Tokenizer) -> bool { true }
pub open spec fn module_ok(t: Tokenizer) -> bool { true }
pub open spec fn identifier_ok(t: Tokenizer) -> bool { true }
pub open spec fn escaped_as(head: Seq<char>, l: Location, r: Option<Token>) -> bool { r is Some ==> tok_text(r->0) == head && !(r->0 is EOF) && head != one('\0') }
pub proof fn lemma_start(src: Seq<char>) {}
pub open spec fn finished(src: Seq<char>, r: Result<Vec<Token>>) -> bool { complete(src, r) }
