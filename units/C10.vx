@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@include ../lib/base.rs
@include ../lib/tokens.rs
@include ../lib/cst.rs
@include ../lib/grammar.rs
@include ../lib/tr.rs
@include ../lib/diag.rs
@include ../lib/trfns.vx
@prelude
pub struct A { pub k: N, pub l: Location }
pub open spec fn al(c: CST) -> Location { cloc(c) }
pub open spec fn located(c: CST, l: Location) -> bool { l == cloc(c) }
pub open spec fn joined(a: Location, b: Location, r: Location) -> bool { r == join(a, b) }
pub open spec fn joins(p: CST, c: CST, r: CST) -> bool { true }
pub open spec fn whole(c: CST, o: AST, e: Seq<TransformError>) -> bool { told(c, e) }
pub proof fn lemma_end(c: CST) { }
// any predicate on diagnostics
pub uninterp spec fn this(e: TransformError) -> bool;
pub open spec fn hits(h: H, e: TransformError) -> bool { h is This && this(e) }
pub open spec fn says(v: Seq<TransformError>, a: bool, b: bool) -> bool { has(v, H::This) == a }
@include ../lib/diagfns.rs
@fn brack_transformer::transform::transform__aux external
