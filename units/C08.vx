@include ../lib/content.vx
@prelude
pub open spec fn whole(c: CST, o: AST, e: Seq<TransformError>) -> bool { strict() ==> tree(o) == content(c) }
pub proof fn lemma_end(c: CST) { }
