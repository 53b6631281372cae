@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@include ../lib/base.rs
@include ../lib/tokens.rs
@include ../lib/cst.rs
@include ../lib/grammar.rs
@include ../lib/tr.rs
@include ../lib/diag.rs
@include ../lib/trfns.vx
@prelude
pub struct A { pub k: N, pub l: Location }
// places do not matter here
pub open spec fn al(c: CST) -> Location { nowhere() }
pub open spec fn located(c: CST, l: Location) -> bool { true }
pub open spec fn joined(a: Location, b: Location, r: Location) -> bool { true }
pub open spec fn joins(p: CST, c: CST, r: CST) -> bool { true }
pub enum D { AngleNotOpened, AngleNotClosed, CurlyNotOpened, CurlyNotClosed, SquareNotOpened, SquareNotClosed, MismatchedBracket, ModuleNotFound, IdentifierNotFound, DotNotFound, CommaNotFound, UnexpectedDot, UnexpectedComma, InvalidBackslash }
pub open spec fn dk(e: TransformError) -> D {
  match e {
    TransformError::AngleNotOpened(_) => D::AngleNotOpened, TransformError::AngleNotClosed(_) => D::AngleNotClosed, TransformError::CurlyNotOpened(_) => D::CurlyNotOpened, TransformError::CurlyNotClosed(_) => D::CurlyNotClosed,
    TransformError::SquareNotOpened(_) => D::SquareNotOpened, TransformError::SquareNotClosed(_) => D::SquareNotClosed, TransformError::MismatchedBracket(_) => D::MismatchedBracket, TransformError::ModuleNotFound(_) => D::ModuleNotFound,
    TransformError::IdentifierNotFound(_) => D::IdentifierNotFound, TransformError::DotNotFound(_) => D::DotNotFound, TransformError::CommaNotFound(_) => D::CommaNotFound, TransformError::UnexpectedDot(_) => D::UnexpectedDot,
    TransformError::UnexpectedComma(_) => D::UnexpectedComma, TransformError::InvalidBackslash(_) => D::InvalidBackslash,
  }
}
// any predicate on kinds of diagnostics
pub uninterp spec fn this(d: D) -> bool;
pub open spec fn hits(h: H, e: TransformError) -> bool { h is All || this(dk(e)) }
pub open spec fn says(v: Seq<TransformError>, a: bool, b: bool) -> bool { has(v, H::This) == a && has(v, H::All) == b }
pub open spec fn whole(c: CST, o: AST, e: Seq<TransformError>) -> bool { told(c, e) && (e.len() == 0) == well_formed(c) }
pub proof fn lemma_end(c: CST) { }
// the reported mistakes are those that make a document ill-formed
pub proof fn lemma_dots(f: Seq<A>, m: nat) requires f.len() >= 4, !(f[3].k is Dot), m <= f.len() ensures dots(f, m, H::All) == !no_dot_from(f, m) decreases m { if m > 3 { lemma_dots(f, (m - 1) as nat); } }
pub proof fn lemma_args(f: Seq<A>, m: nat)
  requires middle(f, true), 4 <= m < f.len(), no_dot_from(f, m), !blank(f[0].k), !blank(f[1].k), !blank(f[2].k), !blank(f[3].k)
  ensures solid(f, m).len() >= 4, ({ let s = comall(solid(f, m), H::All); let w = args(f, m); !s.stopped && s.hit == w.bad && s.empty == w.blank && (!w.bad ==> s.after == (w.comma && w.blank)) })
  decreases m
{
  if m == 4 {
    reveal_with_fuel(solid, 6); assert(solid(f, 4) =~= seq![f[0], f[1], f[2], f[3]]); lemma_header(solid(f, 4), 4, H::All);
  } else {
    lemma_args(f, (m - 1) as nat);
    lemma_middle_at(f, true, m - 1);
    let g = solid(f, (m - 1) as nat); let a = f[m - 1];
    if !blank(a.k) { lemma_com_push(g, a, H::All); }
  }
}
pub proof fn lemma_bad_command(n: N, f: Seq<A>) requires command(n), f.len() > 0, f[0].k == open_of(n), middle(f, true) ensures bad_command(n, f, H::All) == !command_ok(n, f)
{
  if f.last().k == close_of(n) && f.len() >= 5 && (f[1].k is Module || f[1].k is Angle) && f[2].k is Dot && (f[3].k is Ident || f[3].k is Angle) {
    lemma_dots(f, f.len());
    if no_dot_from(f, f.len()) {
      let m = (f.len() - 1) as nat;
      lemma_args(f, m); lemma_com_push(solid(f, m), f.last(), H::All);
      assert(bad_args(solid(f, f.len()), H::All) == (args(f, m).bad || args(f, m).comma && args(f, m).blank));
    }
  }
}
pub proof fn lemma_stray(v: Seq<CST>, m: nat) requires m <= v.len() ensures stray(v, m, H::All) == !no_closer(v, m) decreases m { if m > 0 { lemma_stray(v, (m - 1) as nat); } }
pub proof fn lemma_well_formed(c: CST) requires conforms(c) ensures deserves(c, H::All) == !well_formed(c) decreases c, 0nat
{
  if inner(c) {
    lemma_smaller_kids(c); lemma_all(c, kids(c), kids(c).len());
    if nk(c) is Stmt { lemma_stray(kids(c), kids(c).len()); }
    else if nk(c) is BackSlash { if kids(c).len() > 0 { lemma_child(c, 0); } }
    else if command(nk(c)) { lemma_command(c); lemma_flat(c, kids(c).len()); lemma_bad_command(nk(c), flat(kids(c), kids(c).len())); }
  }
}
pub proof fn lemma_all(c: CST, v: Seq<CST>, m: nat) requires conforms(c), inner(c), v == kids(c), m <= v.len() ensures among(v, m, H::All) == !all_well_formed(v, m) decreases v, m
{ if m > 0 { lemma_all(c, v, (m - 1) as nat); lemma_child(c, m - 1); lemma_well_formed(v[m - 1]); } }
pub broadcast proof fn lemma_whole(c: CST) requires conforms(c) ensures #[trigger] deserves(c, H::All) == !well_formed(c) { lemma_well_formed(c); }
pub broadcast proof fn lemma_has_all(v: Seq<TransformError>) ensures #[trigger] has(v, H::All) == (v.len() > 0) { if v.len() > 0 { assert(hits(H::All, v.last())); } }
broadcast use {lemma_whole, lemma_has_all};
@include ../lib/wf.rs
@include ../lib/diagfns.rs
@fn brack_transformer::transform::transform__aux external
