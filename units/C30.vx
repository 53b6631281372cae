@include ../lib/content.vx
@prelude
// the published abstract grammar (brack.ast.ebnf), names outside a command's head being text
pub open spec fn tk_(t: T) -> N { match t { T::Node(n, _) => n, T::Leaf(n, _) => n } }
pub open spec fn piece(n: N) -> bool { n is Text || n is Module || n is Ident || command(n) }
pub open spec fn shape(n: N, v: Seq<T>) -> bool {
  match n {
    N::Document => forall|i: int| 0 <= i < v.len() ==> tk_(#[trigger] v[i]) is Stmt,
    N::Stmt => v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> tk_(#[trigger] v[i]) is Expr,
    N::Expr => v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> piece(tk_(#[trigger] v[i])),
    _ => command(n) && v.len() >= 2 && (tk_(v[0]) is Module || tk_(v[0]) is Angle) && (tk_(v[1]) is Ident || tk_(v[1]) is Angle) && forall|i: int| 2 <= i < v.len() ==> tk_(#[trigger] v[i]) is Expr,
  }
}
pub open spec fn shaped(t: T) -> bool decreases t { match t { T::Leaf(n, _) => n is Text || n is Module || n is Ident, T::Node(n, v) => shape(n, v) && forall|i: int| 0 <= i < v.len() ==> shaped(#[trigger] v[i]) } }
pub open spec fn whole(c: CST, o: AST, e: Seq<TransformError>) -> bool { strict() ==> tree(o) == content(c) && shaped(tree(o)) }
// an element of a command: a separator, or a piece of an argument that is as it should be
pub open spec fn right(t: T, k: N) -> bool { piece(k) && tk_(t) == k && shaped(t) }
pub open spec fn eok(a: A) -> bool { blank(a.k) || a.k is Comma || a.k is Dot || closer(a.k) || right(a.t, a.k) }
pub open spec fn eoks(f: Seq<A>) -> bool { forall|i: int| 0 < i < f.len() ==> eok(#[trigger] f[i]) }
pub open spec fn pieces(v: Seq<T>) -> bool { forall|i: int| 0 <= i < v.len() ==> right(#[trigger] v[i], tk_(v[i])) }
pub open spec fn dones(v: Seq<T>) -> bool { forall|i: int| 0 <= i < v.len() ==> tk_(#[trigger] v[i]) is Expr && shaped(v[i]) }
pub open spec fn gok(g: G) -> bool { dones(g.done) && pieces(g.cur) && pieces(g.sp) }
pub proof fn lemma_expr(v: Seq<T>) requires v.len() > 0, pieces(v) ensures shaped(T::Node(N::Expr, v))
{ assert forall|i: int| 0 <= i < v.len() implies piece(tk_(#[trigger] v[i])) && shaped(v[i]) by { assert(right(v[i], tk_(v[i]))); } }
pub proof fn lemma_gok(f: Seq<A>, m: nat)
  requires strict(), eoks(f), middle(f, true), 4 <= m < f.len(), no_dot_from(f, m), !args(f, m).bad, !blank(f[0].k), !blank(f[1].k), !blank(f[2].k), !blank(f[3].k)
  ensures gok(gather(f, m)) decreases m
{
  if m > 4 {
    let a = f[m - 1]; let g = gather(f, (m - 1) as nat);
    lemma_gok(f, (m - 1) as nat); lemma_alike(f, (m - 1) as nat); lemma_middle_at(f, true, m - 1);
    assert(eok(a));
    if a.k is Comma { assert(!args(f, (m - 1) as nat).blank); assert(g.cur.len() > 0); lemma_expr(g.cur); }
    else if a.k is Space { assert(right(T::Leaf(N::Text, Some(" "@)), N::Text)); }
    else if !(a.k is NewLine) { assert(right(a.t, a.k)); let c = g.cur + g.sp; assert(pieces(c)); assert(pieces(c.push(a.t))); }
  }
}
// what simplification sees of a node below an expression or paragraph
pub open spec fn bare(k: N) -> bool { loose(k) || k is Space || k is Dot || k is Comma || k is Empty || k is Invalid }
pub proof fn lemma_own(c: CST) requires strict(), well_formed(c), conforms(c), inner(c) ensures own_ok(c), forall|i: int| 0 <= i < kids(c).len() ==> well_formed(#[trigger] kids(c)[i])
{ assert forall|i: int| 0 <= i < kids(c).len() implies well_formed(#[trigger] kids(c)[i]) by { lemma_wf_at(kids(c), i, kids(c).len()); } }
pub proof fn lemma_shaped(c: CST)
  requires strict(), conforms(c), well_formed(c), !bare(nk(c))
  ensures shaped(content(c)), tk_(content(c)) == skind(c)
  decreases c
{
  if inner(c) {
    let v = kids(c); let n = nk(c); let p = parts(v, v.len());
    lemma_own(c); lemma_parts(v, v.len());
    assert forall|i: int| 0 <= i < v.len() && !bare(nk(#[trigger] v[i])) implies shaped(content(v[i])) && tk_(content(v[i])) == skind(v[i]) by { lemma_smaller(c, i); lemma_child(c, i); lemma_shaped(v[i]); }
    if n is BackSlash { lemma_child(c, 0); }
    else if n is Expr {
      lemma_pieces(c, v.len());
      lemma_fold_ok(n, v, 0); assert(v.len() > 0) by { if v.len() == 0 { assert(fold(n, 0, v, 0) == 0); } }
      assert(p =~= Seq::new(v.len(), |i: int| content(v[i])));
      assert(shaped(T::Node(N::Expr, p))) by { assert forall|i: int| 0 <= i < p.len() implies piece(tk_(#[trigger] p[i])) && shaped(p[i]) by { lemma_child(c, i); assert(p[i] == content(v[i])); if bare(nk(v[i])) { assert(tk_(p[i]) is Text); } else { assert(shaped(content(v[i]))); } } }
    }
    else if n is Stmt {
      lemma_only_ok(c, v.len(), N::Expr);
      assert(fold(n, 0, v, v.len()) == 1);
      if v.len() == 0 { assert(fold(n, 0, v, 0) == 0); }
      assert(fold(n, 0, v, v.len()) == step(n, fold(n, 0, v, (v.len() - 1) as nat), nk(v[v.len() - 1])));
      assert(no_closer(v, v.len()));
      assert(nk(v[v.len() - 1]) is Expr);
      let o = only(v, p, v.len(), N::Expr); assert(o.len() > 0);
      assert(content(c) == T::Node(N::Stmt, o));
      assert forall|i: int| 0 <= i < o.len() implies tk_(#[trigger] o[i]) is Expr && shaped(o[i]) by { }
    }
    else if n is Document {
      lemma_only_ok(c, v.len(), N::Stmt);
      let o = only(v, p, v.len(), N::Stmt);
      assert(content(c) == T::Node(N::Document, o));
      assert forall|i: int| 0 <= i < o.len() implies tk_(#[trigger] o[i]) is Stmt && shaped(o[i]) by { }
    }
    else {
      let f = flat(v, v.len());
      lemma_command(c); lemma_pflat(v, v.len()); lemma_flat(c, v.len()); lemma_elems(c, v.len());
      let m = (f.len() - 1) as nat; let g = gather(f, m);
      assert(no_dot_from(f, m));
      lemma_gok(f, m); lemma_alike(f, m);
      if g.cur.len() > 0 { lemma_expr(g.cur); }
      let o = seq![f[1].t, f[3].t] + arguments(f);
      assert(content(c) == T::Node(n, o));
      assert(eok(f[1])); assert(eok(f[3]));
      assert(dones(arguments(f)));
      assert(o[0] == f[1].t && o[1] == f[3].t);
      assert forall|i: int| 2 <= i < o.len() implies tk_(#[trigger] o[i]) is Expr && shaped(o[i]) by { assert(o[i] == arguments(f)[i - 2]); }
      assert(shape(n, o));
      assert(shaped(content(c)));
    }
  } else { }
}
pub proof fn lemma_pieces(c: CST, m: nat) requires conforms(c), nk(c) is Expr, m <= kids(c).len() ensures forall|i: int| 0 <= i < m ==> part(nk(#[trigger] kids(c)[i])) decreases m
{ assert forall|i: int| 0 <= i < m implies part(nk(#[trigger] kids(c)[i])) by { lemma_child(c, i); } }
pub proof fn lemma_only_ok(c: CST, m: nat, n: N)
  requires strict(), conforms(c), inner(c), m <= kids(c).len(), n is Expr || n is Stmt, forall|i: int| 0 <= i < kids(c).len() && !bare(nk(#[trigger] kids(c)[i])) ==> shaped(content(kids(c)[i])) && tk_(content(kids(c)[i])) == skind(kids(c)[i])
  ensures ({ let v = kids(c); let o = only(v, parts(v, v.len()), m, n); (forall|i: int| 0 <= i < o.len() ==> tk_(#[trigger] o[i]) == n && shaped(o[i])) && (m > 0 && nk(v[m - 1]) == n ==> o.len() > 0) }) decreases m
{ if m > 0 { let v = kids(c); lemma_only_ok(c, (m - 1) as nat, n); lemma_parts(v, v.len()); if nk(v[m - 1]) == n { assert(!bare(n)); assert(parts(v, v.len())[m - 1] == content(v[m - 1])); assert(shaped(content(v[m - 1]))); } } }
pub proof fn lemma_elems(c: CST, m: nat)
  requires strict(), conforms(c), well_formed(c), command(nk(c)), m <= kids(c).len()
  ensures eoks(flat(kids(c), m)), m > 0 ==> flat(kids(c), m).len() > 0 decreases c, m
{
  if m > 0 {
    let v = kids(c); let x = v[m - 1]; let p = flat(v, (m - 1) as nat); let e = elems(x);
    lemma_elems(c, (m - 1) as nat); lemma_child(c, m - 1); lemma_smaller(c, m - 1); lemma_own(c);
    if nk(x) is Expr {
      lemma_own(x);
      assert forall|i: int| 0 <= i < e.len() implies eok(#[trigger] e[i]) by { lemma_child(x, i); lemma_smaller(x, i); let y = kids(x)[i]; if !bare(nk(y)) { lemma_shaped(y); } }
    } else { assert(e =~= seq![seen(x)]); if m > 1 { assert(eok(e[0])); } }
    let w = p + e;
    if m == 1 { assert(p.len() == 0); }
    assert forall|i: int| 0 < i < w.len() implies eok(#[trigger] w[i]) by { if i < p.len() { assert(w[i] == p[i]); } else { assert(w[i] == e[i - p.len()]); } }
  }
}
pub proof fn lemma_end(c: CST) requires conforms(c), ready(c), nk(c) is Document ensures strict() ==> shaped(content(c)) { if strict() { lemma_shaped(c); } }
