// The diagnostics a document deserves, by kind of node.
// A unit defines: struct A { pub k: N, pub l: Location }, hits(h, e)
pub enum H { This, All }
pub open spec fn has(v: Seq<TransformError>, h: H) -> bool decreases v.len() { v.len() > 0 && (has(v.drop_last(), h) || hits(h, v.last())) }
pub broadcast proof fn lemma_has(v: Seq<TransformError>, e: TransformError, h: H) ensures #![trigger has(v.push(e), h)] has(v.push(e), h) == (has(v, h) || hits(h, e)) { assert(v.push(e).drop_last() =~= v); }
pub broadcast proof fn lemma_has_cat(a: Seq<TransformError>, b: Seq<TransformError>, h: H) ensures #![trigger has(a + b, h)] has(a + b, h) == (has(a, h) || has(b, h)) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_has_cat(a, b.drop_last(), h); } }
pub broadcast proof fn lemma_has0(v: Seq<TransformError>, h: H) requires v.len() == 0 ensures !(#[trigger] has(v, h)) { }
pub open spec fn min(a: LocationData, b: LocationData) -> LocationData { if le(a, b) { a } else { b } }
pub open spec fn join(a: Location, b: Location) -> Location { Location { start: min(a.start, b.start), end: if le(a.end, b.end) { b.end } else { a.end } } }
pub open spec fn not_closed(n: N, l: Location) -> TransformError { if n is Angle { TransformError::AngleNotClosed(l) } else if n is Curly { TransformError::CurlyNotClosed(l) } else { TransformError::SquareNotClosed(l) } }
pub open spec fn unclosed(n: N, f: Seq<A>, h: H) -> bool { f.last().k != close_of(n) && hits(h, not_closed(n, join(f[0].l, f.last().l))) }
pub open spec fn no_module(f: Seq<A>, h: H) -> bool { f.len() >= 2 && !(f[1].k is Module || f[1].k is Angle) && hits(h, TransformError::ModuleNotFound(f[1].l)) }
pub open spec fn no_dot(f: Seq<A>, h: H) -> bool { f.len() >= 3 && !(f[2].k is Dot) && hits(h, TransformError::DotNotFound(f[2].l)) }
pub open spec fn no_name(f: Seq<A>, h: H) -> bool { f.len() >= 4 && !(f[3].k is Ident || f[3].k is Angle) && hits(h, TransformError::IdentifierNotFound(f[3].l)) }
// a dot among the elements from the fourth on
pub open spec fn dots(f: Seq<A>, m: nat, h: H) -> bool decreases m { 3 < m <= f.len() && (dots(f, (m - 1) as nat, h) || f[m - 1].k is Dot && hits(h, TransformError::UnexpectedDot(f[m - 1].l))) }
// arguments: what follows the first four elements; g: no spaces but those within an argument
pub struct S { pub hit: bool, pub empty: bool, pub after: bool, pub prev: Location, pub stopped: bool }
pub open spec fn com1(s: S, j: int, a: A, h: H) -> S {
  if j < 4 { S { prev: a.l, ..s } }
  else if s.stopped { s }
  else if a.k is Comma { if s.empty { S { hit: s.hit || hits(h, TransformError::UnexpectedComma(a.l)), prev: a.l, ..s } } else { S { empty: true, after: true, prev: a.l, ..s } } }
  else if closer(a.k) { S { hit: s.hit || s.empty && s.after && hits(h, TransformError::UnexpectedComma(s.prev)), stopped: true, ..s } }
  else if a.k is Dot { S { hit: s.hit || hits(h, TransformError::UnexpectedDot(a.l)), prev: a.l, ..s } }
  else { S { empty: false, after: false, prev: a.l, ..s } }
}
pub uninterp spec fn nowhere() -> Location;
pub open spec fn com(g: Seq<A>, m: nat, h: H) -> S decreases m { if m == 0 || m > g.len() { S { hit: false, empty: true, after: false, prev: nowhere(), stopped: false } } else { com1(com(g, (m - 1) as nat, h), m - 1, g[m - 1], h) } }
pub open spec fn bad_args(g: Seq<A>, h: H) -> bool { com(g, g.len(), h).hit }
pub proof fn lemma_com_prefix(g: Seq<A>, x: A, m: nat, h: H) requires m <= g.len() ensures com(g.push(x), m, h) == com(g, m, h) decreases m { if m > 0 { lemma_com_prefix(g, x, (m - 1) as nat, h); } }
pub open spec fn comall(g: Seq<A>, h: H) -> S { com(g, g.len(), h) }
pub proof fn lemma_com_push(g: Seq<A>, x: A, h: H) ensures comall(g.push(x), h) == com1(comall(g, h), g.len() as int, x, h) { lemma_com_prefix(g, x, g.len(), h); }
pub broadcast proof fn lemma_stopped(g: Seq<A>, m: nat, h: H) requires 4 <= m <= g.len(), #[trigger] com(g, m, h).stopped ensures com(g, g.len(), h) == com(g, m, h) decreases g.len() - m
{ if m < g.len() { assert(com(g, m + 1, h) == com(g, m, h)); lemma_stopped(g, m + 1, h); } }
// the diagnostics of the command n with the elements f, those inside its own elements apart
pub open spec fn bad_command(n: N, f: Seq<A>, h: H) -> bool { unclosed(n, f, h) || no_module(f, h) || no_dot(f, h) || no_name(f, h) || dots(f, f.len(), h) || bad_args(solid(f, f.len()), h) }
pub open spec fn own(c: CST, h: H) -> bool { if nk(c) is BackSlash { kids(c).len() == 0 && hits(h, TransformError::InvalidBackslash(al(c))) } else if nk(c) is Stmt { stray(kids(c), kids(c).len(), h) } else { command(nk(c)) && bad_command(nk(c), flat(kids(c), kids(c).len()), h) } }
pub open spec fn not_opened(c: CST) -> TransformError { if nk(c) is AngleClose { TransformError::AngleNotOpened(al(c)) } else if nk(c) is CurlyClose { TransformError::CurlyNotOpened(al(c)) } else { TransformError::SquareNotOpened(al(c)) } }
pub open spec fn stray(v: Seq<CST>, m: nat, h: H) -> bool decreases m { 0 < m <= v.len() && (stray(v, (m - 1) as nat, h) || closer(nk(v[m - 1])) && hits(h, not_opened(v[m - 1]))) }
pub open spec fn deserves(c: CST, h: H) -> bool decreases c, 0nat via deserves_dec { inner(c) && (among(kids(c), kids(c).len(), h) || own(c, h)) }
pub open spec fn among(v: Seq<CST>, m: nat, h: H) -> bool decreases v, m { 0 < m <= v.len() && (among(v, (m - 1) as nat, h) || deserves(v[m - 1], h)) }
#[via_fn] proof fn deserves_dec(c: CST, h: H) { if inner(c) { lemma_smaller_kids(c); } }
// spaces inside an argument change nothing
pub proof fn lemma_texts(g: Seq<A>, w: Seq<A>, h: H)
  requires g.len() > 4, forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i].k is Text, comall(g, h).stopped || !comall(g, h).empty && !comall(g, h).after
  ensures ({ let a = comall(g, h); let b = comall(g + w, h); a.stopped && b == a || !a.stopped && b == S { prev: b.prev, ..a } })
  decreases w.len()
{
  if w.len() == 0 { assert(g + w =~= g); }
  else { let d = w.drop_last(); lemma_texts(g, d, h); assert((g + d).push(w.last()) =~= g + w); lemma_com_push(g + d, w.last(), h); assert(w[w.len() - 1].k is Text); }
}
pub open spec fn like(q: Q, g: Seq<A>, h: H) -> bool {
  let s = comall(q.res, h); let t = comall(g, h);
  s == t && (q.res.len() == g.len() || q.res.len() > 4 && g.len() > 4) && (q.res.len() > 0) == (g.len() > 0)
  && (q.res.len() > 4 && partk(q.res.last().k) && !s.stopped ==> !s.empty && !s.after)
  && (forall|i: int| 0 <= i < q.ws.len() ==> #[trigger] q.ws[i].k is Text)
}
pub proof fn lemma_like(f: Seq<A>, m: nat, h: H) requires m <= f.len() ensures like(squeeze(f, m), solid(f, m), h) decreases m
{
  if m > 0 {
    lemma_like(f, (m - 1) as nat, h);
    let q = squeeze(f, (m - 1) as nat); let g = solid(f, (m - 1) as nat); let a = f[m - 1];
    if !blank(a.k) {
      lemma_com_push(g, a, h); lemma_com_push(q.res, a, h);
      if q.res.len() > 4 && partk(q.res.last().k) && partk(a.k) { lemma_texts(q.res, q.ws, h); lemma_com_push(q.res + q.ws, a, h); }
    }
  }
}
pub broadcast proof fn lemma_bad_args(f: Seq<A>, h: H) ensures #![trigger bad_args(squeeze(f, f.len()).res, h)] bad_args(squeeze(f, f.len()).res, h) == bad_args(solid(f, f.len()), h) { lemma_like(f, f.len(), h); }
pub broadcast proof fn lemma_header(g: Seq<A>, m: nat, h: H) requires m <= 4, m <= g.len() ensures ({ let s = #[trigger] com(g, m, h); !s.hit && s.empty && !s.after && !s.stopped && (m > 0 ==> s.prev == g[m - 1].l) }) decreases m { if m > 0 { lemma_header(g, (m - 1) as nat, h); } }
pub proof fn lemma_step(g: Seq<A>, m: nat, h: H) requires 4 < m <= g.len() ensures com(g, m, h) == com1(com(g, (m - 1) as nat, h), m - 1, g[m - 1], h), com(g, m, h).stopped ==> bad_args(g, h) == com(g, m, h).hit { if com(g, m, h).stopped { lemma_stopped(g, m, h); } }
