// when a document is well formed
pub open spec fn well_formed(c: CST) -> bool decreases c, 0nat via well_formed_dec { inner(c) ==> own_ok(c) && all_well_formed(kids(c), kids(c).len()) }
pub open spec fn all_well_formed(v: Seq<CST>, m: nat) -> bool decreases v, m { m == 0 || m > v.len() || all_well_formed(v, (m - 1) as nat) && well_formed(v[m - 1]) }
#[via_fn] proof fn well_formed_dec(c: CST) { if inner(c) { lemma_smaller_kids(c); } }
pub open spec fn own_ok(c: CST) -> bool {
  if nk(c) is BackSlash { kids(c).len() == 1 } else if nk(c) is Stmt { no_closer(kids(c), kids(c).len()) } else if command(nk(c)) { command_ok(nk(c), flat(kids(c), kids(c).len())) } else { true }
}
pub open spec fn no_closer(v: Seq<CST>, m: nat) -> bool decreases m { m == 0 || m > v.len() || no_closer(v, (m - 1) as nat) && !closer(nk(v[m - 1])) }
pub open spec fn command_ok(n: N, f: Seq<A>) -> bool {
  f.len() >= 5 && (f[1].k is Module || f[1].k is Angle) && f[2].k is Dot && (f[3].k is Ident || f[3].k is Angle) && f.last().k == close_of(n)
  && no_dot_from(f, f.len()) && ({ let w = args(f, (f.len() - 1) as nat); !w.bad && !(w.comma && w.blank) })
}
pub open spec fn no_dot_from(f: Seq<A>, m: nat) -> bool decreases m { m <= 4 || m > f.len() || no_dot_from(f, (m - 1) as nat) && !(f[m - 1].k is Dot) }
// bad: an empty argument before a comma; comma: there was one; blank: nothing in the present argument so far
pub struct W { pub bad: bool, pub comma: bool, pub blank: bool }
pub open spec fn args(f: Seq<A>, m: nat) -> W decreases m {
  if m <= 4 || m > f.len() { W { bad: false, comma: false, blank: true } }
  else { let w = args(f, (m - 1) as nat); let k = f[m - 1].k; if k is Comma { W { bad: w.bad || w.blank, comma: true, blank: true } } else if blank(k) { w } else { W { blank: false, ..w } } }
}
// closing brackets occur only at the end of a command
pub open spec fn middle(f: Seq<A>, last: bool) -> bool decreases f.len() { f.len() == 0 || (last || !closer(f.last().k)) && middle(f.drop_last(), false) }
pub proof fn lemma_middle_at(f: Seq<A>, last: bool, i: int) requires middle(f, last), 0 <= i < f.len(), !last || i < f.len() - 1 ensures !closer(f[i].k) decreases f.len() { if i < f.len() - 1 { lemma_middle_at(f.drop_last(), false, i); } }
pub proof fn lemma_middle_cat(a: Seq<A>, b: Seq<A>) requires middle(a, false), middle(b, false) ensures middle(a + b, false) decreases b.len() { if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_middle_cat(a, b.drop_last()); } }
pub proof fn lemma_seen(v: Seq<CST>, c: CST, m: nat) requires conforms(c), nk(c) is Expr, v == kids(c), m <= v.len() ensures middle(seenv(v).take(m as int), false) decreases m
{ if m > 0 { lemma_child(c, m - 1); lemma_seen(v, c, (m - 1) as nat); assert(seenv(v).take(m as int).drop_last() =~= seenv(v).take(m - 1)); } }
pub proof fn lemma_flat(c: CST, m: nat) requires conforms(c), command(nk(c)), m <= kids(c).len() ensures middle(flat(kids(c), m), m == kids(c).len()), m > 0 ==> flat(kids(c), m).len() > 0 && flat(kids(c), m)[0].k == open_of(nk(c)) decreases m
{
  if m > 0 {
    let v = kids(c); let x = v[m - 1]; let p = flat(v, (m - 1) as nat);
    lemma_child(c, m - 1); lemma_flat(c, (m - 1) as nat);
    if nk(x) is Expr { lemma_seen(kids(x), x, kids(x).len()); assert(seenv(kids(x)).take(kids(x).len() as int) =~= seenv(kids(x))); lemma_middle_cat(p, seenv(kids(x))); lemma_weaken(p + seenv(kids(x))); }
    else { assert((p + seq![seen(x)]).drop_last() =~= p); }
  }
}
pub proof fn lemma_weaken(f: Seq<A>) requires middle(f, false) ensures middle(f, true) { }
