//! Functions of the source that no contract names are unfolded where they are called.
//!
//! A call of such a function is replaced by its body, with the parameters bound to the arguments.
//! `return` and `?` of the body are turned into the value of the unfolded block (or kept, where
//! they leave the caller with the same value); a body for which that cannot be done is not unfolded.
use crate::Module;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub struct Helper {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub path: Vec<String>,
    pub ty: Option<String>,
}

pub type Table = BTreeMap<String, Helper>;

fn uses(m: &Module, crates: &BTreeSet<String>) -> BTreeMap<String, Vec<String>> {
    let mut map = BTreeMap::new();
    for it in &m.items {
        if let syn::Item::Use(u) = it {
            let mut leaves = vec![];
            crate::emit::flatten_use(&u.tree, vec![], &mut leaves);
            for (p, alias) in leaves {
                if p.last().map_or(true, |x| x == "*") {
                    continue;
                }
                let name = alias.unwrap_or_else(|| p.last().unwrap().clone());
                let abs = match p[0].as_str() {
                    "crate" => [vec![m.path[0].clone()], p[1..].to_vec()].concat(),
                    "self" => [m.path.clone(), p[1..].to_vec()].concat(),
                    "super" => [m.path[..m.path.len() - 1].to_vec(), p[1..].to_vec()].concat(),
                    x if crates.contains(x) => p,
                    _ => continue,
                };
                map.insert(name, abs);
            }
        }
    }
    map
}

fn own_items(m: &Module) -> BTreeSet<String> {
    m.items
        .iter()
        .filter_map(|it| match it {
            syn::Item::Fn(f) => Some(f.sig.ident.to_string()),
            syn::Item::Struct(s) => Some(s.ident.to_string()),
            syn::Item::Enum(s) => Some(s.ident.to_string()),
            syn::Item::Type(s) => Some(s.ident.to_string()),
            syn::Item::Const(s) => Some(s.ident.to_string()),
            _ => None,
        })
        .collect()
}

pub struct Inliner<'a> {
    pub table: &'a Table,
    pub mods: &'a BTreeMap<Vec<String>, Module>,
    pub crates: &'a BTreeSet<String>,
    pub contracts: &'a BTreeSet<String>,
    /// method names that stand for something else in this unit
    pub taken: &'a BTreeSet<String>,
    pub path: Vec<String>,
    pub ty: Option<String>,
    pub ret: String,
    pub stack: Vec<String>,
    pub done: Vec<String>,
    pub fresh: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Value,
    Try,
    Tail,
}

/// does control leave the function from here (closures apart)?
struct Escapes {
    ret: bool,
    question: bool,
    bail: bool,
}
impl<'a> syn::visit::Visit<'a> for Escapes {
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        match &r.expr {
            Some(e) if matches!(&**e, Expr::Call(c) if c.func.to_token() == "Err") => self.bail = true,
            _ => self.ret = true,
        }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.question = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n == "bail" {
            self.bail = true;
        } else if n == "ensure" {
            self.ret = true;
        }
    }
}
trait Tok {
    fn to_token(&self) -> String;
}
impl<T: quote::ToTokens> Tok for T {
    fn to_token(&self) -> String {
        self.to_token_stream().to_string().replace(' ', "")
    }
}
fn escapes(mode: Mode, f: impl FnOnce(&mut Escapes)) -> bool {
    let mut e = Escapes { ret: false, question: false, bail: false };
    f(&mut e);
    match mode {
        Mode::Value => e.ret || e.question || e.bail,
        Mode::Try => e.ret,
        Mode::Tail => false,
    }
}
fn stmt_escapes(mode: Mode, s: &Stmt) -> bool {
    escapes(mode, |v| syn::visit::Visit::visit_stmt(v, s))
}
fn expr_escapes(mode: Mode, x: &Expr) -> bool {
    escapes(mode, |v| syn::visit::Visit::visit_expr(v, x))
}

fn is_bail(m: &syn::Macro) -> bool {
    m.path.segments.last().map_or(false, |s| s.ident == "bail")
}

fn diverges(b: &[Stmt]) -> bool {
    match b.last() {
        Some(Stmt::Expr(e, _)) => expr_diverges(e),
        Some(Stmt::Macro(m)) => is_bail(&m.mac),
        _ => false,
    }
}
fn expr_diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Macro(m) => is_bail(&m.mac),
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| expr_diverges(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| expr_diverges(&a.body)),
        _ => false,
    }
}

fn block_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}

/// the statements as one block whose value is what the function would have returned
fn structure(stmts: &[Stmt], mode: Mode) -> Option<Expr> {
    let mut kept: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        let with_rest = |head: Vec<Stmt>| -> Option<Expr> {
            let mut v = head;
            v.extend(rest.iter().cloned());
            structure(&v, mode)
        };
        match s {
            Stmt::Expr(e, None) if rest.is_empty() => {
                let t = tail(e, mode)?;
                return Some(parse_quote!({ #(#kept)* #t }));
            }
            Stmt::Expr(Expr::Return(r), _) => {
                let x: Expr = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(()));
                let t = tail(&x, mode)?;
                return Some(parse_quote!({ #(#kept)* #t }));
            }
            Stmt::Macro(m) if is_bail(&m.mac) => {
                let t = bail(mode);
                return Some(parse_quote!({ #(#kept)* #t }));
            }
            Stmt::Expr(Expr::Macro(m), _) if is_bail(&m.mac) => {
                let t = bail(mode);
                return Some(parse_quote!({ #(#kept)* #t }));
            }
            s if !stmt_escapes(mode, s) => kept.push(s.clone()),
            Stmt::Expr(Expr::If(f), _) => {
                let c = &f.cond;
                if expr_escapes(mode, c) {
                    return None;
                }
                let a = if diverges(&f.then_branch.stmts) { structure(&f.then_branch.stmts, mode)? } else { with_rest(unit(&f.then_branch.stmts))? };
                let b = match &f.else_branch {
                    None => with_rest(vec![])?,
                    Some((_, e)) if expr_diverges(e) => structure(&block_of(e), mode)?,
                    Some((_, e)) => with_rest(unit(&block_of(e)))?,
                };
                return Some(parse_quote!({ #(#kept)* if #c #a else #b }));
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let mut m = m.clone();
                if expr_escapes(mode, &m.expr) || m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |g| expr_escapes(mode, &g.1))) {
                    return None;
                }
                for a in m.arms.iter_mut() {
                    let b = if expr_diverges(&a.body) { structure(&block_of(&a.body), mode)? } else { with_rest(unit(&block_of(&a.body)))? };
                    a.body = Box::new(b);
                    a.comma = None;
                }
                return Some(parse_quote!({ #(#kept)* #m }));
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let p = &l.pat;
                if let Some((_, d)) = &init.diverge {
                    if expr_escapes(mode, &init.expr) {
                        return None;
                    }
                    let x = &init.expr;
                    let (a, b) = (with_rest(vec![])?, structure(&block_of(d), mode)?);
                    return Some(parse_quote!({ #(#kept)* match #x { #p => #a, _ => #b } }));
                }
                match &*init.expr {
                    Expr::Try(t) if !expr_escapes(mode, &t.expr) => {
                        let x = &t.expr;
                        let a = with_rest(vec![parse_quote!(let #p = vx_q;)])?;
                        return Some(parse_quote!({ #(#kept)* match #x { Ok(vx_q) => #a, Err(vx_e) => Err(vx_e) } }));
                    }
                    Expr::Match(m) => {
                        let mut m = m.clone();
                        if expr_escapes(mode, &m.expr) || m.arms.iter().filter(|a| !expr_diverges(&a.body)).count() > 2 {
                            return None;
                        }
                        for a in m.arms.iter_mut() {
                            let b = if expr_diverges(&a.body) {
                                structure(&block_of(&a.body), mode)?
                            } else {
                                let v = &a.body;
                                with_rest(vec![parse_quote!(let #p = #v;)])?
                            };
                            a.body = Box::new(b);
                            a.comma = None;
                        }
                        return Some(parse_quote!({ #(#kept)* #m }));
                    }
                    Expr::If(f) => {
                        let c = &f.cond;
                        let e = &f.else_branch.as_ref()?.1;
                        if expr_escapes(mode, c) {
                            return None;
                        }
                        let one = |stmts: &[Stmt]| -> Option<Expr> {
                            if diverges(stmts) {
                                structure(stmts, mode)
                            } else {
                                with_rest(vec![parse_quote!(let #p = { #(#stmts)* };)])
                            }
                        };
                        let (a, b) = (one(&f.then_branch.stmts)?, one(&block_of(e))?);
                        return Some(parse_quote!({ #(#kept)* if #c #a else #b }));
                    }
                    _ => return None,
                }
            }
            Stmt::Expr(Expr::Try(t), Some(_)) if !expr_escapes(mode, &t.expr) => {
                let x = &t.expr;
                let a = with_rest(vec![])?;
                return Some(parse_quote!({ #(#kept)* match #x { Ok(_) => #a, Err(vx_e) => Err(vx_e) } }));
            }
            _ => return None,
        }
    }
    if mode == Mode::Try {
        return None;
    }
    Some(parse_quote!({ #(#kept)* }))
}

/// a branch whose value is dropped
fn unit(stmts: &[Stmt]) -> Vec<Stmt> {
    let mut v = stmts.to_vec();
    if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
        *semi = Some(Default::default());
    }
    v
}

fn bail(mode: Mode) -> Expr {
    match mode {
        Mode::Value => parse_quote!(Err(anyhow::anyhow!(""))),
        _ => parse_quote!(return Err(anyhow::anyhow!(""))),
    }
}

fn tail(e: &Expr, mode: Mode) -> Option<Expr> {
    match e {
        Expr::Paren(p) => tail(&p.expr, mode),
        Expr::Block(b) if b.label.is_none() => structure(&b.block.stmts, mode),
        Expr::If(f) => {
            let c = &f.cond;
            if expr_escapes(mode, c) {
                return None;
            }
            let a = structure(&f.then_branch.stmts, mode)?;
            let b = tail(&f.else_branch.as_ref()?.1, mode)?;
            let b: Expr = match b {
                Expr::Block(_) | Expr::If(_) => b,
                b => parse_quote!({ #b }),
            };
            Some(parse_quote!(if #c #a else #b))
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            if expr_escapes(mode, &m.expr) {
                return None;
            }
            for a in m.arms.iter_mut() {
                let b = tail(&a.body, mode)?;
                a.body = Box::new(parse_quote!({ #b }));
                a.comma = None;
            }
            Some(Expr::Match(m))
        }
        Expr::Return(r) => tail(r.expr.as_ref()?, mode),
        Expr::Macro(m) if is_bail(&m.mac) => Some(bail(mode)),
        Expr::Call(c) if c.args.len() == 1 && c.func.to_token() == "Ok" => match (mode, &c.args[0]) {
            (Mode::Try, x) => {
                if expr_escapes(mode, x) {
                    return None;
                }
                Some(x.clone())
            }
            (Mode::Value, Expr::Try(t)) if !expr_escapes(mode, &t.expr) => Some((*t.expr).clone()),
            _ => (!expr_escapes(mode, e)).then(|| e.clone()),
        },
        Expr::Call(c) if mode == Mode::Try && c.func.to_token() == "Err" => Some(parse_quote!(return #e)),
        e => {
            if expr_escapes(mode, e) {
                return None;
            }
            Some(match mode {
                Mode::Try => parse_quote!((#e)?),
                _ => e.clone(),
            })
        }
    }
}

/// names a piece of code binds
struct Bound(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

/// a parameter stands for a place of the caller
struct Subst {
    of: BTreeMap<String, (syn::Ident, bool)>, // parameter -> (variable, argument is `&mut variable`)
}
impl Subst {
    fn hit(&self, e: &Expr) -> Option<(syn::Ident, bool)> {
        match e {
            Expr::Path(p) if p.qself.is_none() => p.path.get_ident().and_then(|i| self.of.get(&i.to_string()).cloned()),
            _ => None,
        }
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                if let Some((x, true)) = self.hit(&u.expr) {
                    *e = parse_quote!(#x);
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some((x, _)) = self.hit(&m.receiver) {
                m.receiver = Box::new(parse_quote!(#x));
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
        }
        if let Expr::Field(f) = e {
            if let Some((x, _)) = self.hit(&f.base) {
                f.base = Box::new(parse_quote!(#x));
                return;
            }
        }
        if let Some((x, m)) = self.hit(e) {
            *e = if m { parse_quote!((&mut #x)) } else { parse_quote!(#x) };
            return;
        }
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        // arguments of `format!` and the like
        let ts = std::mem::take(&mut m.tokens);
        m.tokens = self.tokens(ts);
    }
}
impl Subst {
    fn tokens(&self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        use proc_macro2::TokenTree as T;
        let v: Vec<T> = ts.into_iter().collect();
        let mut out = vec![];
        for (i, t) in v.iter().enumerate() {
            match t {
                T::Ident(id) => {
                    let after_dot = i > 0 && matches!(&v[i - 1], T::Punct(p) if p.as_char() == '.');
                    match self.of.get(&id.to_string()) {
                        Some((x, _)) if !after_dot => out.push(T::Ident(x.clone())),
                        _ => out.push(t.clone()),
                    }
                }
                T::Group(g) => out.push(T::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream())))),
                t => out.push(t.clone()),
            }
        }
        out.into_iter().collect()
    }
}

/// paths of another module, made absolute
struct Absolute<'a> {
    map: BTreeMap<String, Vec<String>>,
    own: BTreeSet<String>,
    path: &'a [String],
    bound: BTreeSet<String>,
}
impl<'a> VisitMut for Absolute<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.leading_colon.is_none() && !p.segments.is_empty() {
            let first = p.segments[0].ident.to_string();
            let abs = if p.segments.len() == 1 && self.bound.contains(&first) {
                None
            } else if let Some(a) = self.map.get(&first) {
                Some(a.clone())
            } else if self.own.contains(&first) {
                Some([self.path.to_vec(), vec![first]].concat())
            } else {
                None
            };
            if let Some(a) = abs {
                let rest: Vec<syn::PathSegment> = p.segments.iter().skip(1).cloned().collect();
                let args = p.segments[0].arguments.clone();
                let mut segs: syn::punctuated::Punctuated<syn::PathSegment, syn::Token![::]> = Default::default();
                for x in &a {
                    segs.push(syn::PathSegment::from(syn::Ident::new(x, proc_macro2::Span::call_site())));
                }
                segs.last_mut().unwrap().arguments = args;
                segs.extend(rest);
                p.segments = segs;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

impl<'a> Inliner<'a> {
    fn resolve(&self, p: &syn::Path) -> Option<String> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let here = self.mods.get(&self.path)?;
        let map = uses(here, self.crates);
        let abs: Vec<String> = match segs[0].as_str() {
            "crate" => [vec![self.path[0].clone()], segs[1..].to_vec()].concat(),
            "self" => [self.path.clone(), segs[1..].to_vec()].concat(),
            "super" => [self.path[..self.path.len() - 1].to_vec(), segs[1..].to_vec()].concat(),
            "Self" => [self.path.clone(), vec![self.ty.clone()?], segs[1..].to_vec()].concat(),
            x if map.contains_key(x) => [map[x].clone(), segs[1..].to_vec()].concat(),
            x if segs.len() > 1 && self.crates.contains(x) => segs.clone(),
            _ => [self.path.clone(), segs.clone()].concat(),
        };
        Some(abs.join("::"))
    }

    fn candidate(&self, e: &Expr) -> Option<(String, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => &p.path,
                    _ => return None,
                };
                let key = self.resolve(p)?;
                let h = self.table.get(&key)?;
                if self.contracts.contains(&key) || self.stack.contains(&key) || h.sig.inputs.len() != c.args.len() || h.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(_))) {
                    return None;
                }
                Some((key, c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) if m.receiver.to_token() == "self" => {
                let n = m.method.to_string();
                if self.taken.contains(&n) {
                    return None;
                }
                let key = [self.path.clone(), vec![self.ty.clone()?, n]].concat().join("::");
                let h = self.table.get(&key)?;
                if self.contracts.contains(&key) || self.stack.contains(&key) || h.sig.inputs.len() != m.args.len() + 1 || !matches!(h.sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
                    return None;
                }
                Some((key, m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }

    fn unfold(&mut self, e: &Expr, mode: Mode) -> Option<Expr> {
        let (key, args) = self.candidate(e)?;
        let h = &self.table[&key];
        if !h.sig.generics.params.is_empty() && h.sig.generics.params.iter().any(|p| !matches!(p, syn::GenericParam::Lifetime(_))) || self.stack.len() > 4 {
            return None;
        }
        if mode == Mode::Tail && self.ret != h.sig.output.to_token() {
            return None;
        }
        let result = h.sig.output.to_token().contains("Result");
        if !result && (mode == Mode::Try || mode == Mode::Value && { let mut v = Escapes { ret: false, question: false, bail: false }; syn::visit::Visit::visit_block(&mut v, &h.block); v.question }) {
            return None;
        }
        let mut block = h.block.clone();
        let mut inputs: Vec<syn::PatType> = h.sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(t.clone()), _ => None }).collect();
        let mut bound = Bound(Default::default());
        syn::visit::Visit::visit_block(&mut bound, &block);
        if h.path != self.path {
            let m = self.mods.get(&h.path)?;
            let mut b = bound.0.clone();
            for i in &inputs {
                let mut v = Bound(Default::default());
                syn::visit::Visit::visit_pat(&mut v, &i.pat);
                b.extend(v.0);
            }
            let mut own = own_items(m);
            for k in self.mods.keys() {
                if k.len() == h.path.len() + 1 && k[..h.path.len()] == h.path[..] {
                    own.insert(k.last().unwrap().clone());
                }
            }
            let mut abs = Absolute { map: uses(m, self.crates), own, path: &h.path, bound: b };
            abs.visit_block_mut(&mut block);
            for i in inputs.iter_mut() {
                abs.visit_type_mut(&mut i.ty);
            }
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        let mut subst = Subst { of: Default::default() };
        for (i, a) in inputs.iter().zip(args.iter()) {
            let (p, t) = (&i.pat, &i.ty);
            let place = match a {
                Expr::Path(x) if x.qself.is_none() => x.path.get_ident().map(|x| (x.clone(), false)),
                Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
                    Expr::Path(x) if x.qself.is_none() => x.path.get_ident().map(|x| (x.clone(), true)),
                    _ => None,
                },
                _ => None,
            };
            if let (Pat::Ident(q), Some((x, m))) = (&**p, place) {
                let same = q.ident == x;
                let reassigned = q.mutability.is_some() || (bound.0.contains(&q.ident.to_string()) && !same);
                if !reassigned && (same || !bound.0.contains(&x.to_string())) {
                    if !same || m {
                        subst.of.insert(q.ident.to_string(), (x, m));
                    }
                    continue;
                }
            }
            if t.to_token().contains("impl") {
                return None;
            }
            let v = syn::Ident::new(&format!("vx_a{}", self.fresh), proc_macro2::Span::call_site());
            self.fresh += 1;
            lets.push(parse_quote!(let #v: #t = #a;));
            binds.push(parse_quote!(let #p: #t = #v;));
        }
        subst.visit_block_mut(&mut block);
        // what the body calls in turn
        let (path, ty, ret) = (self.path.clone(), self.ty.clone(), self.ret.clone());
        self.stack.push(key.clone());
        if h.path == self.path {
            self.ty = h.ty.clone();
        }
        self.ret = h.sig.output.to_token();
        self.function(&mut block);
        self.stack.pop();
        (self.path, self.ty, self.ret) = (path, ty, ret);
        let body = match mode {
            Mode::Tail => Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block }),
            m => structure(&block.stmts, m)?,
        };
        let body = block_of(&body);
        self.done.push(key);
        Some(parse_quote!(({ #(#lets)* #(#binds)* #(#body)* })))
    }

    pub fn function(&mut self, b: &mut syn::Block) {
        self.tail_block(b);
        self.visit_block_mut(b);
    }

    fn tail_block(&mut self, b: &mut syn::Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }

    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail_expr(e);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail_expr(&mut a.body);
                }
            }
            Expr::Await(a) => {
                if let Some(n) = self.unfold(&a.base, Mode::Tail) {
                    *e = n;
                }
            }
            e => {
                if let Some(n) = self.unfold(e, Mode::Tail) {
                    *e = n;
                }
            }
        }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        use syn::parse::Parser;
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if !matches!(n.as_str(), "format" | "println" | "print" | "eprintln" | "vec" | "matches" | "assert" | "write" | "writeln") {
            return;
        }
        let list = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        if let Ok(mut args) = list.parse2(m.tokens.clone()) {
            for a in args.iter_mut() {
                match a {
                    Expr::Assign(x) => self.visit_expr_mut(&mut x.right),
                    a => self.visit_expr_mut(a),
                }
            }
            m.tokens = quote::ToTokens::to_token_stream(&args);
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        let ret = std::mem::replace(&mut self.ret, "closure".into());
        visit_mut::visit_expr_closure_mut(self, c);
        self.ret = ret;
    }
    fn visit_expr_return_mut(&mut self, r: &mut syn::ExprReturn) {
        if let Some(e) = &mut r.expr {
            self.tail_expr(e);
        }
        visit_mut::visit_expr_return_mut(self, r);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a task: what it yields (the tasks share nothing, so their order does not matter)
        if let Expr::Async(a) = e {
            if let Some(n) = structure(&a.block.stmts, Mode::Value) {
                *e = n;
            }
        }
        if let Expr::Try(t) = e {
            let inner = match &*t.expr {
                Expr::Await(a) => (*a.base).clone(),
                x => x.clone(),
            };
            if self.ret.contains("Result") {
                if let Some(n) = self.unfold(&inner, Mode::Try) {
                    *e = n;
                    return;
                }
            }
        }
        if let Some(n) = self.unfold(e, Mode::Value) {
            *e = n;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
