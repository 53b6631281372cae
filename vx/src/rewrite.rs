//! Mechanical rewrites of function bodies (semantics-preserving; listed in DESIGN.md).
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub struct Rewriter<'a> {
    pub krate: String,
    pub crate_names: &'a BTreeSet<String>,
    pub loops: usize,
    pub lits: BTreeSet<String>,
    pub renames: &'a [(String, String)],
    pub thread: &'a [String],
    pub no_print: bool,
    pub print: bool,
    pub slices: bool,
    pub accs: &'a std::collections::BTreeMap<usize, String>,
}

pub fn has_binding(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            let s = p.ident.to_string();
            if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}

/// does evaluating `e` leave the closure it is the body of?
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            fn inside(ts: TokenStream) -> bool {
                ts.into_iter().any(|t| match t {
                    proc_macro2::TokenTree::Group(g) => inside(g.stream()),
                    proc_macro2::TokenTree::Ident(i) => i == "return",
                    proc_macro2::TokenTree::Punct(p) => p.as_char() == '?',
                    _ => false,
                })
            }
            self.0 |= m.path.segments.last().is_some_and(|x| x.ident == "bail") || inside(m.tokens.clone());
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'a syn::Item) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// an expression that is the same whenever it is evaluated
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Reference(r) => plain(&r.expr),
        Expr::Paren(r) => plain(&r.expr),
        Expr::Field(f) => plain(&f.base),
        Expr::Call(c) => c.args.iter().all(plain) && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Some" || s.ident == "Ok" || s.ident == "Err" || s.ident == "new")),
        Expr::Tuple(t) => t.elems.iter().all(plain),
        Expr::Array(t) => t.elems.iter().all(plain),
        _ => false,
    }
}

fn is_default_call(e: &Expr) -> bool {
    if let Expr::Call(c) = e {
        if c.args.is_empty() {
            let s = c.func.to_token_stream().to_string().replace(' ', "");
            return s == "Default::default" || s.ends_with("::default");
        }
    }
    false
}

fn split_args(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur = TokenStream::new();
    for t in ts {
        if let proc_macro2::TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                out.push(std::mem::take(&mut cur));
                continue;
            }
        }
        cur.extend(std::iter::once(t));
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// `json!(..)` as calls that build the value
fn json_expr(ts: TokenStream) -> Option<Expr> {
    let v: Vec<proc_macro2::TokenTree> = ts.clone().into_iter().collect();
    if let [proc_macro2::TokenTree::Group(g)] = v.as_slice() {
        match g.delimiter() {
            proc_macro2::Delimiter::Brace => {
                let mut e: Expr = parse_quote!(vx_jobj());
                for part in split_args(g.stream()) {
                    let t: Vec<proc_macro2::TokenTree> = part.into_iter().collect();
                    let at = t.iter().position(|x| matches!(x, proc_macro2::TokenTree::Punct(p) if p.as_char() == ':'))?;
                    let key: TokenStream = t[..at].iter().cloned().collect();
                    let val: TokenStream = t[at + 1..].iter().cloned().collect();
                    let key: Expr = syn::parse2(key).ok()?;
                    let val = json_expr(val)?;
                    e = parse_quote!(#e.vx_put(#key, #val));
                }
                return Some(e);
            }
            proc_macro2::Delimiter::Bracket => {
                let mut e: Expr = parse_quote!(vx_jarr());
                for part in split_args(g.stream()) {
                    let val = json_expr(part)?;
                    e = parse_quote!(#e.vx_add(#val));
                }
                return Some(e);
            }
            _ => {}
        }
    }
    if let [proc_macro2::TokenTree::Ident(i)] = v.as_slice() {
        if i == "null" {
            return Some(parse_quote!(vx_jnull()));
        }
    }
    let x: Expr = syn::parse2(ts).ok()?;
    Some(parse_quote!(vx_json(&(#x))))
}

fn str_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && str_lit(&u.expr),
        Expr::Paren(p) => str_lit(&p.expr),
        _ => false,
    }
}

fn str_pats(p: &Pat) -> Option<Vec<syn::Lit>> {
    match p {
        Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(vec![l.lit.clone()]),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_pats(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

/// `match s { "a" | "b" => x, _ => y }` as comparisons
fn str_match(m: &syn::ExprMatch) -> Option<Expr> {
    if !m.arms.iter().any(|a| str_pats(&a.pat).is_some()) {
        return None;
    }
    let scrut = &m.expr;
    let mut chain: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        let body = &a.body;
        let body: Expr = match &**body {
            Expr::Block(b) if b.label.is_none() => Expr::Block(b.clone()),
            x => parse_quote!({ #x }),
        };
        match str_pats(&a.pat) {
            Some(lits) => {
                let mut c: Option<Expr> = None;
                for l in lits {
                    let t: Expr = parse_quote!(vx_m.vx_eq(#l));
                    c = Some(match c { None => t, Some(o) => parse_quote!(#o || #t) });
                }
                let mut c = c?;
                if let Some((_, g)) = &a.guard {
                    c = parse_quote!((#c) && (#g));
                }
                let rest = chain?;
                chain = Some(match rest {
                    Expr::If(_) => parse_quote!(if #c #body else #rest),
                    Expr::Block(_) => parse_quote!(if #c #body else #rest),
                    r => parse_quote!(if #c #body else { #r }),
                });
            }
            None => {
                let pat = &a.pat;
                let rest = chain.take();
                let inner: Expr = match &a.pat {
                    Pat::Wild(_) => body.clone(),
                    Pat::Ident(_) => parse_quote!({ let #pat = vx_m; #body }),
                    _ => return None,
                };
                chain = Some(match (&a.guard, rest) {
                    (None, _) => inner,
                    (Some((_, g)), Some(r)) => match &a.pat {
                        Pat::Wild(_) => parse_quote!(if #g #inner else { #r }),
                        _ => return None,
                    },
                    (Some(_), None) => return None,
                });
            }
        }
    }
    let chain = chain?;
    Some(parse_quote!({ let vx_m = #scrut; #chain }))
}

impl<'a> Rewriter<'a> {
    fn threaded_method(&self, n: &str) -> bool {
        self.thread.iter().any(|t| t.strip_prefix('.') == Some(n))
    }
    fn threaded_path(&self, p: &str) -> bool {
        self.thread.iter().any(|t| !t.starts_with('.') && (p == t || p.ends_with(&format!("::{t}"))))
    }

    /// closures over options and results, and `position`
    fn desugar_closure(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) if m.args.len() == 1 => m,
            Expr::MethodCall(m) if m.args.len() == 2 && m.method == "map_or" => {
                let (recv, d) = (&m.receiver, &m.args[0]);
                return match &m.args[1] {
                    Expr::Closure(f) if f.inputs.len() == 1 && !leaves(&f.body) && plain(d) => {
                        let (p, b) = (&f.inputs[0], &f.body);
                        Some(parse_quote!(match #recv { Some(#p) => #b, None => #d }))
                    }
                    _ => None,
                };
            }
            _ => return None,
        };
        if m.method == "or" {
            let (recv, d) = (&m.receiver, &m.args[0]);
            if !plain(d) {
                return None;
            }
            return Some(parse_quote!(match #recv { Some(vx_f) => Some(vx_f), None => #d }));
        }
        let f = match &m.args[0] {
            Expr::Closure(f) if f.inputs.len() <= 1 && !leaves(&f.body) => f.clone(),
            Expr::Path(f) if m.method == "map" || m.method == "and_then" => parse_quote!(|vx_y| #f(vx_y)),
            _ => return None,
        };
        let recv = &m.receiver;
        let body = &f.body;
        let pat = f.inputs.first();
        let n = m.method.to_string();
        match (n.as_str(), pat) {
            ("and_then", Some(p)) => Some(parse_quote!(match #recv { Some(#p) => #body, None => None })),
            ("map", Some(p)) => Some(parse_quote!(match #recv { Some(#p) => Some(#body), None => None })),
            ("filter", Some(p)) => Some(parse_quote!(match #recv { Some(vx_f) => if { let #p = &vx_f; #body } { Some(vx_f) } else { None }, None => None })),
            ("map_err", Some(p)) => Some(parse_quote!(match #recv { Ok(vx_f) => Ok(vx_f), Err(#p) => Err(#body) })),
            ("or_else", None) => Some(parse_quote!(match #recv { Some(vx_f) => Some(vx_f), None => #body })),
            ("or_else", Some(p)) => Some(parse_quote!(match #recv { Ok(vx_f) => Ok(vx_f), Err(#p) => #body })),
            ("is_some_and", Some(p)) => Some(parse_quote!(match #recv { Some(#p) => #body, None => false })),
            ("is_none_or", Some(p)) => Some(parse_quote!(match #recv { Some(#p) => #body, None => true })),
            ("unwrap_or_else", Some(p)) => Some(parse_quote!(match #recv { Ok(vx_f) => vx_f, Err(#p) => #body })),
            ("unwrap_or_else", None) => Some(parse_quote!(match #recv { Some(vx_f) => vx_f, None => #body })),
            ("ok_or_else", None) => Some(parse_quote!(match #recv { Some(vx_f) => Ok(vx_f), None => Err(#body) })),
            ("position", Some(p)) => {
                let k = self.loops;
                self.loops += 1;
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                let idx = syn::Ident::new(&format!("vx_i{k}"), Span::call_site());
                let seq = syn::Ident::new(&format!("vx_s{k}"), Span::call_site());
                let acc = syn::Ident::new(&format!("vx_c{k}"), Span::call_site());
                let mut recv = (**recv).clone();
                let mut body = (**body).clone();
                self.visit_expr_mut(&mut recv);
                self.visit_expr_mut(&mut body);
                Some(parse_quote!({
                    let #seq = #recv;
                    let mut #idx: usize = 0;
                    let mut #acc: Option<usize> = None;
                    while #acc.is_none() && #idx < VSeq::vx_len(&#seq) {
                        vx_loop!(#kk);
                        let #p = VSeq::vx_get(&#seq, #idx);
                        if #body { #acc = Some(#idx); } else { #idx = #idx + 1; }
                    }
                    #acc
                }))
            }
            _ => None,
        }
    }

    fn macro_expr(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "matches" => {
                let parts = split_args(m.tokens.clone());
                let scrut: Expr = syn::parse2(parts.first()?.clone()).ok()?;
                let rest = parts.into_iter().skip(1).reduce(|a, b| quote::quote!(#a , #b))?;
                let arm: syn::Arm = syn::parse2(quote::quote!(#rest => true,)).ok()?;
                Some(parse_quote!(match #scrut { #arm _ => false, }))
            }
            "anyhow" => Some(parse_quote!(vx_err())),
            "bail" => Some(parse_quote!(return Err(vx_err()))),
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_panic())),
            "println" if self.print => {
                let text = if m.tokens.is_empty() { parse_quote!(String::new()) } else { self.format_expr(m)? };
                Some(parse_quote!(vx_println(#text, vx_io)))
            }
            // written to a formatter or buffer: the text, in one piece
            "write" | "writeln" => {
                let args = split_args(m.tokens.clone());
                let to: Expr = syn::parse2(args.first()?.clone()).ok()?;
                let rest: Vec<TokenStream> = args[1..].to_vec();
                let text = match rest.is_empty() {
                    true => parse_quote!(String::new()),
                    false => {
                        let mut f = m.clone();
                        f.tokens = quote::quote!(#(#rest),*);
                        self.format_expr(&f)?
                    }
                };
                let text: Expr = if name == "write" { text } else {
                    self.lits.insert("\n".into());
                    parse_quote!(vx_cat(#text, "\n".vto_string()))
                };
                Some(parse_quote!((#to).vx_put(#text)))
            }
            "println" | "print" if self.no_print => Some(parse_quote!(vx_panic::<()>())),
            "println" | "eprintln" | "print" | "eprint" | "dbg" => Some(parse_quote!(())),
            "json" => json_expr(m.tokens.clone()),
            "vec" => {
                let s = m.tokens.to_string();
                if s.contains(';') {
                    return None;
                }
                let args = split_args(m.tokens.clone());
                if args.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let exprs: Vec<Expr> = args.into_iter().map(|a| syn::parse2(a).ok()).collect::<Option<_>>()?;
                Some(parse_quote!({ let mut vx_v = Vec::new(); #( vx_v.push(#exprs); )* vx_v }))
            }
            "format" => self.format_expr(m),
            "assert" => {
                let args = split_args(m.tokens.clone());
                let a: Expr = syn::parse2(args.first()?.clone()).ok()?;
                Some(parse_quote!(vx_assert(#a)))
            }
            _ => None,
        }
    }

    fn format_expr(&mut self, m: &syn::Macro) -> Option<Expr> {
        let args = split_args(m.tokens.clone());
        let lit: syn::LitStr = syn::parse2(args.first()?.clone()).ok()?;
        let fmt = lit.value();
        let mut parts: Vec<Expr> = vec![];
        let mut rest = args[1..].iter();
        let mut cur = String::new();
        let mut it = fmt.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{'); }
                '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}'); }
                '{' => {
                    let mut inner = String::new();
                    for d in it.by_ref() {
                        if d == '}' { break; }
                        inner.push(d);
                    }
                    if !cur.is_empty() {
                        let l = syn::LitStr::new(&cur, Span::call_site());
                        self.lits.insert(cur.clone());
                        parts.push(parse_quote!(#l.vto_string()));
                        cur.clear();
                    }
                    if inner.is_empty() {
                        let a: Expr = syn::parse2(rest.next()?.clone()).ok()?;
                        parts.push(parse_quote!((#a).vto_string()));
                    } else if inner == ":?" || inner == ":x" {
                        let a: Expr = syn::parse2(rest.next()?.clone()).ok()?;
                        parts.push(if inner == ":x" { parse_quote!(vx_hex(&(#a))) } else { parse_quote!(vx_debug(&(#a))) });
                    } else if inner.ends_with(":?") && inner[..inner.len() - 2].chars().all(|c| c.is_alphanumeric() || c == '_') {
                        let id = syn::Ident::new(&inner[..inner.len() - 2], Span::call_site());
                        parts.push(parse_quote!(vx_debug(&(#id))));
                    } else if inner.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        let id = syn::Ident::new(&inner, Span::call_site());
                        parts.push(parse_quote!((#id).vto_string()));
                    } else {
                        return None;
                    }
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() {
            let l = syn::LitStr::new(&cur, Span::call_site());
            self.lits.insert(cur.clone());
            parts.push(parse_quote!(#l.vto_string()));
        }
        let mut p = parts.into_iter();
        let first = p.next().unwrap_or(parse_quote!(String::new()));
        Some(p.fold(first, |acc, x| parse_quote!(vx_cat(#acc, #x))))
    }

    fn fix_path(&self, p: &mut syn::Path) {
        if p.leading_colon.is_some() || p.segments.is_empty() {
            return;
        }
        let first = p.segments[0].ident.to_string();
        if first == "crate" {
            let k = syn::Ident::new(&self.krate, Span::call_site());
            p.segments.insert(1, parse_quote!(#k));
        } else if self.crate_names.contains(&first) && p.segments.len() > 1 {
            p.segments.insert(0, parse_quote!(crate));
        } else if first == "std" && p.segments.len() > 2 && (p.segments[1].ident == "fs" || p.segments[1].ident == "path" || p.segments[1].ident == "env") {
            // the shim of the same name
            p.segments[0] = parse_quote!(vx);
            p.segments.insert(0, parse_quote!(crate));
            if p.segments[2].ident == "path" {
                let tail: Vec<syn::PathSegment> = p.segments.iter().skip(3).cloned().collect();
                p.segments = parse_quote!(crate::vx);
                p.segments.extend(tail);
            }
        }
    }

    /// `x.iter().map(|p| e).filter(|p| e).cloned().collect()` as a loop
    fn desugar_collect(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => m,
            _ => return None,
        };
        let ty = m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string().replace(' ', ""));
        if !ty.as_deref().map_or(true, |t| t.starts_with("Vec<") || t == "Vec") {
            return None;
        }
        let mut steps: Vec<(String, Option<syn::ExprClosure>)> = vec![];
        let mut head = (*m.receiver).clone();
        let by_ref;
        let mut skip: Expr = parse_quote!(0);
        loop {
            let c = match head {
                Expr::MethodCall(c) => c,
                _ => return None,
            };
            match c.method.to_string().as_str() {
                "iter" if c.args.is_empty() => {
                    head = *c.receiver;
                    by_ref = true;
                    break;
                }
                "into_iter" if c.args.is_empty() => {
                    head = *c.receiver;
                    by_ref = false;
                    break;
                }
                n @ ("cloned" | "copied") if c.args.is_empty() => steps.push((n.into(), None)),
                n @ ("map" | "filter") if c.args.len() == 1 => match &c.args[0] {
                    Expr::Closure(f) if f.inputs.len() == 1 && !leaves(&f.body) => steps.push((n.into(), Some(f.clone()))),
                    Expr::Path(f) if n == "map" => steps.push((n.into(), Some(parse_quote!(|vx_y| #f(vx_y))))),
                    _ => return None,
                },
                "skip" if c.args.len() == 1 && matches!(&*c.receiver, Expr::MethodCall(i) if (i.method == "iter" || i.method == "into_iter") && i.args.is_empty()) => {
                    skip = c.args[0].clone();
                    self.visit_expr_mut(&mut skip);
                }
                _ => return None,
            }
            head = *c.receiver;
        }
        steps.reverse();
        let k = self.loops;
        self.loops += 1;
        let kk = proc_macro2::Literal::usize_unsuffixed(k);
        let idx = syn::Ident::new(&format!("vx_i{k}"), Span::call_site());
        let seq = syn::Ident::new(&format!("vx_s{k}"), Span::call_site());
        let acc = self.accs.get(&k).cloned().unwrap_or(format!("vx_c{k}"));
        let acc = syn::Ident::new(&acc, Span::call_site());
        let x = syn::Ident::new(&format!("vx_x{k}"), Span::call_site());
        self.visit_expr_mut(&mut head);
        let head: Expr = if by_ref { parse_quote!((#head).vx_ref()) } else { head };
        let mut body: Expr = parse_quote!({ #acc.push(#x); });
        for (n, f) in steps.into_iter().rev() {
            body = match (n.as_str(), f) {
                ("map", Some(mut f)) => {
                    self.visit_expr_mut(&mut f.body);
                    let (p, b) = (&f.inputs[0], &f.body);
                    parse_quote!({ let #p = #x; let #x = #b; #body })
                }
                ("filter", Some(mut f)) => {
                    self.visit_expr_mut(&mut f.body);
                    let (p, b) = (&f.inputs[0], &f.body);
                    parse_quote!({ if { let #p = &#x; #b } #body })
                }
                _ => parse_quote!({ let #x = (*#x).vclone(); #body }),
            };
        }
        Some(parse_quote!({
            let #seq = #head;
            let mut #idx: usize = #skip;
            let mut #acc = Vec::new();
            while #idx < VSeq::vx_len(&#seq) {
                vx_loop!(#kk);
                let #x = VSeq::vx_get(&#seq, #idx);
                #idx = #idx + 1;
                vx_hook!(loop_item #kk);
                #body
            }
            #acc
        }))
    }

    fn desugar_for(&mut self, f: syn::ExprForLoop) -> Expr {
        let k = self.loops;
        self.loops += 1;
        let idx = syn::Ident::new(&format!("vx_i{k}"), Span::call_site());
        let seq = syn::Ident::new(&format!("vx_s{k}"), Span::call_site());
        let kk = proc_macro2::Literal::usize_unsuffixed(k);
        let label = f.label.clone();
        let pat = *f.pat;
        let mut body = f.body;
        let mut head = *f.expr;
        // strip parentheses
        while let Expr::Paren(p) = head {
            head = *p.expr;
        }
        if let Expr::Range(r) = &head {
            if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                let (mut a, mut b) = (a.clone(), b.clone());
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                self.visit_block_mut(&mut body);
                let stmts = &body.stmts;
                return parse_quote!({
                    let #seq = #b;
                    let mut #idx = #a;
                    #label while #idx < #seq {
                        vx_loop!(#kk);
                        let #pat = #idx;
                        #idx = #idx + 1;
                        vx_hook!(loop_item #kk);
                        #(#stmts)*
                    }
                });
            }
        }
        let mut skip: Expr = parse_quote!(0usize);
        let mut enumerate = false;
        let mut by_ref = false;
        let mut skipped = false;
        let mut taken: Option<Expr> = None;
        // filters and maps around the rest
        let mut steps: Vec<(bool, syn::ExprClosure)> = vec![];
        loop {
            match &head {
                Expr::MethodCall(m) if (m.method == "filter" || m.method == "map") && m.args.len() == 1 => match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 && !leaves(&c.body) => {
                        steps.push((m.method == "filter", c.clone()));
                        head = (*m.receiver).clone();
                    }
                    _ => break,
                },
                _ => break,
            }
        }
        loop {
            match head {
                Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() && !enumerate => {
                    enumerate = true;
                    head = *m.receiver;
                }
                Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 && !skipped && !enumerate && taken.is_none() && matches!(&*m.receiver, Expr::MethodCall(i) if (i.method == "iter" || i.method == "into_iter") && i.args.is_empty()) => {
                    taken = Some(m.args[0].clone());
                    head = *m.receiver;
                }
                Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 && !skipped && !enumerate => {
                    skipped = true;
                    skip = m.args[0].clone();
                    head = *m.receiver;
                }
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                    by_ref = true;
                    head = *m.receiver;
                }
                Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => {
                    head = *m.receiver;
                }
                h => {
                    head = h;
                    break;
                }
            }
        }
        if let Expr::MethodCall(m) = &head {
            if m.method == "chars" && m.args.is_empty() && !by_ref {
                let r = &m.receiver;
                head = parse_quote!((#r).vx_char_vec());
            }
        }
        self.visit_expr_mut(&mut head);
        self.visit_expr_mut(&mut skip);
        self.visit_block_mut(&mut body);
        let head: Expr = if by_ref { parse_quote!((#head).vx_ref()) } else { head };
        let outer = pat;
        let pat: Pat = if steps.is_empty() { outer.clone() } else { parse_quote!(vx_item) };
        let item: Stmt = if enumerate {
            parse_quote!(let #pat = (#idx, VSeq::vx_get(&#seq, #idx));)
        } else {
            parse_quote!(let #pat = VSeq::vx_get(&#seq, #idx);)
        };
        let mut stmts = body.stmts.clone();
        if !steps.is_empty() {
            stmts.insert(0, parse_quote!(let #outer = vx_item;));
        }
        for (filter, mut c) in steps {
            self.visit_expr_mut(&mut c.body);
            let (p, b) = (&c.inputs[0], &c.body);
            stmts.insert(0, if filter { parse_quote!(if !{ let #p = &vx_item; #b } { continue; }) } else { parse_quote!(let vx_item = { let #p = vx_item; #b };) });
        }
        let (upto, stop): (Option<Stmt>, Option<Stmt>) = match taken {
            Some(mut n) => {
                self.visit_expr_mut(&mut n);
                let u = syn::Ident::new(&format!("vx_n{k}"), Span::call_site());
                (Some(parse_quote!(let #u: usize = #n;)), Some(parse_quote!(if #idx >= #u { break; })))
            }
            None => (None, None),
        };
        parse_quote!({
            let #seq = #head;
            let mut #idx: usize = #skip;
            #upto
            #label while #idx < VSeq::vx_len(&#seq) {
                vx_loop!(#kk);
                #stop
                #item
                #idx = #idx + 1;
                vx_hook!(loop_item #kk);
                #(#stmts)*
            }
        })
    }
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        self.fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if name == "vx_loop" || name == "vx_hook" {
                return;
            }
            if let Some(mut e) = self.macro_expr(&m.mac) {
                let semi = m.semi_token;
                if semi.is_some() && matches!(name.as_str(), "panic" | "unreachable" | "todo" | "unimplemented") {
                    e = parse_quote!(vx_never());
                }
                *s = match (&e, semi) {
                    (_, Some(_)) => Stmt::Expr(e, Some(Default::default())),
                    (_, None) => Stmt::Expr(e, None),
                };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_lit_str_mut(&mut self, l: &mut syn::LitStr) {
        self.lits.insert(l.value());
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            let f = f.clone();
            *e = self.desugar_for(f);
            return;
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 && !leaves(&c.body) {
                        let (p, r, b) = (&c.inputs[0], &m.receiver, &c.body);
                        let f: syn::ExprForLoop = parse_quote!(for #p in #r { #b; });
                        *e = self.desugar_for(f);
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let (Expr::MethodCall(k), true) = (&*m.receiver, m.method == "count" && m.args.is_empty()) {
                if k.method == "chars" && k.args.is_empty() {
                    let r = &k.receiver;
                    *e = parse_quote!(#r.vx_char_count());
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // the entry of a map
            if let (Expr::MethodCall(k), true) = (&*m.receiver, m.method == "or_insert" && m.args.len() == 1) {
                if k.method == "entry" && k.args.len() == 1 {
                    let (r, key, v) = (&k.receiver, &k.args[0], &m.args[0]);
                    *e = parse_quote!(#r.vx_or_insert(#key, #v));
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        if let Some(n) = self.desugar_collect(e) {
            *e = n;
            return;
        }
        if let Some(n) = self.desugar_closure(e) {
            let pos = matches!(e, Expr::MethodCall(m) if m.method == "position");
            *e = n;
            if !pos {
                self.visit_expr_mut(e);
            }
            return;
        }
        if let Expr::Match(m) = e {
            if let Some(n) = str_match(m) {
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Index(ix) = e {
            if str_lit(&ix.index) {
                let (x, l) = (&ix.expr, &ix.index);
                *e = parse_quote!((*(#x).vx_at(#l)));
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                // `while let`: a loop around a match
                let (pat, x, body, label) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#label loop { match #x { #pat => #body, _ => { break; } } });
                self.visit_expr_mut(e);
                return;
            }
            let k = proc_macro2::Literal::usize_unsuffixed(self.loops);
            self.loops += 1;
            visit_mut::visit_expr_mut(self, &mut w.cond);
            self.visit_block_mut(&mut w.body);
            w.body.stmts.insert(0, parse_quote!(vx_loop!(#k);));
            return;
        }
        if let Expr::Loop(w) = e {
            let k = proc_macro2::Literal::usize_unsuffixed(self.loops);
            self.loops += 1;
            self.visit_block_mut(&mut w.body);
            w.body.stmts.insert(0, parse_quote!(vx_loop!(#k);));
            return;
        }
        if let Expr::Await(a) = e {
            let b = (*a.base).clone();
            *e = b;
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::Macro(m) = e {
            if let Some(n) = self.macro_expr(&m.mac) {
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        if rg.start.is_none() && rg.end.is_none() {
                            let b = ix.expr.clone();
                            *e = parse_quote!((#b).vx_full());
                            self.visit_expr_mut(e);
                            return;
                        }
                        if self.slices && matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) {
                            let b = ix.expr.clone();
                            *e = match (&rg.start, &rg.end) {
                                (Some(x), Some(y)) => parse_quote!((#b).vx_part(#x, #y)),
                                (None, Some(y)) => parse_quote!((#b).vx_to(#y)),
                                (Some(x), None) => parse_quote!((#b).vx_from(#x)),
                                _ => unreachable!(),
                            };
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Struct(s) = e {
            if let Some(r) = &s.rest {
                if is_default_call(r) {
                    let p = &s.path;
                    let n: Expr = parse_quote!(#p::vdefault());
                    s.rest = Some(Box::new(n));
                }
            }
        }
        if let Expr::Match(m) = e {
            let mut arms = vec![];
            for a in m.arms.drain(..) {
                match &a.pat {
                    Pat::Or(o) if has_binding(&a.pat) || a.guard.is_some() => {
                        for c in &o.cases {
                            let mut b = a.clone();
                            b.pat = c.clone();
                            b.comma = Some(Default::default());
                            arms.push(b);
                        }
                    }
                    _ => arms.push(a),
                }
            }
            m.arms = arms;
        }
        let threaded = match &*e {
            Expr::MethodCall(m) => self.threaded_method(&m.method.to_string()),
            Expr::Call(c) => self.threaded_path(&c.func.to_token_stream().to_string().replace(' ', "")),
            _ => false,
        };
        visit_mut::visit_expr_mut(self, e);
        if threaded {
            match e {
                Expr::MethodCall(m) => m.args.push(parse_quote!(vx_io)),
                Expr::Call(c) => c.args.push(parse_quote!(vx_io)),
                _ => {}
            }
        }
        if let Expr::Call(c) = e {
            if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "").ends_with("mem::take") {
                let x = &c.args[0];
                *e = parse_quote!(VTake::vx_take(#x));
                return;
            }
            if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "") == "String::from" {
                let x = &c.args[0];
                *e = parse_quote!((#x).vto_string());
                return;
            }
        }
        if let Expr::Binary(b) = e {
            // text put together with `+` and `+=`
            if textual(&b.right) && matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::AddAssign(_)) {
                let (x, y) = (&b.left, &b.right);
                *e = if matches!(b.op, syn::BinOp::Add(_)) { parse_quote!((#x).vx_plus(#y)) } else { parse_quote!((#x).vpush_str(#y)) };
                return;
            }
            let ne = matches!(b.op, syn::BinOp::Ne(_));
            if ne || matches!(b.op, syn::BinOp::Eq(_)) {
                let bytes = |x: &Expr| match x {
                    Expr::Lit(l) => match &l.lit {
                        syn::Lit::ByteStr(b) => Some(b.value()),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((x, l)) = bytes(&b.right).map(|l| (b.left.clone(), l)).or_else(|| bytes(&b.left).map(|l| (b.right.clone(), l))) {
                    let l = l.iter().map(|c| proc_macro2::Literal::u8_suffixed(*c));
                    *e = if ne { parse_quote!((!(#x).vx_eqb(&[#(#l),*]))) } else { parse_quote!((#x).vx_eqb(&[#(#l),*])) };
                    return;
                }
                // `x == Some("lit".as_ref())`
                let some_ref = |x: &Expr| -> Option<Expr> {
                    let c = match x { Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Some" => c, _ => return None };
                    match &c.args[0] {
                        Expr::MethodCall(m) if m.method == "as_ref" && m.args.is_empty() && str_lit(&m.receiver) => Some((*m.receiver).clone()),
                        _ => None,
                    }
                };
                if let Some((x, l)) = some_ref(&b.right).map(|l| (b.left.clone(), l)).or_else(|| some_ref(&b.left).map(|l| (b.right.clone(), l))) {
                    *e = if ne { parse_quote!((!(#x).vx_eqo(#l))) } else { parse_quote!((#x).vx_eqo(#l)) };
                    return;
                }
                let lit = |x: &Expr| str_lit(x);
                let pair = if lit(&b.right) { Some((b.left.clone(), b.right.clone())) } else if lit(&b.left) { Some((b.right.clone(), b.left.clone())) } else { None };
                if let Some((x, mut l)) = pair {
                    loop {
                        l = match *l {
                            Expr::Unary(u) => u.expr,
                            Expr::Paren(u) => u.expr,
                            o => {
                                l = Box::new(o);
                                break;
                            }
                        };
                    }
                    *e = if ne { parse_quote!((!(#x).vx_eq(#l))) } else { parse_quote!((#x).vx_eq(#l)) };
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let to = match (n.as_str(), m.args.len()) {
                ("clone", 0) => "vclone",
                ("to_string", 0) | ("to_owned", 0) => "vto_string",
                ("to_vec", 0) => "vto_vec",
                ("push_str", 1) => "vpush_str",
                ("extend", 1) => "vx_extend",
                (x, k) => match (self.renames.iter().find(|r| r.0 == x), k) {
                    (Some(r), _) => r.1.as_str(),
                    (None, 1) if ["starts_with", "ends_with", "strip_prefix", "strip_suffix", "trim_start_matches", "trim_end_matches"].contains(&x) => match x {
                        "trim_start_matches" => "vx_trim_front",
                        "trim_end_matches" => "vx_trim_back",
                        "starts_with" => "vx_starts",
                        "ends_with" => "vx_ends",
                        "strip_prefix" => "vx_unprefix",
                        _ => "vx_unsuffix",
                    },
                    (None, 0) if x == "as_deref" => "vx_deref",
                    (None, 0) if x == "trim" => "vx_trim",
                    (None, 0) if x == "trim_start" => "vx_trim_start",
                    (None, 0) if x == "trim_end" => "vx_trim_end",
                    (None, 1) if x == "contains" && matches!(&m.args[0], Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_) | syn::Lit::Char(_))) => "vx_has",
                    _ => "",
                },
            };
            if !to.is_empty() {
                m.method = syn::Ident::new(to, m.method.span());
                if to == "vcollect" {
                    m.turbofish = None;
                }
            }
        }
    }
}

/// what can only be added to a text: a reference, a literal text, a part of a text
fn textual(x: &Expr) -> bool {
    match x {
        Expr::Paren(p) => textual(&p.expr),
        Expr::Reference(r) => !matches!(&*r.expr, Expr::Lit(l) if !matches!(l.lit, syn::Lit::Str(_))),
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "as_str" | "vx_trim" | "vx_trim_start" | "vx_trim_end" | "vx_trim_front" | "vx_trim_back"),
        _ => str_lit(x),
    }
}

// ---- hooks

#[derive(Default)]
struct Calls {
    found: Vec<(String, (usize, usize))>,
    descend: bool,
}

impl<'a> syn::visit::Visit<'a> for Calls {
    fn visit_block(&mut self, b: &'a syn::Block) {
        if self.descend {
            syn::visit::visit_block(self, b);
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        let s = m.method.span().start();
        self.found.push((m.method.to_string(), (s.line, s.column)));
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let s = p.path.segments.last().unwrap().ident.span().start();
            self.found.push((segs.join("::"), (s.line, s.column)));
        }
    }
}

fn name_matches(pattern: &str, name: &str) -> bool {
    name == pattern || name.ends_with(&format!("::{pattern}"))
}

pub struct Hooks<'a> {
    pub wanted: &'a BTreeMap<String, String>,
    pub placed: BTreeSet<String>,
    numbering: Vec<(String, (usize, usize))>,
    matches: usize,
}

impl<'a> Hooks<'a> {
    pub fn new(wanted: &'a BTreeMap<String, String>, block: &syn::Block) -> Self {
        let mut c = Calls { descend: true, ..Default::default() };
        syn::visit::Visit::visit_block(&mut c, block);
        // duplicated arms (split or-patterns) repeat positions: keep the first occurrence of each
        let mut seen = BTreeSet::new();
        let numbering = c.found.into_iter().filter(|x| x.1 == (0, 0) || seen.insert((x.0.clone(), x.1))).collect();
        Hooks { wanted, placed: Default::default(), numbering, matches: 0 }
    }

    fn marker(&mut self, name: &str) -> Option<Stmt> {
        if self.wanted.contains_key(name) {
            self.placed.insert(name.to_string());
            let ts: TokenStream = name.split_whitespace().map(|w| {
                let w = w.replace("::", "__");
                let i: TokenStream = w.parse().unwrap();
                quote!(#i)
            }).collect();
            return Some(parse_quote!(vx_hook!(#ts);));
        }
        None
    }

    fn owned(&self, s: &Stmt) -> Vec<(String, usize)> {
        let mut c = Calls::default();
        syn::visit::Visit::visit_stmt(&mut c, s);
        let mut out = vec![];
        for key in self.wanted.keys() {
            let w: Vec<&str> = key.split_whitespace().collect();
            let (name, n) = match w.as_slice() {
                ["call", name, n] | ["after", "call", name, n] => (*name, n.parse::<usize>().unwrap_or(0)),
                _ => continue,
            };
            let all: Vec<_> = self.numbering.iter().filter(|x| name_matches(name, &x.0)).collect();
            if let Some(target) = all.get(n) {
                if c.found.iter().any(|f| f.1 == target.1 && f.0 == target.0) {
                    out.push((name.to_string(), n));
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }

    pub fn block(&mut self, b: &mut syn::Block, top: bool) {
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        let mut loop_no: Option<String> = None;
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let is_marker = matches!(&s, Stmt::Macro(m) if m.mac.path.is_ident("vx_loop") || m.mac.path.is_ident("vx_hook"));
            if is_marker {
                if let Stmt::Macro(m) = &s {
                    let t = m.mac.tokens.to_string();
                    if m.mac.path.is_ident("vx_loop") {
                        loop_no = Some(t.clone());
                        out.push(s.clone());
                        if let Some(h) = self.marker(&format!("loop {t} entry")) {
                            out.push(h);
                        }
                    } else if t.starts_with("loop_item") {
                        let k = t.trim_start_matches("loop_item").trim();
                        if let Some(h) = self.marker(&format!("loop {k} item")) {
                            out.push(h);
                        }
                    }
                }
                continue;
            }
            let owned = self.owned(&s);
            let loop_of = stmt_loop(&s);
            for (name, k) in &owned {
                if let Some(h) = self.marker(&format!("call {name} {k}")) {
                    out.push(h);
                }
            }
            if let Some(k) = &loop_of {
                // what is declared here is seen after the loop, too
                let name = format!("outside loop {k}");
                if !self.placed.contains(&name) {
                    if let Some(h) = self.marker(&name) {
                        out.push(h);
                    }
                }
                if let Some(h) = self.marker(&format!("before loop {k}")) {
                    out.push(h);
                }
            }
            self.inner(&mut s);
            let is_tail = i + 1 == n && matches!(&s, Stmt::Expr(_, None));
            if is_tail && top {
                if let Some(h) = self.marker("tail") {
                    out.push(h);
                }
            }
            let mut after: Vec<Stmt> = vec![];
            for (name, k) in &owned {
                if let Some(h) = self.marker(&format!("after call {name} {k}")) {
                    after.push(h);
                }
            }
            if let Some(k) = &loop_of {
                if let Some(h) = self.marker(&format!("after loop {k}")) {
                    after.push(h);
                }
            }
            if !after.is_empty() && is_tail && loop_of.is_none() {
                if let Stmt::Expr(e, None) = &s {
                    out.push(parse_quote!(let vx_ret = #e;));
                    out.extend(after);
                    out.push(Stmt::Expr(parse_quote!(vx_ret), None));
                    continue;
                }
            }
            out.push(s);
            out.extend(after);
        }
        if let Some(k) = loop_no {
            if let Some(h) = self.marker(&format!("loop {k} end")) {
                let last_is_tail = matches!(out.last(), Some(Stmt::Expr(_, None)));
                let mut each = AtContinue(&h);
                for s in out.iter_mut() {
                    each.visit_stmt_mut(s);
                }
                if last_is_tail {
                    // `loop { if .. { .. } else { break } }`: a unit tail expression
                    if let Some(Stmt::Expr(_, semi)) = out.last_mut() {
                        *semi = Some(Default::default());
                    }
                }
                out.push(h);
            }
        }
        b.stmts = out;
    }

    fn inner(&mut self, s: &mut Stmt) {
        struct V<'b, 'a>(&'b mut Hooks<'a>);
        impl<'b, 'a> VisitMut for V<'b, 'a> {
            fn visit_block_mut(&mut self, b: &mut syn::Block) {
                self.0.block(b, false);
            }
            fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
                let no = self.0.matches;
                self.0.matches += 1;
                visit_mut::visit_expr_match_mut(self, m);
                for (i, a) in m.arms.iter_mut().enumerate() {
                    if let Some(h) = self.0.marker(&format!("arm {no} {i}")) {
                        let b = a.body.clone();
                        *a.body = parse_quote!({ #h #b });
                        a.comma = Some(Default::default());
                    }
                }
            }
        }
        V(self).visit_stmt_mut(s);
    }
}

/// What holds at the end of a loop's body is also wanted where the body is left by `continue`.
struct AtContinue<'a>(&'a Stmt);

impl VisitMut for AtContinue<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Continue(c) if c.label.is_none() => {
                let h = self.0;
                *e = parse_quote!({ #h continue });
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn stmt_loop(s: &Stmt) -> Option<String> {
    let e = match s {
        Stmt::Expr(e, _) => e,
        _ => return None,
    };
    fn of_block(b: &syn::Block) -> Option<String> {
        if let Some(Stmt::Macro(m)) = b.stmts.first() {
            if m.mac.path.is_ident("vx_loop") {
                return Some(m.mac.tokens.to_string());
            }
        }
        None
    }
    match e {
        Expr::While(w) => of_block(&w.body),
        Expr::Loop(w) => of_block(&w.body),
        // a desugared `for`
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(Expr::While(w), _)) => of_block(&w.body),
            _ => None,
        },
        _ => None,
    }
}
