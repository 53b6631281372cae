use crate::rewrite::{Hooks, Rewriter};
use crate::unit::{Contract, Unit};
use crate::Module;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;

#[derive(Default)]
pub struct Report {
    pub lost: Vec<String>,
    pub notes: Vec<String>,
    /// hints to the prover (hooks) that have no place in this source
    pub unplaced: Vec<String>,
    pub functions: Vec<(String, usize, usize, usize, bool, String)>, // key, first, last line, loops, trusted, fingerprint
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn json(&self) -> String {
        let l: Vec<String> = self.lost.iter().map(|s| esc(s)).collect();
        let u: Vec<String> = self.unplaced.iter().map(|s| esc(s)).collect();
        let n: Vec<String> = self.notes.iter().map(|s| esc(s)).collect();
        let f: Vec<String> = self
            .functions
            .iter()
            .map(|f| {
                format!(
                    "{{\"key\":{},\"first\":{},\"last\":{},\"loops\":{},\"trusted\":{},\"shape\":{}}}",
                    esc(&f.0), f.1, f.2, f.3, f.4, esc(&f.5)
                )
            })
            .collect();
        format!("{{\"lost\":[{}],\"unplaced\":[{}],\"notes\":[{}],\"functions\":[{}]}}\n", l.join(","), u.join(","), n.join(","), f.join(","))
    }
}

struct Out {
    s: String,
    line: usize,
}

impl Out {
    fn push(&mut self, t: &str) {
        self.line += t.matches('\n').count();
        self.s.push_str(t);
    }
    fn nl(&mut self) {
        if !self.s.ends_with('\n') {
            self.push("\n");
        }
    }
}

struct Splice<'a> {
    contract: &'a Contract,
    subst: &'a dyn Fn(&str) -> String,
    vacuity: bool,
}

/// prints tokens, splicing loop invariants and hook text at the markers
fn print_tokens(ts: TokenStream, out: &mut Out, sp: Option<&Splice>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                if g.delimiter() == Delimiter::Brace {
                    if let Some(sp) = sp {
                        if let Some(TokenTree::Ident(id)) = inner.first() {
                            if id == "vx_loop" {
                                let k = if let TokenTree::Group(a) = &inner[2] { a.stream().to_string() } else { String::new() };
                                let k: usize = k.trim().parse().unwrap_or(999);
                                inner.drain(0..4);
                                out.nl();
                                if let Some(t) = sp.contract.loops.get(&k) {
                                    out.push(&(sp.subst)(t));
                                    out.nl();
                                } else if inner.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ").contains(&format!("& vx_s{k} , vx_i{k}")) {
                                    // a loop over a sequence ends
                                    out.push(&format!("decreases VSeq::vx_n(&vx_s{k}) - vx_i{k}"));
                                    out.nl();
                                }
                                out.push("{\n");
                                if sp.vacuity {
                                    let k = out.line;
                                    out.push(&format!("proof {{ assert(crate::vx::vx_probe({k})); /*vacuity loop*/ }}\n"));
                                }
                                print_tokens(inner.into_iter().collect(), out, Some(sp));
                                out.nl();
                                out.push("}\n");
                                i += 1;
                                continue;
                            }
                        }
                    }
                    out.push("{\n");
                    print_tokens(inner.into_iter().collect(), out, sp);
                    out.nl();
                    out.push("}");
                    // a newline keeps statements apart; punctuation may follow
                    match v.get(i + 1) {
                        Some(TokenTree::Punct(_)) => {}
                        _ => out.push("\n"),
                    }
                } else {
                    out.push(o);
                    print_tokens(inner.into_iter().collect(), out, sp);
                    out.push(c);
                    out.push(" ");
                }
            }
            TokenTree::Ident(id) => {
                if id == "vx_hook" {
                    if let (Some(sp), Some(TokenTree::Group(g))) = (sp, v.get(i + 2)) {
                        let name = g.stream().to_string().replace("__", "::");
                        let name = name.split_whitespace().collect::<Vec<_>>().join(" ");
                        out.nl();
                        if let Some(t) = sp.contract.hooks.get(&name) {
                            out.push(&(sp.subst)(t));
                            out.nl();
                        }
                        i += 4; // ident ! (..) ;
                        continue;
                    }
                }
                out.push(&id.to_string());
                out.push(" ");
            }
            TokenTree::Punct(p) => {
                out.push(&p.as_char().to_string());
                if p.as_char() == ';' {
                    out.push("\n");
                } else if p.spacing() == Spacing::Alone {
                    out.push(" ");
                }
            }
            TokenTree::Literal(l) => {
                out.push(&l.to_string());
                out.push(" ");
            }
        }
        i += 1;
    }
}

fn pub_vis() -> syn::Visibility {
    syn::parse_quote!(pub)
}

/// `T: for<'a> Tr<'a>` becomes `T: Tr`
struct Unlife;
impl VisitMut for Unlife {
    fn visit_trait_bound_mut(&mut self, b: &mut syn::TraitBound) {
        if let Some(l) = b.lifetimes.take() {
            let names: BTreeSet<String> = l.lifetimes.iter().map(|x| x.to_token_stream().to_string().replace(' ', "")).collect();
            for s in b.path.segments.iter_mut() {
                if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                    let keep: Vec<syn::GenericArgument> = a.args.iter().filter(|x| !names.contains(&x.to_token_stream().to_string().replace(' ', ""))).cloned().collect();
                    if keep.is_empty() {
                        s.arguments = syn::PathArguments::None;
                    } else {
                        a.args = keep.into_iter().collect();
                    }
                }
            }
        }
        syn::visit_mut::visit_trait_bound_mut(self, b);
    }
}

/// `&T` in a constant's type is `&'static T`
struct Static;
impl VisitMut for Static {
    fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
        if r.lifetime.is_none() {
            r.lifetime = Some(syn::parse_quote!('static));
        }
        syn::visit_mut::visit_type_reference_mut(self, r);
    }
}

pub struct Unfold<'a> {
    table: crate::inline::Table,
    keys: BTreeSet<String>,
    taken: BTreeSet<String>,
    mods: &'a BTreeMap<Vec<String>, Module>,
}

struct CratePaths<'a> {
    krate: String,
    names: &'a BTreeSet<String>,
}
impl<'a> VisitMut for CratePaths<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.leading_colon.is_none() && !p.segments.is_empty() {
            let first = p.segments[0].ident.to_string();
            if first == "crate" {
                let k = syn::Ident::new(&self.krate, proc_macro2::Span::call_site());
                p.segments.insert(1, syn::parse_quote!(#k));
            } else if self.names.contains(&first) && p.segments.len() > 1 {
                p.segments.insert(0, syn::parse_quote!(crate));
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
}

fn has_derive(attrs: &[syn::Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == name))
}

pub fn flatten_use(t: &syn::UseTree, prefix: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        syn::UseTree::Path(p) => {
            let mut q = prefix;
            q.push(p.ident.to_string());
            flatten_use(&p.tree, q, out);
        }
        syn::UseTree::Name(n) => {
            let mut q = prefix;
            if n.ident != "self" {
                q.push(n.ident.to_string());
            }
            out.push((q, None));
        }
        syn::UseTree::Rename(n) => {
            let mut q = prefix;
            if n.ident != "self" {
                q.push(n.ident.to_string());
            }
            out.push((q, Some(n.rename.to_string())));
        }
        syn::UseTree::Glob(_) => {
            let mut q = prefix;
            q.push("*".into());
            out.push((q, None));
        }
        syn::UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, prefix.clone(), out);
            }
        }
    }
}

/// hoist `fn` items nested in function bodies to module level: `outer__inner`
pub fn hoist(f: &mut syn::ItemFn, out: &mut Vec<syn::ItemFn>) {
    let outer = f.sig.ident.to_string();
    let mut names: BTreeMap<String, String> = BTreeMap::new();
    let mut inner = vec![];
    let mut stmts = vec![];
    for s in f.block.stmts.drain(..) {
        if let syn::Stmt::Item(syn::Item::Fn(g)) = &s {
            let n = g.sig.ident.to_string();
            names.insert(n.clone(), format!("{outer}__{n}"));
            inner.push(g.clone());
        } else {
            stmts.push(s);
        }
    }
    f.block.stmts = stmts;
    if inner.is_empty() {
        return;
    }
    struct Ren<'a>(&'a BTreeMap<String, String>);
    impl<'a> VisitMut for Ren<'a> {
        fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
            if p.path.segments.len() == 1 {
                if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    p.path.segments[0].ident = syn::Ident::new(n, proc_macro2::Span::call_site());
                }
            }
            syn::visit_mut::visit_expr_path_mut(self, p);
        }
    }
    Ren(&names).visit_block_mut(&mut f.block);
    for mut g in inner {
        let n = names[&g.sig.ident.to_string()].clone();
        g.sig.ident = syn::Ident::new(&n, proc_macro2::Span::call_site());
        Ren(&names).visit_block_mut(&mut g.block);
        hoist(&mut g, out);
        out.push(g);
    }
}

/// What the shims take for granted of the crates' types: equality, copies, hashes and serialised forms are the derived
/// ones, and no method of the crate hides a method of std the rewriting gives a meaning to.
fn by_hand(unit: &Unit, mods: &BTreeMap<Vec<String>, Module>, contracts: &BTreeMap<String, &Contract>, report: &mut Report) {
    const TRAITS: [&str; 16] = ["Clone", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Drop", "Deref", "DerefMut", "Borrow", "AsRef", "From", "Serialize", "Deserialize", "Default", "Iterator"];
    const NAMES: [&str; 12] = ["clone", "to_string", "to_owned", "to_vec", "push_str", "extend", "eq", "ne", "starts_with", "ends_with", "strip_prefix", "strip_suffix"];
    struct Serde(bool);
    impl<'a> syn::visit::Visit<'a> for Serde {
        fn visit_attribute(&mut self, a: &'a syn::Attribute) {
            self.0 |= a.path().is_ident("serde");
        }
    }
    for (p, m) in mods {
        for it in &m.items {
            let key = p.join("::");
            let mut v = Serde(false);
            syn::visit::Visit::visit_item(&mut v, it);
            if v.0 {
                report.lost.push(format!("{key}: serde attributes"));
            }
            if let syn::Item::Macro(x) = it {
                if let Some(i) = &x.ident {
                    report.lost.push(format!("{key}: macro {i}"));
                }
            }
            if let syn::Item::Impl(im) = it {
                let ty = im.self_ty.to_token_stream().to_string().replace(' ', "");
                let short = ty.split('<').next().unwrap_or("").to_string();
                if let Some((_, t, _)) = &im.trait_ {
                    let t = t.segments.last().unwrap().ident.to_string();
                    let under = im.items.iter().any(|x| matches!(x, syn::ImplItem::Fn(f) if contracts.contains_key(&format!("{key}::{short}::{}", f.sig.ident))));
                    if TRAITS.contains(&t.as_str()) && !under && !unit.by_hand.contains(&format!("{short}:{t}")) {
                        report.lost.push(format!("{key}: {t} for {short} is not the derived one"));
                    }
                } else {
                    for x in &im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if NAMES.contains(&f.sig.ident.to_string().as_str()) {
                                report.lost.push(format!("{key}: {short}::{} hides std's", f.sig.ident));
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn emit(
    unit: &Unit,
    mods: &BTreeMap<Vec<String>, Module>,
    crates: &BTreeSet<String>,
    vacuity: bool,
    report: &mut Report,
) -> Result<String, String> {
    // what will exist in the output
    let mut known: BTreeSet<Vec<String>> = BTreeSet::new();
    let contracts: BTreeMap<String, &Contract> = unit.contracts.iter().map(|c| (c.key.clone(), c)).collect();
    for (p, m) in mods {
        known.insert(p.clone());
        for it in &m.items {
            let n = match it {
                syn::Item::Struct(s) => s.ident.to_string(),
                syn::Item::Enum(s) => s.ident.to_string(),
                syn::Item::Type(s) => s.ident.to_string(),
                syn::Item::Const(s) => s.ident.to_string(),
                _ => continue,
            };
            let mut q = p.clone();
            q.push(n);
            if !unit.drop_types.contains(&q.join("::")) {
                known.insert(q);
            }
        }
    }
    for c in contracts.keys() {
        known.insert(c.split("::").map(|s| s.to_string()).collect());
    }

    by_hand(unit, mods, &contracts, report);

    let mut out = Out { s: String::new(), line: 1 };
    out.push("#![allow(unused, non_snake_case, non_camel_case_types, mismatched_lifetime_syntaxes, elided_lifetimes_in_paths, unreachable_code)]\nuse vstd::prelude::*;\nverus! {\n");
    out.push("pub mod vx {\nuse vstd::prelude::*;\n");
    if vacuity {
        out.push("pub uninterp spec fn vx_probe(k: int) -> bool;\n");
    }
    let (text, broadcasts) = collect_broadcasts(&unit.prelude);
    let broadcast = if broadcasts.is_empty() { String::new() } else { format!("broadcast use {{{}}};\n", broadcasts.join(", ")) };
    out.push(&text);
    out.push("\n} // mod vx\n");

    // functions no contract names, which are unfolded where they are called
    let mut table: crate::inline::Table = BTreeMap::new();
    for (p, m) in mods {
        for it in &m.items {
            match it {
                syn::Item::Fn(f) => {
                    let mut f = f.clone();
                    let mut fns = vec![];
                    hoist(&mut f, &mut fns);
                    fns.push(f);
                    for f in fns {
                        table.insert(format!("{}::{}", p.join("::"), f.sig.ident), crate::inline::Helper { sig: f.sig, block: *f.block, path: p.clone(), ty: None });
                    }
                }
                syn::Item::Impl(im) if im.trait_.is_none() && im.generics.params.is_empty() => {
                    let ty = im.self_ty.to_token_stream().to_string();
                    let ty = ty.split(['<', ' ']).next().unwrap_or("").to_string();
                    for x in &im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            table.insert(format!("{}::{}::{}", p.join("::"), ty, f.sig.ident), crate::inline::Helper { sig: f.sig.clone(), block: f.block.clone(), path: p.clone(), ty: Some(ty.clone()) });
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let keys: BTreeSet<String> = contracts.keys().cloned().collect();
    let mut taken: BTreeSet<String> = unit.renames.iter().map(|r| r.0.clone()).collect();
    taken.extend(unit.thread.iter().filter_map(|t| t.strip_prefix('.').map(|s| s.to_string())));
    let unfold = Unfold { table, keys, taken, mods };

    let mut done: BTreeSet<String> = BTreeSet::new();
    for k in crates {
        emit_module(unit, mods, crates, &known, &contracts, vacuity, &broadcast, &[k.clone()], &mut out, report, &mut done, &unfold);
    }
    for c in contracts.keys() {
        if !done.contains(c) {
            report.lost.push(format!("function {c} not found"));
        }
    }
    out.push("fn main() {}\n} // verus!\n");
    Ok(out.s)
}

/// Verus allows one module-level `broadcast use`: gather the ones the prelude pieces ask for
fn collect_broadcasts(prelude: &str) -> (String, Vec<String>) {
    let mut text = String::new();
    let mut names: Vec<String> = vec![];
    for l in prelude.lines() {
        if let Some(r) = l.strip_prefix("broadcast use {") {
            for n in r.trim_end().trim_end_matches("};").split(',') {
                let n = n.trim().to_string();
                if !n.is_empty() && !names.contains(&n) {
                    names.push(n);
                }
            }
            text.push('\n');
        } else {
            text.push_str(l);
            text.push('\n');
        }
    }
    (text, names)
}

#[allow(clippy::too_many_arguments)]
fn emit_module(
    unit: &Unit,
    mods: &BTreeMap<Vec<String>, Module>,
    crates: &BTreeSet<String>,
    known: &BTreeSet<Vec<String>>,
    contracts: &BTreeMap<String, &Contract>,
    vacuity: bool,
    broadcast: &str,
    path: &[String],
    out: &mut Out,
    report: &mut Report,
    done: &mut BTreeSet<String>,
    unfold: &Unfold,
) {
    let m = match mods.get(path) {
        Some(m) => m,
        None => return,
    };
    out.push(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::vx::*;\n{}", path.last().unwrap(), broadcast));
    // imports
    let mut imported: BTreeSet<String> = BTreeSet::new();
    for it in &m.items {
        if let syn::Item::Use(u) = it {
            let mut leaves = vec![];
            flatten_use(&u.tree, vec![], &mut leaves);
            for (mut p, alias) in leaves {
                if p.len() > 2 && (p[0] == "std" || p[0] == "core") && p[1] == "cmp" {
                    let text = format!("use {}{};\n", p.join("::"), alias.map_or(String::new(), |a| format!(" as {a}")));
                    if imported.insert(text.clone()) {
                        out.push(&text);
                    }
                    continue;
                }
                let abs: Option<Vec<String>> = match p[0].as_str() {
                    "crate" => {
                        p[0] = path[0].clone();
                        Some(p)
                    }
                    "self" => Some([path.to_vec(), p[1..].to_vec()].concat()),
                    "super" => Some([path[..path.len() - 1].to_vec(), p[1..].to_vec()].concat()),
                    x if crates.contains(x) => Some(p),
                    _ => None,
                };
                if let Some(abs) = abs {
                    let glob = abs.last().map_or(false, |x| x == "*");
                    let mut target = abs.clone();
                    if glob {
                        target.pop();
                    }
                    // an enum glob or a variant import: the type must be known
                    let ok = known.contains(&target) || (target.len() > 1 && known.contains(&target[..target.len() - 1].to_vec()) && !mods.contains_key(&target[..target.len() - 1].to_vec()));
                    if ok {
                        let text = match alias {
                            Some(a) => format!("use crate::{} as {};\n", abs.join("::"), a),
                            None => format!("use crate::{};\n", abs.join("::")),
                        };
                        if imported.insert(text.clone()) {
                            out.push(&text);
                        }
                    }
                }
            }
        }
    }
    // types
    for it in &m.items {
        let mut it = it.clone();
        let name = match &it {
            syn::Item::Struct(s) => s.ident.to_string(),
            syn::Item::Enum(s) => s.ident.to_string(),
            syn::Item::Type(s) => s.ident.to_string(),
            syn::Item::Const(s) => s.ident.to_string(),
            _ => continue,
        };
        let key = format!("{}::{}", path.join("::"), name);
        if unit.drop_types.contains(&key) {
            continue;
        }
        CratePaths { krate: path[0].clone(), names: crates }.visit_item_mut(&mut it);
        match &mut it {
            syn::Item::Struct(s) => {
                let dflt = has_derive(&s.attrs, "Default");
                let mut json: Option<Vec<String>> = None;
                if unit.json.contains(&path[0]) && has_derive(&s.attrs, "Serialize") {
                    if s.attrs.iter().any(|a| a.path().is_ident("serde")) || s.fields.iter().any(|f| f.attrs.iter().any(|a| a.path().is_ident("serde")) || f.ident.is_none()) {
                        report.lost.push(format!("{key}: serde attributes"));
                    } else {
                        json = Some(s.fields.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect());
                    }
                }
                s.attrs.clear();
                s.vis = pub_vis();
                for f in s.fields.iter_mut() {
                    f.vis = pub_vis();
                    f.attrs.clear();
                }
                print_tokens(s.to_token_stream(), out, None);
                out.nl();
                if let Some(fields) = json {
                    let g = &s.generics;
                    let (a, b, w) = g.split_for_impl();
                    let puts: String = fields.iter().map(|f| format!(".insert(\"{f}\"@, self.{f}.js())")).collect();
                    out.push(&format!("impl {} Serialize for {name} {} {} {{ open spec fn js(&self) -> J {{ J::Obj(Map::<Seq<char>, J>::empty(){puts}) }} }}\n", a.to_token_stream(), b.to_token_stream(), w.to_token_stream()));
                }
                if dflt && s.generics.params.is_empty() {
                    let mut ens = vec![];
                    for f in &s.fields {
                        if let Some(id) = &f.ident {
                            let ty = f.ty.to_token_stream().to_string();
                            let t = ty.split(['<', ' ']).next().unwrap_or("").to_string();
                            match t.as_str() {
                                "Option" => ens.push(format!("r.{id} is None")),
                                "String" => ens.push(format!("r.{id}@ == Seq::<char>::empty()")),
                                "bool" => ens.push(format!("!r.{id}")),
                                "usize" | "u32" | "i32" | "u64" | "i64" => ens.push(format!("r.{id} == 0")),
                                "Vec" => ens.push(format!("r.{id}@.len() == 0")),
                                _ => {}
                            }
                        }
                    }
                    let e = if ens.is_empty() { "true".to_string() } else { ens.join(", ") };
                    out.push(&format!("impl {name} {{ #[verifier::external_body] pub fn vdefault() -> (r: {name}) ensures {e} {{ unimplemented!() }} }}\n"));
                }
            }
            syn::Item::Enum(s) => {
                s.attrs.clear();
                s.vis = pub_vis();
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                print_tokens(s.to_token_stream(), out, None);
                out.nl();
            }
            syn::Item::Type(s) => {
                s.attrs.clear();
                s.vis = pub_vis();
                print_tokens(s.to_token_stream(), out, None);
                out.nl();
            }
            syn::Item::Const(s) => {
                s.attrs.clear();
                s.vis = pub_vis();
                if matches!(&*s.ty, syn::Type::Path(_)) {
                    print_tokens(s.to_token_stream(), out, None);
                    out.nl();
                } else if matches!(&*s.ty, syn::Type::Reference(_)) {
                    // nothing is known of its value
                    Static.visit_type_mut(&mut s.ty);
                    let (n, t, e) = (&s.ident, &s.ty, &s.expr);
                    out.push("#[verifier::external_body] pub exec const ");
                    print_tokens(quote::quote!(#n: #t = #e;), out, None);
                    out.nl();
                }
            }
            _ => {}
        }
    }
    // free functions
    let mut fns: Vec<syn::ItemFn> = vec![];
    for it in &m.items {
        if let syn::Item::Fn(f) = it {
            let mut f = f.clone();
            hoist(&mut f, &mut fns);
            fns.push(f);
        }
    }
    for f in fns {
        let key = format!("{}::{}", path.join("::"), f.sig.ident);
        if let Some(c) = contracts.get(&key) {
            done.insert(key.clone());
            emit_fn(unit, c, &f.sig, &f.block, path, crates, vacuity, out, report, unfold, None);
        }
    }
    // methods
    for it in &m.items {
        if let syn::Item::Impl(im) = it {
            let ty = im.self_ty.to_token_stream().to_string();
            let tyname = ty.split(['<', ' ']).next().unwrap_or("").to_string();
            let mut open = false;
            for x in &im.items {
                if let syn::ImplItem::Fn(f) = x {
                    let key = format!("{}::{}::{}", path.join("::"), tyname, f.sig.ident);
                    if let Some(c) = contracts.get(&key) {
                        if !open {
                            out.nl();
                            out.push("impl");
                            print_tokens(im.generics.to_token_stream(), out, None);
                            out.push(" ");
                            print_tokens(im.self_ty.to_token_stream(), out, None);
                            out.push("{\n");
                            open = true;
                        }
                        done.insert(key.clone());
                        emit_fn(unit, c, &f.sig, &f.block, path, crates, vacuity, out, report, unfold, Some(tyname.clone()));
                    }
                }
            }
            if open {
                out.push("}\n");
            }
        }
    }
    // children
    let subs: Vec<Vec<String>> = mods.keys().filter(|k| k.len() == path.len() + 1 && k[..path.len()] == *path).cloned().collect();
    for s in subs {
        emit_module(unit, mods, crates, known, contracts, vacuity, broadcast, &s, out, report, done, unfold);
    }
    out.nl();
    out.push("}\n");
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    unit: &Unit,
    c: &Contract,
    sig: &syn::Signature,
    block: &syn::Block,
    path: &[String],
    crates: &BTreeSet<String>,
    vacuity: bool,
    out: &mut Out,
    report: &mut Report,
    unfold: &Unfold,
    ty: Option<String>,
) {
    let mut sig = sig.clone();
    let mut block = block.clone();
    if !c.external {
        let mut inl = crate::inline::Inliner {
            table: &unfold.table,
            mods: unfold.mods,
            crates,
            contracts: &unfold.keys,
            taken: &unfold.taken,
            path: path.to_vec(),
            ty,
            ret: match &sig.output {
                syn::ReturnType::Default => String::new(),
                t => t.to_token_stream().to_string().replace(' ', ""),
            },
            stack: vec![c.key.clone()],
            done: vec![],
            fresh: 0,
        };
        inl.function(&mut block);
        for k in inl.done {
            let n = format!("{k} unfolded in {}", c.key);
            if !report.notes.contains(&n) {
                report.notes.push(n);
            }
        }
    }
    sig.asyncness = None;
    sig.constness = None;
    let mut names: Vec<String> = vec![];
    for a in sig.inputs.iter_mut() {
        match a {
            syn::FnArg::Receiver(r) => {
                names.push("self".into());
                if c.as_mut && r.reference.is_some() {
                    *a = syn::parse_quote!(&mut self);
                }
            }
            syn::FnArg::Typed(t) => match &mut *t.pat {
                syn::Pat::Ident(i) => names.push(i.ident.to_string()),
                _ => {
                    let n = format!("vx_p{}", names.len());
                    let id = syn::Ident::new(&n, proc_macro2::Span::call_site());
                    let old = (*t.pat).clone();
                    if matches!(old, syn::Pat::Wild(_)) {
                        *t.pat = syn::parse_quote!(#id);
                    } else {
                        *t.pat = syn::parse_quote!(#id);
                        block.stmts.insert(0, syn::parse_quote!(let #old = #id;));
                    }
                    names.push(n);
                }
            },
        }
    }
    CratePaths { krate: path[0].clone(), names: crates }.visit_signature_mut(&mut sig);
    Unlife.visit_signature_mut(&mut sig);
    let mut rw = Rewriter { krate: path[0].clone(), crate_names: crates, loops: 0, lits: Default::default(), renames: &unit.renames, thread: &unit.thread, no_print: unit.no_print, print: unit.print && c.io, slices: unit.slices, accs: &c.accs };
    if c.io {
        sig.inputs.push(syn::parse_quote!(vx_io: &mut VIo));
    }
    // parameters bound as `mut x` stay
    rw.visit_block_mut(&mut block);
    let loops = rw.loops;
    let lits = rw.lits.clone();
    if !c.external {
        // a closure without contract says nothing about what it returns
        struct Kept(bool);
        impl<'a> syn::visit::Visit<'a> for Kept {
            fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {
                self.0 = true;
            }
        }
        let mut k = Kept(false);
        syn::visit::Visit::visit_block(&mut k, &block);
        if k.0 {
            report.notes.push(format!("{} keeps a closure", c.key));
        }
    }
    let mut hooks = Hooks::new(&c.hooks, &block);
    hooks.block(&mut block, true);
    let mut missing: Vec<&String> = c.hooks.keys().filter(|k| *k != "entry" && !hooks.placed.contains(*k)).collect();
    missing.retain(|_| !c.external);
    for h in missing {
        report.unplaced.push(format!("{}: hook '{}' has no place", c.key, h));
    }
    if !c.external {
        for k in c.loops.keys() {
            if *k >= loops {
                report.lost.push(format!("{}: loop {} does not exist", c.key, k));
            }
        }
        for k in 0..loops {
            if !c.loops.contains_key(&k) {
                report.lost.push(format!("{}: loop {} has no invariant", c.key, k));
            }
        }
    }
    let subst = |t: &str| -> String {
        let mut o = t.to_string();
        for (i, n) in names.iter().enumerate().rev() {
            o = o.replace(&format!("${i}"), n);
        }
        o
    };
    if let Some(i) = (0..10).find(|i| *i >= names.len() && c.spec.contains(&format!("${i}"))) {
        report.lost.push(format!("{}: parameter {} does not exist", c.key, i));
    }
    out.nl();
    let first = out.line;
    out.push(&c.attrs);
    // what holds before a loop of what it does not change holds in it
    if !c.external && loops > 0 && !c.attrs.contains("loop_isolation") {
        out.push("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    if c.external {
        out.push("#[verifier::external_body]\n");
    }
    out.push("pub fn ");
    out.push(&sig.ident.to_string());
    print_tokens(sig.generics.params.to_token_stream_wrapped(), out, None);
    out.push("(");
    print_tokens(sig.inputs.to_token_stream(), out, None);
    out.push(")");
    if let syn::ReturnType::Type(_, t) = &sig.output {
        out.push(&format!(" -> ({}: ", c.ret));
        print_tokens(t.to_token_stream(), out, None);
        out.push(")");
    }
    if let Some(w) = &sig.generics.where_clause {
        out.push(" ");
        print_tokens(w.to_token_stream(), out, None);
    }
    out.push("\n");
    out.push(&subst(&c.spec));
    out.nl();
    if c.external {
        out.push("{ unimplemented!() }\n");
    } else {
        out.push("{\n");
        if vacuity {
            let k = out.line;
            out.push(&format!("proof {{ assert(crate::vx::vx_probe({k})); /*vacuity entry*/ }}\n"));
        }
        for l in c.literals.iter().filter(|l| !lits.contains(*l)) {
            report.unplaced.push(format!("{}: the axioms are about {:?}, which is gone", c.key, l));
        }
        if !lits.is_empty() {
            out.push("proof {\n");
            for l in &lits {
                let lit = syn::LitStr::new(l, proc_macro2::Span::call_site());
                out.push(&format!("reveal_strlit({});\n", lit.to_token_stream()));
                if l.is_empty() {
                    out.push("assert(\"\"@ =~= Seq::<char>::empty());\n");
                }
                if l.chars().count() <= 40 && !l.is_empty() {
                    let cs: Vec<String> = l.chars().map(|c| format!("{:?}", c)).collect();
                    out.push(&format!("assert({}@ =~= seq![{}]);\n", lit.to_token_stream(), cs.join(", ")));
                }
            }
            out.push("}\n");
        }
        if let Some(t) = c.hooks.get("entry") {
            out.push(&subst(t));
            out.nl();
        }
        let sp = Splice { contract: c, subst: &subst, vacuity };
        let mut ts = TokenStream::new();
        for s in &block.stmts {
            s.to_tokens(&mut ts);
        }
        print_tokens(ts, out, Some(&sp));
        out.nl();
        out.push("}\n");
    }
    let shape = format!("loops={loops} params={}", names.len());
    report.functions.push((c.key.clone(), first, out.line, loops, c.external, shape));
}

trait Wrapped {
    fn to_token_stream_wrapped(&self) -> TokenStream;
}
impl Wrapped for syn::punctuated::Punctuated<syn::GenericParam, syn::token::Comma> {
    fn to_token_stream_wrapped(&self) -> TokenStream {
        if self.is_empty() {
            TokenStream::new()
        } else {
            let s = self;
            quote::quote!(<#s>)
        }
    }
}
