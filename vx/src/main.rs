//! vx: mechanical extraction of real Rust functions into one Verus file, with contracts spliced in.
//!
//! usage: vx UNIT.vx OUT.rs REPORT.json [--vacuity]
//!
//! Every executable statement of the output comes from the source files named by the unit; the
//! rewrites applied on the way are listed in DESIGN.md ("What the extraction drops or rewrites").
mod emit;
mod inline;
mod rewrite;
mod unit;

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub struct Module {
    pub path: Vec<String>, // crate name first
    pub items: Vec<syn::Item>,
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && quote::ToTokens::to_token_stream(a).to_string().contains("test")
    })
}

fn load_module(file: &Path, dir: &Path, path: Vec<String>, out: &mut Vec<Module>) -> Result<(), String> {
    let src = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    let ast = syn::parse_file(&src).map_err(|e| format!("{}: {}", file.display(), e))?;
    load_items(ast.items, dir, path, out)
}

fn load_items(items: Vec<syn::Item>, dir: &Path, path: Vec<String>, out: &mut Vec<Module>) -> Result<(), String> {
    let mut keep = vec![];
    for item in items {
        if let syn::Item::Mod(m) = &item {
            if is_cfg_test(&m.attrs) {
                continue;
            }
            let name = m.ident.to_string();
            let mut p = path.clone();
            p.push(name.clone());
            match &m.content {
                Some((_, items)) => load_items(items.clone(), &dir.join(&name), p, out)?,
                None => {
                    let a = dir.join(format!("{name}.rs"));
                    let b = dir.join(&name).join("mod.rs");
                    let f = if a.exists() { a } else { b };
                    load_module(&f, &dir.join(&name), p, out)?;
                }
            }
            continue;
        }
        keep.push(item);
    }
    let mut lifted = vec![];
    for item in keep.iter_mut() {
        match item {
            syn::Item::Fn(f) => lift(&mut f.block, &mut lifted),
            syn::Item::Impl(i) => {
                for x in i.items.iter_mut() {
                    if let syn::ImplItem::Fn(f) = x {
                        lift(&mut f.block, &mut lifted);
                    }
                }
            }
            _ => {}
        }
    }
    keep.extend(lifted);
    out.push(Module { path, items: keep });
    Ok(())
}

/// types, constants and impls declared in a function's body move to the module
fn lift(b: &mut syn::Block, out: &mut Vec<syn::Item>) {
    let mut keep = vec![];
    for s in b.stmts.drain(..) {
        match s {
            syn::Stmt::Item(i @ (syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Const(_) | syn::Item::Impl(_))) => out.push(i),
            s => keep.push(s),
        }
    }
    b.stmts = keep;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let unit_path = PathBuf::from(&args[1]);
    let vacuity = args.iter().any(|a| a == "--vacuity");
    let mut report = emit::Report::default();
    let result = run(&unit_path, vacuity, &mut report);
    let text = match result {
        Ok(t) => t,
        Err(e) => {
            report.lost.push(e);
            String::new()
        }
    };
    std::fs::write(&args[2], text).expect("write output");
    std::fs::write(&args[3], report.json()).expect("write report");
}

fn run(unit_path: &Path, vacuity: bool, report: &mut emit::Report) -> Result<String, String> {
    let unit = unit::Unit::load(unit_path)?;
    let mut modules = vec![];
    for (name, root) in &unit.crates {
        let root = PathBuf::from(root);
        let dir = root.parent().unwrap().to_path_buf();
        load_module(&root, &dir, vec![name.clone()], &mut modules)?;
    }
    let mut by_path: BTreeMap<Vec<String>, Module> = BTreeMap::new();
    for m in modules {
        by_path.insert(m.path.clone(), m);
    }
    let crate_names: BTreeSet<String> = unit.crates.iter().map(|c| c.0.clone()).collect();
    emit::emit(&unit, &by_path, &crate_names, vacuity, report)
}
