//! The `compile` command; C22.
use crate::{gen, proj, proj::Plug, rng::Rng, root, run};
use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
use common::{total, Gen};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

/// NAME of NAME_HASH.wasm
fn module(f: &str) -> Option<&str> {
    let f = f.strip_suffix(".wasm")?;
    let at = f.rfind('_')?;
    let (n, h) = (&f[..at], &f[at + 1..]);
    (!n.is_empty() && !n.contains('\n') && !h.is_empty() && h.chars().all(|c| c.is_ascii_alphanumeric())).then_some(n)
}
/// identifiers are random: number them by first appearance
fn plain(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut seen: Vec<String> = vec![];
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let id: String = b[i..].iter().take(36).collect();
        let is = id.len() == 36 && id.chars().enumerate().all(|(k, c)| if [8, 13, 18, 23].contains(&k) { c == '-' } else { c.is_ascii_hexdigit() });
        if is {
            let k = seen.iter().position(|x| *x == id).unwrap_or_else(|| {
                seen.push(id.clone());
                seen.len() - 1
            });
            out.push_str(&format!("#{k}#"));
            i += 36;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
fn lines(v: Vec<String>) -> String {
    v.into_iter().map(|l| l + "\n").collect()
}
/// what the program should print
fn reference(modules: &BTreeMap<String, String>, doc: &str, level: u64, as_json: bool) -> Result<String, String> {
    let e = |e: anyhow::Error| e.to_string();
    let j = |e: serde_json::Error| e.to_string();
    let mut list = vec![];
    for (m, f) in modules {
        let none = FeatureFlag { document_hook: false, stmt_hook: false, expr_hook: false, text_hook: false };
        list.push(Plugin::new(m, f, none).map_err(e)?);
    }
    let mut reg = Plugins::new(list).map_err(e)?;
    if !doc.ends_with(".[]") {
        return Err("not a document".into());
    }
    if !(1..=5).contains(&level) || (level == 5 && as_json) {
        return Err("no such output".into());
    }
    let tokens = brack_tokenizer::tokenize::tokenize(doc).map_err(e)?;
    if level == 1 {
        return Ok(if as_json { lines(vec![serde_json::to_string(&tokens).map_err(j)?]) } else { lines(tokens.iter().map(|t| format!("{t:?}")).collect()) });
    }
    let cst = brack_parser::parse::parse(&tokens).map_err(e)?;
    if level == 2 {
        return Ok(lines(vec![if as_json { serde_json::to_string(&cst).map_err(j)? } else { format!("{cst:?}") }]));
    }
    let (ast, errors) = brack_transformer::transform::transform(&cst);
    if level == 3 {
        return Ok(if as_json {
            lines(vec![serde_json::to_string(&ast).map_err(j)?])
        } else if !errors.is_empty() {
            lines(errors.iter().map(|x| format!("{x:?}")).collect())
        } else {
            lines(vec![format!("{ast:?}")])
        });
    }
    let ast = brack_expander::expand::expander(&ast, &mut reg).map_err(e)?;
    if level == 4 {
        return Ok(lines(vec![if as_json { serde_json::to_string(&ast).map_err(j)? } else { format!("{ast:?}") }]));
    }
    Ok(lines(vec![brack_codegen::generate::generate(&ast, &mut reg).map_err(e)?]))
}

fn simple(n: &str) -> bool {
    !n.is_empty() && n.len() < 60 && !n.contains(['/', '\0']) && n != "." && n != ".."
}
pub fn compile(v: &Value) -> Result<bool, String> {
    let plugins = match Plug::list(&v["plugins"]) {
        Some(p) => p,
        None => return Ok(false),
    };
    let dir = match v["dir"].as_str() {
        Some(d) if simple(d) && !d.starts_with('-') => d,
        _ => return Ok(false),
    };
    let name = match v["name"].as_str() {
        Some(d) if simple(d) && !d.starts_with('-') && d != dir && d != "links" => d,
        _ => return Ok(false),
    };
    for (k, _) in proj::files(root()) {
        let top = k.split('/').next().unwrap_or("");
        let _ = std::fs::remove_dir_all(top);
        let _ = std::fs::remove_file(top);
    }
    let _ = std::fs::remove_dir_all(dir);
    if std::fs::create_dir(dir).is_err() {
        return Ok(false);
    }
    let mut modules: BTreeMap<String, String> = BTreeMap::new();
    for f in v["files"].as_array().unwrap_or(&vec![]) {
        let n = match f[0].as_str() {
            Some(n) if simple(n) => n,
            _ => return Ok(false),
        };
        let bytes = match f[1].as_u64() {
            Some(i) if (i as usize) < plugins.len() => plugins[i as usize].wasm(),
            _ => b"junk".to_vec(),
        };
        let at = format!("{dir}/{n}");
        let made = match f[2].as_str() {
            Some("dir") => std::fs::create_dir(&at),
            Some("link") => std::fs::create_dir_all("links").and_then(|_| std::fs::write(format!("links/{n}"), bytes)).and_then(|_| std::os::unix::fs::symlink(format!("../links/{n}"), &at)),
            _ => std::fs::write(&at, bytes),
        };
        if made.is_err() {
            return Ok(false);
        }
        if let Some(m) = module(n) {
            if modules.insert(m.into(), at).is_some() {
                return Ok(false);
            }
        }
    }
    if let Some(t) = v["doc"].as_str() {
        if std::fs::write(name, t).is_err() {
            return Ok(false);
        }
    }
    let level = v["level"].as_u64().unwrap_or(5);
    let as_json = v["json"].as_bool().unwrap_or(false);
    let by_env = v["env"].as_bool().unwrap_or(false);
    proj::serve(&[], "", &[]);
    let want = match total(|| reference(&modules, name, level, as_json)) {
        Ok(w) => w,
        Err(_) => return Ok(false),
    };
    let before = proj::files(root());
    let lv = level.to_string();
    let mut args = vec!["compile", "-b", "html", "-f", name, "--output-level", &lv];
    if as_json {
        args.push("--json");
    }
    // the option, the variable, or both; an empty option names no folder
    let both = v["both"].as_str().unwrap_or("");
    if !by_env || both == "empty" {
        args.extend(["-p", if both == "empty" { "" } else { dir }]);
    }
    let envs: &[(&str, &str)] = match (both, by_env) {
        ("empty", _) | (_, true) => &[("BRACK_PLUGINS_PATH", dir)],
        ("none", _) => &[("BRACK_PLUGINS_PATH", "no/such/folder")],
        ("blank", _) => &[("BRACK_PLUGINS_PATH", "")],
        _ => &[],
    };
    let want = if both == "empty" { Err("no plugin folder".to_string()) } else { want };
    let got = run(&args, &HashMap::new(), envs)?;
    if proj::files(root()) != before {
        return Err("compiling changes files".into());
    }
    match want {
        Ok(w) => {
            if !got.ok {
                return Err(format!("the program refuses: {}", got.err));
            }
            let (w, g) = (plain(&w), plain(&got.out));
            if w != g {
                return Err(format!("the program prints {g:?}, should print {w:?}"));
            }
        }
        Err(e) => {
            if got.ok {
                return Err(format!("the program succeeds although: {e}"));
            }
            if !got.out.is_empty() {
                return Err(format!("the program fails ({e}) but prints {:?}", got.out));
            }
            if got.err.trim().is_empty() {
                return Err("the program fails without a reason".into());
            }
        }
    }
    Ok(true)
}

fn command(r: &mut Rng) -> Value {
    let ret = match r.below(5) {
        0 => json!({"TInlineCmd": "c"}),
        1 => json!({"TBlockCmd": "c"}),
        2 => json!("TAST"),
        3 => json!("TInline"),
        _ => json!("TBlock"),
    };
    let args: Vec<Value> = match r.below(4) {
        0 => vec![],
        1 => vec![json!("TInline")],
        2 => vec![json!({"TArray": "TInline"})],
        _ => vec![json!("TInline"), json!({"TOption": "TInline"})],
    };
    json!({"name": *r.pick(&["b", "c", "em"]), "args": args, "ret": ret, "call": *r.pick(&["c1", "c2", "fail"])})
}
pub fn next(g: &mut Gen) -> Value {
    let mut rr = Rng(g.rng.next());
    let r = &mut rr;
    let d = gen::Dict { words: g.dict.words.clone(), ints: vec![] };
    let names = ["std", "a", "std2", "my_std", "my-std", "a_b", "é", "x", "em"];
    let mut plugins = vec![];
    let mut files = vec![];
    let mut used: Vec<&str> = vec![];
    for i in 0..r.below(4) {
        let n = *r.pick(&names);
        if used.contains(&n) {
            continue;
        }
        used.push(n);
        plugins.push(json!({"name": format!("p{i}"), "version": "v", "hooks": [], "commands": (0..r.below(4)).map(|_| command(r)).collect::<Vec<_>>()}));
        let h = *r.pick(&["0", "abc", "9f3A", "0123456789abcdef", "x_y", "é", "", "1"]);
        let s = match r.below(12) {
            0 => format!("{n}.wasm"),
            1 => format!("{n}_{h}.wasm.bak"),
            2 => format!("{n}_{h}xwasm"),
            3 => format!("_{h}.wasm"),
            4 => format!("{n}_{h}.WASM"),
            _ => format!("{n}_{h}.wasm"),
        };
        let how = if r.chance(5) { "dir" } else if r.chance(6) { "link" } else { "" };
        files.push(json!([s, if r.chance(4) { Value::Null } else { json!(plugins.len() - 1) }, how]));
    }
    let mods: Vec<&str> = files.iter().filter_map(|f| module(f[0].as_str().unwrap())).collect();
    let doc = if r.chance(75) && !mods.is_empty() {
        let mut s = String::new();
        for _ in 0..1 + r.below(4) {
            let m = *r.pick(&mods);
            let (o, c) = *r.pick(&[("[", "]"), ("{", "}"), ("<", ">")]);
            let a = *r.pick(&["", " x", " x, y", " x y, [a.b z]"]);
            s.push_str(&format!("{}{o}{m}.{}{a}{c}{}", *r.pick(&["", "t ", "é"]), *r.pick(&["b", "c", "em"]), *r.pick(&["", " u", "\n", "\n\n"])));
        }
        s
    } else {
        gen::random(r, &d).chars().take(120).collect()
    };
    let mut v = json!({"plugins": plugins, "files": files, "dir": *r.pick(&["p", "plugins", "my_0.wasm", "a_1.wasm.d", "é ü"]), "env": r.chance(25), "doc": doc, "name": if r.chance(92) { *r.pick(&["d.[]", "a b.[]", ".[]"]) } else { *r.pick(&["d.html", "d.[]x", "[]"]) }, "level": *r.pick(&[5, 5, 5, 5, 1, 2, 3, 3, 4, 4, 0, 6]), "json": r.chance(25)});
    if r.chance(20) {
        v["both"] = json!(*r.pick(&["none", "blank", "none", "empty"]));
    }
    if r.chance(3) {
        v["doc"] = Value::Null;
    }
    v
}
