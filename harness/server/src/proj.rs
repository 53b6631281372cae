//! Plugins and projects; C21.
use crate::root;
use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
use brack_project_manager::project::Project;
use common::total;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Cmd {
    pub name: String,
    pub args: Value,
    pub ret: Value,
    pub call: String,
}
#[derive(Clone, Debug)]
pub struct Plug {
    pub name: String,
    pub version: String,
    pub hooks: [Option<bool>; 4],
    pub commands: Vec<Cmd>,
}
pub fn name_ok(n: &str) -> bool {
    !n.is_empty() && n.len() < 20 && n.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-')
}
const HOOKS: [&str; 4] = ["document", "stmt", "expr", "text"];
impl Plug {
    pub fn list(v: &Value) -> Option<Vec<Plug>> {
        let mut out: Vec<Plug> = vec![];
        for p in v.as_array()? {
            let name = p["name"].as_str()?.to_string();
            if !name_ok(&name) || out.iter().any(|q| q.name == name) {
                return None;
            }
            let mut commands: Vec<Cmd> = vec![];
            for c in p["commands"].as_array()? {
                let c = Cmd { name: c["name"].as_str()?.into(), args: c["args"].clone(), ret: c["ret"].clone(), call: c["call"].as_str()?.into() };
                let known = |t: &Value| -> bool {
                    let mut t = t;
                    loop {
                        match t {
                            Value::String(s) => return ["TInline", "TBlock", "TAST"].contains(&s.as_str()),
                            Value::Object(o) if o.len() == 1 => {
                                let (k, x) = o.iter().next().unwrap();
                                match k.as_str() {
                                    "TInlineCmd" | "TBlockCmd" => return x.is_string(),
                                    "TOption" | "TArray" => t = x,
                                    _ => return false,
                                }
                            }
                            _ => return false,
                        }
                    }
                };
                if !name_ok(&c.name) || c.call == "get_metadata" || commands.iter().any(|d| d.name == c.name && d.ret == c.ret) || !c.args.as_array()?.iter().all(known) || !known(&c.ret) {
                    return None;
                }
                commands.push(c);
            }
            let h = |i: usize| p["hooks"][i].as_bool();
            out.push(Plug { name, version: p["version"].as_str().unwrap_or("v1").into(), hooks: [h(0), h(1), h(2), h(3)], commands });
        }
        Some(out)
    }
    pub fn wasm(&self) -> Vec<u8> {
        let c: Vec<Value> = self.commands.iter().map(|c| json!({"name": c.name, "args": c.args, "ret": c.ret, "call": c.call})).collect();
        json!({"name": self.name, "version": self.version, "commands": c}).to_string().into_bytes()
    }
    pub fn flags(&self) -> FeatureFlag {
        let h = |i: usize| self.hooks[i] == Some(true);
        FeatureFlag { document_hook: h(0), stmt_hook: h(1), expr_hook: h(2), text_hook: h(3) }
    }
}
pub fn toml(plugins: &[Plug], backend: &str) -> String {
    let mut s = format!("[document]\nname = \"n\"\nversion = \"0.1.0\"\nbackend = \"{backend}\"\nauthors = []\n");
    for p in plugins {
        s.push_str(&format!("[plugins.\"{}\"]\nschema = \"github\"\nowner = \"o-{}\"\nrepo = \"r-{}\"\nversion = \"{}\"\n", p.name, p.name, p.name, p.version));
        for (h, v) in HOOKS.iter().zip(&p.hooks) {
            if let Some(v) = v {
                s.push_str(&format!("{h}_hook = {v}\n"));
            }
        }
    }
    s
}
/// the release of every plugin at its address; `gone`: plugins that are not there
pub fn releases(plugins: &[Plug], backend: &str, gone: &[String]) -> HashMap<String, Vec<u8>> {
    plugins
        .iter()
        .filter(|p| !gone.contains(&p.name))
        .map(|p| (format!("https://github.com/o-{n}/r-{n}/releases/download/{v}/{n}.{backend}.wasm", n = p.name, v = p.version), p.wasm()))
        .collect()
}
pub fn serve(plugins: &[Plug], backend: &str, gone: &[String]) {
    let at = releases(plugins, backend, gone);
    reqwest::install(Arc::new(move |u| Some(at.get(u).map_or((404, b"not found".to_vec()), |w| (200, w.clone())))));
    extism::install(Box::new(|wasm, name, input| {
        let p: Value = serde_json::from_slice(wasm).map_err(|e| format!("not a plugin: {e}"))?;
        let c = p["commands"].as_array().cloned().unwrap_or_default();
        if name == "get_metadata" {
            let m: Vec<Value> = c
                .iter()
                .map(|c| json!({"command_name": c["name"], "call_name": c["call"], "argument_types": c["args"].as_array().map(|a| a.iter().enumerate().map(|(i, t)| json!([format!("x{i}"), t])).collect::<Vec<_>>()), "return_type": c["ret"]}))
                .collect();
            return Ok(serde_json::to_vec(&m).unwrap());
        }
        if name.contains("fail") {
            return Err(format!("{name} fails"));
        }
        let i: Value = serde_json::from_slice(input).unwrap_or(Value::Null);
        if i[0].is_object() && i.as_array().is_some_and(|a| a.len() == 2 && a[1].is_string() && !a[0]["Text"].is_string()) && i[0].as_object().is_some_and(|o| !o.contains_key("TextArray") && !o.contains_key("TextOption")) {
            // a macro: a text that tells how large the tree is
            let z = json!({"line": 0, "character": 0});
            let t = format!("<{}.{name} {}>", p["name"].as_str().unwrap_or(""), i[0].to_string().len() % 7);
            return Ok(json!({"Text": {"id": "m", "value": t, "location": {"start": z, "end": z}}}).to_string().into_bytes());
        }
        Ok(format!("({}{}.{name} {i})", p["name"].as_str().unwrap_or(""), p["version"].as_str().unwrap_or("")).into_bytes())
    }));
}

pub fn files(dir: &str) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let p = e.path();
            if p.is_dir() {
                for (k, v) in files(p.to_str().unwrap_or("")) {
                    m.insert(format!("{}/{k}", e.file_name().to_string_lossy()), v);
                }
            } else {
                m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    m
}
fn all_files() -> BTreeMap<String, Vec<u8>> {
    files(root()).into_iter().filter(|(k, _)| !k.starts_with("plugins/") && !k.starts_with("ref/")).collect()
}

/// what each document yields, or that it or a plugin cannot be processed
fn reference(plugins: &[Plug], docs: &[(String, String)], gone: &[String], backend: &str) -> Result<BTreeMap<String, Vec<u8>>, String> {
    if !gone.is_empty() {
        return Err("a plugin cannot be downloaded".into());
    }
    let _ = std::fs::create_dir_all("ref");
    let load = || -> Result<Plugins, String> {
        let mut list = vec![];
        for p in plugins {
            let f = format!("ref/{}", p.name);
            std::fs::write(&f, p.wasm()).map_err(|e| e.to_string())?;
            list.push(Plugin::new(&p.name, &f, p.flags()).map_err(|e| e.to_string())?);
        }
        Plugins::new(list).map_err(|e| e.to_string())
    };
    load()?;
    let mut out = BTreeMap::new();
    for (n, t) in docs {
        let stem = match n.strip_suffix(".[]") {
            Some(s) if !s.is_empty() => s,
            _ => continue,
        };
        let f = "ref/document.[]";
        std::fs::write(f, t).map_err(|e| e.to_string())?;
        let mut reg = load()?;
        let tokens = brack_tokenizer::tokenize::tokenize(f).map_err(|e| e.to_string())?;
        let cst = brack_parser::parse::parse(&tokens).map_err(|e| e.to_string())?;
        let (ast, _) = brack_transformer::transform::transform(&cst);
        let ast = brack_expander::expand::expander(&ast, &mut reg).map_err(|e| e.to_string())?;
        let gen = brack_codegen::generate::generate(&ast, &mut reg).map_err(|e| e.to_string())?;
        out.insert(format!("out/{stem}.{backend}"), gen.into_bytes());
    }
    Ok(out)
}

/// builds the project in the current directory
type How<'a> = &'a dyn Fn(&[Plug], &str, &[String]) -> Result<(), String>;
pub fn build(v: &Value) -> Result<bool, String> {
    build_as(v, &|_, _, _| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            let mut p = Project::new(".");
            p.load_brack_toml().map_err(|e| e.to_string())?;
            p.download_plugins_using_config().await.map_err(|e| e.to_string())?;
            p.build().map_err(|e| e.to_string())
        })
    })
}
pub fn build_as(v: &Value, how: How) -> Result<bool, String> {
    let plugins = match Plug::list(&v["plugins"]) {
        Some(p) => p,
        None => return Ok(false),
    };
    let backend = match v["backend"].as_str() {
        Some(b) if b.len() < 20 && b.chars().all(|c| c.is_ascii_alphanumeric() || c == '.') => b,
        _ => return Ok(false),
    };
    let gone: Vec<String> = v["gone"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).filter(|g| plugins.iter().any(|p| p.name == *g)).collect()).unwrap_or_default();
    let rounds = v["rounds"].as_array().cloned().unwrap_or_default();
    for d in ["docs", "out", "plugins", "ref"] {
        let _ = std::fs::remove_dir_all(format!("{}/{d}", root()));
    }
    if v["made"].as_bool().unwrap_or(false) {
        let _ = std::fs::create_dir_all("plugins");
    }
    if std::fs::write("Brack.toml", toml(&plugins, backend)).is_err() {
        return Ok(false);
    }
    let mut shown = false;
    for round in &rounds {
        let _ = std::fs::remove_dir_all("docs");
        let _ = std::fs::create_dir_all("docs");
        let mut docs: Vec<(String, String)> = vec![];
        for d in round.as_array().unwrap_or(&vec![]) {
            match (d[0].as_str(), d[1].as_str()) {
                (Some(n), Some(t)) if !n.is_empty() && n.len() < 30 && !n.contains(['/', '\0']) && n != "." && n != ".." => {
                    if docs.iter().all(|(m, _)| m != n) {
                        if std::fs::write(format!("docs/{n}"), t).is_err() {
                            return Ok(false);
                        }
                        docs.push((n.into(), t.into()));
                    }
                }
                _ => return Ok(false),
            }
        }
        serve(&plugins, backend, &gone);
        let before = all_files();
        let want = total(|| reference(&plugins, &docs, &gone, backend));
        serve(&plugins, backend, &gone);
        let got = total(|| how(&plugins, backend, &gone));
        let after = all_files();
        match (want, got) {
            (Err(_), _) => return Ok(false),
            (Ok(Ok(w)), Ok(Ok(()))) => {
                let mut expect = before.clone();
                for (k, x) in &w {
                    expect.insert(k.clone(), x.clone());
                }
                if after != expect {
                    let keys: Vec<&String> = after.keys().chain(expect.keys()).filter(|k| after.get(*k) != expect.get(*k)).collect();
                    let k = keys[0];
                    let show = |m: &BTreeMap<String, Vec<u8>>| m.get(k).map(|b| String::from_utf8_lossy(b).into_owned());
                    return Err(format!("after the build {k:?} is {:?}, should be {:?}", show(&after), show(&expect)));
                }
                shown = true;
            }
            (Ok(Err(_)), Ok(Err(e))) => {
                if e.trim().is_empty() {
                    return Err("the build fails without a reason".into());
                }
                for (k, x) in &after {
                    if before.get(k) != Some(x) && !k.starts_with("out/") {
                        return Err(format!("a failing build changes {k:?}"));
                    }
                }
                shown = true;
            }
            (Ok(Err(e)), Ok(Ok(()))) => return Err(format!("the build succeeds although a document or plugin cannot be processed: {e}")),
            (Ok(Ok(_)), Ok(Err(e))) => return Err(format!("the build fails: {e}")),
            (Ok(_), Err(p)) => return Err(format!("the build does not end orderly: {p}")),
        }
    }
    Ok(shown)
}
