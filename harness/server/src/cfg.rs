//! C20: configurations.
use brack_project_manager::config::Config;
use brack_project_manager::document::Document;
use brack_project_manager::plugin::PluginSchema;
use common::total;
use serde::de::value::MapDeserializer;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const HOOKS: [&str; 4] = ["expr_hook", "stmt_hook", "document_hook", "text_hook"];
type Fields = (String, String, String, [Option<bool>; 4]);
fn fields(p: &PluginSchema) -> Fields {
    match p.clone() {
        PluginSchema::GitHub { owner, repo, version, expr_hook, stmt_hook, document_hook, text_hook } => (owner, repo, version, [expr_hook, stmt_hook, document_hook, text_hook]),
    }
}
fn schema(f: &Fields) -> PluginSchema {
    PluginSchema::GitHub { owner: f.0.clone(), repo: f.1.clone(), version: f.2.clone(), expr_hook: f.3[0], stmt_hook: f.3[1], document_hook: f.3[2], text_hook: f.3[3] }
}
type Flat = (String, String, String, Vec<String>, Option<BTreeMap<String, Fields>>);
fn flat(c: &Config) -> Flat {
    let d = &c.document;
    (d.name.clone(), d.version.clone(), d.backend.clone(), d.authors.clone(), c.plugins.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), fields(v))).collect()))
}
fn st(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}
/// a list of fields as an entry: what it should become
fn meaning(list: &[(String, Value)]) -> Option<Fields> {
    let mut seen: BTreeMap<&str, &Value> = BTreeMap::new();
    for (k, v) in list {
        if seen.insert(k, v).is_some() {
            return None;
        }
    }
    let mut h = [None; 4];
    for (k, v) in &seen {
        match HOOKS.iter().position(|x| x == k) {
            Some(i) => h[i] = Some(v.as_bool()?),
            None if ["schema", "owner", "repo", "version"].contains(k) => {}
            None => return None,
        }
    }
    let get = |k: &str| seen.get(k).and_then(|v| st(v));
    if get("schema")? != "github" {
        return None;
    }
    Some((get("owner")?, get("repo")?, get("version")?, h))
}
fn toml_value(v: &Value) -> Option<String> {
    Some(match v {
        Value::String(_) | Value::Bool(_) => toml::Value::try_from(v).ok()?.to_string(),
        Value::Number(n) => n.as_i64()?.to_string(),
        _ => return None,
    })
}

pub fn round(v: &Value) -> Result<bool, String> {
    if let Some(list) = v["entry"].as_array() {
        let mut fs: Vec<(String, Value)> = vec![];
        for x in list {
            match (x[0].as_str(), &x[1]) {
                (Some(k), w) if w.is_string() || w.is_boolean() || w.as_i64().is_some() => fs.push((k.into(), w.clone())),
                _ => return Ok(false),
            }
        }
        let want = meaning(&fs);
        // through TOML
        let mut text = String::from("[document]\nname = \"\"\nversion = \"\"\nbackend = \"\"\nauthors = []\n[plugins.p]\n");
        for (k, w) in &fs {
            match toml_value(w) {
                Some(t) => text.push_str(&format!("{} = {t}\n", toml::Value::String(k.clone()))),
                None => return Ok(false),
            }
        }
        let got = total(|| toml::from_str::<Config>(&text)).map_err(|p| format!("reading {text:?}: {p}"))?;
        match (&want, got) {
            (Some(w), Ok(c)) => {
                let g = c.plugins.as_ref().and_then(|m| m.get("p")).map(fields);
                if g.as_ref() != Some(w) {
                    return Err(format!("{text:?} should be read as {w:?}, is {g:?}"));
                }
            }
            (None, Ok(c)) => return Err(format!("{text:?} should be refused, is read as {:?}", c.plugins)),
            (Some(_), Err(e)) => return Err(format!("{text:?} is refused: {e}")),
            (None, Err(_)) => {}
        }
        // field by field, where a field can come twice
        let got = total(|| PluginSchema::deserialize(MapDeserializer::<_, serde_json::Error>::new(fs.iter().map(|(k, w)| (k.as_str(), w.clone()))))).map_err(|p| format!("reading {fs:?}: {p}"))?;
        return match (&want, got) {
            (Some(w), Ok(p)) if fields(&p) == *w => Ok(true),
            (None, Err(_)) => Ok(true),
            (w, g) => Err(format!("{fs:?} should be read as {w:?}, is {:?}", g.map_err(|e| e.to_string()))),
        };
    }
    let d = &v["document"];
    let (name, version, backend) = match (st(&d["name"]), st(&d["version"]), st(&d["backend"])) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return Ok(false),
    };
    let authors: Vec<String> = d["authors"].as_array().map(|a| a.iter().filter_map(st).collect()).unwrap_or_default();
    let plugins = match &v["plugins"] {
        Value::Object(o) => {
            let mut m = std::collections::HashMap::new();
            for (k, p) in o {
                let h = |i: usize| p["hooks"][i].as_bool();
                match (st(&p["owner"]), st(&p["repo"]), st(&p["version"])) {
                    (Some(a), Some(b), Some(c)) => {
                        m.insert(k.clone(), schema(&(a, b, c, [h(0), h(1), h(2), h(3)])));
                    }
                    _ => return Ok(false),
                }
            }
            Some(m)
        }
        _ => None,
    };
    let c = Config { document: Document { name, version, backend, authors }, plugins };
    let text = total(|| toml::to_string(&c)).map_err(|p| format!("writing: {p}"))?.map_err(|e| format!("{} cannot be written: {e}", json!(format!("{c:?}"))))?;
    let back = total(|| toml::from_str::<Config>(&text)).map_err(|p| format!("reading back: {p}"))?.map_err(|e| format!("{text:?} cannot be read back: {e}"))?;
    if flat(&c) != flat(&back) {
        return Err(format!("{:?} is read back as {:?} from {text:?}", flat(&c), flat(&back)));
    }
    Ok(c.plugins.is_some_and(|m| !m.is_empty()))
}
