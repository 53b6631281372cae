//! The download of plugins; C23.
use crate::{rng::Rng, root};
use brack_project_manager::project::Project;
use common::{total, Gen};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;

#[repr(C)]
struct Limit {
    soft: u64,
    hard: u64,
}
extern "C" {
    fn getrlimit(what: i32, l: *mut Limit) -> i32;
    fn setrlimit(what: i32, l: *const Limit) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}
/// files cannot grow beyond so many bytes: writes stop half way
struct Small(Option<Limit>);
impl Small {
    fn new(n: Option<u64>) -> Small {
        let n = match n {
            Some(n) => n,
            None => return Small(None),
        };
        let mut old = Limit { soft: 0, hard: 0 };
        unsafe {
            signal(25, 1);
            if getrlimit(1, &mut old) != 0 {
                return Small(None);
            }
            let new = Limit { soft: n, hard: old.hard };
            setrlimit(1, &new);
        }
        Small(Some(old))
    }
}
impl Drop for Small {
    fn drop(&mut self) {
        if let Some(old) = &self.0 {
            unsafe {
                setrlimit(1, old);
            }
        }
    }
}

/// what is at an address: nothing else is like it
fn release(u: &str) -> Vec<u8> {
    let mut h = 7u64;
    for b in u.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut v = format!("{u} {h} ").into_bytes();
    let n = 150 + (h >> 40) as usize % 300;
    while v.len() < n {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.push((h >> 56) as u8);
    }
    v
}
struct Plug {
    name: String,
    owner: String,
    repo: String,
    version: String,
    hooks: [Option<bool>; 4],
    gone: u16,
}
impl Plug {
    fn url(&self, backend: &str) -> String {
        format!("https://github.com/{}/{}/releases/download/{}/{}.{backend}.wasm", self.owner, self.repo, self.version, self.name)
    }
}
fn word(v: &Value) -> Option<String> {
    let s = v.as_str()?;
    (!s.is_empty() && s.len() < 40 && !s.contains(['/', '\0']) && s != "." && s != "..").then(|| s.to_string())
}
fn read(v: &Value) -> Option<Vec<Plug>> {
    let mut out: Vec<Plug> = vec![];
    for p in v.as_array()? {
        let h = |i: usize| p["hooks"][i].as_bool();
        let q = Plug { name: word(&p["name"])?, owner: word(&p["owner"])?, repo: word(&p["repo"])?, version: word(&p["version"])?, hooks: [h(0), h(1), h(2), h(3)], gone: p["gone"].as_u64().unwrap_or(0) as u16 };
        if (q.gone != 0 && !(400..600).contains(&q.gone)) || out.iter().any(|o| o.name == q.name) {
            return None;
        }
        out.push(q);
    }
    Some(out)
}
fn toml_of(plugins: &[Plug], backend: &str) -> String {
    let q = |s: &str| toml::Value::String(s.to_string()).to_string();
    let mut s = format!("[document]\nname = \"n\"\nversion = \"0.1.0\"\nbackend = {}\nauthors = []\n", q(backend));
    for p in plugins {
        let key: toml::Table = [(p.name.clone(), toml::Value::Integer(1))].into_iter().collect();
        let key = key.to_string();
        let key = key.trim_end().trim_end_matches('1').trim_end().trim_end_matches('=').trim_end();
        s.push_str(&format!("[plugins.{key}]\nschema = \"github\"\nowner = {}\nrepo = {}\nversion = {}\n", q(&p.owner), q(&p.repo), q(&p.version)));
        for (h, v) in ["document", "stmt", "expr", "text"].iter().zip(&p.hooks) {
            if let Some(v) = v {
                s.push_str(&format!("{h}_hook = {v}\n"));
            }
        }
    }
    s
}

pub fn download(v: &Value) -> Result<bool, String> {
    for d in ["docs", "out", "plugins", "ref"] {
        let _ = std::fs::remove_dir_all(format!("{}/{d}", root()));
    }
    let mut project = Project::new(".");
    let mut shown = false;
    for round in v["rounds"].as_array().unwrap_or(&vec![]) {
        let plugins = match read(&round["plugins"]) {
            Some(p) => p,
            None => return Ok(false),
        };
        let backend = match word(&round["backend"]) {
            Some(b) => b,
            None => return Ok(false),
        };
        if round["fresh"].as_bool().unwrap_or(false) {
            project = Project::new(".");
        }
        if std::fs::write("Brack.toml", toml_of(&plugins, &backend)).is_err() {
            return Ok(false);
        }
        let mut gone: HashMap<String, u16> = HashMap::new();
        for p in &plugins {
            if p.gone != 0 {
                gone.insert(p.url(&backend), p.gone);
            }
        }
        let missing: Vec<String> = plugins.iter().map(|p| p.url(&backend)).filter(|u| gone.contains_key(u)).collect();
        let at = gone.clone();
        let off = round["off"].as_bool().unwrap_or(false);
        reqwest::install(Arc::new(move |u| match at.get(u) {
            _ if off => None,
            Some(s) => Some((*s, format!("there is no {u}").into_bytes())),
            None => Some((200, release(u))),
        }));
        reqwest::shuffle(round["salt"].as_u64().unwrap_or(0));
        if project.load_brack_toml().is_err() {
            return Ok(false);
        }
        let before = project.plugins_metadata.clone();
        let limit = round["limit"].as_u64();
        let got = {
            let _small = Small::new(limit);
            total(|| {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                rt.block_on(project.download_plugins_using_config()).map_err(|e| e.to_string())
            })
        };
        match got {
            Err(p) => return Err(format!("the download does not end orderly: {p}")),
            Ok(Err(e)) => {
                if limit.is_none() && !off && missing.is_empty() {
                    return Err(format!("the download fails although every plugin is there: {e}"));
                }
                if e.trim().is_empty() {
                    return Err("the download fails without a reason".into());
                }
            }
            Ok(Ok(())) => {
                shown = true;
                for p in &plugins {
                    let (path, flags) = match project.plugins_metadata.get(&p.name) {
                        Some(x) => x,
                        None => return Err(format!("after the download plugin {:?} is not known", p.name)),
                    };
                    let f = [flags.document_hook, flags.stmt_hook, flags.expr_hook, flags.text_hook];
                    let w = p.hooks.map(|h| h == Some(true));
                    if f != w {
                        return Err(format!("plugin {:?} has the hooks (document, stmt, expr, text) {f:?}, should have {w:?}", p.name));
                    }
                    let u = p.url(&backend);
                    match std::fs::read(path) {
                        Ok(b) if b == release(&u) => {}
                        Ok(b) => {
                            let t = String::from_utf8_lossy(&b[..b.len().min(120)]).into_owned();
                            return Err(format!("the file of plugin {:?} is not {u} but {} bytes, {t:?}", p.name, b.len()));
                        }
                        Err(e) => return Err(format!("plugin {:?} has no file: {e}", p.name)),
                    }
                }
                for (n, (p, f)) in &project.plugins_metadata {
                    if plugins.iter().all(|q| q.name != *n) && before.get(n).map(|(q, g)| (q, g.document_hook, g.stmt_hook, g.expr_hook, g.text_hook)) != Some((p, f.document_hook, f.stmt_hook, f.expr_hook, f.text_hook)) {
                        return Err(format!("after the download plugin {n:?} is known, which the configuration does not name"));
                    }
                }
                for n in before.keys() {
                    if !project.plugins_metadata.contains_key(n) {
                        return Err(format!("after the download plugin {n:?} is no longer known"));
                    }
                }
            }
        }
    }
    reqwest::shuffle(0);
    Ok(shown)
}

fn plug(r: &mut Rng, g: &[String]) -> Value {
    let names = ["std", "a", "b", "std2", "my_std", "a_b", "é", "x.y", "a b", "part", "q\"r"];
    let w = |r: &mut Rng, v: &[&str]| -> String {
        if r.chance(3) && !g.is_empty() {
            return g[r.below(g.len())].clone();
        }
        v[r.below(v.len())].to_string()
    };
    let hooks: Vec<Value> = (0..4).map(|_| match r.below(3) { 0 => json!(true), 1 => json!(false), _ => Value::Null }).collect();
    json!({
        "name": w(r, &names), "owner": w(r, &["brack-lang", "o", "o2", "a b"]), "repo": w(r, &["std", "r", "r2", "a\", \"b"]),
        "version": w(r, &["v1", "v1.0", "v2", "latest"]),
        "hooks": hooks, "gone": if r.chance(8) { *r.pick(&[400, 404, 403, 500, 503]) } else { 0 },
    })
}
pub fn next(g: &mut Gen) -> Value {
    let mut rr = Rng(g.rng.next());
    let r = &mut rr;
    let words: Vec<String> = g.dict.words.iter().filter(|w| !w.is_empty() && w.len() < 30 && !w.contains(['/', '\0'])).cloned().collect();
    let mut rounds: Vec<Value> = vec![];
    for _ in 0..1 + r.below(4) {
        let mut plugins: Vec<Value> = match rounds.last() {
            Some(p) if r.chance(75) => p["plugins"].as_array().cloned().unwrap_or_default(),
            _ => vec![],
        };
        // small changes between rounds
        for p in plugins.iter_mut() {
            p["gone"] = json!(if r.chance(6) { *r.pick(&[404, 500]) } else { 0 });
            match r.below(14) {
                0 => p["owner"] = plug(r, &words)["owner"].clone(),
                1 => p["repo"] = plug(r, &words)["repo"].clone(),
                2 => p["version"] = plug(r, &words)["version"].clone(),
                3 => p["hooks"] = plug(r, &words)["hooks"].clone(),
                4 => p["name"] = plug(r, &words)["name"].clone(),
                5 => {
                    let (o, q) = (p["owner"].clone(), p["repo"].clone());
                    p["owner"] = q;
                    p["repo"] = o;
                }
                _ => {}
            }
        }
        if plugins.is_empty() || r.chance(25) {
            for _ in 0..1 + r.below(4) {
                plugins.push(plug(r, &words));
            }
        }
        let mut seen: Vec<Value> = vec![];
        plugins.retain(|p| {
            let n = p["name"].clone();
            !seen.contains(&n) && {
                seen.push(n);
                true
            }
        });
        let backend = match rounds.last() {
            Some(p) if r.chance(70) => p["backend"].clone(),
            _ => json!(*r.pick(&["html", "tex", "md", "x.html"])),
        };
        rounds.push(json!({
            "plugins": plugins, "backend": backend, "fresh": r.chance(60), "off": r.chance(4),
            "limit": if r.chance(15) { json!(r.below(400)) } else { Value::Null },
            "salt": if r.chance(70) { r.next() % 1000 } else { 0 },
        }));
    }
    json!({ "rounds": rounds })
}
