//! cli-harness: the real command-line program, run as a process of its own in a scratch directory; plugin host and
//! HTTP client are stand-ins.
#[path = "../../core/src/gen.rs"]
mod gen;
#[path = "../../server/src/proj.rs"]
#[allow(dead_code)]
mod proj;
#[path = "../../core/src/rng.rs"]
mod rng;
mod compile;
mod every;
mod manage;
#[allow(dead_code)]
mod brack_main {
    include!("/repo/src/main.rs");
    pub fn go() -> i32 {
        match main() {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("Error: {e:?}");
                1
            }
        }
    }
}
use common::Gen;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};

pub static ROOT: OnceLock<String> = OnceLock::new();
pub fn root() -> &'static str {
    ROOT.get().unwrap()
}
pub struct Ran {
    pub ok: bool,
    pub out: String,
    pub err: String,
}
/// runs the program with these arguments; `web`: what is found at which address
pub fn run(args: &[&str], web: &HashMap<String, (u16, Vec<u8>)>, envs: &[(&str, &str)]) -> Result<Ran, String> {
    let w: HashMap<&String, (u16, &Vec<u8>)> = web.iter().map(|(k, v)| (k, (v.0, &v.1))).collect();
    let o = Command::new("/proc/self/exe")
        .args(args)
        .env("AS_BRACK", json!(w).to_string())
        .env_remove("BRACK_PLUGINS_PATH")
        .envs(envs.iter().copied())
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("the program does not run: {e}"))?;
    match o.status.code() {
        Some(c) if c != 101 => Ok(Ran { ok: c == 0, out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }),
        c => Err(format!("the program does not end orderly (status {c:?}): {}", String::from_utf8_lossy(&o.stderr))),
    }
}
fn child(web: &str) -> i32 {
    proj::serve(&[], "", &[]);
    let w: HashMap<String, (u16, Vec<u8>)> = serde_json::from_str(web).unwrap_or_default();
    reqwest::install(Arc::new(move |u| Some(w.get(u).map_or((404, b"not found".to_vec()), |r| r.clone()))));
    let input = std::env::var("AS_BRACK_IN").unwrap_or_default();
    tokio::io::script(vec![(None, input.into_bytes())], 0);
    let c = brack_main::go();
    print!("{}", String::from_utf8_lossy(&tokio::io::written().0));
    c
}

fn check(prop: &str, v: &Value) -> Result<bool, String> {
    match prop {
        "C22" => compile::compile(v),
        "C24" => manage::add(v),
        "C25" => manage::new(v),
        "C26" => every::every(v),
        _ => Err("unknown property".into()),
    }
}
fn next(g: &mut Gen) -> Value {
    match g.prop {
        "C24" => manage::next_add(g),
        "C25" => manage::next_new(g),
        "C26" => every::next(g),
        _ => compile::next(g),
    }
}
fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    if let Ok(w) = std::env::var("AS_BRACK") {
        std::process::exit(child(&w));
    }
    let dir = std::env::temp_dir().join(format!("brack-cli-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let at = dir.canonicalize().expect("scratch directory");
    std::env::set_current_dir(&at).expect("scratch directory");
    ROOT.set(at.to_str().expect("path").to_string()).unwrap();
    common::mute();
    common::drive(check, next);
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&at);
}
