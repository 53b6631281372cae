//! server-harness: the real language server and project manager, on in-memory standard streams, a stand-in plugin
//! host and a stand-in HTTP client, inside a scratch directory.
#[path = "../../core/src/gen.rs"]
mod gen;
#[path = "../../core/src/rng.rs"]
mod rng;
mod cfg;
mod dl;
mod make;
mod proj;
mod state;
mod wire;
use common::Gen;
use serde_json::Value;
use std::sync::OnceLock;

pub static ROOT: OnceLock<String> = OnceLock::new();
pub fn root() -> &'static str {
    ROOT.get().unwrap()
}

fn check(prop: &str, v: &Value) -> Result<bool, String> {
    match prop {
        "C15" => wire::semantic(v),
        "C16" => wire::chunks(v),
        "C17" => wire::answers(v),
        "C18" => wire::saves(v),
        "C19" => wire::completion(v),
        "C20" => cfg::round(v),
        "C21" => proj::build(v),
        "C23" => dl::download(v),
        "C28" => state::session(v),
        _ => Err("unknown property".into()),
    }
}
fn next(g: &mut Gen) -> Value {
    match g.prop {
        "C23" => dl::next(g),
        "C28" => state::next(g),
        _ => make::next(g),
    }
}
fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    let dir = std::env::temp_dir().join(format!("brack-server-{}", std::process::id()));
    std::fs::create_dir_all(dir.join("docs")).expect("scratch directory");
    let at = dir.canonicalize().expect("scratch directory");
    std::env::set_current_dir(&at).expect("scratch directory");
    ROOT.set(at.to_str().expect("path").to_string()).unwrap();
    common::mute();
    common::drive(check, next);
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&at);
}
