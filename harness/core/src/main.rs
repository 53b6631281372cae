//! core-harness PROP SEED BUDGET_MS DICT STATE   (or: core-harness PROP --replay FILE)
//! Runs the real tokenizer, parser and transformer against references; prints one JSON line.
mod gen;
mod lexref;
mod lookup;
mod rng;
mod treeref;

use std::collections::HashSet;
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static STEP: AtomicU64 = AtomicU64::new(0);

fn total<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {m}")
    })
}

/// Ok(nontrivial) or what is wrong
fn check(prop: &str, src: &str) -> Result<bool, String> {
    if prop == "C27" {
        return total(|| lookup::c27(src)).unwrap_or_else(|p| Err(format!("the tree operation fails: {p}")));
    }
    let ts = total(|| brack_tokenizer::tokenize::tokenize_str(src).map_err(|e| e.to_string())).and_then(|r| Ok(r)).unwrap_or_else(Err);
    match prop {
        "C01" => return lexref::c01(src, &ts).map(|_| src.len() > 1),
        "C02" => return lexref::c02(src, &ts).map(|_| src.len() > 1),
        "C03" => return lexref::c03(src, &ts).map(|_| src.len() > 1),
        _ => {}
    }
    let ts = match ts {
        Ok(ts) => ts,
        Err(_) => return Ok(false), // C01
    };
    let cst = total(|| brack_parser::parse::parse(&ts).map_err(|e| e.to_string()));
    let cst = match cst {
        Ok(c) => c,
        Err(p) => {
            return if matches!(prop, "C04" | "C05" | "C06" | "C07") { Err(format!("the parser fails: {p}")) } else { Ok(false) };
        }
    };
    match prop {
        "C04" => return treeref::c04(&ts, &cst),
        "C05" => return treeref::c05(&cst),
        "C06" => return treeref::c06(&ts, &cst),
        "C07" => return treeref::c07(&ts, &cst),
        _ => {}
    }
    let cst = match cst {
        Ok(c) => c,
        Err(_) => return Ok(false),
    };
    let r = total(|| brack_transformer::transform::transform(&cst)).map_err(|p| format!("the transformation fails: {p}"))?;
    let r = (r.0, r
        .1
        .iter()
        .map(|e| {
            let l = e.get_location();
            (format!("{e:?}").split('(').next().unwrap_or("").to_string(), ((l.start.line, l.start.character), (l.end.line, l.end.character)))
        })
        .collect::<Vec<_>>());
    match prop {
        "C08" => treeref::c08(&cst, &r),
        "C09" => treeref::c09(&cst, &r),
        "C10" => treeref::c10(&cst, &r),
        "C29" => treeref::c29(&cst, &r),
        "C30" => treeref::c30(&cst, &r),
        _ => Err(format!("unknown property {prop}")),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink(prop: &str, src: &str) -> String {
    let mut cur: Vec<char> = src.chars().collect();
    let start = Instant::now();
    let mut step = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && start.elapsed() < Duration::from_secs(5) {
            let j = (i + step).min(cur.len());
            let mut t = cur.clone();
            t.drain(i..j);
            let s: String = t.iter().collect();
            STEP.fetch_add(1, Ordering::Relaxed);
            if check(prop, &s).is_err() {
                cur = t;
                changed = true;
            } else {
                i = j;
            }
        }
        if start.elapsed() > Duration::from_secs(5) {
            break;
        }
        if !changed {
            if step == 1 {
                break;
            }
            step /= 2;
        }
    }
    cur.into_iter().collect()
}

fn run() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    if a[2] == "--replay" {
        let src = std::fs::read_to_string(&a[3]).unwrap();
        match check(prop, &src) {
            Ok(_) => println!("holds"),
            Err(e) => {
                println!("fails: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let seed: u64 = a[2].parse().unwrap_or(1);
    let budget = Duration::from_millis(a[3].parse().unwrap_or(5000));
    let dict = gen::Dict::load(&a[4]);
    let mut state = std::fs::File::create(&a[5]).expect("state file");
    // a watchdog: one input may not take longer than 20 s
    let start = Instant::now();
    std::thread::spawn(|| {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = STEP.load(Ordering::Relaxed);
            if s != last {
                last = s;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(20) {
                std::process::exit(97);
            }
        }
    });
    let mut r = rng::Rng(seed.wrapping_mul(0x1234567));
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut exhaustive = 0usize;
    let mut fail: Option<(String, String)> = None;
    let mut one = |src: &str| -> bool {
        let _ = state.rewind();
        let _ = state.write_all(format!("{}\n", src.len()).as_bytes());
        let _ = state.write_all(src.as_bytes());
        STEP.fetch_add(1, Ordering::Relaxed);
        evals += 1;
        match check(prop, src) {
            Ok(nt) => {
                if nt {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    src.hash(&mut h);
                    if seen.insert(h.finish()) {
                        nontrivial += 1;
                        if samples.len() < 6 && nontrivial % 977 == 1 {
                            samples.push(src.chars().take(120).collect());
                        }
                    }
                }
                false
            }
            Err(e) => {
                fail = Some((src.to_string(), e));
                true
            }
        }
    };
    // each interesting word alone and inside commands
    let mut stop = false;
    for w in &dict.words {
        for t in ["@", "[@.b c]", "[a.@ c]", "[a.b @]", "{a.b @, @}", "x\n@\n\n@", "[a.b <c.d @> @]", "\\@", "<@.@ @>", "@@", "a@b", "[a.b x@y, z @ w]"] {
            stop = stop || one(&t.replace('@', w));
        }
    }
    let len_max = if budget.as_millis() > 60000 { 5 } else { 4 };
    for len in 0..=len_max {
        let n = gen::ALPHA.len().pow(len as u32);
        for i in 0..n {
            if stop || start.elapsed() > budget.mul_f32(0.6) {
                break;
            }
            stop = one(&gen::nth(i, len, gen::ALPHA.len()));
        }
        if !stop && start.elapsed() <= budget.mul_f32(0.6) {
            exhaustive = len;
        }
    }
    while !stop && start.elapsed() < budget {
        let s = gen::random(&mut r, &dict);
        stop = one(&s);
    }
    drop(one);
    let failure = match &fail {
        None => "null".to_string(),
        Some((src, _)) => {
            let s = shrink(prop, src);
            let e = check(prop, &s).err().unwrap_or_default();
            format!("{{\"input\":{},\"what\":{}}}", esc(&s), esc(&e))
        }
    };
    let ss: Vec<String> = samples.iter().map(|s| esc(s)).collect();
    println!("{{\"evaluations\":{evals},\"distinct_nontrivial\":{nontrivial},\"exhaustive_length\":{exhaustive},\"samples\":[{}],\"failure\":{failure}}}", ss.join(","));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(run).unwrap();
    let _ = h.join();
}
