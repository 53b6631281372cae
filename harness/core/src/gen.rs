//! Documents: exhaustive short ones, random token soup, and commands built from the grammar and then damaged.
use crate::rng::Rng;

pub const ALPHA: [&str; 15] = ["\\", "<", ">", "{", "}", "[", "]", ".", ",", " ", "\n", "a", "é", "🇯🇵", "\0"];

pub struct Dict {
    pub words: Vec<String>,
    pub ints: Vec<usize>,
}

impl Dict {
    /// one entry per line: `s <escaped>` or `i <number>`
    pub fn load(path: &str) -> Dict {
        let mut d = Dict { words: vec![], ints: vec![] };
        if let Ok(t) = std::fs::read_to_string(path) {
            for l in t.lines() {
                if let Some(s) = l.strip_prefix("s ") {
                    let s = s.replace("\\n", "\n").replace("\\t", "\t").replace("\\0", "\0").replace("\\r", "\r").replace("\\\\", "\\");
                    d.words.push(s);
                } else if let Some(n) = l.strip_prefix("i ") {
                    if let Ok(n) = n.parse() {
                        d.ints.push(n);
                    }
                }
            }
        }
        d
    }
}

const WORDS: [&str; 46] = [
    "a", "b", "std", "x1", "Hello", "World!", "é", "🇯🇵", "👨‍👩‍👧", "e\u{301}", "日本語", "\r\n", "\r", "\t", "\u{a0}", "\0", "*", "**", "#", "-", "_", "\"", "'", "()", ":", ";", "http://x", "0", "12", "\u{200d}", "\u{feff}", "ｅ", "한", "z",
    "\u{928}\u{93f}", "\u{600}1", "\u{2028}", "\u{85}", "\u{3000}", "．", "，", "＜", "İ", "ß", "\u{1100}\u{1161}", "1\u{fe0f}\u{20e3}",
];

pub fn word(r: &mut Rng, d: &Dict) -> String {
    if !d.words.is_empty() && r.chance(25) {
        return r.pick(&d.words).clone();
    }
    if r.chance(60) {
        return r.pick(&WORDS[..6]).to_string();
    }
    r.pick(&WORDS).to_string()
}

fn soup(r: &mut Rng, d: &Dict) -> String {
    let cap = if r.chance(20) { 60 } else { 14 };
    let n = 1 + r.below(cap);
    let mut s = String::new();
    let heavy = r.below(3);
    for _ in 0..n {
        match r.below(10) {
            0..=4 => s.push_str(ALPHA[r.below(ALPHA.len())]),
            5 => s.push_str(ALPHA[r.below(11)]),
            6 if heavy == 0 => s.push_str(["<", "[", "{"][r.below(3)]),
            7 if heavy == 1 => s.push_str([">", "]", "}"][r.below(3)]),
            8 if heavy == 2 => s.push('\\'),
            _ => s.push_str(&word(r, d)),
        }
    }
    s
}

fn name(r: &mut Rng, d: &Dict) -> String {
    if r.chance(70) {
        return r.pick(&["a", "std", "em", "b2", "x"]).to_string();
    }
    let w = word(r, d);
    if w.chars().any(|c| "\\<>{}[]., \n\0".contains(c)) || w.is_empty() {
        return "m".into();
    }
    w
}

fn arg(r: &mut Rng, d: &Dict, depth: usize) -> String {
    let n = 1 + r.below(3);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(r.pick(&[" ", " ", "  ", "\n", "", " \n "]));
        }
        if depth > 0 && r.chance(35) {
            s.push_str(&command(r, d, depth - 1));
        } else if r.chance(12) {
            s.push('\\');
            s.push_str(r.pick(&["\\", "<", ">", "{", "}", "[", "]", ".", ","]));
        } else {
            let w = word(r, d);
            for c in w.chars() {
                if "\\<>{}[].,".contains(c) {
                    s.push('\\');
                }
                s.push(c);
            }
        }
    }
    s
}

pub fn command(r: &mut Rng, d: &Dict, depth: usize) -> String {
    let (o, c) = *r.pick(&[("[", "]"), ("{", "}"), ("<", ">"), ("[", "]"), ("{", "}")]);
    let mut s = String::from(o);
    if depth > 0 && r.chance(5) {
        s.push_str(&format!("<{}.{} {}>", name(r, d), name(r, d), arg(r, d, 0)));
    } else {
        s.push_str(&name(r, d));
    }
    s.push('.');
    if depth > 0 && r.chance(5) {
        s.push_str(&format!("<{}.{} {}>", name(r, d), name(r, d), arg(r, d, 0)));
    } else {
        s.push_str(&name(r, d));
    }
    let n = r.below(4);
    for i in 0..n {
        if i > 0 {
            s.push_str(r.pick(&[",", ", ", " , ", ",\n"]));
        } else {
            s.push_str(r.pick(&[" ", " ", "\n", "  "]));
        }
        s.push_str(&arg(r, d, depth));
    }
    s.push_str(c);
    s
}

fn document(r: &mut Rng, d: &Dict) -> String {
    let mut s = String::new();
    let n = 1 + r.below(5);
    for i in 0..n {
        if i > 0 {
            s.push_str(r.pick(&["\n\n", "\n", "\n\n\n", " ", ""]));
        }
        match r.below(10) {
            0..=4 => {
                let depth = 1 + r.below(3);
                s.push_str(&command(r, d, depth));
            }
            5 => s.push_str(r.pick(&[">", "]", "}"])),
            6 => {
                let w = r.below(6);
                for _ in 0..w {
                    s.push_str(&word(r, d));
                    s.push_str(r.pick(&[" ", "", ". ", ", "]));
                }
            }
            7 => {
                s.push('\\');
                s.push_str(r.pick(&["\\", "<", ">", "{", "}", "[", "]", ".", ",", "a", " ", "\n", ""]));
            }
            _ => s.push_str(&word(r, d)),
        }
    }
    s
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let k = 1 + r.below(3);
    for _ in 0..k {
        if c.is_empty() {
            break;
        }
        let i = r.below(c.len());
        match r.below(4) {
            0 => {
                c.remove(i);
            }
            1 => {
                let a = ALPHA[r.below(ALPHA.len())].chars().next().unwrap();
                c.insert(i, a);
            }
            2 => {
                let a = c[i];
                c.insert(i, a);
            }
            _ => {
                let j = r.below(c.len());
                c.swap(i, j);
            }
        }
    }
    c.into_iter().collect()
}

fn sized(r: &mut Rng, d: &Dict) -> String {
    let mut n = [3usize, 5, 8, 10, 16, 33, 64, 65, 100, 127, 129, 256, 257, 300][r.below(14)];
    if !d.ints.is_empty() && r.chance(60) {
        n = *r.pick(&d.ints);
        n = (n + r.below(3)).saturating_sub(1);
    }
    let n = n.min(if r.chance(10) { 5000 } else { 600 });
    match r.below(9) {
        0 => {
            let o = *r.pick(&["[a.b ", "{a.b ", "<a.b ", "[", "<", "{"]);
            let c = match o.chars().next().unwrap() {
                '[' => "]",
                '{' => "}",
                _ => ">",
            };
            let n = n.min(130);
            format!("{}x{}", o.repeat(n), c.repeat(if r.chance(70) { n } else { r.below(n + 1) }))
        }
        1 => word(r, d).repeat(n),
        2 => format!("[a.b {}]", vec!["x"; n].join(",")),
        3 => format!("{}x", "a\n\n".repeat(n)),
        4 => format!("{}[a.b c]", "\n".repeat(n)),
        5 => format!("[{}.b c]", "m".repeat(n)),
        6 => format!("[a.{} c]", "m".repeat(n)),
        7 => format!("[a.b {}]", "w ".repeat(n)),
        _ => format!("{}{{a.b {}}}", "t".repeat(n), "v".repeat(n)),
    }
}

pub fn random(r: &mut Rng, d: &Dict) -> String {
    match r.below(100) {
        0..=34 => soup(r, d),
        35..=64 => document(r, d),
        65..=84 => {
            let s = document(r, d);
            mutate(r, &s)
        }
        85..=95 => command(r, d, 2),
        _ => sized(r, d),
    }
}

/// all strings of exactly `len` symbols over the first `k` entries of ALPHA, by index
pub fn nth(mut i: usize, len: usize, k: usize) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(ALPHA[i % k]);
        i /= k;
    }
    s
}
