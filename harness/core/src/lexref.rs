//! Reference for the lexical properties (C01-C03), written from the property statements.
use brack_tokenizer::tokens::{Location, Token};
use unicode_segmentation::UnicodeSegmentation;

pub fn text_of(t: &Token) -> String {
    match t {
        Token::Text(s, _) | Token::Module(s, _) | Token::Ident(s, _) => s.clone(),
        Token::NewLine(_) => "\n".into(),
        Token::WhiteSpace(_) => " ".into(),
        Token::Dot(_) => ".".into(),
        Token::BackSlash(_) => "\\".into(),
        Token::AngleBracketOpen(_) => "<".into(),
        Token::AngleBracketClose(_) => ">".into(),
        Token::SquareBracketOpen(_) => "[".into(),
        Token::SquareBracketClose(_) => "]".into(),
        Token::CurlyBracketOpen(_) => "{".into(),
        Token::CurlyBracketClose(_) => "}".into(),
        Token::Comma(_) => ",".into(),
        Token::EOF(_) | Token::Empty(_) => String::new(),
    }
}

pub fn name_of(t: &Token) -> String {
    match t {
        Token::Text(s, _) => format!("Text({s:?})"),
        Token::Module(s, _) => format!("Module({s:?})"),
        Token::Ident(s, _) => format!("Ident({s:?})"),
        Token::EOF(_) => "EOF".into(),
        Token::Empty(_) => "Empty".into(),
        t => format!("'{}'", text_of(t).replace('\n', "\\n")),
    }
}

pub fn loc(t: &Token) -> Location {
    match t {
        Token::Text(_, l) | Token::Module(_, l) | Token::Ident(_, l) => l.clone(),
        Token::NewLine(l) | Token::WhiteSpace(l) | Token::Dot(l) | Token::BackSlash(l) | Token::AngleBracketOpen(l) | Token::AngleBracketClose(l) => l.clone(),
        Token::SquareBracketOpen(l) | Token::SquareBracketClose(l) | Token::CurlyBracketOpen(l) | Token::CurlyBracketClose(l) | Token::Comma(l) => l.clone(),
        Token::EOF(l) | Token::Empty(l) => l.clone(),
    }
}

pub fn c01(src: &str, r: &Result<Vec<Token>, String>) -> Result<(), String> {
    let ts = r.as_ref().map_err(|e| format!("tokenization fails: {e}"))?;
    let eofs = ts.iter().filter(|t| matches!(t, Token::EOF(_))).count();
    if eofs != 1 || !matches!(ts.last(), Some(Token::EOF(_))) {
        return Err(format!("{eofs} end-of-file tokens, last token {:?}", ts.last().map(name_of)));
    }
    let s: String = ts.iter().map(text_of).collect();
    if s != src {
        return Err(format!("the tokens spell {s:?}"));
    }
    Ok(())
}

pub fn c02(src: &str, r: &Result<Vec<Token>, String>) -> Result<(), String> {
    let ts = r.as_ref().map_err(|e| format!("tokenization fails: {e}"))?;
    let g: Vec<&str> = src.graphemes(true).collect();
    let (mut n, mut line, mut col) = (0usize, 0usize, 0usize);
    for t in ts {
        let text = text_of(t);
        let w = text.graphemes(true).count();
        let l = loc(t);
        if (l.start.line, l.start.character) != (line, col) {
            return Err(format!("{} starts at {}:{}, reported {}:{}", name_of(t), line, col, l.start.line, l.start.character));
        }
        if (l.end.line, l.end.character) != (line, col + w) {
            return Err(format!("{} ends at {}:{}, reported {}:{}", name_of(t), line, col + w, l.end.line, l.end.character));
        }
        for _ in 0..w {
            match g.get(n) {
                Some(&"\n") => {
                    line += 1;
                    col = 0;
                }
                Some(_) => col += 1,
                None => return Err(format!("{} lies beyond the end of the document", name_of(t))),
            }
            n += 1;
        }
    }
    if n != g.len() {
        return Err(format!("the tokens cover {n} of {} characters", g.len()));
    }
    Ok(())
}

/// the tokens of a document, without positions
pub fn lex(src: &str) -> Vec<String> {
    let g: Vec<&str> = src.graphemes(true).collect();
    let mut out = vec![];
    let (mut a, mut c, mut s) = (0i64, 0i64, 0i64);
    let mut want_name = false;
    let mut i = 0;
    let mark = |x: &str, inside: bool| matches!(x, "\\" | "<" | ">" | "{" | "}" | "[" | "]" | "\n") || (inside && matches!(x, "." | "," | " "));
    while i < g.len() {
        let inside = a + c + s > 0;
        if mark(g[i], inside) {
            out.push(format!("'{}'", g[i].replace('\n', "\\n")));
            match g[i] {
                "<" => (a, want_name) = (a + 1, true),
                "{" => (c, want_name) = (c + 1, true),
                "[" => (s, want_name) = (s + 1, true),
                ">" => (a, want_name) = ((a - 1).max(0), false),
                "}" => (c, want_name) = ((c - 1).max(0), false),
                "]" => (s, want_name) = ((s - 1).max(0), false),
                "\\" => {
                    if i + 1 < g.len() && mark(g[i + 1], true) && g[i + 1] != "\n" && g[i + 1] != " " {
                        i += 1;
                        out.push(format!("'{}'", g[i]));
                    }
                }
                _ => {}
            }
            i += 1;
            continue;
        }
        // a run of text, up to the next mark
        let start = i;
        loop {
            i += 1;
            let next = if i < g.len() { g[i] } else { "\0" };
            if mark(next, inside) || next == "\0" {
                let t: String = g[start..i].concat();
                if want_name && matches!(next, ">" | "}" | "]" | " " | "\n") {
                    out.push(format!("Ident({t:?})"));
                    want_name = false;
                } else if want_name && next == "." {
                    out.push(format!("Module({t:?})"));
                } else {
                    out.push(format!("Text({t:?})"));
                }
                break;
            }
        }
    }
    out.push("EOF".into());
    out
}

pub fn c03(src: &str, r: &Result<Vec<Token>, String>) -> Result<(), String> {
    let ts = r.as_ref().map_err(|e| format!("tokenization fails: {e}"))?;
    let got: Vec<String> = ts.iter().map(name_of).collect();
    let want = lex(src);
    if got != want {
        let i = (0..got.len().min(want.len())).find(|i| got[*i] != want[*i]).unwrap_or(got.len().min(want.len()));
        return Err(format!("token {i} should be {}, is {}", want.get(i).cloned().unwrap_or("absent".into()), got.get(i).cloned().unwrap_or("absent".into())));
    }
    Ok(())
}
