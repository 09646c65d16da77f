//! Drives the dot lexer (C26, C27). Texts are given and tokens reported as sequences of code points.
use crate::json::J;
use crate::{guarded, obj, Out};
use dot_parser::lexer::{Lexer, Token};

fn cps(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as i64).collect()
}

fn token(t: &Token) -> J {
    let (k, v) = match t {
        Token::LCurly => ("lcurly", vec![]),
        Token::RCurly => ("rcurly", vec![]),
        Token::LSquare => ("lsquare", vec![]),
        Token::RSquare => ("rsquare", vec![]),
        Token::Equals => ("equals", vec![]),
        Token::Comma => ("comma", vec![]),
        Token::Arrow => ("arrow", vec![]),
        Token::Semicolon => ("semicolon", vec![]),
        Token::Ident(s) => ("ident", cps(s)),
        Token::String(s) => ("string", cps(s)),
        Token::Integer(i) => ("integer", cps(&i.to_string())),
        Token::Float(f) => ("float", cps(&f.to_string())),
        _ => ("other", vec![]),
    };
    obj! {"t": k, "v": v}
}

fn render(t: &Token) -> String {
    match t {
        Token::LCurly => "{".into(),
        Token::RCurly => "}".into(),
        Token::LSquare => "[".into(),
        Token::RSquare => "]".into(),
        Token::Equals => "=".into(),
        Token::Comma => ",".into(),
        Token::Arrow => "->".into(),
        Token::Semicolon => ";".into(),
        Token::Ident(s) => s.clone(),
        Token::String(s) => format!("\"{}\"", s),
        Token::Integer(i) => i.to_string(),
        Token::Float(f) => {
            let s = f.to_string();
            if s.contains('.') { s } else { s + ".0" }
        }
        _ => "?".into(),
    }
}

/// What write_errors says: the position of each line that has one.
fn positions(lx: &Lexer) -> J {
    let mut s = String::new();
    let r = guarded(|| lx.write_errors(&mut s).is_ok());
    let mut v: Vec<Vec<i64>> = vec![];
    if r != Ok(true) {
        v.push(vec![-1, -1]);
    }
    for l in s.lines() {
        let p = l
            .strip_prefix('(')
            .and_then(|x| x.split_once(')'))
            .and_then(|(x, _)| x.split_once(','))
            .and_then(|(a, b)| Some((a.trim().parse::<i64>().ok()?, b.trim().parse::<i64>().ok()?)));
        v.push(p.map(|(a, b)| vec![a, b]).unwrap_or(vec![0, 0]));
    }
    J::from(v)
}

pub fn run(case: &J, o: &mut Out) {
    let text: String = case.get("text").ints().iter().map(|c| char::from_u32(*c as u32).expect("harness: code point")).collect();
    o.emit(obj! {"ev": "open", "text": case.get("text").clone()});
    let mut lx = Lexer::new(&text);
    let mut toks: Vec<Token> = vec![];
    let mut clean = true;
    let mut ends = 0;
    // Every failing call consumes something, so a lexer that obeys the property ends within this many calls.
    for i in 0..text.chars().count() + 3 {
        let before = lx.errors().len();
        // The inherent method and the iterator are the same thing.
        let r = guarded(|| if i % 2 == 0 { lx.next() } else { Iterator::next(&mut lx) });
        let mut ev = obj! {"ev": "next", "panic": r.is_err()};
        if let Ok(r) = r {
            let after = lx.errors().len();
            ev.push("errs", after);
            ev.push("has", lx.has_errors());
            ev.push("some", r.is_some());
            match r {
                Some(t) => {
                    ev.push("tok", token(&t));
                    toks.push(t);
                }
                None if after > before => clean = false,
                None => ends += 1,
            }
            o.emit(ev);
            if ends == 2 {
                break;
            }
        } else {
            o.emit(ev);
            break;
        }
    }
    o.emit(obj! {"ev": "errors", "pos": positions(&lx)});
    if clean {
        // Render what was read, with some other white space, and read it again.
        let sep = [" ", "\n", "\t ", "\u{2003}"];
        let mut s = String::new();
        for (i, t) in toks.iter().enumerate() {
            s += &render(t);
            s += sep[(i + toks.len()) % 4];
        }
        let r = guarded(|| {
            let mut l2 = Lexer::new(&s);
            let v: Vec<Token> = l2.by_ref().collect();
            (v == toks, l2.has_errors())
        });
        o.emit(obj! {"ev": "again", "same": r == Ok((true, false))});
    }
}
