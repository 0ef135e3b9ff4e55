//! Shared by the harness and by generated programs: how observations are printed, and the protocol.
#![allow(dead_code)]

use lrp::{Meta, Span, Token};
use std::{
    fmt::Write as _,
    io::{BufRead, Write as _},
    panic::{catch_unwind, AssertUnwindSafe},
};
use wop::{Ast, Gramem, RulePipe, Sym};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}
pub fn span(s: Span) -> String {
    format!("[{},{}]", s.start, s.end)
}

// ---------------------------------------------------------------- what was read

pub fn item(g: &Gramem) -> String {
    let Ast::RuleItem(inner, opt, label, cl) = &g.item.item else {
        return format!("{{\"odd\":{}}}", js(&format!("{:?}", g.ty)));
    };
    let what = match (&inner.item.item, inner.ty) {
        (Ast::IdentPath(s), Sym::IdentPath) => format!("\"k\":\"id\",\"at\":{},\"alts\":[]", span(*s)),
        (Ast::Token(Sym::StrLit), Sym::StrLit) => format!("\"k\":\"lit\",\"at\":{},\"alts\":[]", span(inner.item.span)),
        (Ast::Rule(v), Sym::Rule) => format!("\"k\":\"grp\",\"at\":{},\"alts\":{}", span(inner.item.span), alts(v)),
        (_, t) => format!("\"k\":{}", js(&format!("odd {t:?}"))),
    };
    format!(
        "{{{what},\"all\":{},\"opt\":{opt},\"label\":{},\"cl\":{cl}}}",
        span(g.item.span),
        label.map_or_else(|| "[]".to_string(), span)
    )
}
pub fn alts(v: &[RulePipe]) -> String {
    arr(v.iter().map(|(items, code)| format!("{{\"items\":{},\"code\":{}}}", arr(items.iter().map(item)), span(*code))))
}
pub fn program(g: &Gramem) -> String {
    let Ast::Program(p) = &g.item.item else {
        return "\"prog\":[\"odd\"]".into();
    };
    format!(
        "\"prog\":{}",
        arr(p.iter().map(|d| match &d.item.item {
            Ast::Import(s) => format!("{{\"k\":\"use\",\"all\":{},\"path\":{}}}", span(d.item.span), span(*s)),
            Ast::Alias(a, b) => format!("{{\"k\":\"alias\",\"all\":{},\"tk\":{},\"to\":{}}}", span(d.item.span), span(*a), span(*b)),
            Ast::RuleDecl((n, t, v)) => format!(
                "{{\"k\":\"rule\",\"all\":{},\"name\":{},\"ty\":{},\"alts\":{}}}",
                span(d.item.span),
                span(*n),
                span(*t),
                alts(v)
            ),
            _ => "{\"k\":\"odd\"}".into(),
        }))
    )
}

pub fn tokens(src: &str) -> Vec<Gramem> {
    wop::lexer(src).collect()
}
pub fn toks_json(t: &[Gramem]) -> String {
    arr(t.iter().map(|t| {
        // the value of a token is its own kind
        let own = matches!(t.item.item, Ast::Token(k) if k == t.ty);
        format!("[{},{},{},{own}]", js(&format!("{:?}", t.ty)), t.item.span.start, t.item.span.end)
    }))
}

/// The tokens read from the text, edited, given to the parser.
pub fn op_read<D>(src: &str, drop: &[String], build: impl Fn(std::vec::IntoIter<Gramem>) -> D, run: impl Fn(&mut D) -> Result<Gramem, String>) -> String {
    let mut t = tokens(src);
    for d in drop {
        // "-i": drop token i; "=i:j": token i takes the kind of token j; "+i:j": token j again before i
        let (k, r) = d.split_at(1);
        let n: Vec<usize> = r.split(':').map(|x| x.parse().unwrap()).collect();
        if n.iter().any(|&i| i >= t.len()) {
            continue;
        }
        match k {
            "-" => {
                t.remove(n[0]);
            }
            "=" => {
                let ty = t[n[1]].ty;
                t[n[0]] = Token::new(Meta::new(Ast::Token(ty), t[n[0]].item.span), ty);
            }
            "+" => {
                let x = t[n[1]].clone();
                t.insert(n[0], x);
            }
            "^" => t.swap(n[0], n[1]),
            _ => panic!("bad edit {d}"),
        }
    }
    let tj = toks_json(&t);
    let mut d = build(t.into_iter());
    match run(&mut d) {
        Ok(top) => format!("\"toks\":{tj},\"ok\":true,{}", program(&top)),
        Err(e) => format!("\"toks\":{tj},\"ok\":false,\"why\":{}", js(&e)),
    }
}

fn unhex(h: &str) -> String {
    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).expect("utf-8")
}


/// Reads cases, answers one line per operation.
pub fn serve(answer: impl Fn(&str, &[String]) -> String) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let (mut id, mut src, mut ops) = (String::new(), String::new(), Vec::<Vec<String>>::new());
    for l in stdin.lock().lines() {
        let l = l.expect("stdin");
        let w: Vec<String> = l.split_whitespace().map(str::to_string).collect();
        match w.first().map(String::as_str) {
            Some("case") => id = w[1].clone(),
            Some("src") => src = w.get(1).map_or_else(String::new, |h| unhex(h)),
            Some("op") => ops.push(w[1..].to_vec()),
            Some("end") => {
                for (k, op) in ops.iter().enumerate() {
                    let r = catch_unwind(AssertUnwindSafe(|| answer(&src, op)));
                    let body = match r {
                        Ok(b) => b,
                        Err(e) => {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                                .unwrap_or_else(|| "?".into());
                            format!("\"panic\":{}", js(&m))
                        }
                    };
                    let mut o = stdout.lock();
                    writeln!(o, "{{\"case\":{},\"op\":{k},\"name\":{},{body}}}", js(&id), js(&op[0])).unwrap();
                    o.flush().unwrap();
                }
                ops.clear();
            }
            None => {}
            _ => panic!("bad line {l}"),
        }
    }
}
