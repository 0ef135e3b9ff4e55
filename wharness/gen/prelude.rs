//! What every generated program starts with: the values the code blocks build, and the protocol.
#![allow(dead_code, unused, non_upper_case_globals, non_snake_case, clippy::all)]

use std::{fmt::Write as _, io::{BufRead, Write as _}, panic::{catch_unwind, AssertUnwindSafe}, rc::Rc};

pub type Sym = &'static str;
fn mk(s: &'static str) -> Sym { s }
pub type Gramem = lrp::Token<lrp::Meta<Ast>, Sym>;

/// A token of the input, or what a code block made.
#[derive(Clone, Debug)]
pub enum Ast {
    Leaf(usize),
    Node(Rc<Nd>),
}
#[derive(Debug)]
pub struct Nd {
    pub block: usize,
    pub kids: Vec<Gramem>,
    pub labels: Vec<(&'static str, String)>,
}

/// Called by every code block.
pub fn node(block: usize, toks: &[Gramem], labels: Vec<(&'static str, String)>) -> Ast {
    Ast::Node(Rc::new(Nd { block, kids: toks.to_vec(), labels }))
}

/// How a label is bound: its type, and the spans of what it holds.
pub trait Show {
    fn show(&self) -> String;
}
fn bound(opt: bool, own: bool, run: bool, some: bool, toks: &[Gramem]) -> String {
    let at: Vec<String> = toks.iter().map(|t| format!("[{},{},{}]", t.item.span.start, t.item.span.end, js(&t.ty))).collect();
    format!("\"opt\":{opt},\"own\":{own},\"run\":{run},\"some\":{some},\"at\":[{}]", at.join(","))
}
impl Show for Gramem {
    fn show(&self) -> String { bound(false, true, false, true, std::slice::from_ref(self)) }
}
impl Show for &Gramem {
    fn show(&self) -> String { bound(false, false, false, true, std::slice::from_ref(*self)) }
}
impl Show for Vec<Gramem> {
    fn show(&self) -> String { bound(false, true, true, true, self) }
}
impl Show for &[Gramem] {
    fn show(&self) -> String { bound(false, false, true, true, self) }
}
impl Show for Option<Gramem> {
    fn show(&self) -> String { bound(true, true, false, self.is_some(), self.as_ref().map_or(&[], |t| std::slice::from_ref(t))) }
}
impl Show for Option<&Gramem> {
    fn show(&self) -> String { bound(true, false, false, self.is_some(), self.map_or(&[], |t| std::slice::from_ref(t))) }
}
impl Show for Option<Vec<Gramem>> {
    fn show(&self) -> String { bound(true, true, true, self.is_some(), self.as_deref().unwrap_or(&[])) }
}
impl Show for Option<&[Gramem]> {
    fn show(&self) -> String { bound(true, false, true, self.is_some(), self.unwrap_or(&[])) }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

fn made(a: &Ast) -> String {
    match a {
        Ast::Leaf(i) => format!("\"leaf\":{i}"),
        Ast::Node(n) => format!(
            "\"block\":{},\"kids\":{},\"labels\":{}",
            n.block,
            arr(n.kids.iter().map(tok)),
            arr(n.labels.iter().map(|(l, b)| format!("{{\"n\":{},{b}}}", js(l)))),
        ),
    }
}
fn tok(t: &Gramem) -> String {
    format!("{{\"ty\":{},\"s\":{},\"e\":{},{}}}", js(&t.ty), t.item.span.start, t.item.span.end, made(&t.item.item))
}

fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_else(|| "?".into());
        format!("\"panic\":{}", js(&m))
    })
}

pub type Rules = fn() -> lrp::RuleMap<Sym>;
pub type Reds = fn() -> lrp::ReductMap<lrp::Meta<Ast>, Sym>;

/// The generated grammar and reductors: every alternative, and what its reductor makes of it.
fn op_expand(rules: Rules, reds: Reds) -> String {
    let (rules, reds) = (rules(), reds());
    arr_named("rules", rules.iter().map(|(k, r)| {
        let name: Sym = *k;
        let alts: Vec<Vec<Sym>> = r.prods().map(|p| p.0.clone()).collect();
        let fns = reds.get(k).map_or(0, Vec::len);
        let made = alts.iter().enumerate().map(|(i, body)| {
            let toks: Vec<Gramem> = body.iter().enumerate()
                .map(|(j, s)| lrp::Token::new(lrp::Meta::new(Ast::Leaf(j + 1), lrp::Span::new(10 * j + 3, 10 * j + 7)), *s))
                .collect();
            let out = quiet(|| {
                let m = reds[k][i](&toks);
                format!("\"s\":{},\"e\":{},{}", m.span.start, m.span.end, made(&m.item))
            }).unwrap_or_else(|e| e);
            format!("{{\"body\":{},\"i\":{i},{out}}}", arr(body.iter().map(|s| js(s))))
        });
        format!("{{\"name\":{},\"key\":{},\"fns\":{fns},\"alts\":{}}}", js(&r.name), js(&name), arr(made))
    })) + &format!(",\"redkeys\":{}", arr(reds.keys().map(|k| js(k))))
}
fn arr_named(n: &str, it: impl Iterator<Item = String>) -> String {
    format!("\"{n}\":{}", arr(it))
}

/// Runs the generated parser; the tokens' spans are given with them (`kind:start:end`).
fn op_parse<P: lrp::Parser<Sym>>(start: Sym, rules: Rules, reds: Reds, words: &[&str]) -> String {
    let p = P::new(lrp::Grammar::new(start, rules(), mk("$")));
    let toks: Vec<Gramem> = words.iter().enumerate().map(|(i, w)| {
        let mut f = w.rsplitn(3, '@');
        let (e, s) = (f.next().unwrap().parse().unwrap(), f.next().unwrap().parse().unwrap());
        let k = mk(Box::leak(f.next().unwrap().to_string().into_boxed_str()));
        lrp::Token::new(lrp::Meta::new(Ast::Leaf(i + 1), lrp::Span::new(s, e)), k)
    }).collect();
    let conf = p.tables().conflicts().count();
    let mut d = p.dfa(toks.into_iter(), reds());
    let r = d.start();
    match r {
        Ok(()) => format!("\"conf\":{conf},\"ok\":true,\"top\":{}", arr(d.items.iter().map(tok))),
        Err(e) => format!("\"conf\":{conf},\"ok\":false,\"why\":{}", js(&e.to_string())),
    }
}

/// What a whole file says besides its rules: the start rule and the end marker.
pub type Basis = fn() -> (Sym, Vec<Sym>);
fn op_basis(b: Option<Basis>) -> String {
    let (s, e) = b.expect("a whole file")();
    format!("\"start\":{},\"eof\":{}", js(&s), arr(e.iter().map(|x| js(x))))
}

pub struct Entry(pub &'static str, pub Rules, pub Reds, pub Option<Basis>);

pub fn serve(entries: &[Entry]) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut cur = None;
    let mut id = String::new();
    let mut ops: Vec<String> = vec![];
    for l in stdin.lock().lines() {
        let l = l.expect("stdin");
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            Some(&"case") => {
                id = w[1].to_string();
                cur = entries.iter().find(|e| e.0 == w[2]);
            }
            Some(&"op") => ops.push(l.clone()),
            Some(&"end") => {
                for (k, op) in ops.iter().enumerate() {
                    let w: Vec<&str> = op.split_whitespace().skip(1).collect();
                    let e = cur.expect("known case");
                    let start = |s: &str| mk(Box::leak(s.to_string().into_boxed_str()));
                    let body = quiet(|| match w[0] {
                        "basis" => op_basis(e.3),
                        "expand" => op_expand(e.1, e.2),
                        "parse" => match w[1] {
                            "clr" => op_parse::<lrp::Clr<Sym>>(start(w[2]), e.1, e.2, &w[3..]),
                            "lalr" => op_parse::<lrp::Lalr<Sym>>(start(w[2]), e.1, e.2, &w[3..]),
                            _ => op_parse::<lrp::Slr<Sym>>(start(w[2]), e.1, e.2, &w[3..]),
                        },
                        o => panic!("bad op {o}"),
                    }).unwrap_or_else(|e| e);
                    let mut o = stdout.lock();
                    writeln!(o, "{{\"case\":{},\"op\":{k},\"name\":{},{body}}}", js(&id), js(w[0])).unwrap();
                    o.flush().unwrap();
                }
                ops.clear();
            }
            None => {}
            _ => panic!("bad line {l}"),
        }
    }
}
