//! Drives the real wop front end and builder and reports what it observed.
//!
//! Reads cases from stdin (`case ID`, `src HEX`, `op ..`, `end`), answers one JSON object per
//! operation. It judges nothing.

mod view;

use std::str::FromStr;
use view::{arr, js, op_read, serve, tokens, toks_json};
use wop::{builder::Builder, Sym};

fn op_lex(src: &str) -> String {
    format!("\"toks\":{}", toks_json(&tokens(src)))
}

/// The generated code, as text.
fn op_build(src: &str) -> String {
    let mut b = match Builder::from_str(src) {
        Ok(b) => b,
        Err(e) => return format!("\"ok\":false,\"why\":{}", js(&e.to_string())),
    };
    b.entry_type = "crate::Gramem".into();
    format!(
        "\"ok\":true,\"grammar\":{},\"reductor\":{}",
        js(&b.dump_grammar(src)),
        js(&b.dump_reductor(src)),
    )
}

/// The rules compiled into the front end.
fn op_own() -> String {
    let g = wop::out::grammar();
    let m = wop::out::reduct_map();
    let name = |s: &Sym| js(&format!("{s:?}"));
    format!(
        "\"rules\":{},\"start\":{},\"eof\":{},\"reds\":{}",
        arr(g.rules().map(|r| format!("[{},{}]", name(&r.name), arr(r.prods().map(|p| arr(p.0.iter().map(name))))))),
        name(&g.basis().rule),
        arr(g.basis().look.iter().map(name)),
        arr(m.iter().map(|(k, v)| format!("[{},{}]", name(k), v.len()))),
    )
}

fn main() {
    serve(|src, op| match op[0].as_str() {
        "lex" => op_lex(src),
        "read" => op_read(src, &op[1..], wop::build_parser, |d| match d.start() {
            Ok(()) => Ok(d.items[0].clone()),
            Err(e) => Err(e.to_string()),
        }),
        "build" => op_build(src),
        "own" => op_own(),
        o => panic!("bad op {o}"),
    });
}
