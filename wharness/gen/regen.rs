//! A front end generated from wop's own description, reading files like the compiled-in one.
#![allow(dead_code, unused, clippy::all)]
#[path = "VIEW"]
mod view;
pub use lrp::{Grammar, Meta, Parser, ReductMap, Slr, Span};
pub use wop::{Ast, Gramem, Sym};

mod out {
    use crate::{Ast, Gramem, Meta, Sym};
    use lrp::{Grammar, ReductMap, Span};
    pub fn grammar() -> Grammar<Sym> {
        Grammar::new(Sym::EntryPoint, GRAMMAR, Sym::Eof)
    }
    pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> REDUCTOR
}

fn main() {
    let parser = Slr::new(out::grammar());
    view::serve(|src, op| match op[0].as_str() {
        "read" => view::op_read(src, &op[1..], |t| parser.dfa(t, out::reduct_map()), |d| match d.start() {
            Ok(()) => Ok(d.items[0].clone()),
            Err(e) => Err(e.to_string()),
        }),
        o => panic!("bad op {o}"),
    });
}
