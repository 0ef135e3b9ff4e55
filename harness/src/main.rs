//! Drives the real lrp through its public API and reports what it observed.
//!
//! Reads cases from stdin (see `read_case`), runs each operation of a case under `catch_unwind`
//! and writes one JSON object per operation to stdout. It judges nothing: the TLA+ specification
//! decides whether what is reported here is allowed. No hook in lrp is needed.

use lrp::{
    dfa::Error, Action, Clr, Dfa, Grammar, Lalr, Map, Parser, Position, ReductMap, RuleMap, Set, Slr,
    State, Tabler, Token,
};
use std::{
    cell::{Cell, RefCell},
    collections::HashMap,
    fmt::{self, Debug, Write as _},
    io::{BufRead, Write as _},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

// ---------------------------------------------------------------- symbols

/// A symbol type lrp can be instantiated with.
trait Sym: Clone + Ord + Debug + 'static {
    fn mk(name: &str) -> Self;
    fn nm(&self) -> String;
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Str(String);
impl Debug for Str {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Sym for Str {
    fn mk(n: &str) -> Self {
        Self(n.to_string())
    }
    fn nm(&self) -> String {
        self.0.clone()
    }
}

/// Sorts the other way round.
#[derive(Clone, PartialEq, Eq)]
struct Rev(String);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl Debug for Rev {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Sym for Rev {
    fn mk(n: &str) -> Self {
        Self(n.to_string())
    }
    fn nm(&self) -> String {
        self.0.clone()
    }
}

thread_local! {
    static NAMES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static IDS: RefCell<HashMap<String, u32>> = RefCell::new(HashMap::new());
    static SALT: Cell<u32> = const { Cell::new(1) };
    static CALLS: RefCell<Vec<(usize, Vec<String>)>> = const { RefCell::new(Vec::new()) };
}

/// A number whose order has nothing to do with the name's (it depends on the case's salt).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Num(u32, u32);
impl Debug for Num {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.nm())
    }
}
impl Sym for Num {
    fn mk(n: &str) -> Self {
        let id = IDS.with(|m| {
            let mut m = m.borrow_mut();
            let next = m.len() as u32;
            *m.entry(n.to_string()).or_insert_with(|| {
                NAMES.with(|v| v.borrow_mut().push(n.to_string()));
                next
            })
        });
        let mut x = id.wrapping_add(SALT.with(Cell::get)).wrapping_mul(2_654_435_761);
        x ^= x >> 15;
        x = x.wrapping_mul(2_246_822_519);
        x ^= x >> 13;
        Self(x, id)
    }
    fn nm(&self) -> String {
        NAMES.with(|v| v.borrow()[self.1 as usize].clone())
    }
}

// ---------------------------------------------------------------- JSON

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}
fn names<'a, T: Sym>(it: impl IntoIterator<Item = &'a T>) -> String {
    arr(it.into_iter().map(|t| js(&t.nm())))
}

// ---------------------------------------------------------------- cases

struct Case {
    id: String,
    ty: String,
    start: String,
    eof: String,
    nts: Vec<String>,
    /// (rule, body, number in its rule)
    prods: Vec<(String, Vec<String>, usize)>,
    ops: Vec<Vec<String>>,
}

fn read_case(lines: &mut impl Iterator<Item = String>) -> Option<Case> {
    let mut c = Case {
        id: String::new(),
        ty: "str".into(),
        start: String::new(),
        eof: String::new(),
        nts: vec![],
        prods: vec![],
        ops: vec![],
    };
    let mut any = false;
    for l in lines {
        let w: Vec<String> = l.split_whitespace().map(str::to_string).collect();
        let Some(k) = w.first() else { continue };
        match k.as_str() {
            "case" => {
                any = true;
                c.id = w[1].clone();
                c.ty = w[2].clone();
                if let Some(s) = w.get(3) {
                    SALT.with(|x| x.set(s.parse().unwrap()));
                }
            }
            "start" => c.start = w[1].clone(),
            "eof" => c.eof = w[1].clone(),
            "nt" => c.nts.push(w[1].clone()),
            "p" => {
                let i = c.prods.iter().filter(|p| p.0 == w[1]).count();
                c.prods.push((w[1].clone(), w[2..].to_vec(), i));
            }
            "op" => c.ops.push(w[1..].to_vec()),
            "end" => return Some(c),
            _ => panic!("bad line {l}"),
        }
    }
    assert!(!any, "unfinished case");
    None
}

impl Case {
    fn grammar<T: Sym>(&self) -> Grammar<T> {
        let mut map = RuleMap::new();
        for nt in &self.nts {
            let prods: Vec<Vec<T>> = self
                .prods
                .iter()
                .filter(|p| &p.0 == nt)
                .map(|p| p.1.iter().map(|s| T::mk(s)).collect())
                .collect();
            let rule = if prods.len() == 1 {
                lrp::grammar::Rule::single(T::mk(nt), prods[0].clone())
            } else {
                lrp::grammar::Rule::new(T::mk(nt), prods)
            };
            map.insert(T::mk(nt), rule);
        }
        Grammar::new(T::mk(&self.start), map, T::mk(&self.eof))
    }

    /// Number (from 1) of the alternative with this rule, body and declaration number; 0 if none.
    fn prod_no<T: Sym>(&self, rule: &T, prod: &lrp::Production<T>) -> usize {
        let (r, b) = (rule.nm(), prod.0.iter().map(Sym::nm).collect::<Vec<_>>());
        self.prods
            .iter()
            .position(|p| p.0 == r && p.1 == b && p.2 == prod.1)
            .map_or(0, |i| i + 1)
    }

    fn item<T: Sym>(&self, p: &Position<T>) -> String {
        format!("[{},{},{}]", self.prod_no(&p.rule, &p.seq), p.point, names(&p.look))
    }
    fn items<T: Sym>(&self, s: &State<T>) -> String {
        arr(s.iter().map(|p| self.item(p)))
    }

    fn flat<T: Sym>(&self, a: &Action<T>, out: &mut Vec<String>) {
        out.push(match a {
            Action::Shift(n) => format!("[\"s\",{}]", n + 1),
            Action::Goto(n) => format!("[\"g\",{}]", n + 1),
            Action::Reduce(n, p) => format!("[\"r\",{}]", self.prod_no(n, p)),
            Action::Acc => "[\"a\",0]".to_string(),
            Action::Conflict(a, b) => {
                self.flat(a, out);
                self.flat(b, out);
                return;
            }
        });
    }
    fn acts<T: Sym>(&self, a: &Action<T>) -> String {
        let mut v = vec![];
        self.flat(a, &mut v);
        arr(v)
    }

    fn err<T: Sym>(&self, e: &Error<T>) -> String {
        match e {
            Error::UnexpectedToken(t, exp) => {
                format!("{{\"e\":\"tok\",\"t\":{},\"exp\":{}}}", js(&t.nm()), names(exp))
            }
            Error::UnexpectedEof => "{\"e\":\"eof\"}".into(),
            Error::Conflict(a, b) => {
                let mut v = vec![];
                self.flat(a, &mut v);
                self.flat(b, &mut v);
                format!("{{\"e\":\"conf\",\"acts\":{}}}", arr(v))
            }
            Error::MissingPreviousState => "{\"e\":\"prev\"}".into(),
            Error::StateNotSpecified => "{\"e\":\"state\"}".into(),
            Error::IncompleteExec => "{\"e\":\"inc\"}".into(),
        }
    }
    fn res<T: Sym, V>(&self, r: &Result<V, Error<T>>) -> String {
        match r {
            Ok(_) => "{\"e\":\"ok\"}".into(),
            Err(e) => self.err(e),
        }
    }
}

// ---------------------------------------------------------------- semantic actions

type Val = Rc<str>;

/// One action per alternative: builds a node and logs the call.
fn red<const N: usize, T: Sym>(toks: &[Token<Val, T>]) -> Val {
    CALLS.with(|c| c.borrow_mut().push((N, toks.iter().map(|t| t.ty.nm()).collect())));
    let mut s = format!("({N}");
    for t in toks {
        s.push(' ');
        s.push_str(&t.item);
    }
    s.push(')');
    s.into()
}

macro_rules! table {
    ($t:ty; $($h:literal)*) => {
        vec![$(
            red::<{$h * 10}, $t>, red::<{$h * 10 + 1}, $t>, red::<{$h * 10 + 2}, $t>, red::<{$h * 10 + 3}, $t>,
            red::<{$h * 10 + 4}, $t>, red::<{$h * 10 + 5}, $t>, red::<{$h * 10 + 6}, $t>, red::<{$h * 10 + 7}, $t>,
            red::<{$h * 10 + 8}, $t>, red::<{$h * 10 + 9}, $t>
        ),*]
    };
}

fn maps<T: Sym>(c: &Case) -> ReductMap<Val, T> {
    let tab: Vec<fn(&[Token<Val, T>]) -> Val> = table!(T; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29
        30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52);
    c.nts
        .iter()
        .map(|nt| {
            let v = (0..c.prods.len())
                .filter(|&i| &c.prods[i].0 == nt)
                .map(|i| tab[i + 1])
                .collect();
            (T::mk(nt), v)
        })
        .collect()
}

// ---------------------------------------------------------------- token stream

/// Counts what is taken from it, and how often it is asked again after it ended.
#[derive(Clone)]
struct Stream<T> {
    toks: Vec<Token<Val, T>>,
    pos: usize,
    pulled: Rc<Cell<usize>>,
    late: Rc<Cell<usize>>,
    ended: bool,
}
impl<T: Sym> Stream<T> {
    fn new(toks: &[String], tag: &str) -> Self {
        Self {
            toks: toks
                .iter()
                .enumerate()
                .map(|(i, t)| Token::new(format!("{tag}{}", i + 1).into(), T::mk(t)))
                .collect(),
            pos: 0,
            pulled: Rc::default(),
            late: Rc::default(),
            ended: false,
        }
    }
}
impl<T: Sym> Iterator for Stream<T> {
    type Item = Token<Val, T>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.pos < self.toks.len() {
            self.pos += 1;
            self.pulled.set(self.pulled.get() + 1);
            Some(self.toks[self.pos - 1].clone())
        } else {
            if self.ended {
                self.late.set(self.late.get() + 1);
            }
            self.ended = true;
            None
        }
    }
}

// ---------------------------------------------------------------- operations

fn op_gram<T: Sym>(c: &Case) -> String {
    let g = c.grammar::<T>();
    let mut all: Set<T> = g.symbols().collect();
    for p in &c.prods {
        all.extend(p.1.iter().map(|s| T::mk(s)));
        all.insert(T::mk(&p.0));
    }
    all.insert(T::mk("?nowhere"));
    let isterm: Vec<_> = all.iter().filter(|s| g.is_terminal(s)).cloned().collect();
    let rules = arr(g.rules().flat_map(|r| {
        r.prods()
            .map(|p| format!("[{},{},{}]", js(&r.name.nm()), p.1, names(&p.0)))
            .collect::<Vec<_>>()
    }));
    let keys = names(g.rules.keys());
    let rnames = arr(g.rules().map(|r| js(&r.name.nm())));
    let b = g.basis();
    format!(
        "\"terminals\":{},\"symbols\":{},\"isterm\":{},\"probe\":{},\"rules\":{rules},\"keys\":{keys},\"rnames\":{rnames},\"basis\":{}",
        names(&g.terminals),
        arr(g.symbols().map(|s| js(&s.nm()))),
        names(&isterm),
        names(&all),
        c.item(&b),
    )
}

fn table_json<T: Sym>(t: &lrp::Table<T>) -> String {
    arr(t.iter().map(|(k, v)| format!("[{},{}]", js(&k.nm()), names(v))))
}

fn op_sets<T: Sym>(c: &Case) -> String {
    let t = Tabler::new(c.grammar::<T>());
    // FIRST of sets of symbols, as the closures use it
    let mut fo = vec![];
    let syms: Vec<T> = t.grammar.symbols().collect();
    for (i, s) in syms.iter().enumerate() {
        let mut q = Set::from([s.clone()]);
        fo.push(format!("[{},{}]", names(&q), names(&t.first_of(&q))));
        q.insert(syms[(i + 1) % syms.len()].clone());
        fo.push(format!("[{},{}]", names(&q), names(&t.first_of(&q))));
    }
    format!(
        "\"first\":{},\"follow\":{},\"first_of\":{}",
        table_json(&t.first),
        table_json(&t.follow),
        arr(fo)
    )
}

fn rows<T: Sym>(c: &Case, t: &Tabler<T>) -> String {
    arr(t.actions.iter().map(|row| {
        arr(row.iter().map(|(k, a)| format!("[{},{}]", js(&k.nm()), c.acts(a))))
    }))
}

fn op_tab<T: Sym, P: Parser<T>>(c: &Case, compact: usize) -> String {
    let mut p = P::new(c.grammar::<T>());
    let before = p.tables().actions.len();
    for _ in 0..compact {
        p.reduce_equals();
    }
    let t = p.tables();
    let mut confacts = vec![];
    for a in t.conflicts() {
        confacts.push(c.acts(a));
    }
    format!(
        "\"before\":{before},\"nstates\":{},\"rows\":{},\"items\":{},\"conf\":{},\"confacts\":{}",
        t.states.len(),
        rows(c, t),
        arr(t.states.iter().map(|s| c.items(s))),
        t.conflicts().count(),
        arr(confacts),
    )
}

/// A table changed by hand, then compacted again and again: `state/symbol/action` changes a cell,
/// `state/symbol/-` empties it, `state//-` the row, `state//other` copies a row.
fn op_squash<T: Sym, P: Parser<T>>(c: &Case, words: &[String]) -> String {
    let mut p = P::new(c.grammar::<T>());
    let n = p.tables().actions.len();
    for w in words {
        let f: Vec<&str> = w.splitn(3, '/').collect();
        let acts = &mut p.tables_mut().actions;
        let at = f[0].parse::<usize>().unwrap() % n;
        if f[1].is_empty() && f[2] == "-" {
            acts[at].clear();
        } else if f[1].is_empty() {
            acts[at] = acts[f[2].parse::<usize>().unwrap() % n].clone();
        } else if f[2] == "-" {
            acts[at].remove(&T::mk(f[1]));
        } else {
            acts[at].insert(T::mk(f[1]), within(read_act(c, &mut f[2].split(',')), n));
        }
    }
    let show = |t: &Tabler<T>| {
        arr(t.actions.iter().map(|row| arr(row.iter().map(|(k, a)| format!("[{},{}]", js(&k.nm()), act_json(c, a))))))
    };
    let mut rounds = vec![];
    for _ in 0..3 {
        let t = p.tables();
        let (travel, kept) = t.reduced_actions();
        rounds.push(format!(
            "{{\"rows\":{},\"conf\":{},\"confs\":{},\"travel\":{},\"kept\":{},\"nstates\":{}}}",
            show(t),
            t.conflicts().count(),
            arr(t.conflicts().map(|a| act_json(c, a))),
            arr(travel.iter().map(|(a, b)| format!("[{a},{b}]"))),
            kept.len(),
            t.states.len(),
        ));
        p.reduce_equals();
    }
    format!("\"rounds\":{}", arr(rounds))
}
fn within<T>(a: Action<T>, n: usize) -> Action<T> {
    match a {
        Action::Shift(k) => Action::Shift(k % n),
        Action::Goto(k) => Action::Goto(k % n),
        Action::Conflict(a, b) => Action::Conflict(Box::new(within(*a, n)), Box::new(within(*b, n))),
        a => a,
    }
}

fn op_kern<T: Sym, P: Parser<T>>(c: &Case) -> String {
    let p = P::new(c.grammar::<T>());
    let t = p.tables();
    let syms: Vec<T> = t.grammar.symbols().collect();
    let mut look = vec![];
    for (i, st) in t.states.iter().enumerate() {
        for s in &syms {
            let k = Tabler::sym_filter(st, s);
            if k.is_empty() {
                continue;
            }
            let to = p.state_from_kernel(&k).map_or(0, |n| n + 1);
            let fk = p.final_kernel(&k).map_or_else(|| "[]".to_string(), |f| c.items(f));
            look.push(format!("[{},{},{},{},{}]", i + 1, js(&s.nm()), to, c.items(&k), fk));
        }
    }
    // kernels the automaton does not have: moving the dot of every kernel item one further or back
    let mut miss = vec![];
    for k in t.kernels.keys() {
        for d in [1usize, 2] {
            let bogus: State<T> = k
                .iter()
                .map(|q| Position::new(q.rule.clone(), q.seq.clone(), q.point + d, q.look.clone()))
                .collect();
            if bogus.is_empty() {
                continue;
            }
            let to = p.state_from_kernel(&bogus).map_or(0, |n| n + 1);
            miss.push(format!("[{},{to}]", c.items(&bogus)));
        }
    }
    format!(
        "\"look\":{},\"miss\":{},\"kernels\":{},\"rows\":{},\"items\":{}",
        arr(look),
        arr(miss),
        arr(t.kernels.iter().map(|(k, n)| format!("[{},{}]", c.items(k), n + 1))),
        rows(c, t),
        arr(t.states.iter().map(|s| c.items(s))),
    )
}

const FULL: usize = 48;

fn stack_json<T: Sym, I: Iterator<Item = Token<Val, T>>>(d: &Dfa<Val, T, I>) -> String {
    let (ni, ns) = (d.items.len(), d.states.len());
    let (fi, fs) = (ni.saturating_sub(FULL), ns.saturating_sub(FULL));
    format!(
        "\"ni\":{ni},\"ns\":{ns},\"it\":{},\"st\":{},\"top\":{}",
        arr(d.items[fi..].iter().map(|t| js(&t.ty.nm()))),
        arr(d.states[fs..].iter().map(|s| (s + 1).to_string())),
        d.top + 1
    )
}

fn op_run<T: Sym, P: Parser<T>>(c: &Case, compact: usize, toks: &[String]) -> String {
    let mut p = P::new(c.grammar::<T>());
    for _ in 0..compact {
        p.reduce_equals();
    }
    let stream = Stream::<T>::new(toks, "");
    let (pulled, late) = (stream.pulled.clone(), stream.late.clone());
    CALLS.with(|l| l.borrow_mut().clear());
    let mut d = p.dfa(stream.clone(), maps::<T>(c));
    let created = pulled.get();
    let cap = (toks.len() + 2) * (c.prods.len() + 4) * 4 + 100 + 2 * p.tables().actions.len();
    let mut ev: Vec<String> = vec![];
    let calls = || {
        CALLS.with(|l| {
            arr(l
                .borrow_mut()
                .drain(..)
                .map(|(n, tys)| format!("[{n},{}]", arr(tys.iter().map(|t| js(t))))))
        })
    };
    let mut over = false;
    let r = d.trace(|d| {
        if ev.len() > cap {
            over = true;
            // no legitimate run takes this many steps: cut it off by emptying the table
            d.table.clear();
            return;
        }
        ev.push(format!("{{{},\"pulled\":{},\"late\":{},\"calls\":{}}}", stack_json(d), pulled.get(), late.get(), calls()));
    });
    let res = c.res(&r);
    let fin = format!("{{{},\"pulled\":{},\"late\":{},\"calls\":{}}}", stack_json(&d), pulled.get(), late.get(), calls());
    let vals = arr(d.items.iter().map(|t| js(&t.item)));
    let finished = d.finished;
    // what is left to read, the lookahead included
    let left = arr(d.buffer.by_ref().map(|t| js(&t.ty.nm())));
    CALLS.with(|l| l.borrow_mut().clear());
    let (pv, pe) = if over {
        ("\"\"".to_string(), "{\"e\":\"skipped\"}".to_string())
    } else {
        let q = p.parse(Stream::<T>::new(toks, ""), maps::<T>(c));
        let e = c.res(&q);
        (q.map_or_else(|_| "\"\"".to_string(), |v| js(&v)), e)
    };
    CALLS.with(|l| l.borrow_mut().clear());
    let valid = !over && p.validate(lrp::to_tokens(toks.iter().map(|t| T::mk(t))));
    let simple = if over {
        "{\"e\":\"skipped\"}".to_string()
    } else {
        let mut sd = p.simple_dfa(lrp::to_tokens(toks.iter().map(|t| T::mk(t))));
        c.res(&sd.start())
    };
    // the ready-made action that copies the type of the first symbol
    let cl = if over {
        "\"\"".to_string()
    } else {
        let ctoks: Vec<Token<T, T>> = toks.iter().map(|t| Token::new(T::mk(t), T::mk(t))).collect();
        let m = p.cloned::<std::vec::IntoIter<Token<T, T>>>();
        p.parse(ctoks, m).map_or_else(|_| "\"\"".to_string(), |v| js(&v.nm()))
    };
    format!(
        "\"created\":{created},\"over\":{over},\"ev\":{},\"res\":{res},\"fin\":{fin},\"vals\":{vals},\"finished\":{finished},\"left\":{left},\"parse\":{pe},\"value\":{pv},\"valid\":{valid},\"simple\":{simple},\"cloned\":{cl}",
        arr(ev)
    )
}

/// A long input, written `sym*times` (symbols joined by `,`): what is told of the run is a summary.
fn op_long<T: Sym, P: Parser<T>>(c: &Case, compact: usize, words: &[String]) -> String {
    let mut toks: Vec<String> = vec![];
    for w in words {
        let (s, k) = w.rsplit_once('*').unwrap();
        for _ in 0..k.parse::<usize>().unwrap() {
            toks.extend(s.split(',').map(ToString::to_string));
        }
    }
    let mut p = P::new(c.grammar::<T>());
    for _ in 0..compact {
        p.reduce_equals();
    }
    let stream = Stream::<T>::new(&toks, "");
    let (pulled, late) = (stream.pulled.clone(), stream.late.clone());
    CALLS.with(|l| l.borrow_mut().clear());
    let mut d = p.dfa(stream, maps::<T>(c));
    let (mut uneven, mut offtop, mut high, mut ahead, mut turns) = (0, 0, 0, 0, 0usize);
    let mut calls = vec![0usize; c.prods.len()];
    let cap = (toks.len() + 2) * (c.prods.len() + 4) * 4 + 100;
    let mut left = 0;
    let mut look = |d: &mut Dfa<Val, T, Stream<T>>| {
        uneven += usize::from(d.states.len() != d.items.len() + 1);
        offtop += usize::from(d.states.last() != Some(&d.top));
        high = high.max(d.items.len());
        CALLS.with(|l| l.borrow_mut().drain(..).for_each(|(n, _)| calls[n - 1] += 1));
    };
    let r = d.trace(|d| {
        look(d);
        // the tokens whose values are on the stack were read; how many more?
        if turns % 97 == 0 {
            let on: usize = d.items.iter().map(|t| leaves(&t.item).iter().map(|(a, b)| b + 1 - a).sum::<usize>()).sum();
            ahead = ahead.max(pulled.get() - on);
        }
        turns += 1;
        if turns > cap {
            d.table.clear();
        }
    });
    look(&mut d);
    let res = c.res(&r);
    left += d.buffer.by_ref().count();
    let lv = d.items.last().map_or(vec![], |t| leaves(&t.item));
    let q = p.parse(Stream::<T>::new(&toks, ""), maps::<T>(c));
    let mut sd = p.simple_dfa(lrp::to_tokens(toks.iter().map(|t| T::mk(t))));
    CALLS.with(|l| l.borrow_mut().clear());
    format!(
        "\"res\":{res},\"parse\":{},\"simple\":{},\"valid\":{},\"shifted\":{},\"uneven\":{uneven},\"offtop\":{offtop},\"high\":{high},\"ahead\":{ahead},\"late\":{},\"calls\":{},\"leaves\":{}",
        c.res(&q),
        c.res(&sd.start()),
        p.validate(lrp::to_tokens(toks.iter().map(|t| T::mk(t)))),
        toks.len() - left,
        late.get(),
        arr(calls.iter().map(ToString::to_string)),
        arr(lv.iter().take(9).map(|(a, b)| format!("[{a},{b}]"))),
    )
}
/// The tokens of a value, as runs of consecutive numbers.
fn leaves(v: &str) -> Vec<(usize, usize)> {
    let mut out: Vec<(usize, usize)> = vec![];
    for w in v.split(' ').filter(|w| !w.starts_with('(')) {
        let x: usize = w.trim_end_matches(')').parse().unwrap();
        match out.last_mut() {
            Some(l) if l.1 + 1 == x => l.1 = x,
            _ => out.push((x, x)),
        }
    }
    out
}

/// How large the table is: rows, shifts, gotos, reductions, acceptances, conflicts.
fn op_size<T: Sym, P: Parser<T>>(c: &Case, compact: usize) -> String {
    let mut p = P::new(c.grammar::<T>());
    for _ in 0..compact {
        p.reduce_equals();
    }
    let mut n = [p.tables().actions.len(), 0, 0, 0, 0, p.tables().conflicts().count()];
    for a in p.tables().actions.iter().flat_map(Map::values) {
        match a {
            Action::Shift(_) => n[1] += 1,
            Action::Goto(_) => n[2] += 1,
            Action::Reduce(..) => n[3] += 1,
            Action::Acc => n[4] += 1,
            Action::Conflict(..) => (),
        }
    }
    format!("\"size\":{}", arr(n.iter().map(ToString::to_string)))
}

/// Every string over the terminals up to length n that is accepted (by `validate`).
fn op_lang<T: Sym, P: Parser<T>>(c: &Case, n: usize, extra: &[String]) -> String {
    let p = P::new(c.grammar::<T>());
    let mut alpha: Vec<T> = p.tables().grammar.terminals.iter().cloned().collect();
    alpha.extend(extra.iter().map(|s| T::mk(s)));
    alpha.retain(|t| t.nm() != c.eof || extra.contains(&c.eof));
    alpha.sort();
    alpha.dedup();
    let mut acc = vec![];
    let mut total = 0usize;
    let mut layer: Vec<Vec<T>> = vec![vec![]];
    for len in 0..=n {
        for w in &layer {
            total += 1;
            if p.validate(lrp::to_tokens(w.iter().cloned())) {
                acc.push(names(w));
            }
        }
        if len == n {
            break;
        }
        layer = layer
            .into_iter()
            .flat_map(|w| {
                alpha.iter().map(move |t| {
                    let mut x = w.clone();
                    x.push(t.clone());
                    x
                })
            })
            .collect();
    }
    format!("\"conf\":{},\"alpha\":{},\"total\":{total},\"acc\":{}", p.tables().conflicts().count(), names(&alpha), arr(acc))
}

/// For every state of the table: a sentence prefix leading to it, followed by every terminal (and by
/// nothing, an unknown symbol and the end marker as a token). The prefixes are only inputs: whatever
/// the driver does with them is reported.
fn op_probe<T: Sym, P: Parser<T>>(c: &Case, compact: usize, most: usize) -> String {
    let mut p = P::new(c.grammar::<T>());
    for _ in 0..compact {
        p.reduce_equals();
    }
    // a short sentence of every rule
    let mut yields: HashMap<String, Vec<String>> = HashMap::new();
    loop {
        let mut grown = false;
        for (l, r, _) in &c.prods {
            let mut y = vec![];
            let mut ok = true;
            for s in r {
                if c.nts.contains(s) {
                    match yields.get(s) {
                        Some(z) => y.extend(z.iter().cloned()),
                        None => ok = false,
                    }
                } else {
                    y.push(s.clone());
                }
            }
            if ok && yields.get(l).map_or(true, |z| z.len() > y.len()) {
                yields.insert(l.clone(), y);
                grown = true;
            }
        }
        if !grown {
            break;
        }
    }
    let rows = &p.tables().actions;
    let mut access: Vec<Option<Vec<String>>> = vec![None; rows.len()];
    if access.is_empty() {
        return "\"probes\":[]".into();
    }
    access[0] = Some(vec![]);
    let mut queue = std::collections::VecDeque::from([0usize]);
    while let Some(i) = queue.pop_front() {
        let base = access[i].clone().unwrap();
        for (s, a) in &rows[i] {
            if let Action::Shift(j) | Action::Goto(j) = a {
                let n = s.nm();
                let y = if c.nts.contains(&n) { yields.get(&n).cloned() } else { Some(vec![n]) };
                if let (Some(y), Some(slot)) = (y, access.get_mut(*j)) {
                    if slot.is_none() && base.len() + y.len() <= 70 {
                        *slot = Some(base.iter().cloned().chain(y).collect());
                        queue.push_back(*j);
                    }
                }
            }
        }
    }
    let mut words: Vec<Vec<String>> = access.into_iter().flatten().collect();
    words.dedup();
    if words.len() > most {
        // spread over the table
        let n = words.len();
        words = (0..most).map(|k| words[k * n / most].clone()).collect();
    }
    let mut ends: Vec<Option<String>> = vec![None, Some("??".into()), Some(c.eof.clone())];
    let mut terms: Vec<String> = vec![];
    for (_, r, _) in &c.prods {
        for s in r {
            if !c.nts.contains(s) && *s != c.eof && !terms.contains(s) {
                terms.push(s.clone());
            }
        }
    }
    ends.extend(terms.into_iter().take(14).map(Some));
    let mut out = vec![];
    for w in &words {
        let mut each = vec![];
        for t in &ends {
            let mut toks = w.clone();
            toks.extend(t.iter().cloned());
            let stream = Stream::<T>::new(&toks, "");
            CALLS.with(|l| l.borrow_mut().clear());
            let mut d = p.dfa(stream, maps::<T>(c));
            let r = d.start();
            let calls = CALLS.with(|l| l.borrow_mut().drain(..).count());
            each.push(format!(
                "{{\"t\":{},\"res\":{},\"it\":{},\"ns\":{},\"calls\":{calls},\"left\":{}}}",
                t.as_ref().map_or_else(|| "\"\"".to_string(), |t| js(t)),
                c.res(&r),
                arr(d.items.iter().map(|t| js(&t.ty.nm()))),
                d.states.len(),
                arr(d.buffer.by_ref().map(|t| js(&t.ty.nm()))),
            ));
        }
        out.push(format!("[{},{}]", arr(w.iter().map(|s| js(s))), arr(each)));
    }
    format!("\"probes\":{}", arr(out))
}

/// A history of operations on drivers; `words` are separated by `|`.
fn op_hist<T: Sym, P: Parser<T>>(c: &Case, compact: usize, words: &[String]) -> String {
    let mut p = P::new(c.grammar::<T>());
    for _ in 0..compact {
        p.reduce_equals();
    }
    let mut cur = p.dfa(Stream::<T>::new(&[], "0."), maps::<T>(c));
    let mut other = p.dfa(Stream::<T>::new(&[], "0."), maps::<T>(c));
    let mut out = vec![];
    for (k, w) in words.split(|w| w == "|").enumerate() {
        let tag = format!("{}.", k + 1);
        let (name, args) = w.split_first().expect("operation");
        let mut value = String::from("\"\"");
        let mut res = String::from("{\"e\":\"none\"}");
        CALLS.with(|l| l.borrow_mut().clear());
        match name.as_str() {
            "new" => cur = p.dfa(Stream::<T>::new(args, &tag), maps::<T>(c)),
            "parse" => {
                let r = cur.parse(Stream::<T>::new(args, &tag));
                res = c.res(&r);
                if let Ok(v) = r {
                    value = js(&v);
                }
            }
            "start" => res = c.res(&cur.start()),
            "reset" => cur.reset(),
            // single steps, the way `trace` takes them
            "step" => {
                for _ in 0..args[0].parse::<usize>().unwrap() {
                    if cur.finished {
                        break;
                    }
                    let s = cur.buffer.peek().map_or_else(|| cur.eof.clone(), |t| t.ty.clone());
                    let r = cur.travel(&s);
                    res = c.res(&r);
                    if r.is_err() {
                        break;
                    }
                }
            }
            // another input for the same driver, whatever it is doing
            "feed" => cur.buffer = Stream::<T>::new(args, &tag).peekable(),
            // the value of a finished run, taken by hand
            "take" => {
                if cur.finished {
                    if let Some(t) = cur.items.pop() {
                        value = js(&t.item);
                    }
                }
            }
            "clone" => other = cur.clone(),
            "swap" => std::mem::swap(&mut cur, &mut other),
            _ => panic!("bad history op {name}"),
        }
        let left = arr(cur.buffer.clone().map(|t| js(&t.ty.nm())));
        out.push(format!(
            "{{\"o\":{},\"a\":{},\"res\":{res},\"value\":{value},\"it\":{},\"vals\":{},\"ns\":{},\"fin\":{},\"left\":{left}}}",
            js(name),
            arr(args.iter().map(|a| js(a))),
            arr(cur.items.iter().map(|t| js(&t.ty.nm()))),
            arr(cur.items.iter().map(|t| js(&t.item))),
            cur.states.len(),
            cur.finished,
        ));
    }
    format!("\"hist\":{}", arr(out))
}

// ---------------------------------------------------------------- single operations on any table

/// An action, written `s3`, `g2`, `r1` (an alternative's number), `a`, or `c,x,y`.
fn read_act<T: Sym>(c: &Case, w: &mut std::str::Split<char>) -> Action<T> {
    let x = w.next().expect("action");
    let num = || x[1..].parse::<usize>().unwrap();
    match &x[..1] {
        "s" => Action::Shift(num()),
        "g" => Action::Goto(num()),
        "a" => Action::Acc,
        "r" => {
            let (l, r, i) = &c.prods[num() - 1];
            Action::Reduce(T::mk(l), Rc::new((r.iter().map(|s| T::mk(s)).collect(), *i)))
        }
        _ => {
            let a = read_act(c, w);
            Action::Conflict(Box::new(a), Box::new(read_act(c, w)))
        }
    }
}
fn act_json<T: Sym>(c: &Case, a: &Action<T>) -> String {
    match a {
        Action::Shift(n) => format!("{{\"k\":\"s\",\"n\":{n}}}"),
        Action::Goto(n) => format!("{{\"k\":\"g\",\"n\":{n}}}"),
        Action::Acc => "{\"k\":\"a\"}".into(),
        Action::Reduce(n, p) => format!("{{\"k\":\"r\",\"p\":{}}}", c.prod_no(n, p)),
        Action::Conflict(a, b) => format!("{{\"k\":\"c\",\"a\":{},\"b\":{}}}", act_json(c, a), act_json(c, b)),
    }
}

/// `T` rows as `state/symbol/action`, `W` the input, `O` operations separated by `|`.
fn op_ops<T: Sym>(c: &Case, words: &[String]) -> String {
    let cut = |k: &str| words.iter().position(|w| w == k).expect("part");
    let (t, w, o) = (cut("T"), cut("W"), cut("O"));
    let mut table: lrp::ActTable<T> = vec![Map::new(); words[t + 1].parse().unwrap()];
    for x in &words[t + 2..w] {
        let f: Vec<&str> = x.splitn(3, '/').collect();
        table[f[0].parse::<usize>().unwrap()].insert(T::mk(f[1]), read_act(c, &mut f[2].split(',')));
    }
    let mut d = Dfa::new(Stream::<T>::new(&words[w + 1..o], ""), table, maps::<T>(c), T::mk(&c.eof));
    let held = |d: &Dfa<Val, T, Stream<T>>| {
        format!(
            "\"st\":{},\"it\":{},\"va\":{},\"top\":{},\"fin\":{},\"left\":{},\"fmt\":{},\"dbg\":{}",
            arr(d.states.iter().map(ToString::to_string)),
            arr(d.items.iter().map(|t| js(&t.ty.nm()))),
            arr(d.items.iter().map(|t| js(&t.item))),
            d.top,
            d.finished,
            arr(d.buffer.clone().map(|t| js(&t.ty.nm()))),
            js(&d.stack_fmt()),
            js(&d.stack_debug()),
        )
    };
    let mut out = vec![];
    for x in words[o + 1..].split(|w| w == "|") {
        let (name, args) = x.split_first().expect("operation");
        let num = || args[0].parse::<usize>().unwrap();
        let mut ev = vec![];
        let mut value: Val = "".into();
        let r = match name.as_str() {
            // what the driver's public fields allow from outside
            "give" => {
                d.items.push(Token::new(format!("<{}>", args[0]).into(), T::mk(&args[0])));
                Ok(())
            }
            "take" => {
                d.items.pop();
                Ok(())
            }
            "leave" => {
                if d.states.len() > 1 {
                    d.states.pop();
                    d.top = d.states[d.states.len() - 1];
                }
                Ok(())
            }
            "edit" => {
                let row = &mut d.table[num()];
                if args[2] == "-" {
                    row.remove(&T::mk(&args[1]));
                } else {
                    row.insert(T::mk(&args[1]), read_act(c, &mut args[2].split(',')));
                }
                Ok(())
            }
            "copy" => {
                let mut old = d.clone();
                std::mem::swap(&mut old, &mut d);
                // what happens to the other copy is nothing to this one
                let _ = old.buffer.next();
                old.items.clear();
                old.table.clear();
                old.reset();
                Ok(())
            }
            "parse" => d.parse(Stream::<T>::new(args, "")).map(|v| value = v),
            "shift" => d.shift(num()),
            "goto" => d.goto(num()),
            "accept" => d.accept(),
            "travel" => d.travel(&T::mk(&args[0])),
            "reduce" => {
                let (l, r, i) = &c.prods[num() - 1];
                d.reduce(&T::mk(l), &(r.iter().map(|s| T::mk(s)).collect(), *i))
            }
            "reset" => {
                d.reset();
                Ok(())
            }
            "start" => d.trace(|d| {
                if ev.len() > 400 {
                    // no run over these tables is as long: cut it off
                    d.table.clear();
                    return;
                }
                ev.push(format!("{{{}}}", held(d)));
            }),
            o => panic!("bad operation {o}"),
        };
        let res = match &r {
            Err(Error::Conflict(a, b)) => format!("{{\"e\":\"conf\",\"a\":{},\"b\":{}}}", act_json(c, a), act_json(c, b)),
            r => c.res(&r.as_ref().map_err(Clone::clone).copied()),
        };
        let text = r.as_ref().map_or_else(ToString::to_string, |()| String::new());
        out.push(format!(
            "{{\"o\":{},\"ws\":{},\"val\":{},\"a\":{},\"n\":{},\"res\":{res},\"text\":{},{},\"ev\":{}}}",
            js(name),
            arr(args.iter().map(|a| js(a))),
            js(&value),
            js(args.first().map_or("", |a| a)),
            args.first().and_then(|a| a.parse::<usize>().ok()).unwrap_or(0),
            js(&text),
            held(&d),
            arr(ev),
        ));
    }
    format!("\"ops\":{}", arr(out))
}

/// Item-set operations on a given set of items, written p:d:a+b.
fn op_items<T: Sym>(c: &Case, words: &[String]) -> String {
    let g = c.grammar::<T>();
    let mut set = State::new();
    for w in words {
        let f: Vec<&str> = w.split(':').collect();
        let (p, d): (usize, usize) = (f[0].parse().unwrap(), f[1].parse().unwrap());
        let look: Set<T> = f[2].split('+').filter(|s| !s.is_empty()).map(|s| T::mk(s)).collect();
        let (r, _, i) = &c.prods[p - 1];
        let rule = &g.rules[&T::mk(r)];
        set.insert(Position::new(rule.name.clone(), rule.prods[*i].clone(), d, look));
    }
    let merged = <Clr<T> as Parser<T>>::merged(set.clone());
    let merged_l = <Lalr<T> as Parser<T>>::merged(set.clone());
    let mut filt = vec![];
    for s in g.symbols() {
        filt.push(format!("[{},{}]", js(&s.nm()), c.items(&Tabler::sym_filter(&set, &s))));
    }
    let opt = |o: Option<T>| o.map_or_else(|| "\"\"".to_string(), |s| js(&s.nm()));
    let mut facts = vec![];
    for p in &set {
        let n = p.seq.0.len();
        let mut adv = p.clone();
        adv.adv();
        facts.push(format!(
            "{{\"item\":{},\"top\":{},\"next\":{},\"peeks\":{},\"abs\":{},\"fin\":{},\"adv\":{},\"cn\":{},\"nolook\":{},\"with\":{},\"show\":{},\"same\":{}}}",
            c.item(p),
            opt(p.top()),
            opt(p.next()),
            arr((0..=n + 1).map(|k| opt(p.peek(k)))),
            arr((0..=n + 1).map(|k| opt(p.abs_idx(k)))),
            p.finished(),
            c.item(&adv),
            p.clone_next().map_or_else(|| "[]".to_string(), |q| c.item(&q)),
            c.item(&p.no_look()),
            c.item(&p.clone().with_look(Set::from([T::mk("zz"), T::mk("aa")]))),
            js(&format!("{p}")),
            arr(set.iter().map(|q| p.body_eq(q).to_string())),
        ));
    }
    format!(
        "\"in\":{},\"merged\":{},\"merged2\":{},\"filt\":{},\"cores\":{},\"facts\":{}",
        c.items(&set),
        c.items(&merged),
        c.items(&merged_l),
        arr(filt),
        c.items(&Lalr::<T>::without_look(&set)),
        arr(facts),
    )
}

/// Does building a parser of this kind panic?
fn op_build<T: Sym, P: Parser<T>>(c: &Case) -> String {
    let p = P::new(c.grammar::<T>());
    format!("\"built\":{}", p.tables().states.len())
}

fn dispatch<T: Sym>(c: &Case, op: &[String]) -> String {
    macro_rules! kinds {
        ($k:expr, $f:ident, $($a:expr),*) => {
            match $k.as_str() {
                "clr" => $f::<T, Clr<T>>($($a),*),
                "lalr" => $f::<T, Lalr<T>>($($a),*),
                "slr" => $f::<T, Slr<T>>($($a),*),
                k => panic!("bad kind {k}"),
            }
        };
    }
    let num = |i: usize| op[i].parse::<usize>().unwrap();
    match op[0].as_str() {
        "gram" => op_gram::<T>(c),
        "sets" => op_sets::<T>(c),
        "tab" => kinds!(op[1], op_tab, c, num(2)),
        "kern" => kinds!(op[1], op_kern, c),
        "run" => kinds!(op[1], op_run, c, num(2), &op[3..]),
        "size" => kinds!(op[1], op_size, c, num(2)),
        "long" => kinds!(op[1], op_long, c, num(2), &op[3..]),
        "lang" => kinds!(op[1], op_lang, c, num(2), &op[3..]),
        "probe" => kinds!(op[1], op_probe, c, num(2), num(3)),
        "hist" => kinds!(op[1], op_hist, c, num(2), &op[3..]),
        "squash" => kinds!(op[1], op_squash, c, &op[2..]),
        "ops" => op_ops::<T>(c, &op[1..]),
        "items" => op_items::<T>(c, &op[1..]),
        "build" => kinds!(op[1], op_build, c),
        o => panic!("bad op {o}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let _unused: Map<u8, u8> = Map::new();
    let stdin = std::io::stdin();
    let mut lines = stdin.lock().lines().map(|l| l.expect("stdin"));
    let stdout = std::io::stdout();
    while let Some(c) = read_case(&mut lines) {
        for (k, op) in c.ops.iter().enumerate() {
            let r = catch_unwind(AssertUnwindSafe(|| match c.ty.as_str() {
                "str" => dispatch::<Str>(&c, op),
                "rev" => dispatch::<Rev>(&c, op),
                "num" => dispatch::<Num>(&c, op),
                t => panic!("bad type {t}"),
            }));
            let body = match r {
                Ok(b) => b,
                Err(e) => {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                        .unwrap_or_else(|| "?".into());
                    format!("\"panic\":{}", js(&m))
                }
            };
            let mut o = stdout.lock();
            writeln!(o, "{{\"case\":{},\"op\":{k},\"name\":{},{body}}}", js(&c.id), js(&op[0])).unwrap();
            o.flush().unwrap();
        }
    }
}
