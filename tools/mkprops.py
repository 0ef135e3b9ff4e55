#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list in one reviewable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, obs, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=obs, hook_needed=hook)))

G6 = "the unit tests look at six hand-written grammars"

prop("C01", "FIRST and FOLLOW are exact, and computing them always ends",
 "For every grammar without empty alternatives, building the analysis tables terminates and gives each nonterminal exactly the terminals that can begin something derived from it (FIRST) and exactly the terminals or end marker that can come right after it (FOLLOW). This includes direct, mutual and longer cyclic recursion at either end of a rule, nonterminals without alternatives, and rules unreachable from the start.",
 ["programs", "inputs"], "every finite grammar whose alternatives are all non-empty",
 "Needs every grammar, above all every cycle structure between rules; the tests compare six grammars, none with a cycle of three rules (on which the computation used to hang).",
 ["src/tabler.rs", "src/lib.rs"],
 [("first", "FIRST set per nonterminal", "Tabler::first"), ("follow", "FOLLOW set per nonterminal", "Tabler::follow")],
 [("gen_first/first_step/proc_first fixpoint", "src/tabler.rs"), ("gen_follow/follow_step/proc_follow fixpoint", "src/tabler.rs"), ("transitive", "src/lib.rs")],
 ["Tabler::new(grammar).first", "Tabler::new(grammar).follow"])

prop("C02", "Canonical LR(1) tables are exact",
 "For every grammar with a single-alternative start symbol that is used in no rule body, without empty alternatives and without rules that derive no terminal string, the canonical LR parser's automaton is the canonical LR(1) collection: after any viable prefix, the state reached holds exactly the LR(1) items valid for that prefix, and its row offers exactly the shifts, reductions, gotos and acceptance those items call for. No transition is missing, invented or leads to the wrong state.",
 ["programs", "inputs"], "every such grammar; every viable prefix (path from the initial state)",
 "Needs every grammar and every path of the automaton; " + G6 + " and only check that some sentences are accepted, never the tables.",
 ["src/clr.rs", "src/tabler.rs", "src/grammar.rs"],
 [("states", "item sets with lookaheads", "Tabler::states"), ("actions", "action/goto rows", "Tabler::actions"), ("kernels", "kernel to state index", "Tabler::kernels")],
 [("Clr::closure, goto, proc_closures", "src/clr.rs"), ("Clr::decision, proc_actions", "src/clr.rs"), ("Tabler::sym_filter", "src/tabler.rs")],
 ["Clr::new(grammar).tables().states/.actions"])

prop("C03", "LALR(1) tables are the LR(1) tables merged by core",
 "For every such grammar, the LALR parser has exactly one state per distinct core of the canonical LR(1) collection, and each item's lookaheads are exactly the union of those of the LR(1) states sharing the core, whatever order states are discovered and lookaheads arrive in. The action rows are exactly those the merged item sets call for.",
 ["programs", "histories"], "every such grammar, every symbol order (and so every order in which states are discovered and updated)",
 "Lookahead propagation errors appear only when an already processed state is reached again by a new path; " + G6 + " have almost no such path (the propagation used to lose lookaheads in about one random grammar in nine).",
 ["src/lalr.rs", "src/parser.rs", "src/tabler.rs"],
 [("raws", "core to current kernel", "Lalr::raws"), ("kernels", "kernel to state index", "Tabler::kernels"), ("states", "merged item sets", "Tabler::states")],
 [("Lalr::proc_closures worklist", "src/lalr.rs"), ("Lalr::update_state", "src/lalr.rs"), ("Parser::merged", "src/parser.rs")],
 ["Lalr::new(grammar).tables().states/.actions"])

prop("C04", "SLR(1) tables are LR(0) with reductions exactly on FOLLOW",
 "For every such grammar, the SLR parser has exactly one state per set of the LR(0) collection, its shifts and gotos are the LR(0) transitions, and a completed item is reduced on exactly the FOLLOW set of its rule (accepted on the end marker for the start rule).",
 ["programs", "inputs"], "every such grammar; every path of the automaton",
 "Needs every grammar; " + G6 + " and only check that some sentences are accepted.",
 ["src/slr.rs", "src/tabler.rs"],
 [("states", "LR(0) item sets", "Tabler::states"), ("actions", "rows", "Tabler::actions"), ("follow", "FOLLOW", "Tabler::follow")],
 [("Slr::closure, goto, proc_closures", "src/slr.rs"), ("Slr::decision, proc_actions", "src/slr.rs")],
 ["Slr::new(grammar).tables().states/.actions"])

prop("C05", "Conflicts are reported exactly, and never resolved silently",
 "For every grammar and each of the three constructions, a table cell is marked as a conflict if and only if two or more different actions compete for it, it names all of them, and counting the table's conflicts counts exactly those cells. A parse that reaches such a cell stops with a conflict error naming the competing actions and changes nothing; a parse that reaches no such cell never reports one.",
 ["programs", "inputs"], "every grammar (ambiguous and non-LR ones included), every input, all three constructions",
 "The tests count the conflicts of one grammar; three-way conflicts, shift/reduce conflicts, accept/reduce conflicts and duplicate alternatives never occur there.",
 ["src/clr.rs", "src/slr.rs", "src/lalr.rs", "src/dfa.rs", "src/tabler.rs"],
 [("Conflict cell", "nested pair of competing actions", "Action::Conflict")],
 [("proc_actions cell merge", "src/clr.rs, src/slr.rs, src/lalr.rs"), ("Tabler::conflicts", "src/tabler.rs"), ("Dfa::travel on Conflict", "src/dfa.rs")],
 ["tables().actions", "tables().conflicts()", "Dfa::start() error"])

prop("C06", "A conflict-free parser accepts exactly the grammar's language",
 "For every grammar without empty alternatives and each construction whose table has no conflict, a finite token sequence is accepted if and only if it can be derived from the start symbol. Validation, parsing and driving the automaton all give this same verdict.",
 ["programs", "inputs"], "every grammar whose table is conflict-free; every finite token sequence, of any length or nesting",
 "A statement about all sentences and non-sentences; the tests feed about 30 sentences per grammar and not one non-sentence.",
 ["src/dfa.rs", "src/parser.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/tabler.rs"],
 [("states/items", "automaton stack", "Dfa"), ("actions", "table", "Tabler::actions")],
 [("Dfa::trace/travel/shift/reduce/accept", "src/dfa.rs"), ("Parser::parse/validate", "src/parser.rs")],
 ["Parser::validate", "Parser::parse", "Dfa::start"])

prop("C07", "Reductions replay a rightmost derivation and build the right tree",
 "Whenever an input is accepted, the semantic actions called are exactly the alternatives of a rightmost derivation of that input in reverse, each called once with precisely the values and types of its own symbols, left to right. The values then held are the trees of the start alternative's symbols, in which every input token appears exactly once and in order; the value returned is the last of them (the whole tree when the start alternative is a single symbol).",
 ["programs", "inputs"], "every grammar and accepted input, all three constructions; alternatives of any length and number",
 "All tests use an action that ignores its arguments and returns (), so nothing about calls, arguments, alternative numbering or results is checked.",
 ["src/dfa.rs", "src/parser.rs", "src/grammar.rs"],
 [("items", "semantic value stack", "Dfa::items"), ("reductors", "action per (rule, alternative number)", "Dfa::reductors"), ("production index", "declaration number", "Production.1")],
 [("Dfa::reduce", "src/dfa.rs"), ("Rule::new numbering", "src/grammar.rs"), ("Parser::parse result", "src/parser.rs")],
 ["reductor call log", "Parser::parse value", "Dfa::items"])

prop("C08", "Errors are reported at the earliest token, precisely",
 "On rejection, everything shifted before the error is a prefix of some sentence while adding the offending token is not (for grammars whose symbols are all reachable and productive): no construction ever shifts a wrong token. The unexpected-token error names that token (the end marker at end of input) and lists exactly the terminals on which the automaton's current state can act, which for canonical LR are exactly those that can follow the shifted prefix.",
 ["programs", "inputs"], "every conflict-free reduced grammar, every rejected token sequence, every error position",
 "No test feeds a wrong input to any parser, so no error, position or expected list is ever looked at.",
 ["src/dfa.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs"],
 [("top", "current state", "Dfa::top"), ("items", "prefix shifted so far", "Dfa::items")],
 [("Dfa::travel UnexpectedToken", "src/dfa.rs"), ("Dfa::accept IncompleteExec", "src/dfa.rs"), ("Dfa::shift UnexpectedEof", "src/dfa.rs")],
 ["Dfa::start() error", "Dfa::items/buffer after the error"])

prop("C09", "The driver halts without panicking on every token sequence",
 "For every grammar, construction and finite token sequence, including unknown symbols, nonterminal names used as tokens, end markers in the middle, empty input and tables with conflicts, a run ends with acceptance or an error after finitely many steps and never panics. At every step the automaton holds exactly one more state than it holds symbols, the states are those its symbols lead to, and the current state is the topmost one.",
 ["programs", "inputs"], "every grammar, construction and finite token sequence, well-formed or not",
 "The tests feed only sentences; a token named like a nonterminal used to loop for ever.",
 ["src/dfa.rs"],
 [("states", "state stack", "Dfa::states"), ("items", "symbol stack", "Dfa::items"), ("top", "current state", "Dfa::top")],
 [("Dfa::trace/shift/goto/reduce", "src/dfa.rs")],
 ["Dfa::trace callback"])

prop("C10", "A driver can be reused, cloned and restarted without carry-over",
 "Over any history of operations on one driver - parsing inputs one after another (accepted, rejected or in conflict), resetting, restarting after it failed, cloning in mid-parse - each parse gives the verdict, error and value a fresh driver gives for that input alone. Restarting a failed run never turns it into success, and a clone and its original do not affect each other.",
 ["histories", "inputs"], "every sequence of parse, start, reset and clone operations over any inputs",
 "No test runs two inputs through one driver or touches one after it stopped; parsing through a driver used to panic on the first reduction.",
 ["src/dfa.rs"],
 [("states/items/top/finished/buffer", "whole driver state", "Dfa")],
 [("Dfa::reset, Dfa::parse", "src/dfa.rs"), ("Dfa::accept finished flag", "src/dfa.rs"), ("derive(Clone)", "src/dfa.rs")],
 ["Dfa::parse", "Dfa::start", "Dfa::clone"])

prop("C11", "Merging equal rows preserves every parse",
 "Compacting a parser's table by merging states with equal rows, any number of times and for every construction, changes no verdict, error, expected-token list, conflict or semantic-action call for any input. The table never grows: it keeps one row for each distinct row, the start state stays state 0, and every transition of the compacted table (also one inside a recorded conflict) leads to the row that replaces its old target. The same holds for tables whose cells were changed by hand before.",
 ["programs", "inputs", "histories"], "every grammar, construction, input and number of compactions",
 "No test ever compacts a table.",
 ["src/tabler.rs", "src/parser.rs"],
 [("actions", "rows before/after", "Tabler::actions")],
 [("reduced_actions/update_entry/reduce_equals", "src/tabler.rs")],
 ["Parser::reduce_equals then tables().actions and parses"])

prop("C12", "SLR, LALR and canonical LR form a hierarchy and agree",
 "For every grammar, a conflict-free SLR table implies a conflict-free LALR table, which implies a conflict-free canonical LR table. For every input, all constructions that are conflict-free for a grammar (whose rules all derive some terminal string) agree on the verdict, the shifted prefix at an error, and on acceptance on the semantic actions and the result.",
 ["programs", "inputs"], "every grammar and every token sequence",
 "A relation between three table constructions over all grammars; the tests look at each construction alone.",
 ["src/clr.rs", "src/lalr.rs", "src/slr.rs", "src/dfa.rs"],
 [("actions", "rows of the three tables", "Tabler::actions")],
 [("three decision functions", "src/clr.rs, src/lalr.rs, src/slr.rs")],
 ["conflicts().count() and runs of all three parsers"])

prop("C13", "Looking a state up by its kernel agrees with the transitions",
 "For every grammar, construction, state and symbol, advancing the state's items over the symbol and looking up the resulting kernel yields the very state the table's transition leads to, whose items include that kernel (with at least its lookaheads); a kernel the automaton does not have yields nothing. Every state except the initial one is the image of exactly one recorded kernel.",
 ["programs"], "every grammar, construction, state and symbol",
 "The lookup is used only by the demo program; no test calls it.",
 ["src/parser.rs", "src/lalr.rs", "src/tabler.rs"],
 [("kernels", "kernel to state", "Tabler::kernels"), ("raws", "core to kernel", "Lalr::raws")],
 [("state_from_kernel/final_kernel", "src/parser.rs, src/lalr.rs")],
 ["Parser::state_from_kernel", "Parser::final_kernel", "Tabler::sym_filter"])

prop("C14", "A grammar object describes exactly the rules it was given",
 "For every set of rules, the grammar's terminals are exactly the symbols without a rule plus the end marker, its symbols are exactly rule names plus terminals, alternatives keep their order and declaration numbers, and the starting item is the start rule with the end marker as lookahead. Writing the rules with grammar_map!, with literals or with names of constants, in any order, gives the same grammar. Rules with an empty alternative, an undefined start, or a start without alternatives never yield a parser: construction stops with a panic.",
 ["inputs"], "every rule set, start and end marker",
 "The tests never look at the grammar object and never build a malformed one.",
 ["src/grammar.rs", "src/tabler.rs", "src/lib.rs"],
 [("terminals/symbols/basis", "derived description", "Grammar")],
 [("Grammar::new", "src/grammar.rs"), ("Rule::new, Rule::single", "src/grammar.rs"), ("assert in gen_first", "src/tabler.rs"), ("grammar_map!", "src/lib.rs")],
 ["Grammar fields", "is_terminal", "panic on malformed rules"])

prop("C15", "Parsing is on-line: at most one token is read ahead",
 "At every point of every run, the tokens taken from the input are exactly those already shifted plus at most the single lookahead, in order; an error is reported without reading past the offending token, which is left unconsumed. Nothing is read from an input once it has ended or the run has finished.",
 ["inputs", "histories"], "every grammar, construction, input stream and point of the run",
 "Tests pass complete vectors and see only the final verdict.",
 ["src/dfa.rs", "src/parser.rs"],
 [("buffer", "peekable token stream", "Dfa::buffer")],
 [("Dfa::trace peek, Dfa::shift next, Dfa::accept peek", "src/dfa.rs")],
 ["counting iterator given to Parser::dfa", "Dfa::buffer after the run"])

prop("C16", "Item-set operations are exact",
 "For every item set, merging it gives one item per distinct body with the union of the lookaheads, advancing it over a symbol gives exactly the items that have that symbol next, moved by one, and dropping lookaheads gives its cores; nothing is lost or invented. Single items report their current symbol, following symbols, completion and printed form consistently with their body and position.",
 ["inputs"], "every set of items over any grammar, any lookaheads, any position",
 "The operations have no test of their own; table construction exercises only the item sets of six grammars.",
 ["src/pos.rs", "src/parser.rs", "src/tabler.rs", "src/lalr.rs"],
 [("Position", "rule, alternative, dot, lookaheads", "src/pos.rs")],
 [("Parser::merged", "src/parser.rs"), ("Tabler::sym_filter", "src/tabler.rs"), ("Lalr::without_look", "src/lalr.rs"), ("Position methods", "src/pos.rs")],
 ["Parser::merged", "Tabler::sym_filter", "Lalr::without_look", "Position API"])

prop("C17", "Tables depend on the grammar, not on symbol names or their order",
 "Renaming the symbols of a grammar by any one-to-one map, whatever it does to their sort order, and whatever type represents them, gives tables that are the same up to that renaming and the numbering of states: same states, lookaheads, actions, conflicts and verdicts.",
 ["programs", "configurations"], "every grammar and every bijective renaming (order-preserving or not), string and non-string symbol types",
 "Every test uses string literals in one order; construction iterates ordered maps, so a dependence on the order cannot show.",
 ["src/lalr.rs", "src/clr.rs", "src/slr.rs", "src/tabler.rs", "src/grammar.rs"],
 [("symbols", "ordered symbol set driving the worklists", "Grammar::symbols")],
 [("symbol-ordered worklists", "src/clr.rs, src/slr.rs, src/lalr.rs")],
 ["tables() of the renamed grammar"])

prop("W01", "The wop lexer splits every text into the right tokens",
 "For every source text, the tokens produced are the longest-match split of the text into keywords, punctuation, identifiers, string literals and code blocks, with whitespace, line comments and block comments skipped, each token's span being exactly its text. A block comment ends at its first '*/', a string at its first unescaped quote, a code block at its first '}%'; text that fits none of these yields an error token.",
 ["inputs"], "every source text",
 "The tests lex eight string literals and check that one file has no error token; spans, code blocks and comment ends are never checked ('/***/' and '}}%' used to run on into what followed).",
 ["wop/src/lib.rs"],
 [("Sym", "token kinds", "wop/src/lib.rs")],
 [("logos attributes on Sym", "wop/src/lib.rs"), ("lexer()", "wop/src/lib.rs")],
 ["wop::lexer(src)"])

prop("W02", "The wop front end reads every grammar file faithfully",
 "For every well-formed grammar file, the result holds exactly its imports, token aliases and rules, with each rule's type, alternatives in order, code blocks, and each item's symbol, optional mark, label and clone mark as written. Every ill-formed token sequence is refused with an error rather than accepted or crashing.",
 ["inputs", "programs"], "every token sequence of the grammar-description language",
 "The generated front end (tables, reductors) has no test at all; the label of an item without '&' used to be read as cloned.",
 ["wop/src/out.rs", "wop/src/lib.rs", "wop/src/builder.rs"],
 [("Ast", "syntax tree", "wop/src/lib.rs"), ("Builder", "aliases, rules, imports", "wop/src/builder.rs")],
 [("generated grammar() and reduct_map()", "wop/src/out.rs"), ("Builder::from_str/process", "wop/src/builder.rs")],
 ["wop::build_parser", "Builder::from_str"])

prop("W03", "A rule expands to exactly the alternatives it describes",
 "For every rule built from symbols, literals, optional items, groups and nested alternatives, the plain alternatives generated are exactly the choices the rule describes, each once per choice and in order of choice (present before absent, first alternative first), with the token aliases declared before the rule substituted. Each carries the code block and type of the alternative it came from.",
 ["programs", "inputs"], "every rule declaration, any nesting of groups and optionals",
 "The expansion is only compiled, never run, by the tests.",
 ["wop/src/builder.rs"],
 [("rules", "expanded alternatives per rule", "Builder::rules")],
 [("rule_decl/get_production/get_from_single_production", "wop/src/builder.rs")],
 ["Builder::from_str(src).rules", "Builder::dump_grammar"])

prop("W04", "A label is bound to exactly what it labels, in every alternative",
 "In every alternative generated from a rule, each label of that alternative is visible to the code block and is bound to exactly the symbol (or, for a group, the run of symbols) it labels there, or to nothing when that part is absent. It is an option exactly when its part is optional or inside a group, owned exactly when marked with '&', and has the same type in all alternatives sharing the code block.",
 ["programs", "inputs"], "every rule declaration with distinct labels per path, any nesting of groups, optionals and clone marks; every parse using it",
 "No test runs generated code; labels under nested optionals used to be bound to unrelated or missing tokens.",
 ["wop/src/builder.rs"],
 [("ItemAlias", "label, index range, optional, clone", "wop/src/builder.rs")],
 [("push_alias, set_sub_aliases, ItemAlias::write", "wop/src/builder.rs")],
 ["running the code of Builder::dump_reductor"])

prop("W05", "Generated parsers accept the described language and run its code",
 "For every grammar description, compiling the generated grammar and reductors gives a parser that accepts exactly the sentences the description denotes and runs, for each recognised alternative, the code block written for it, with the value's span covering exactly the matched tokens. Rules, alternatives and reductors line up one to one.",
 ["programs", "inputs"], "every grammar description with an LR-parsable expansion, every input",
 "Needs generated code to be compiled and run; the tests never generate any.",
 ["wop/src/builder.rs", "src/dfa.rs", "src/slr.rs"],
 [("dumped source", "RuleMap and ReductMap expressions", "Builder::dump_grammar/dump_reductor")],
 [("write_rule, write_rule_reduction", "wop/src/builder.rs")],
 ["compiled output of dump_grammar/dump_reductor"])

prop("W06", "wop reproduces its own front end",
 "Feeding wop its own grammar description yields exactly the rules of the front end compiled into it, and a front end built from that output reads every grammar file the way the compiled-in one does. Generation is repeatable: the same description always yields equivalent output.",
 ["programs", "inputs"], "every grammar file, read by the compiled-in and by the regenerated front end",
 "The bootstrap test only checks that the file lexes without error tokens.",
 ["wop/src/out.rs", "wop/src/wop.grammar", "wop/src/builder.rs"],
 [("out.rs", "compiled-in front end", "wop/src/out.rs")],
 [("generation from wop.grammar", "wop/src/main.rs, wop/src/builder.rs")],
 ["out::grammar() vs Builder over wop.grammar", "regenerated front end"])

prop("W07", "Contradictory grammar descriptions are refused, never overwritten",
 "A description that defines a rule twice, aliases the same text twice, leaves a top-level alternative without a code block, or puts a code block inside a group is refused by stopping with a panic message; it never yields generated code in which one definition silently replaced another. Descriptions without such a contradiction are never refused on these grounds.",
 ["inputs", "programs"], "every grammar description, every position and number of contradictions",
 "No test builds anything from a description.",
 ["wop/src/builder.rs"],
 [("aliases, rules", "definitions seen so far", "Builder")],
 [("assertions in rule_decl, token_decl, get_from_single_production", "wop/src/builder.rs")],
 ["Builder::from_str panic or result"])

prop("W08", "The wop tool writes a front end exactly when the file describes one",
 "For every grammar file, the command-line tool ends successfully if and only if the file is there, is text (UTF-8), is well-formed, free of contradictions and its output could be written. Then out.rs holds, whatever it held before, exactly the described rules (with EntryPoint as the start and Eof as the end marker) and their reductors. Otherwise it ends with a failure status, and for a file it refuses out.rs stays as it was.",
 ["inputs", "programs"], "every grammar file, every previous content of out.rs, a full disk",
 "No test runs the tool; it used to build a front end from the readable part of an ill-formed file.",
 ["wop/src/main.rs", "wop/src/builder.rs"],
 [("out.rs", "the generated front end, in the working directory", "wop/src/main.rs")],
 [("main", "wop/src/main.rs")],
 ["exit status", "out.rs before and after"])

prop("C18", "The driver executes any table exactly, operation by operation",
 "For every action table (rows for states, any action per terminal, gotos for nonterminals; not only tables made from a grammar), every input and every sequence of the driver's operations (shift, goto, reduce, accept, travel, start, reset, parse, clone), mixed in any way with changes made from outside to its public fields (symbols and states pushed or popped, table cells edited), each operation does exactly what it is documented to do: the states, symbols, values, top, finished flag and unread tokens are those of a pushdown machine, and each documented error is given exactly when it applies, leaving all that as it was. Nothing panics. (After a reduction that finds no goto nothing is claimed; how soon a cycle is noticed is left open.)",
 ["programs", "inputs", "histories"], "every such table with non-empty alternatives and a reductor for each, every input, every history of operations",
 "The tests only run whole parses over tables of well-behaved grammars; the operations are public and tables can be loaded, edited or written by hand. Reducing more symbols than the stack holds used to panic.",
 ["src/dfa.rs"],
 [("states, items, top, buffer, finished", "the pushdown machine", "Dfa"), ("table", "rows of actions", "Dfa::table")],
 [("shift, goto, reduce, accept, travel, trace, reset, parse", "src/dfa.rs")],
 ["Dfa's public fields and results after each operation"])

prop("C19", "Printed stacks and error messages say what the driver holds",
 "At every moment of every run, stack_fmt lists the states and symbols from the bottom up in turn, stack_debug the states and whole tokens, each complete and in order, also when there are more states than symbols or the other way round, as after changes from outside; and every error's message names exactly the token, expected tokens or competing actions the error holds, both actions in order.",
 ["inputs", "histories"], "every table, every input, every history of operations",
 "No test looks at any printed form.",
 ["src/dfa.rs", "src/lib.rs"],
 [("states, items", "what is printed", "Dfa")],
 [("stack_fmt, stack_debug", "src/dfa.rs"), ("Display for Error", "src/dfa.rs"), ("Debug for Token", "src/lib.rs")],
 ["Dfa::stack_fmt()", "Dfa::stack_debug()", "Error::to_string()"])

prop("C20", "The lrp tool shows its tables and every step of every input",
 "For every input over its brackets, the lrp command-line tool prints, first, the exact FIRST and FOLLOW sets, goto listing, item sets and LALR action table of its grammar, each cell under the title of its symbol, and then, for each line it is given, one table with exactly the steps the parser takes on it (number, stack, what is left, where it looks and what it does there) and the outcome: ok, or the error. It ends when its input ends.",
 ["inputs"], "every sequence of lines over the characters the tool knows",
 "No test runs the tool; it used to print traces for ever once its input had ended.",
 ["src/main.rs", "src/dfa.rs"],
 [("the parser's run", "traced step by step", "print_proc_dfa")],
 [("main, print_tokens_table, print_states_table, print_actions_table, print_proc_dfa", "src/main.rs"), ("Dfa::trace", "src/dfa.rs")],
 ["standard output", "exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
