T = "TLA+ specification (TLC): "
TRUST = " Trusts the TLA+ definitions, TLC and the harness's recording (public API only); bounded by the grammars and inputs explored, which are fixed, enumerated and seeded-random."
NOTES = {
 "C01": (T + "FIRST/FOLLOW as least fixpoints; tables of the real code checked against them", "Exact comparison of both sets for every grammar explored, including all cycle shapes through three and four rules; non-termination is seen as a timeout." + TRUST),
 "C02": (T + "canonical LR(1) collection; lock-step walk over the real automaton", "Every state reachable from the initial one is paired with the specification's: items, lookaheads, shifts, gotos, reductions, acceptance." + TRUST),
 "C03": (T + "LR(1) collection merged by core; lock-step walk over the real automaton", "As C02, for LALR(1)." + TRUST),
 "C04": (T + "LR(0) collection and FOLLOW; lock-step walk over the real automaton", "As C02, for SLR(1)." + TRUST),
 "C05": (T + "competing actions per cell; trace validation of runs that reach a conflict", "Cell by cell over the code's own table and items, counts included; runs stop exactly at those cells." + TRUST),
 "C06": (T + "Earley recognition and derivation; all strings up to a length replayed into the parser", "Verdict of parse, validate and start against derivability for all short strings and many longer ones." + TRUST),
 "C07": (T + "driver with semantic values; trace validation of every step", "Every action call, its arguments, the resulting value and the rightmost derivation are checked." + TRUST),
 "C08": (T + "viable prefixes by Earley; trace validation of failing runs", "Token, position, expected list and what is left unread, for all rejected inputs explored." + TRUST),
 "C09": (T + "driver state machine; trace validation of every step", "Every run is followed step by step on inputs of all kinds; hangs and panics are recorded as such." + TRUST),
 "C10": (T + "two-driver history machine; recorded histories validated", "Histories of parse, new, start, reset, step, clone and swap replayed into real drivers and followed operation by operation." + TRUST),
 "C11": (T + "driver; runs on compacted and original tables compared, rows unfolded", "The compacted table is bisimilar to the original one and behaves the same on every run." + TRUST),
 "C12": (T + "conflict hierarchy and agreement over recorded runs", "Compares the three real constructions on the same grammar and input." + TRUST),
 "C13": (T + "kernels and transitions of the recorded automaton", "Every (state, symbol) looked up." + TRUST),
 "C14": (T + "grammar object against the rules; malformed rule sets must be refused", "Every field and enumeration of Grammar, also of grammars compiled from grammar_map!; empty alternatives and bad starts at every position." + TRUST),
 "C15": (T + "driver; token consumption recorded by a counting stream at each step", "Followed at every step of every run." + TRUST),
 "C16": (T + "item-set algebra; results of the real operations checked", "merged, sym_filter, without_look and all Position methods over generated item sets." + TRUST),
 "C17": (T + "isomorphism walk between tables of renamed grammars", "Tables for renamed symbols, other orders and other symbol types are paired state by state." + TRUST),
 "C18": (T + "the driver's operations over any table as a machine; recorded histories, among them every one the model reaches in a few operations, validated", "Random and enumerated small tables, not only those of grammars; state after every operation." + TRUST),
 "C19": (T + "printed forms as functions of the state; texts recorded along the same histories compared", "Every stack and error text along the histories of C18." + TRUST),
 "C20": (T + "automaton, sets and driver of the tool's grammar; sessions with the real tool, all it prints compared", "All short inputs and hundreds of longer ones; the tables as printed, each trace line by line." + TRUST),
 "W01": (T + "lexemes character by character; recorded tokens validated", "All short texts over comment, string and code-block alphabets and thousands of random ones; how much text an error token takes along is left open." + TRUST),
 "W02": (T + "recursive descent and Earley over tokens; what the front end read compared", "Well-formed files, and token sequences with tokens dropped, doubled, swapped or replaced." + TRUST),
 "W03": (T + "expansion of groups, optionals and aliases; generated code compiled, run and compared", "Bodies, order and blocks of every generated alternative." + TRUST),
 "W04": (T + "what each label covers in each alternative; generated reductors called and compared", "Type, presence and value of every label in every generated alternative." + TRUST),
 "W05": (T + "expanded grammar, Earley and tree validity; generated parsers run and compared", "Acceptance is compared where the tables have no conflict; trees, blocks, labels and spans of every accepted input." + TRUST),
 "W06": (T + "expansion of wop.grammar against the compiled-in rules; regenerated front ends compared run by run", "Regenerated front ends read thousands of token sequences like the compiled-in one." + TRUST),
 "W07": (T + "contradictions of a description; refusals of the real builder compared", "Every kind of contradiction at random places and depths, and look-alikes that are none." + TRUST),
 "W08": (T + "which files a front end is generated from; the real tool run in a scratch directory, what it wrote compiled, run and compared", "Exit status and output file for well-formed, ill-formed and contradictory files, and where nothing can be written." + TRUST),
}
NA = {}
