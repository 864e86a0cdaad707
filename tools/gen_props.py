#!/usr/bin/env python3
"""Writes properties.jsonl (a generator only so that the file stays consistently formatted)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)
C = "src/core/"
p("C01","Character-class operations are exact set algebra",
  "For any two well-formed character classes (sorted, non-overlapping, non-empty ranges), union, intersection, complement and the three-way split (only-left, only-right, both) contain exactly the characters that set algebra prescribes (the complement is taken over the code points from 1 up to, but excluding, the largest), and every result is itself well-formed. The overlap and membership queries answer exactly according to the characters contained. Equal classes compare equal and hash equally.",
  ["inputs"],"every pair of classes of a few ranges each, every boundary value of the character type, every probe character; narrow and wide character types",
  "Tests check two hand-picked classes; a wrong boundary only shows for particular relative orders of range ends.",
  [C+"CharClass.hpp",C+"CharClass.cpp"],[("operator|, operator&, operator~","CharClass.hpp/.cpp"),("diff_and_int, overlaps, includes","CharClass.hpp")])
p("C02","Bracket notation denotes exactly the characters written",
  "Text in bracket notation (single characters, a-b ranges, the backslash escapes for backslash, dash, brackets, tab, carriage return and newline, and a leading ^ for inversion), with characters and ranges written in any order and possibly overlapping, is read as a class containing exactly the denoted characters, and reading stops right after the closing bracket. Malformed notation (unknown escape, missing closing bracket, a dash with no left or right end) is rejected with an exception.",
  ["inputs"],"every bracket text up to the length bound over an unrestricted alphabet (ranges written low to high, characters representable in the target type), and every probe character",
  "Tests parse a handful of classes; order, overlap, escape and inversion combinations are unbounded.",
  [C+"CharClass.cpp",C+"Stream.hpp"],[("CharClass::parse","CharClass.cpp")])
p("C03","A regular terminal accepts exactly the language its pattern denotes",
  "The automaton built from a regular-expression pattern accepts a string exactly when the string is in the language the pattern denotes under the tool's notation (concatenation, alternation between adjacent units, *, +, ?, their two-character variants, grouping, the any-character dot, escapes and bracket classes). An unknown escape is rejected with an exception.",
  ["inputs","programs"],"every pattern of a bounded shape with symbolic characters, against every string up to the length bound",
  "Tests build a few automata and match one string each.",
  [C+"NFA.hpp"],[("NFA parsing and state construction","NFA.hpp"),("NFA::run","NFA.hpp")])
p("C04","Determinisation and minimisation preserve the terminal's language",
  "For every pattern, the deterministic automaton and its minimised form accept exactly the strings the pattern denotes. Construction always terminates, also for patterns whose repeated part can match nothing.",
  ["inputs","programs"],"every pattern of a bounded shape with symbolic characters and every string up to the length bound",
  "Tests compare state counts or one string; merging or splitting mistakes show only on particular strings.",
  [C+"DFA.hpp",C+"NFA.hpp"],[("subset construction, minimize","DFA.hpp"),("epsilon closure, departure sets","NFA.hpp")])
p("C05","Deterministic automata are deterministic and well-formed",
  "In every deterministic automaton built from a pattern, before and after minimisation, the outgoing transitions of a state are labelled with pairwise disjoint, non-empty, well-formed character classes and lead to existing states, so every character selects at most one successor. The start state is state 0 and every state is reachable from it.",
  ["inputs","programs"],"every pattern of a bounded shape with symbolic characters and classes, every state, every probe character",
  "No test inspects label disjointness.",
  [C+"DFA.hpp",C+"NFA.hpp",C+"CharClass.hpp"],[("departure-set construction","NFA.hpp"),("fork_states, minimize, filter_nodes","DFA.hpp")])
p("C06","Grammar files are read independently of layout",
  "White space, line endings (LF or CRLF) and comments (block comments, and line comments that end at the line end) between the tokens of a grammar file never change the grammar that is read.",
  ["inputs","programs"],"every layout string up to the length bound between any two tokens of a set of grammar texts that together use every construct",
  "Tests load two fixed grammar files.",
  [C+"Grammar.cpp",C+"Stream.hpp",C+"ATN.cpp"],[("Grammar::parse","Grammar.cpp"),("skip_whitespace and comment skipping","Stream.hpp"),("ATNMachine::parse_*","ATN.cpp")])
p("C07","Rule networks recognise exactly what the rule text says",
  "The rule network built from a rule body (literals, regular terminals, rule references, choice, ordered choice, grouping, *, +, ?) recognises exactly the sentences the body denotes, and optimising the network changes neither the sentences recognised nor the relative priorities of ordered alternatives, which are ranked in the order written. An item carries the number written after it in braces, if any, and no number otherwise.",
  ["programs","inputs"],"every rule body up to the bound on items and nesting, every item sequence up to the length bound",
  "Tests construct a few networks and never compare languages.",
  [C+"ATN.hpp",C+"ATN.cpp"],[("parse_atom, parse_selection, parse_sequence","ATN.cpp"),("drop_passthrough_nodes, filter_nodes","ATN.hpp")])
p("C08","Lookahead decisions select the alternative that matches",
  "At every decision point of a grammar that passes verification, when exactly one alternative can continue to match the input text, the lookahead decision selects that alternative, and it never selects an alternative that cannot match while another can. With ordered choice, alternatives of a later rank are out as soon as one of an earlier rank matches the text read so far.",
  ["programs","inputs"],"every decision of every grammar of a bounded family, and every input up to the length bound",
  "Tests run one decision on fixed inputs.",
  [C+"LookaheadDFA.hpp",C+"CompositeATN.hpp",C+"CompositeATN.cpp"],[("LookaheadDFA construction and run","LookaheadDFA.hpp"),("CompositeATN import and closures","CompositeATN.hpp/.cpp")])
p("C09","Verification accepts decidable grammars and rejects the others",
  "Verification rejects a grammar that refers to an undefined rule or is left-recursive at a decision, and rejects an unranked decision between alternatives that begin with the same nested recursion. It accepts every other grammar whose alternatives start with distinguishable text, and always terminates.",
  ["programs"],"every grammar of a bounded family of rule sets with symbolic characters and reference targets",
  "No test verifies a grammar.",
  [C+"Grammar.cpp",C+"CompositeATN.cpp",C+"ATN.cpp"],[("Grammar::verify","Grammar.cpp"),("verify_invocations","ATN.cpp"),("verify_decisions, recursion sentinels","CompositeATN.cpp")])
p("C10","The source reader delivers text faithfully",
  "Reading a text character by character delivers every character exactly once and in order, with a CRLF pair delivered as one line break, and then reports the end for ever; peeking one or more characters ahead never consumes and agrees with the text; the text cut between two positions is exactly the text between them. Skipping layout consumes exactly the white space and complete comments at the current position, and an unterminated block comment is reported as an error.",
  ["inputs"],"every text up to the length bound over the whole character range and every sequence of reader calls up to the bound",
  "No test exercises the reader directly.",
  [C+"Stream.hpp"],[("get, peek, discard, cut, skip_whitespace, comment skipping","Stream.hpp")])
p("C11","Generated terminal matchers find exactly the longest match",
  "The machine code generated for a regular terminal, run on any text, advances to the end of the longest prefix that the pattern accepts, or reports failure when no prefix is accepted. This holds for the plain and for the vectorised code, whichever repetition operator selects it.",
  ["inputs","programs"],"every automaton of a bounded family with symbolic character classes, and every text up to the length bound",
  "The code generator's tests cannot run here, and check single inputs.",
  [C+"CodeGenEM64T.cpp",C+"CodeGenEM64T.hpp"],[("DFARoutineEM64T emission","CodeGenEM64T.cpp")])
p("C12","Generated literal matchers and layout skippers are exact",
  "The machine code generated for a literal advances exactly over that literal, for literals of any length, and reports failure on any text that does not begin with it. The generated layout skipper advances over exactly the leading blanks, tabs and line breaks.",
  ["inputs","programs"],"every literal up to the length bound with symbolic characters, and every text up to the length bound",
  "The code generator's tests cannot run here, and check single inputs.",
  [C+"CodeGenEM64T.cpp"],[("MatchRoutineEM64T, SkipRoutineEM64T","CodeGenEM64T.cpp")])
p("C13","Generated decision code decides as the lookahead automaton does",
  "The machine code generated for a lookahead decision selects, for every text, the same alternative as the lookahead automaton it was generated from, and fails exactly when the automaton does.",
  ["inputs","programs"],"every lookahead automaton of a bounded family with symbolic labels, and every text up to the length bound",
  "The code generator's tests cannot run here, and check single inputs.",
  [C+"CodeGenEM64T.cpp"],[("LDFARoutineEM64T","CodeGenEM64T.cpp")])
p("C14","A generated parser accepts exactly the grammar's texts and traces them",
  "For a verified grammar, the generated parser accepts only texts the grammar derives (each terminal taking its longest match, layout allowed before each terminal), accepts every text that has exactly one derivation where each decision can be made in its own context, consumes what it accepts, and writes a trace of start and end marks that nests properly and names the rule and the position range of every rule instance in the derivation. When the trace outgrows one buffer it continues in the next without losing, repeating or reordering a mark.",
  ["inputs","programs"],"a bounded family of grammars, every text up to the length bound, and every buffer size down to one mark",
  "Parser tests cannot run here and parse one file each.",
  [C+"CodeGenEM64T.cpp",C+"CodeGenEM64T.hpp"],[("ParserEM64T emission, request_page","CodeGenEM64T.cpp")])
p("C15","Trace marks decode to what was encoded",
  "A start or end mark decodes to the same kind, rule number and text position that were encoded, for every rule number from 1 to 32767 and every position below 2^48. The kinds are mutually exclusive.",
  ["inputs"],"every rule number, every position, every 64-bit mark",
  "No test decodes marks at the limits.",
  [C+"BaseRunner.hpp"],[("CSTMarker","BaseRunner.hpp"),("SVCapsule","BaseRunner.hpp")])
p("C16","Chunked reduction equals serial reduction",
  "However a well-nested trace is cut into chunks, reducing the chunks independently and then combining them in order calls the action of every rule instance exactly once, children before parents, with the same rule, text range and list of child values in the same order as one serial bottom-up pass, and yields the same final value. Actions that return no value contribute none.",
  ["inputs","schedules"],"every well-nested trace up to the length bound with symbolic rule numbers and positions, every chunking, every pattern of value-less actions",
  "Runner tests cannot run here and use one document and one chunk size.",
  [C+"Stage2RunnerNonRecursive.hpp",C+"Stage3RunnerNonRecursive.hpp"],[("reduce_bank","Stage2RunnerNonRecursive.hpp"),("reduce, append_value","Stage3RunnerNonRecursive.hpp")])
p("C17","Buffers pass through the stages in order, none lost or shared",
  "Under every interleaving of the writing stage, any number of chunk reducers and the final stage, each filled buffer is reduced by exactly one reducer and then consumed once by the final stage in the order written, and no two workers ever hold the same buffer. All workers terminate after the last buffer, none before its data has been consumed.",
  ["schedules","histories"],"every interleaving of one writer, up to two reducers and the final stage over small numbers of buffers and chunks",
  "Tests run one schedule at a time and cannot enumerate interleavings.",
  [C+"Stage1Runner.hpp",C+"Stage2RunnerNonRecursive.hpp",C+"Stage3RunnerNonRecursive.hpp"],[("acquire_bank, release_bank, signal_exit","Stage*Runner*.hpp")])
p("C18","Shared memory layout keeps buffers and control data apart",
  "For every buffer size and count, the control area and each of the buffers lie inside the shared memory object and never overlap, all participants compute the same layout, and participants of one parse use the same object names while different parses use different ones.",
  ["configurations"],"every buffer size and count within the bound, every process number",
  "Tests use one configuration.",
  [C+"BaseRunner.hpp"],[("get_*_window_size, acquire_memory","BaseRunner.hpp")])
p("C19","Actions see the text and the child values of their own symbol",
  "Inside an action, the text, the text's length and bounds, the number of children and each child value reported are exactly those of the rule instance being reduced, in order from the first child. Rules without a registered action yield no value, and a registered action is called only for its own rule.",
  ["inputs"],"every text range, child count and registration pattern within the bound",
  "Tests read one symbol of one document.",
  [C+"Context.hpp"],[("SymbolContext, Context::callback, attach","Context.hpp")])
p("C20","Python actions receive the right values and results reach the caller",
  "In the Python binding every reduction calls the handler of the reduced rule with exactly its children's values, in order, whichever chunk they were computed in; a handler result of None contributes no value. Values computed for a chunk travel to the final stage under the chunk's own number, and the final value is what the parse returns. Parses may follow one another, and the workers may be stopped and started again, whatever order the processes run in.",
  ["inputs","histories"],"every well-nested trace up to the bound, every chunking, every pattern of value-less handlers, every order in which the processes run","There are no Python tests.",
  ["src/python/centaurus/listener.py","src/python/centaurus/context.py","src/python/centaurus/corelib.py",C+"Stage2RunnerNonRecursive.hpp",C+"Stage3RunnerNonRecursive.hpp"],[("Stage2ListenerAdapter, Stage3ListenerAdapter","listener.py")])
p("C21","Network paths have a consistent order, equality, hash and text form",
  "Comparison of network paths is a total order consistent with equality; equal paths hash equally; pushing, popping, taking the parent and replacing the leaf index behave as on a sequence. Writing a path as text and reading it back yields the same path, and malformed path text is rejected.",
  ["inputs"],"every path up to the depth bound with symbolic names and indices, every path text up to the length bound",
  "No test compares or parses paths.",
  [C+"Util.hpp",C+"Util.cpp"],[("ATNPath","Util.hpp"),("ATNPath::parse, operator<<","Util.cpp")])
p("C22","Rules are numbered densely across included files",
  "Rules of a grammar and of the files it includes are numbered densely from 1 in the order in which their definitions are read; each number maps to its own rule's name; the rule read first is the root. An include path is taken relative to the including file unless it is absolute, and malformed directives, and more rules than a parse mark can number (32767), are rejected with an exception. The first definition of a rule prevails. A grammar keeps its rules, numbers and root when it is moved.",
  ["inputs","programs"],"every arrangement of a few rules and include directives over a few files, with symbolic path characters",
  "Tests load self-contained grammar files.",
  [C+"Grammar.cpp",C+"Grammar.hpp"],[("Grammar::parse, make_include_path","Grammar.cpp"),("lookup_id, enum_machines, get_machine_id","Grammar.hpp")])
p("C23","Reading any grammar text terminates cleanly",
  "Reading a grammar from arbitrary text either yields a grammar or throws an exception; it never crashes, reads outside the text or fails to terminate. A grammar that is read has for every rule a network whose transitions stay inside it and whose final node is reachable.",
  ["inputs"],"every text over the notation's alphabet up to the length bound",
  "Tests only read valid grammars.",
  [C+"Grammar.cpp",C+"ATN.cpp",C+"NFA.hpp",C+"CharClass.cpp",C+"Identifier.hpp",C+"Stream.hpp"],[("all parse functions","Grammar.cpp, ATN.cpp, NFA.hpp, CharClass.cpp, Identifier.hpp")])
p("C24","Priority chains rank alternatives by their first difference",
  "Of two decision histories, one outranks the other exactly when, at the first position where both took the same decision point with different priorities, it has the better (lower) priority; histories without such a position do not outrank each other. Outranking is antisymmetric and never holds between a history and itself.",
  ["inputs"],"every pair of histories up to the length bound with symbolic decision points and priorities",
  "No test compares histories.",
  [C+"Util.hpp"],[("PriorityChain, PriorityChainElement","Util.hpp")])
p("C25","Terminal and layout items expand to the right characters in decisions",
  "In the decision model of a rule, every literal contributes exactly its characters in order, every regular terminal exactly its automaton, every rule reference one call, and layout is allowed exactly before each terminal of a rule; choice priorities are carried over unchanged.",
  ["programs","inputs"],"every rule body up to the bound with symbolic literal characters, every character sequence up to the length bound",
  "Tests only print the decision model.",
  [C+"CompositeATN.hpp"],[("CATNMachine import functions","CompositeATN.hpp")])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
        for d in P: f.write(json.dumps(d)+"\n")
