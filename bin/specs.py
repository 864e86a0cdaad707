"""Per-property check descriptions."""
COMMON_ASSUMPTIONS = [
 "the compiled program is clang 18's -O1 lowering of the repository sources (x86-64, -funsigned-char); ASan guards every memory access on each explored path",
 "text of error messages and other stream formatting is outside the properties: symbolic operands of stream-formatting library functions are replaced by a representative value",
 "memory allocation does not fail",
]
SPECS = {}
NOT_APPLICABLE = {}
TECHNIQUE = "symbolic execution of the compiled C++ (LLVM IR instrumented from the current sources), path conditions and assertions decided by Z3; counterexamples replayed natively"
def spec(pid, **kw): SPECS[pid] = kw
def c01(t):
    r = [dict(name="uc", src="C01.cpp", what="unsigned char, full width"), dict(name="wc", src="C01.cpp", defines=["TC=wchar_t"], what="wchar_t, full width"),
         dict(name="sm", src="C01.cpp", defines=["SMALL=15"], what="up to 3x3 ranges, boundaries 0..15")]
    if t == "thorough": r += [dict(name="uc3", src="C01.cpp", defines=["NMAX=3"], what="unsigned char, 3x3 ranges, full width")]
    return r
spec("C01", bounds="two classes of up to 2 ranges each with unrestricted boundaries (narrow and wide character types), and up to 3 ranges each with boundaries in 0..15 (thorough: 3 ranges with unrestricted boundaries); one unrestricted probe character",
  runs=c01)
spec("C10", bounds="texts of up to 4 characters over the whole character range with sequences of up to 2 reader calls, and texts of up to 3 characters with up to 3 calls; layout skipping on texts of up to 6 (thorough: 8) slashes, stars, letters and line feeds; a line comment ended by a lone carriage return is outside",
  runs=lambda t: [dict(name="a", src="C10.cpp", defines=["N=4","K=2"]), dict(name="b", src="C10.cpp", defines=["N=3","K=3"]), dict(name="c", src="C10.cpp", defines=["N=%d"%(8 if t=="thorough" else 6),"K=1","COMMENTS=1"], what="comments")] + ([dict(name="t", src="C10.cpp", defines=["N=6","K=2"])] if t=="thorough" else []))
spec("C02", bounds="bracket texts of up to 4 plain characters and dashes, or up to 3 units including an escape (thorough: 5, 4), with optional inversion; two ranges with up to one further character; and texts of up to 3 completely unrestricted characters plus closing bracket; ranges written low to high; characters representable in the target type; narrow and wide character types; one unrestricted probe character. Carriage returns and U+FFFF are outside",
  runs=lambda t: [dict(name="u", src="C02.cpp", defines=["L=%d"%(4 if t=="quick" else 5),"EMAX=%d"%(0 if t=="quick" else 1)]), dict(name="w", src="C02.cpp", defines=["TC=wchar_t","L=%d"%(3 if t=="quick" else 4),"OMAX=%d"%(2 if t=="quick" else 4)]), dict(name="s", src="C02.cpp", defines=["SHAPE=%d"%(2 if t=="quick" else 3)]), dict(name="r", src="C02.cpp", defines=["RAW=3"])])
def c03(t):
    d = t != "quick"
    return [dict(name="n", src="C03.cpp", defines=["MODE=0", "LEAVES=%d" % (4 if d else 3), "POSTS=2", "GROUPS=%d" % (2 if d else 1), "SLEN=4", "KINDS=1", "SYMB=0", "LONGS=0"], what="operators and grouping"),
            dict(name="k", src="C03.cpp", defines=["MODE=0", "LEAVES=2", "POSTS=%d" % (1 if d else 0), "GROUPS=0", "KINDS=4", "SYMB=1", "SLEN=3", "LONGS=0"], what="leaf kinds, symbolic characters"),
            dict(name="s", src="C03.cpp", defines=["MODE=0", "LEAVES=1", "POSTS=1", "GROUPS=0", "KINDS=5", "SYMB=1", "SLEN=3", "LONGS=0"], what="escapes"),
            dict(name="w", src="C03.cpp", defines=["MODE=0", "LEAVES=2", "POSTS=%d" % (1 if d else 0), "GROUPS=0", "KINDS=2", "SYMB=1", "SLEN=3", "TC=wchar_t", "LONGS=0"], what="wide characters"),
            dict(name="l", src="C03.cpp", defines=["MODE=0", "LEAVES=2", "POSTS=2", "GROUPS=1", "LONGS=1", "SLEN=4", "KINDS=1", "SYMB=0"], what="two-character operator variants"),
            dict(name="r", src="C03.cpp", defines=["MODE=1", "LEAVES=2", "POSTS=%d" % (3 if d else 2), "GROUPS=1", "SLEN=%d" % (3 if d else 2)], what="NFA::run"),
            dict(name="e", src="C03.cpp", defines=["MODE=2"], what="unknown escapes")]
spec("C03", bounds="patterns of up to 3 leaves with up to 2 repetition operators and 1 group (thorough: 4 leaves, 2 groups) against every string of up to 4 characters; leaf kinds (character, range, dot, inverted class, escape) with symbolic characters for up to 2 leaves, narrow and wide; the run function on patterns of up to 2 leaves and strings of up to 2 characters. Characters are 1 up to, but excluding, the largest; unterminated groups and patterns are outside", runs=c03)
def c04(t):
    d = t != "quick"
    return [dict(name="n", src="C04.cpp", defines=["MODE=0", "LEAVES=%d" % (4 if d else 3), "POSTS=%d" % (2 if d else 1), "GROUPS=%d" % (2 if d else 1), "KINDS=2", "SYMB=0", "SLEN=4"], what="operators, grouping, overlapping classes"),
            dict(name="e", src="C04.cpp", defines=["MODE=0", "LEAVES=2", "POSTS=3", "GROUPS=2", "KINDS=1", "SYMB=0", "SLEN=4"], what="repetitions of repetitions"),
            dict(name="k", src="C04.cpp", defines=["MODE=0", "LEAVES=2", "POSTS=%d" % (1 if d else 0), "GROUPS=0", "KINDS=4", "SYMB=1", "SLEN=3"], what="leaf kinds, symbolic characters"),
            dict(name="w", src="C04.cpp", defines=["MODE=0", "LEAVES=2", "POSTS=%d" % (1 if d else 0), "GROUPS=0", "KINDS=2", "SYMB=1", "SLEN=3", "TC=wchar_t"], what="wide characters"),
            dict(name="r", src="C04.cpp", defines=["MODE=1", "LEAVES=2", "POSTS=%d" % (2 if d else 1), "GROUPS=1", "KINDS=2", "SYMB=0", "SLEN=%d" % (3 if d else 2)], what="DFA::run")]
spec("C04", bounds="patterns of up to 3 leaves (characters and overlapping ranges) with 1 repetition and 1 group (thorough: 4 leaves, 2 repetitions, 2 groups), up to 2 leaves with 3 nested repetitions and 2 groups, each against every string of up to 4 characters; up to 2 leaves of every kind with symbolic characters, narrow and wide, against every string of up to 3 characters; the run function on strings of up to 2 characters. Hashing of character classes is summarised by a constant", runs=c04)
def c05(t):
    d = t != "quick"
    return [dict(name="n", src="C04.cpp", defines=["MODE=2", "LEAVES=%d" % (4 if d else 3), "POSTS=%d" % (2 if d else 1), "GROUPS=%d" % (2 if d else 1), "KINDS=2", "SYMB=0"], what="operators, grouping, overlapping classes"),
            dict(name="e", src="C04.cpp", defines=["MODE=2", "LEAVES=2", "POSTS=3", "GROUPS=2", "KINDS=1", "SYMB=0"], what="repetitions of repetitions"),
            dict(name="k", src="C04.cpp", defines=["MODE=2", "LEAVES=2", "POSTS=%d" % (1 if d else 0), "GROUPS=0", "KINDS=4", "SYMB=1"], what="leaf kinds, symbolic characters"),
            dict(name="w", src="C04.cpp", defines=["MODE=2", "LEAVES=2", "POSTS=%d" % (1 if d else 0), "GROUPS=0", "KINDS=2", "SYMB=1", "TC=wchar_t"], what="wide characters")]
spec("C05", bounds="the automata, before and after minimisation, of patterns of up to 3 leaves (characters and overlapping ranges) with 1 repetition and 1 group (thorough: 4 leaves, 2 repetitions, 2 groups), of up to 2 leaves with 3 nested repetitions and 2 groups, and of up to 2 leaves of every kind with symbolic characters, narrow and wide; one unrestricted probe character. Hashing of character classes is summarised by a constant", runs=c05)
def c06(t):
    d = t != "quick"
    return [dict(name="o", src="C06.cpp", defines=["MODE=0", "PIECES=1", "CLEN=%d" % (3 if d else 2)], what="layout at one boundary"),
            dict(name="a", src="C06.cpp", defines=["MODE=1", "PIECES=2", "CLEN=%d" % (2 if d else 1)], what="layout at every boundary")]
spec("C06", bounds="two grammar texts that together use every construct; one layout unit (a white-space character, or a comment of up to 2 unrestricted characters ended by */, LF or CRLF; thorough: 3 characters) at each single token boundary, and up to 2 such units (comments of one character; thorough: two) at all boundaries at once", runs=c06)
def c07(t):
    d = t != "quick"
    return [dict(name="n", src="C07.cpp", defines=["MODE=0", "LEAVES=%d" % (4 if d else 3), "POSTS=%d" % (2 if d else 1), "GROUPS=%d" % (2 if d else 1), "RANKS=0", "EMPTIES=1", "SLEN=%d" % (8 if d else 6), "KINDS=1"], what="language"),
            dict(name="k", src="C07.cpp", defines=["MODE=0", "LEAVES=2", "POSTS=2", "GROUPS=1", "RANKS=0", "EMPTIES=0", "KINDS=3", "SLEN=5"], what="kinds of items"),
            dict(name="p", src="C07.cpp", defines=["MODE=1", "LEAVES=%d" % (4 if d else 3), "POSTS=%d" % (2 if d else 1), "GROUPS=%d" % (2 if d else 1), "RANKS=2", "EMPTIES=0", "KINDS=1"], what="ranks"),
            dict(name="i", src="C07.cpp", defines=["MODE=2", "LEAVES=1", "POSTS=0", "GROUPS=0", "RANKS=0", "EMPTIES=0", "DIGITS=%d" % (4 if d else 2), "KINDS=1"], what="numbered items")]
spec("C07", bounds="rule bodies of up to 3 items with 1 repetition, 1 group and 1 empty alternative (thorough: 4 items, 2 repetitions, 2 groups), and of up to 2 items of each kind (literal, pattern, rule reference) with 2 repetitions and 1 group, with and without layout between terminals, against every item sequence of up to 6 (thorough: 8) items; ranks of up to 3 (thorough: 4) items with up to 2 ranked alternatives; up to 2 items with numbers of up to 2 (4) digits", runs=c07)
spec("C24", bounds="histories of up to 2 (thorough: 3) decisions, names of 1 or 2 letters, unrestricted 32-bit indices and priorities, each way of building a history",
  runs=lambda t: [dict(name="c", src="C24.cpp", defines=["LEN=%d" % (2 if t == "quick" else 3)])])
def c21(t):
    d = t != "quick"
    return [dict(name="e", src="C21.cpp", defines=["MODE=0"], what="order, equality, hash"), dict(name="o", src="C21.cpp", defines=["MODE=4"], what="sequence operations"), dict(name="t", src="C21.cpp", defines=["MODE=1", "DEPTH=%d" % (2 if d else 1)], what="transitivity"),
            dict(name="w", src="C21.cpp", defines=["MODE=2"], what="text round trip"), dict(name="x", src="C21.cpp", defines=["MODE=3", "N=%d" % (6 if d else 4)], what="any text"), dict(name="y", src="C21.cpp", defines=["MODE=3", "N=%d" % (8 if d else 6), "ALPHA=1"], what="longer texts")]
spec("C21", bounds="paths of up to 2 elements with symbolic names of 1 or 2 letters and unrestricted indices; three such paths of up to 1 element (thorough: 2) for transitivity; texts of up to 4 (thorough: 6) unrestricted characters, and of up to 6 (8) characters from '.' to '{'; the text round trip covers 4 names and 6 indices in paths of up to 2 elements (number formatting is library code and not encoded)", runs=c21)

RUN0 = lambda: []
def rr(**k): return dict(extra_sources=RUN0, **k)
spec("C15", bounds="every rule number 1..32767, every 48-bit position, every window address below 2^47, every 64-bit word (no bound is needed)",
  runs=lambda t: [rr(name="m", src="C15.cpp", defines=["MODE=0"], what="encoded marks"), rr(name="w", src="C15.cpp", defines=["MODE=1"], what="all words")])
spec("C18", bounds="every buffer size from 8 bytes to 2^32 (thorough: 2^35) and buffer counts 1, 2, 3, 4, 8, 16, 1024 and 1048577; every pair of process numbers up to 4194304. The operating system's shared-memory and semaphore calls are stand-ins that record their arguments; number formatting is summarised by an injective rendering",
  runs=lambda t: [rr(name="l", src="C18.cpp", defines=["MODE=0", "NUMS=%d" % 8, "MAXB=%d" % (35 if t != "quick" else 32)], what="layout"), rr(name="p", src="C18.cpp", defines=["MODE=0", "NUMS=5", "MAXB=%d" % (34 if t != "quick" else 32), "PYCENTAURUS=1"], what="layout, Python build"), rr(name="n", src="C18.cpp", defines=["MODE=1"], what="names")])

def c16(t):
    d = t != "quick"; k = 5 if d else 4
    r = []
    for py in (0, 1):
        n = "p" if py else "c"; w = "Python values" if py else "C++ values"
        r += [rr(name=n + "a", src="C16.cpp", defines=["PYCENTAURUS=%d" % py, "SYMS=%d" % k, "VALUES=0"], what="every chunking, " + w), rr(name=n + "v", src="C16.cpp", defines=["PYCENTAURUS=%d" % py, "SYMS=%d" % (k - 1), "VALUES=63"], what="value-less actions, " + w), rr(name=n + "d", src="C16.cpp", defines=["PYCENTAURUS=%d" % py, "SYMS=%d" % k, "VALUES=0", "DUP=1"], what="possibly equal marks, " + w), rr(name=n + "f", src="C16.cpp", defines=["PYCENTAURUS=%d" % py, "SYMS=%d" % (k + 2), "VALUES=0", "FULL=1"], what="full buffers, " + w)]
    return r
spec("C16", bounds="every tree of up to 4 (thorough: 5) rule instances with unrestricted rule numbers and positions, cut at every subset of the gaps with or without an empty last chunk, and, for up to 6 (7) instances, cut into full buffers of every size; with unrestricted action values, including none, for up to 3 (thorough: 4) instances; both builds of the runners", runs=c16)

def c17(t):
    d = t != "quick"; r = []
    for py in (0, 1):
        n = "p" if py else "c"; w = "Python build" if py else "C++ build"
        for st, nm in ((1, "writing stage"), (2, "chunk reducer"), (3, "final stage")):
            if py and st == 1: continue
            r.append(rr(name="%s%d" % (n, st), src="C17.cpp", defines=["PYCENTAURUS=%d" % py, "STAGE=%d" % st, "BUFS=%d" % (2 + (not py) + d), "MAXBUF=%d" % (2 + (not py) + d), "SCANS=2"], what="%s under any interference, %s" % (nm, w)))
            r.append(rr(name="%s%dw" % (n, st), src="C17.cpp", defines=["PYCENTAURUS=%d" % py, "STAGE=%d" % st, "PROG=1", "BUFS=%d" % (6 if d else 4), "MAXBUF=2", "SCANS=2"], what="%s gets work that is at hand, %s" % (nm, w)))
    return r
spec("C17", bounds="every interleaving, at the level of single accesses to buffer states, of one stage's real code with the most general behaviour of any number of other participants: up to 3 (thorough: 4) buffers and buffer fillings (one less in the Python build), up to two scans over the buffers per wait; progress: up to 4 (6) buffers in any combination of states. Sequentially consistent accesses; the composition of the per-stage results is by assume-guarantee (each stage's assumptions on the others are the guarantees checked for them)", runs=c17)

def c22(t):
    d = t != "quick"
    return [dict(name="o", src="C22.cpp", defines=["MODE=0", "MAINN=3", "INCN=%d" % (3 if d else 2)], what="numbering"),
            dict(name="p", src="C22.cpp", defines=["MODE=1", "PLEN=%d" % (5 if d else 3)], what="include paths"),
            dict(name="d", src="C22.cpp", defines=["MODE=2", "LEN=%d" % (6 if d else 4)], what="malformed directives"),
            dict(name="l", src="C22.cpp", defines=["MODE=3"], what="limit")]
spec("C22", bounds="every arrangement of up to 3 directives (rules, possibly defined repeatedly, includes, grammar names) in the main file, 2 (thorough: 3) in a file it includes and 2 in a third; include paths of up to 3 (5) ASCII characters from 7 places, directly and through 5 intermediate files; directives followed by up to 4 (6) characters of an alphabet of 7; every starting number up to 70000. File access and the locale's character conversion (ASCII only) are stand-ins", runs=c22)

def c23(t):
    d = t != "quick"
    return [dict(name="t", src="C23.cpp", defines=["MODE=0", "TAIL=%d" % (3 if d else 2)], what="any text"),
            dict(name="n", src="C23.cpp", defines=["MODE=1", "FILES=%d" % (3 if d else 2), "PER=2"], what="files that include each other")]
spec("C23", bounds="texts made of one of 17 prefixes that lead into each construct, up to 2 (thorough: 3) unrestricted characters, and one of 5 suffixes; up to 2 (3) files of up to 2 directives that include each other by any of 7 paths. At most 20 million program steps per text. File access and the locale's character conversion (ASCII only) are stand-ins", runs=c23)

import os
def _jitsrc():
    import lib
    return lib.lib_sources() + [os.path.join(lib.REPO, "src", "core", "CodeGenEM64T.cpp")]
SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "shim")
def jj(**k): return dict(extra_sources=_jitsrc, includes=[SHIM], **k)
JITNOTE = " The assembler library is replaced by a recorder and the processor by an interpreter of the recorded instructions"
def c11(t):
    d = t != "quick"
    return [jj(name="n", src="C11.cpp", defines=["MODE=0", "LEAVES=%d" % (3 if d else 2), "POSTS=%d" % (2 if d else 1), "GROUPS=1", "KINDS=2", "SYMB=0", "LONGS=1", "SLEN=%d" % (4 if d else 3)], what="operators, both kinds of code"),
            jj(name="k", src="C11.cpp", defines=["MODE=0", "LEAVES=2", "POSTS=%d" % (1 if d else 0), "GROUPS=0", "KINDS=4", "SYMB=1", "LONGS=0", "SLEN=%d" % (3 if d else 2)], what="leaf kinds, symbolic characters"),
            jj(name="v", src="C11.cpp", defines=["MODE=1", "WIDE=%d" % d, "RNUM=%d" % (6 if d else 4), "PLAIN=%d" % (3 if d else 2), "SLEN=%d" % (36 if d else 18)], what="vectorised code")]
spec("C11", bounds="patterns of up to 2 leaves (characters, ranges) with 1 group and 1 repetition in any plain or vectorised form (thorough: 3 leaves, 2 repetitions) on every text of up to 3 (4) characters; up to 2 leaves of every kind with symbolic characters; repetitions in 6 forms of classes, possibly negated, of up to 10 ranges, with or without a character before and after, on every text of up to 18 (36) characters. Narrow characters." + JITNOTE, runs=c11)
spec("C12", bounds="every literal of 1 to 20 (thorough: 40) characters on every text of its length; the skipper on every text of up to 4 (6) characters. Narrow characters." + JITNOTE,
  runs=lambda t: [jj(name="s", src="C12.cpp", defines=["MODE=0", "LMIN=1", "LMAX=8"], what="short literals"), jj(name="l", src="C12.cpp", defines=["MODE=0", "LMIN=7", "LMAX=%d" % (40 if t != "quick" else 20)], what="long literals"), jj(name="w", src="C12.cpp", defines=["MODE=1", "SLEN=%d" % (6 if t != "quick" else 4)], what="layout")])

def c14(t):
    d = t != "quick"
    def run(n, what, **k): return jj(name=n, src="C14.cpp", defines=["%s=%d" % (a, b) for a, b in sorted(dict(dict(LEAVES=2, POSTS=0, GROUPS=0, RANKS=0, KINDS=1, ABODIES=1, SLEN=4, PAGE=16, DRY=0, ONEWS=1), **k).items())], what=what)
    return [run("o", "operators", POSTS=1, GROUPS=1, KINDS=1, DRY=1),
            run("k", "rule references and patterns", KINDS=7 if d else 5, ABODIES=9, LEAVES=2),
            run("m", "longer sequences and choices", LEAVES=3, POSTS=1, GROUPS=d, SLEN=5 if d else 4, DRY=1),
            run("p", "traces over several buffers", KINDS=2, ABODIES=7 if d else 5, LEAVES=2, PAGE=4 if d else 3),
            run("r", "ordered choice", RANKS=1, KINDS=5, ABODIES=2)]
spec("C14", bounds="grammars Z: S ';' with generated bodies of S: up to 2 items with 1 group and 1 repetition; 3 items in sequences and choices; 2 items of 5 kinds (thorough: 7, and 3 items with groups and repetitions), among them references to a rule A with one of 9 bodies (recursive, optional, repeated, nested); ordered choices; every text of 4 (thorough: up to 5) characters, of layout only the blank; buffers of 1 to 3 (4) marks, or 16. That a text with exactly one derivation must be accepted is asserted where A is referenced once and no choice is ordered. Narrow characters; the buffer size of 8 MB stands for the scaled size." + JITNOTE, runs=c14)
def c13(t):
    d = t != "quick"
    def run(n, what, mode=0, **k): return jj(name=n, src="C13.cpp", defines=["MODE=%d" % mode] + ["%s=%d" % (a, b) for a, b in sorted(dict(dict(LEAVES=2, POSTS=0, GROUPS=0, RANKS=0, KINDS=1, ABODIES=1, SLEN=3, ONEWS=1, CLO=0x5f, CHI=0xfe, SHAPES=5), **k).items())], what=what)
    return [run("o", "operators", POSTS=1, GROUPS=1, RANKS=1), run("k", "rule references and patterns", KINDS=7 if d else 5, ABODIES=9), run("c", "symbolic character classes", mode=1, SHAPES=5 if d else 3, SLEN=3 if d else 2)]
spec("C13", bounds="every decision of grammars of the family of C14 (2 items with 1 group, 1 repetition, ordered choice; 2 items of 5 (7) kinds) on every text of 3 characters, of layout only the blank; 3 (thorough: 5) grammars with classes and ranges of symbolic characters from U+5F to U+FE on every text of 2 (3) characters. Narrow characters." + JITNOTE, runs=c13)
def c25(t):
    d = t != "quick"
    def run(n, what, **k): return dict(name=n, src="C25.cpp", defines=["%s=%d" % (a, b) for a, b in sorted(dict(dict(LEAVES=2, POSTS=0, GROUPS=0, RANKS=0, KINDS=1, LITS=1, OPT=0, SLEN=4), **k).items())], what=what)
    return [run("o", "operators and ranks", LEAVES=3 if d else 2, POSTS=1, GROUPS=1, RANKS=1, KINDS=2, OPT=1), run("k", "all items", KINDS=7, LITS=3 if d else 2, POSTS=1)]
spec("C25", bounds="rule bodies of up to 2 (thorough: 3) items (literals with a symbolic character, references) with 1 group, 1 repetition and 1 ordered choice, before and after optimisation; 2 items of 7 kinds (5 patterns, literals of up to 2 (3) symbolic characters) with 1 repetition; every sequence of 4 characters or calls. Narrow characters", runs=c25)
def c08(t):
    d = t != "quick"
    def run(n, what, **k): return dict(name=n, src="C08.cpp", defines=["%s=%d" % (a, b) for a, b in sorted(dict(dict(LEAVES=2, POSTS=0, GROUPS=0, RANKS=0, KINDS=1, ABODIES=1, SLEN=6 if d else 4, RUN=0), **k).items())], what=what)
    return [run("o", "operators", LEAVES=3, POSTS=1, GROUPS=1), run("k", "rule references and patterns", KINDS=7 if d else 5, ABODIES=9, POSTS=1), run("r", "ordered choice", LEAVES=3, KINDS=7 if d else 5, RANKS=1, ABODIES=2), run("x", "running the automaton", POSTS=1, SLEN=3, RUN=1, KINDS=2, ABODIES=3)]
spec("C08", bounds="every decision of grammars Z: S ';' with up to 3 items, 1 group and 1 repetition; up to 2 items of 5 kinds (thorough: 7; patterns, references to a rule with one of 9 bodies) with 1 repetition; ordered choice as the body of S, of up to 3 items of 5 (7) kinds; on every text of 4 (thorough: 6) characters. Narrow characters", runs=c08)
def c09(t):
    d = t != "quick"
    def run(n, what, mode=0, **k): return dict(name=n, src="C09.cpp", defines=["MODE=%d" % mode] + ["%s=%d" % (a, b) for a, b in sorted(dict(dict(LS=2, LA=2, POSTS=0, GROUPS=0, RANKS=0, KINDS=4), **k).items())], what=what)
    return [run("r", "references", POSTS=0, LS=3 if d else 2), run("p", "repetitions", POSTS=2, KINDS=3, LS=2, LA=1), run("o", "groups and ordered choice", GROUPS=1, RANKS=1, POSTS=1, LS=3 if d else 2, LA=1, KINDS=6), run("n", "nested recursion", mode=1)]
spec("C09", bounds="two rules besides the root, with up to 2 (thorough: 3 in S) items each: literals of a symbolic letter, references to either rule or to an undefined one; with up to 2 repetitions; up to 2 (3) items of 6 kinds with 1 group, 1 repetition and 1 ordered choice; 48 forms of nested recursion, direct and through another rule, with symbolic letters; at most 60 million program steps per verification. Narrow characters", runs=c09)
def c19(t):
    d = t != "quick"
    return [jj(name="a", src="C19.cpp", defines=["MODE=0", "KIDS=%d" % (6 if d else 3)], what="rule instances"), jj(name="w", src="C19.cpp", defines=["MODE=0", "KIDS=1", "TC=wchar_t"], what="rule instances, wide characters"), jj(name="p", src="C19.cpp", defines=["MODE=1", "SLEN=%d" % (6 if d else 4), "PAGE=64"], what="whole parses")]
spec("C19", bounds="every text range and address, up to 3 (thorough: 6) unrestricted child values, every registration of 4 actions with 4 rules; whole parses by Context (one or two workers, one buffer of marks, stages one after the other on one thread) of every text of 4 (6) characters with 3 grammars, 8 registrations and 3 patterns of value-less actions. Narrow characters; operating system calls are stand-ins." + JITNOTE, runs=c19)

def c20(t):
    d = t != "quick"
    return [rr(name="n", src="C16.cpp", defines=["PYCENTAURUS=1", "SYMS=%d" % (5 if d else 4), "VALUES=0"], what="native runners as the binding drives them"), rr(name="v", src="C16.cpp", defines=["PYCENTAURUS=1", "SYMS=3", "VALUES=63"], what="handlers without a value")]
spec("C20", bounds="whole traces of up to 3 (thorough: 4) rule instances in every nesting and chunking, with unrestricted positions, window and rule numbers, handlers with or without a value; the final stage with up to 2 (3) chunks of up to 2 values and up to 2 (3) calls with unrestricted counts; 2 (3) parses in a row with every order of the processes for one worker, and up to 4 (6) deviations from the standard order for two; the native side's part: every tree of up to 4 (5) instances in every chunking",
  runs=c20, python_runs="c20.py", technique="symbolic execution of the Python adapters and workers (integers are Z3 terms, both sides of each feasible branch and every schedule explored) and of the compiled runners (LLVM IR), assertions decided by Z3; counterexamples replayed on plain values",
  python_functions=["centaurus.listener (all of Stage2ListenerAdapter, Stage3ListenerAdapter and their base)", "centaurus.context (Stage1Worker, SubprocessWorker, Stage2Worker, Stage3Worker, Context)", "centaurus.corelib (Grammar, Parser, runners and callback types)"],
  assumptions=["ctypes, multiprocessing and the shared library's functions are stand-ins: processes are cooperative threads that switch where they wait and between chunks, queues never lose or reorder values, and handler results are passed by reference instead of being pickled", "the runners call the binding back in the order established for the native runners (C16, C17, C18)"])
