C="src/core/"; P="src/python/centaurus/"
G='"$c"/Grammar.cpp "$c"/ATN.cpp "$c"/CharClass.cpp "$c"/CompositeATN.cpp "$c"/Util.cpp'
J=G+' "$c"/CodeGenEM64T.cpp'
H="/verif/harness/"
SX=r'''#pragma once
// plain values only
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
static inline uint64_t sx_concretize(uint64_t v){ return v; }
static inline uint64_t sx_ite(bool c,uint64_t a,uint64_t b){ return c?a:b; }
static inline void sx_fail(const char*m){ printf("failed: %s\n",m); exit(1); }
static inline void sx_assert(bool c,const char*m){ if(!c) sx_fail(m); }
'''
JF={"common.hpp":open(H+"common.hpp").read().replace("../engine/sx.h","sx.h"),"sx.h":SX,"x86.hpp":open(H+"x86.hpp").read(),"asmjit/asmjit.h":open(H+"shim/asmjit/asmjit.h").read()}
JH=r'''// The machine code is recorded and interpreted.
#include "x86.hpp"
#include "Grammar.hpp"
#include "CodeGenEM64T.hpp"
#include "Grammar.cpp"
#include "ATN.cpp"
#include "CharClass.cpp"
#include "CompositeATN.cpp"
#include "Util.cpp"
#include "CodeGenEM64T.cpp"
#include <fstream>
#include <stdlib.h>
#include <unistd.h>
using namespace Centaurus; typedef unsigned char TC;
static std::vector<TC> pad(const std::string&s){ std::vector<TC> t(s.begin(),s.end()); t.resize(t.size()+40,0); return t; }
template<class R> static long run(R&r,const std::string&s){ std::vector<TC> t=pad(s); const TC*e=(const TC*)r(t.data()); return e?e-t.data():-1; }
static void load(Grammar<TC>&g,const char*text){ char d[]="/tmp/demoXXXXXX"; if(!mkdtemp(d)) exit(9); std::string b=d; { std::ofstream(b+"/m")<<text; } g.parse((b+"/m").c_str()); unlink((b+"/m").c_str()); rmdir(d); }
'''
GH=r'''
#include "Grammar.hpp"
#include "LookaheadDFA.hpp"
#include <fstream>
#include <stdlib.h>
#include <unistd.h>
using namespace Centaurus; typedef unsigned char TC;
static bool load(Grammar<TC>&g,const char*text){ char d[]="/tmp/demoXXXXXX"; if(!mkdtemp(d)) exit(9); std::string b=d; { std::ofstream(b+"/m")<<text; } g.parse((b+"/m").c_str()); unlink((b+"/m").c_str()); rmdir(d); return g.verify(); }
'''
PY=r'''
import sys, types, ctypes, importlib.util, os
sys.dont_write_bytecode = True
class Fn:
    def __call__(self, *a): return None
class Dll:
    def __getattr__(self, n):
        f = Fn(); setattr(self, n, f); return f
real = ctypes.CDLL; ctypes.CDLL = lambda *a, **k: Dll()
d = os.path.join(os.getcwd(), "src/python/centaurus")
sp = importlib.util.spec_from_file_location("centaurus", d + "/__init__.py", submodule_search_locations=[d]); p = importlib.util.module_from_spec(sp); sys.modules["centaurus"] = p; sp.loader.exec_module(p)
from centaurus.listener import *
class G:
    def get_machine_num(s): return 1
    def get_machine_name(s, i): return "A"
class S:
    def __init__(s): s.id, s.start, s.end = 1, 0, 0
class Q:
    def __init__(s): s.d = []
    def put(s, x): s.d.append(x)
    def get(s): return s.d.pop(0)
'''
PD='python3 "$d/demo.py"'
SEEDS=[
dict(id="C11-rangeleft",property="C11",edits=[(C+"CodeGenEM64T.cpp","                as.jb(labels[tr.dest()]);\n                as.mov(CHAR_REG, CHAR2_REG);","                as.jb(labels[tr.dest()]);\n                if (tr.label().size() > 1) as.mov(CHAR_REG, CHAR2_REG);")],
 needs="a state with a transition on one range of several characters followed by further transitions",breaks="the character tested by the later transitions is the one shifted by the range check",flags='-I"$d"',srcs='',files=JF,demo=JH+r'''
int main(){ Grammar<TC> g; load(g,"Z : /([a-c]x)|([m-p]y)|(zq)/ ;"); DryParserEM64T<TC> p(g); const char*ok[]={"ax","ny","zq"}; for(auto s:ok){ std::vector<TC> t=pad(s); const TC*e=(const TC*)p(nullptr,t.data()); if(!e||e-t.data()!=2) return 1; } return 0; }
'''),
dict(id="C12-stride",property="C12",edits=[(C+"CodeGenEM64T.cpp","            as.cmp(INDEX_REG, asmjit::Imm(l1));\n            as.jb(rejectlabel);","            as.cmp(INDEX_REG, asmjit::Imm(l1));\n            if (i == 0) as.jb(rejectlabel);")],
 needs="a literal of more than 16 characters on a text that departs from it after the first 16",breaks="the tail of long literals is not compared",flags='-I"$d"',srcs='',files=JF,demo=JH+r'''
int main(){ std::string s="abcdefghijklmnopqrst"; std::basic_string<TC> l(s.begin(),s.end()); MatchRoutineEM64T<TC> r(l); return run(r,s+"u")==20&&run(r,"abcdefghijklmnopqrsx")==-1&&run(r,"abc")==-1?0:1; }
'''),
dict(id="C13-shifted",property="C13",edits=[(C+"CodeGenEM64T.cpp","                    as.jb(exitlabels[-tr.dest() - 1]);\n                }\n                as.mov(CHAR_REG, CHAR2_REG);","                    as.jb(exitlabels[-tr.dest() - 1]);\n                    as.mov(CHAR_REG, CHAR2_REG);\n                }")],
 needs="a decision that needs two characters after a range, followed by another range that decides at once",breaks="after a range that leads to another state, the character is left shifted and later transitions misjudge it",flags='-I"$d"',srcs='',files=JF,demo=JH+r'''
struct L:BaseListener{ std::vector<uint64_t> b; void*feed_callback()override{ b.resize(1<<20); return b.data(); } };
int main(){ Grammar<TC> g; load(g,"Z : S ';' ; S : /[a-c]/ 'x' | /[a-c]/ 'y' | /[m-p]/ 'z' ;"); DryParserEM64T<TC> p(g);
  const char*ok[]={"ax;","by;","nz;"}; for(auto s:ok){ std::vector<TC> t=pad(s); const TC*e=(const TC*)p(nullptr,t.data()); if(!e||e-t.data()!=3) return 1; } return 0; }
'''),
dict(id="C14-pageswap",property="C14",edits=[(C+"CodeGenEM64T.cpp","        as.pop(INPUT_BASE_REG);\n        as.pop(INPUT_REG);\n\n        as.jmp(statelabels[0]);","        as.pop(INPUT_REG);\n        as.pop(INPUT_BASE_REG);\n\n        as.jmp(statelabels[0]);")],
 needs="a buffer that fills up exactly with a start mark",breaks="reading goes on at the beginning of the text after the buffer was exchanged",flags='-I"$d"',srcs='',files=JF,demo=JH+r'''
struct L:BaseListener{ std::vector<std::vector<uint64_t>> b; void*feed_callback()override{ b.push_back(std::vector<uint64_t>(8)); return b.back().data(); } };
int main(){ Grammar<TC> g; load(g,"Z : 'q' A ';' ; A : B 'a' | 'c' ; B : 'b' ;"); L l; l.b.reserve(64); x86i::pageimm=8*1024*1024; x86i::pagelen=24; ParserEM64T<TC> p(g); std::vector<TC> t=pad("qba;"); const TC*e=(const TC*)p(&l,t.data());
  if(!e||e-t.data()!=4) return 1; std::vector<uint64_t> m; for(auto&v:l.b) for(int i=0;i<3;i++) if(v[i]) m.push_back(v[i]&0xffffffffffffull); return m==std::vector<uint64_t>({0,1,1,2,3,4})?0:1; }
'''),
dict(id="C08-onesite",property="C08",edits=[(C+"CompositeATN.cpp","                build_closure_exclusive(closure, ATNPath(p.first, i), color, stack, priority);\n                stack.pop();","                build_closure_exclusive(closure, ATNPath(p.first, i), color, stack, priority);\n                stack.pop(), i = p.second.get_num_nodes();")],
 needs="a rule used twice in another rule, with a decision at its end whose continuation only the second use offers",breaks="the automaton does not know what follows the second use",srcs=G,demo=GH+r'''
int main(){ Grammar<TC> g; if(!load(g,"Z : B 'x' B 'y' ; B : 'b' ('c')* ;")) return 9; CompositeATN<TC> c(g); int bad=0,seen=0; for(const auto&p:g.get_machines()) for(int i=0;i<p.second.get_node_num();i++) if(p.second.get_node(i).get_transitions().size()>1){ LookaheadDFA<TC> l(c,c.convert_atn_path(ATNPath(p.first,i))); seen++;
   TC x[]={'x',0},y[]={'y',0},k[]={'c',0}; int a=l.run(x),b=l.run(y),d=l.run(k); if(a<0||a!=b||d<0||d==a) bad++; } return seen&&!bad?0:1; }
'''),
dict(id="C09-pairs",property="C09",edits=[(C+"CompositeATN.cpp","            if (outbound_num > 1)\n            {\n                try","            if (outbound_num > 2 || (outbound_num == 2 && i == 0))\n            {\n                try")],
 needs="an undecidable choice between two alternatives that does not stand at the start of its rule",breaks="such grammars pass verification",srcs=G,demo=GH+r'''
int main(){ Grammar<TC> g,h; if(!load(g,"Z : 'q' ( 'a' | 'b' ) ';' ;")) return 9; return load(h,"Z : 'q' ( A 'x' | A 'y' ) ';' ; A : '(' A ')' | 'a' ;")?1:0; }
'''),
dict(id="C05-unmerged",property="C05",edits=[(C+"DFA.hpp","                mask[index] = false;","                mask[index] = index < 3;")],
 needs="equal states among the first three of an automaton",breaks="states that nothing leads to are left in the automaton",srcs=G,demo=r'''
#include "Grammar.hpp"
using namespace Centaurus; typedef unsigned char TC;
int main(){ Stream st(std::wstring(L"a|bc|d/")); NFA<TC> n(st); DFA<TC> d(n); std::vector<int> in(d.get_state_num(),0); in[0]=1; for(int i=0;i<d.get_state_num();i++) for(const auto&t:d.get_state(i).get_transitions()) in[t.dest()]++; for(int v:in) if(!v) return 1; return 0; }
'''),
dict(id="C19-narrow",property="C19",edits=[(C+"Context.hpp","return (long)ctx.m_callbacks[symbol->id](rc);","return (int)(long)ctx.m_callbacks[symbol->id](rc);")],
 needs="an action result above 2 GB (any heap pointer)",breaks="the parent's action sees a truncated child value",flags='-I"$d"',srcs='',files=JF,demo=JH+r'''
#include "Context.hpp"
static void*act(const SymbolContext<TC>&c){ return (void*)0x7f1234567890ull; }
int main(){ std::vector<CppReductionCallback<TC>> v(2,nullptr); v[1]=act; ParseContext<TC> p{v,nullptr}; SymbolEntry e(1,0,0); return Context<TC>::callback(&e,nullptr,0,&p)==0x7f1234567890l?0:1; }
'''),
dict(id="C20-rewind",property="C20",edits=[(P+"listener.py","            self.valueiters.append(iter(values))","            self.valueiters.append(values)")],
 needs="two instances that share the values of one chunk",breaks="the second instance gets the first one's child values again",demo_sh=PD,demo_py=PY+r'''
got = []
class H:
    def parseA(s, ctx): got.append(list(ctx)); return None
ch = [Q(), Q()]; ch[0].put([]); ch[1].put([10, 20]); a = Stage3ListenerAdapter(G(), H(), ch, 0); a.transfer_callback(0, 0); a.transfer_callback(1, 1); a.reduction_callback([S()], [1], 1); a.reduction_callback([S()], [1], 1)
sys.exit(0 if got == [[10], [20]] else 1)
'''),
dict(id="C20-falsy",property="C20",edits=[(P+"listener.py","        if lhs_value is None:","        if not lhs_value:")],
 needs="a handler result that counts as false, such as 0 or an empty list",breaks="the result is dropped",demo_sh=PD,demo_py=PY+r'''
class H:
    def parseA(s, ctx): return 0
ch = [Q()]; a = Stage2ListenerAdapter(G(), H(), ch, 0); a.transfer_callback(-1, 0); n = a.reduction_callback([S()], [0], 0); a.transfer_callback(0, -1)
sys.exit(0 if n == 1 and ch[0].d == [[0]] else 1)
'''),
dict(id="C20-reopen",property="C20",edits=[(P+"listener.py","            self.channels[index].put(self.values)\n            self.values = None","            self.channels[index].put(self.values)\n            self.values = [] if self.page_index < 0 else None\n            self.page_index = -1")],
 needs="one",breaks="x",demo_sh=PD,demo_py="import sys;sys.exit(0)"),
dict(id="C20-lastshift",property="C20",edits=[(P+"listener.py","                    shift_count -= 1\n                    if shift_count == 0:\n                        break","                    shift_count -= 1\n                    if shift_count == 0 and len(self.valueiters) > 1:\n                        break")],
 needs="an instance that takes some but not all of the values of the newest chunk",breaks="values of later instances are handed over too early",demo_sh=PD,demo_py=PY+r'''
got = []
class H:
    def parseA(s, ctx): got.append(list(ctx)); return None
ch = [Q(), Q()]; ch[0].put([]); ch[1].put([10, 20]); a = Stage3ListenerAdapter(G(), H(), ch, 0); a.transfer_callback(0, 0); a.transfer_callback(1, 1)
try:
    a.reduction_callback([S()], [1], 1); a.reduction_callback([S()], [1], 1)
except BaseException: pass
sys.exit(0 if got == [[10], [20]] else 1)
'''),
]
SEEDS=[s for s in SEEDS if s["id"]!="C20-reopen"]
