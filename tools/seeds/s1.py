C="src/core/"
PIPE=r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <vector>
#include <string>
#include <set>
#include <initializer_list>
#include "BaseRunner.hpp"
#include "Stage1Runner.hpp"
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
using namespace Centaurus; typedef uint64_t u64;
// a parser that replays a recorded trace into the banks it is given
struct Replay: IParser { std::vector<std::vector<u64>> chunks; size_t words; const void* operator()(BaseListener*l,const void*in) override { for(auto&c:chunks){ u64*p=(u64*)l->feed_callback(); for(size_t i=0;i<words;i++) p[i]=i<c.size()?c[i]:0; } return in; } };
static u64 S(int id,u64 o){ return ((u64)1<<63)|((u64)id<<48)|o; } static u64 E(int id,u64 o){ return ((u64)id<<48)|o; }
static std::vector<std::string> logv; static u64 nextval=100; static int none_id=0;
static long cb(const SymbolEntry*s,uint64_t*v,int n,void*){ std::string r="<"+std::to_string(s->id)+":"+std::to_string((long long)s->start)+"-"+std::to_string((long long)s->end); for(int i=0;i<n;i++) r+=" "+std::to_string(v[i]); logv.push_back(r+">"); return s->id==none_id?0:s->id*1000+s->start; }
static std::vector<std::string> run(const std::vector<std::vector<u64>>&ch,int banks){ logv.clear(); char fn[]="/tmp/demoXXXXXX"; int fd=mkstemp(fn); if(write(fd,"abcdefgh",8)!=8) exit(9); close(fd); size_t w=8; for(auto&c:ch) if(c.size()>w) w=c.size(); Replay rp; rp.chunks=ch; rp.words=w;
  { Stage1Runner a(fn,&rp,8*w,banks); Stage2Runner b(fn,8*w,banks,getpid()); Stage3Runner c(fn,8*w,banks,getpid()); b.register_listener(cb); c.register_listener(cb); a.start(); b.start(); c.start(); a.wait(); b.wait(); c.wait(); } unlink(fn); return logv; }
static std::multiset<std::string> ms(const std::vector<std::string>&v){ return std::multiset<std::string>(v.begin(),v.end()); }
'''
SEEDS=[
dict(id="C01-nested",property="C01",edits=[(C+"CharClass.cpp","            new_class.m_ranges.push_back(ri.intersect(rj));\n            if (ri.end() < rj.end())","            new_class.m_ranges.push_back(ri.intersect(rj));\n            if (ri.start() < rj.start())")],
 needs="a range of the left class that starts before and reaches over several ranges of the right class",breaks="the intersection misses the later ranges",
 srcs='"$c"/CharClass.cpp',demo=r"""
#include "CharClass.hpp"
using namespace Centaurus; typedef unsigned char T;
int main(){ CharClass<T> a(L'a',L'z'),b(L'b',L'd'); b|=Range<T>('m','p'); CharClass<T> i=a&b; if(!i.includes((T)'b')||!i.includes((T)'n')||i.includes((T)'e')) return 1; CharClass<T> j=b&a; return j==i?0:1; }
"""),
dict(id="C10-stars",property="C10",edits=[(C+"Stream.hpp","                ch = peek();\n                if (ch == L'/')\n                {\n                    get();\n                    return;","                ch = get();\n                if (ch == L'/')\n                {\n                    return;")],
 needs="a block comment closed by an even run of stars before the slash",breaks="the closing */ of a comment ending in **/ is missed, so text after it is swallowed",
 srcs='',demo=r'''
#include "Stream.hpp"
using namespace Centaurus;
int main(){ Stream s(std::wstring(L"/* x */a")); if(s.skip_whitespace()!=L'a') return 1; Stream t(std::wstring(L"/** x **/b /* */c")); try{ if(t.skip_whitespace()!=L'b') return 1; }catch(...){ return 1; } return 0; }
'''),
dict(id="C02-escdash",property="C02",edits=[(C+"CharClass.cpp","            if (!escaped && ch == L'-')\n            {\n                state = CC_STATE_END;","            if (ch == L'-')\n            {\n                state = CC_STATE_END;")],
 needs="an escaped dash between two characters",breaks="an escaped dash forms a range",demo=r'''
#include "CharClass.hpp"
using namespace Centaurus; typedef unsigned char T;
int main(){ try{ Stream s(std::wstring(L"a\\-z]")); CharClass<T> a(s); if(a.includes((T)'m')||!a.includes((T)'-')||!a.includes((T)'z')) return 1; Stream t(std::wstring(L"a-z]")); CharClass<T> b(t); if(!b.includes((T)'m')) return 1; }catch(...){ return 1; } return 0; }
'''),
dict(id="C04-prefixclosure",property="C04",edits=[(C+"NFA.hpp","if (closure.size() == p.second.size() && std::equal(closure.cbegin(), closure.cend(), p.second.cbegin()))","if (closure.size() <= p.second.size() && std::equal(closure.cbegin(), closure.cend(), p.second.cbegin()))")],
 needs="overlapping classes where a later character range leads to a prefix of the states an earlier range leads to",breaks="the later range is merged into the earlier, larger set of states, so strings outside the pattern are accepted",demo=r'''
#include "DFA.hpp"
using namespace Centaurus; typedef unsigned char T; typedef std::basic_string<T> S;
static S s(const char*p){ return S(p,p+strlen(p)); }
#include <string.h>
int main(){ const char*pat="([a-f]x)|([a-c]y)"; std::wstring w(pat,pat+strlen(pat)); Stream st(w); NFA<T> n(st); DFA<T> d(n); if(!d.run(s("ax"))||!d.run(s("ay"))||!d.run(s("ex"))) return 1; if(d.run(s("ey"))) return 1; return 0; }
'''.replace("static S s","#include <string.h>\nstatic S s")),
dict(id="C07-rankreset",property="C07",edits=[(C+"ATN.cpp","                priority++;\n            }\n","                priority++;\n            }\n            else\n            {\n                priority = 0;\n            }\n")],
 needs="a rule body that mixes |> and | in this order",breaks="the alternatives after a plain | that follows |> get the best rank again",demo=r'''
#include "ATN.hpp"
using namespace Centaurus; typedef unsigned char T;
int main(){ Stream st(std::wstring(L": 'a' |> 'b' | 'c' ;")); ATNMachine<T> m(1,st); for(auto&n:m) if(n.get_transitions().size()==3){ int t0=n.get_transition(0).tag(),t1=n.get_transition(1).tag(),t2=n.get_transition(2).tag(); return t0<t1&&t1==t2?0:1; } return 2; }
'''),
dict(id="C16-joinone",property="C16",edits=[(C+"Stage3RunnerNonRecursive.hpp","static_cast<int>(tags.back()) + n);","static_cast<int>(tags.back()) + 1);")],
 needs="a chunk whose unmatched values join values of the same parent already on the stack, with at least two of them",breaks="the parent gets too few child values",srcs='',demo=PIPE+r'''
int main(){ std::vector<std::vector<u64>> one={{S(1,0),S(2,1),E(2,2),S(3,3),E(3,4),S(4,5),E(4,6),E(1,8)}}; auto a=run(one,4); std::vector<std::vector<u64>> cut={{S(1,0),S(2,1),E(2,2)},{S(3,3),E(3,4),S(4,5),E(4,6)},{E(1,8)}}; auto b=run(cut,4); if(a.size()!=4||ms(a)!=ms(b)){ for(auto&x:b) puts(x.c_str()); return 1; } return 0; }
'''),
dict(id="C16-carry",property="C16",edits=[(C+"Stage2RunnerNonRecursive.hpp","      } else if (starts.empty()) {","      } else if (starts.empty() || (i > 0 && src[i-1] == src[i])) {")],
 needs="a rule instance that ends where its last child of the same rule ended (nested empty-tailed recursion)",breaks="two equal end marks in a row: the second is left for the final stage although its start is at hand, so the final stage pairs it with the wrong start",srcs='',demo=PIPE+r'''
int main(){ std::vector<std::vector<u64>> c={{S(1,0),S(2,1),S(2,2),E(2,5),E(2,5),E(1,8)}}; // the recursive rule ends twice at 5
  auto a=run(c,4); const char*want[]={"<2:2-5>","<2:1-5 2002>","<1:0-8 2001>"}; if(a.size()!=3) return 1; for(int i=0;i<3;i++) if(a[i]!=want[i]){ puts(a[i].c_str()); return 1; } return 0; }
'''),
dict(id="C21-wrap",property="C21",edits=[(C+"Util.hpp","                if ((*this)[i].second < p[i].second)\n                    return -1;\n                else if ((*this)[i].second > p[i].second)\n                    return +1;","                int diff = (*this)[i].second - p[i].second;\n                if (diff != 0) return diff;")],
 needs="indices further apart than the largest int",breaks="the order of paths is no longer transitive or antisymmetric",demo=r'''
#include "Util.hpp"
#include <limits.h>
using namespace Centaurus;
int main(){ Identifier id(L"A"); volatile int lo=-2000000000,hi=2000000000; ATNPath p(id,lo),q(id,hi); if(!(p.compare(q)<0)||!(q.compare(p)>0)) return 1; return 0; }
'''),
dict(id="C24-index",property="C24",edits=[(C+"Util.hpp","        if (m_id == e.m_id && m_index == e.m_index)\n            return m_priority > e.m_priority;","        if (m_id == e.m_id)\n            return m_priority > e.m_priority;")],
 needs="two histories through different decision points of one rule",breaks="decisions at different points of the same rule are compared",demo=r'''
#include "Util.hpp"
using namespace Centaurus;
int main(){ Identifier id(L"A"); PriorityChain a(id,1,5),b(id,2,3); if(a.is_inferior_to(b)||a.is_superior_to(b)) return 1; PriorityChain c(id,1,3); if(!a.is_inferior_to(c)) return 1; return 0; }
'''),
dict(id="C15-id14",property="C15",edits=[(C+"BaseRunner.hpp","return (m_value >> 48) & 0x7FFF;","return (m_value >> 48) & 0x3FFF;")],
 needs="a rule number of 16384 or more",breaks="large rule numbers decode to another rule",srcs='',demo=r'''
#include <stdint.h>
#include <unistd.h>
#include <time.h>
#include <initializer_list>
#include "BaseRunner.hpp"
using namespace Centaurus;
int main(){ for(uint64_t id:{1ull,16383ull,16384ull,32767ull}){ CSTMarker m((id<<48)|5); if((uint64_t)m.get_machine_id()!=id||!m.is_end_marker()) return 1; } return 0; }
'''),
dict(id="C06-idspace",property="C06",edits=[(C+"ATN.cpp","        ch = stream.skip_whitespace();\n        if (ch != L'}')","        ch = stream.peek();\n        if (ch != L'}')")],
 needs="white space or a comment between an item number and its closing brace",breaks="the grammar is rejected depending on layout",demo=r'''
#include "ATN.hpp"
using namespace Centaurus; typedef unsigned char T;
int main(){ for(const wchar_t*t:{L": B{1} ;",L": B{ 1} ;",L": B{1 } ;",L": B { 1 /* x */ } ;"}){ try{ std::wstring w(t); Stream st(w); ATNMachine<T> m(1,st); bool f=false; for(auto&n:m) if(n.get_id()==1) f=true; if(!f) return 1; }catch(...){ return 1; } } return 0; }
'''),
dict(id="C18-entry",property="C18",edits=[(C+"BaseRunner.hpp","return ALIGN_NEXT(sizeof(WindowBankEntry) * m_bank_num, IPC_PAGESIZE);","return ALIGN_NEXT(sizeof(std::atomic<WindowBankState>) * m_bank_num, IPC_PAGESIZE);")],
 needs="more than about a million buffers",breaks="the control area is sized for half of its entries, so its end overlaps the first buffers",srcs='',demo=r'''
#include <stdint.h>
#include <unistd.h>
#include <time.h>
#include <initializer_list>
#include "BaseRunner.hpp"
using namespace Centaurus;
#include <stdlib.h>
struct R: BaseRunner{ R(const char*f,size_t b,int n):BaseRunner(f,b,n){} void start() override{} void*feed_callback() override{ return 0; } };
int main(){ for(int n:{1,4,1048576,1048577,2000000}){ R r("/dev/null",64,n); if(r.get_sub_window_size()<sizeof(BaseRunner::WindowBankEntry)*(size_t)n) return 1; } return 0; }
'''),
dict(id="C03-longopt",property="C03",edits=[(C+"NFA.hpp","                //Add an epsilon transition to the last state\n                add_transition_to(CharClass<TCHAR>(), 1, true);\n                //Add a confluence\n                add_state(CharClass<TCHAR>());\n                //Add a skipping transition\n                add_transition_from(CharClass<TCHAR>(), 1);\n                break;","                //Add an epsilon transition to the last state\n                add_transition_to(CharClass<TCHAR>(), 1, true);\n                //Add a confluence\n                add_state(CharClass<TCHAR>());\n                break;")],
 needs="the long-run variant *+ of the star operator on a text with no repetition",breaks="x*+ requires at least one x",demo=r'''
#include "DFA.hpp"
#include <string.h>
using namespace Centaurus; typedef unsigned char T; typedef std::basic_string<T> S;
static S s(const char*p){ return S(p,p+strlen(p)); }
int main(){ const char*pat="ab*+c"; std::wstring w(pat,pat+strlen(pat)); Stream st(w); NFA<T> n(st); DFA<T> d(n); if(!d.run(s("abbc"))) return 1; if(!d.run(s("ac"))) return 1; return 0; }
'''),
]
