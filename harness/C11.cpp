// Generated terminal matchers. MODE 0: any small pattern, every text. MODE 1: repeated classes on texts longer than a vector register.
#include "regex.hpp"
#include "jit.hpp"
static NFA<TC> nfaof(const std::wstring&t){ Stream st(t+L"/"); return NFA<TC>(st); }
#ifndef ONLY
#define ONLY -1
#endif
void sx_main(){
  sx_steps(20000000,"generating or running a matcher"); sx_expect_reach("ran"); sx_expect_reach("accepted"); sx_expect_reach("rejected");
#if MODE==0
  PatGen g(1+sx_choose("leaves",LEAVES),POSTS,GROUPS,KINDS,SYMB,LONGS); NP ast=g.seq(); if(!ast||g.leaves>0) return;
  std::vector<uint64_t> x; for(int i=0;i<SLEN;i++) x.push_back(sx_range("x",0,CMAX-1));
  Mat ref=refmatch(ast,x.data(),SLEN); uint64_t want=99; for(int n=0;n<=SLEN;n++) want=sx_ite(ref[0][n],n,want);
  std::wstring pat=g.txt;
#else
  static const wchar_t*const OPS[]={L"*+",L"++",L"*",L"+",L"**",L"+*"}; static const int NR[]={1,2,8,9,3,7}; int nr=NR[sx_choose("ranges",RNUM)], op=sx_choose("op",6), pre=op<4?(int)sx_choose("before",2):0, post=sx_choose("after",2), wide=WIDE?(int)sx_choose("wide",2):nr&1, neg=sx_choose("negated",2);
  if(ONLY>=0&&op!=ONLY) return; std::wstring cls; std::vector<std::pair<uint64_t,uint64_t>> set; for(int i=0;i<nr;i++){ wchar_t a=0xA0+4*i; cls.push_back(a); set.push_back({(uint64_t)a,(uint64_t)a}); if(wide){ cls.push_back(L'-'); cls.push_back(a+2); set.back().second=a+2; } }
  std::wstring pat; if(pre) pat+=L'A'; pat+=neg?L"[^":L"["; pat+=cls; pat+=L']'; pat+=OPS[op]; if(post){ if(neg) pat+=(wchar_t)0xA0; else pat+=L'z'; }
  bool plain=op>=2||nr>8-neg; int n=plain?PLAIN:SLEN; std::vector<uint64_t> x; for(int i=0;i<SLEN;i++) x.push_back(i<n?sx_range("x",0,CMAX-1):0);
  int p0=pre?1:0; uint64_t k=p0; bool run=true; std::vector<uint64_t> at; uint64_t want=99; // k: how far the repetition reaches
  for(int i=p0;i<SLEN;i++){ bool in=false; for(auto&r:set) in=bor(in,band(r.first<=x[i],x[i]<=r.second)); if(neg) in=band(!in,x[i]>=1); run=band(run,in); k=sx_ite(run,(uint64_t)i+1,k); }
  bool ok=true; if(pre) ok=x[0]=='A'; if(op==1||op==3||op==5) ok=band(ok,k>(uint64_t)p0);
  if(post){ uint64_t e=neg?0xA0:'z'; bool hit=false; for(int i=p0;i<SLEN;i++) hit=bor(hit,band(k==(uint64_t)i,x[i]==e)); want=sx_ite(band(ok,hit),k+1,99); } else want=sx_ite(ok,k,99);
#endif
  NFA<TC> nfa=nfaof(pat); DFA<TC> dfa(nfa); DFARoutineEM64T<TC> rt(dfa);
  std::vector<TC> t=padded(x); const TC*end=(const TC*)rt(t.data()); sx_reach("ran");
  uint64_t got=end?(uint64_t)(end-t.data()):99; sx_reach(end?"accepted":"rejected");
  sx_assert(got==want,"a generated matcher stops at the end of the longest match, or reports that there is none"); sx_observe("got",got);
}
