// Regular terminals: language of the automaton built from a pattern (MODE 0), NFA::run (MODE 1), unknown escapes (MODE 2).
#include "regex.hpp"
#include "NFA.hpp"
using namespace Centaurus;
#ifndef LEAVES
#define LEAVES 3
#endif
#ifndef POSTS
#define POSTS 1
#endif
#ifndef GROUPS
#define GROUPS 1
#endif
#ifndef KINDS
#define KINDS 1
#endif
#ifndef SYMB
#define SYMB 0
#endif
#ifndef LONGS
#define LONGS 0
#endif
void sx_main(){
  sx_steps(3000000,"reading or running a pattern");
#if MODE==2
  sx_expect_reach("rejected"); uint64_t e=sx_range("e",1,0x10FFFF); static const wchar_t ok[]=L"[]+*{}?\\|()."; bool known=false; for(int i=0;i<12;i++) known=bor(known,e==(uint64_t)ok[i]);
  sx_assume(!known); sx_assume(e!=13);
  int pre=sx_choose("pre",3); std::wstring w=pre==0?L"":pre==1?L"a*":L"(b|"; w.push_back(L'\\'); w.push_back((wchar_t)e); w+=pre==2?L")/":L"/";
  Stream st(w); bool threw=false; try{ NFA<TC> n(st);}catch(StreamException&){ threw=true; } sx_reach("rejected"); sx_assert(threw,"an unknown escape must be rejected");
  return;
#else
  sx_expect_reach("pattern");
  PatGen g(1+sx_choose("leaves",LEAVES),POSTS,GROUPS,KINDS,SYMB,LONGS); int want=g.leaves; NP ast=g.seq(); if(!ast||g.leaves>0) return; (void)want;
  std::wstring t=g.txt; t+=L"/;";
  Stream st(t); NFA<TC> nfa; 
  { NFA<TC> tmp(st); for(int i=0;i<1;i++) nfa.concat(tmp); sx_assert(st.peek()==L';',"reading stops after the closing slash"); 
    uint64_t x[SLEN]; for(int i=0;i<SLEN;i++) x[i]=sx_range("x",0,CMAX-1);
    sx_reach("pattern");
#if MODE==0
    Mat ref=refmatch(ast,x,SLEN); auto sim=simulate(tmp,x,SLEN); bool same=true; int last=tmp.get_state_num()-1;
    for(int n=0;n<=SLEN;n++) same=band(same,(bool)sim[n][last]==(bool)ref[0][n]);
    sx_assert(same,"automaton accepts exactly the pattern's language"); sx_observe("states",tmp.get_state_num()); sx_observe("acc",sim[SLEN][last]);
#else
    int n=sx_choose("n",SLEN+1); std::basic_string<TC> s; for(int i=0;i<n;i++) s.push_back((TC)x[i]); Mat ref=refmatch(ast,x,n);
    bool r=tmp.run(s); sx_assert(r==(bool)ref[0][n],"running the automaton accepts exactly the pattern's language"); sx_observe("r",r);
#endif
  }
#endif
}
