// Determinisation and minimisation: MODE 0 language of both forms, MODE 1 DFA::run, MODE 2 determinism and well-formedness (C05).
#include "regex.hpp"
#include "CharClass.hpp"
// The hash of a class only selects a bucket; any constant is a legal summary (C01 checks that equal classes hash alike).
namespace Centaurus { template<> size_t CharClass<TC>::hash() const { return 0; } }
#include "DFA.hpp"
using namespace Centaurus;
static bool accepts(const DFA<TC>&d,const std::vector<char>&s){ bool r=false; for(size_t i=0;i<s.size();i++) if(d.is_accept_state(i)) r=bor(r,s[i]); return r; }
static bool wellformed(const CharClass<TC>&c){ bool ok=c.begin()!=c.end(); bool first=true; uint64_t last=0; for(auto it=c.begin();it!=c.end();++it){ uint64_t a=(uint64_t)it->start(),b=(uint64_t)it->end(); ok=band(ok,a<b); if(!first) ok=band(ok,last<a); last=b; first=false; } return ok; }
static void check_form(const DFA<TC>&d,uint64_t x,const char*m1,const char*m2,const char*m3,const char*m4){
  int ns=d.get_state_num(); sx_assert(ns>0,"a start state exists"); if(ns<=0) return;
  bool wf=true,det=true,dest=true; std::vector<char> seen(ns,0); std::vector<int> todo{0}; seen[0]=1;
  for(int i=0;i<ns;i++){ bool any=false; for(const auto&t:d.get_state(i).get_transitions()){ wf=band(wf,wellformed(t.label())); bool m=lab(t.label(),x); det=band(det,!band(any,m)); any=bor(any,m); if(t.dest()<0||t.dest()>=ns) dest=false; } }
  sx_assert(dest,m1); if(!dest) return;
  while(!todo.empty()){ int i=todo.back(); todo.pop_back(); for(const auto&t:d.get_state(i).get_transitions()) if(!seen[t.dest()]){ seen[t.dest()]=1; todo.push_back(t.dest()); } }
  bool all=true; for(int i=0;i<ns;i++) all=all&&seen[i];
  sx_assert(wf,m2); sx_assert(det,m3); sx_assert(all,m4); }
void sx_main(){
  sx_steps(6000000,"building or running an automaton");
  sx_expect_reach("pattern");
  PatGen g(1+sx_choose("leaves",LEAVES),POSTS,GROUPS,KINDS,SYMB,0); NP ast=g.seq(); if(!ast||g.leaves>0) return;
  std::wstring t=g.txt+L"/"; Stream st(t); NFA<TC> nfa(st);
  DFA<TC> raw(nfa,false), min(nfa);
  sx_reach("pattern");
#if MODE==2
  uint64_t x=sx_range("x",0,(uint64_t)CMAX);
  check_form(raw,x,"transitions of the deterministic automaton lead to existing states","labels of the deterministic automaton are non-empty well-formed classes","labels leaving a state of the deterministic automaton are disjoint","every state of the deterministic automaton is reachable");
  check_form(min,x,"transitions of the minimised automaton lead to existing states","labels of the minimised automaton are non-empty well-formed classes","labels leaving a state of the minimised automaton are disjoint","every state of the minimised automaton is reachable");
  sx_observe("raw",raw.get_state_num()); sx_observe("min",min.get_state_num());
#else
  uint64_t x[SLEN]; for(int i=0;i<SLEN;i++) x[i]=sx_range("x",0,CMAX-1);
  Mat ref=refmatch(ast,x,SLEN);
#if MODE==0
  auto s1=simulate(raw,x,SLEN), s2=simulate(min,x,SLEN); bool a=true,b=true;
  for(int n=0;n<=SLEN;n++){ a=band(a,accepts(raw,s1[n])==(bool)ref[0][n]); b=band(b,accepts(min,s2[n])==(bool)ref[0][n]); }
  sx_assert(a,"deterministic automaton accepts exactly the pattern's language"); sx_assert(b,"minimised automaton accepts exactly the pattern's language");
  sx_observe("raw",raw.get_state_num()); sx_observe("min",min.get_state_num()); sx_observe("acc",accepts(min,s2[SLEN]));
#else
  int n=sx_choose("n",SLEN+1); std::basic_string<TC> s; for(int i=0;i<n;i++) s.push_back((TC)x[i]);
  bool r=raw.run(s), q=min.run(s); sx_assert(r==(bool)ref[0][n],"running the deterministic automaton decides the pattern's language"); sx_assert(q==(bool)ref[0][n],"running the minimised automaton decides the pattern's language"); sx_observe("r",r); sx_observe("q",q);
#endif
#endif
}
