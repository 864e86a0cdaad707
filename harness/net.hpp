// Character-level simulation of rule networks with call stacks; an empty stack may return to any call of the rule.
#pragma once
#include "grammar.hpp"
#include "gram.hpp"
typedef std::vector<int> Cfg; // call sites (rule, node)* then rule, node, place
struct Net{ const Grammar<TC>&g; std::vector<Identifier> ids; std::vector<const ATNMachine<TC>*> m; bool deep=false;
  struct Out{ int kind; int a,b; const CharClass<TC>*cc; Cfg next; }; std::map<Cfg,std::vector<Out>> memo;
  Net(const Grammar<TC>&gg):g(gg){ for(int i=0;i<4;i++){ Identifier id(Gram::name(i)); if(g.get_machines().count(id)){ ids.push_back(id); m.push_back(&g[id]); } } }
  int rule(const Identifier&id){ for(size_t i=0;i<ids.size();i++) if(ids[i]==id) return (int)i; return -1; }
  static Cfg at(const Cfg&c,int r,int n,int p){ Cfg d(c.begin(),c.end()-3); d.push_back(r); d.push_back(n); d.push_back(p); return d; }
  void leave(const Cfg&c,std::vector<Cfg>&w){ int r=c[c.size()-3],n=c[c.size()-2]; auto&tr=m[r]->get_node(n).get_transitions(); if(!tr.empty()){ for(auto&t:tr) w.push_back(at(c,r,t.dest(),0)); return; }
    if(c.size()>3){ Cfg d(c.begin(),c.end()-3); d.push_back(1); w.push_back(d); return; } // the call that led here is over
    for(size_t q=0;q<m.size();q++) for(int i=0;i<m[q]->get_node_num();i++){ auto&nd=m[q]->get_node(i); if(nd.type()==ATNNodeType::Nonterminal&&rule(nd.get_invoke())==r) w.push_back(Cfg{(int)q,i,1}); } } // or any call of this rule
  const std::vector<Out>&outs(const Cfg&c0){ auto it=memo.find(c0); if(it!=memo.end()) return it->second; std::vector<Out> o; std::set<Cfg> seen; std::vector<Cfg> w(1,c0);
    while(!w.empty()){ Cfg c=w.back(); w.pop_back(); if(c.size()>3*6){ deep=true; continue; } if(!seen.insert(c).second) continue; if(seen.size()>2000){ deep=true; break; } int r=c[c.size()-3],n=c[c.size()-2],p=c[c.size()-1]; auto&nd=m[r]->get_node(n);
      switch(nd.type()){ case ATNNodeType::Blank: leave(c,w); break; case ATNNodeType::WhiteSpace: o.push_back(Out{0,0,0,nullptr,c}); leave(c,w); break;
        case ATNNodeType::LiteralTerminal: if(p<(int)nd.get_literal().size()) o.push_back(Out{1,(int)nd.get_literal()[p],0,nullptr,at(c,r,n,p+1)}); else leave(c,w); break;
        case ATNNodeType::RegularTerminal: { auto&nfa=nd.get_nfa(); for(auto&t:nfa.get_transitions(p)) if(t.is_epsilon()) w.push_back(at(c,r,n,t.dest())); else o.push_back(Out{2,0,0,&t.label(),at(c,r,n,t.dest())}); if(p==nfa.get_state_num()-1) leave(c,w); } break;
        case ATNNodeType::Nonterminal: if(p==0){ int q=rule(nd.get_invoke()); if(q>=0){ Cfg d(c.begin(),c.end()-1); d.push_back(q); d.push_back(0); d.push_back(0); w.push_back(d); } } else leave(c,w); break; default: break; } }
    return memo[c0]=o; }
};
