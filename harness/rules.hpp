// Rule-body generator (shape by sx_choose), printer and reference, shared by the rule-network and decision-model checks.
#pragma once
#include "grammar.hpp"
#define CharClass_SEEN
#include "regex.hpp"
struct RuleGen{ // leaf i is a terminal or reference of its own, denoting the item i
  int leaves,posts,groups,ranks,kinds,empties; int nleaf=0; std::vector<int> kind; std::wstring txt; bool ws; long WS; std::vector<std::pair<std::vector<NP>,std::vector<int>>> sels;
  RuleGen(int l,int p,int g,int r,int k,int e,bool w,long wsid):leaves(l),posts(p),groups(g),ranks(r),kinds(k),empties(e),ws(w),WS(wsid){}
  NP item(long id){ NP n(new Node); n->kind=0; n->set.push_back({(uint64_t)id,(uint64_t)id}); return n; }
  NP leaf(){ leaves--; int k=kinds>1?sx_choose("leaf",kinds):0; wchar_t c=L'b'+nleaf*2; kind.push_back(k); NP n=item(nleaf); 
    if(k==0){ txt+=L" '"; txt+=c; txt+=L"'"; } else if(k==1){ txt+=L" R"; txt+=c; } else { txt+=L" /"; txt+=c; txt+=L"/"; }
    nleaf++; if(ws&&k!=1){ NP m(new Node); m->kind=1; m->k.push_back(item(WS)); m->k.push_back(n); return m; } return n; }
  NP atom(){ NP n; if(groups>0&&sx_choose("grp",2)){ groups--; txt+=L"("; n=sel(); txt+=L")"; } else { if(!leaves) return nullptr; n=leaf(); } if(!n) return n;
    if(posts>0){ int p=sx_choose("post",4); if(p){ posts--; NP m(new Node); m->kind=2+p; m->k.push_back(n); n=m; static const wchar_t pc[]=L" *+?"; txt.push_back(pc[p]); } } return n; }
  NP seq(){ NP m(new Node); m->kind=1; if(empties>0&&sx_choose("empty",2)){ empties--; NP e(new Node); e->kind=6; m->k.push_back(e); return m; }
    do{ NP u=atom(); if(!u) return u; m->k.push_back(u);}while(leaves>0&&sx_choose("more",2)); return m; }
  NP sel(){ NP n=seq(); if(!n) return n; NP m; std::vector<int> rk(1,0); while(leaves+empties>0){ int a=sx_choose("alt",ranks>0?3:2); if(!a) break; if(a==2) ranks--; rk.push_back(rk.back()+(a==2)); if(!m){ m.reset(new Node); m->kind=2; m->k.push_back(n); } txt+=a==2?L"|>":L"|"; NP u=seq(); if(!u) return u; m->k.push_back(u); } if(m) sels.push_back({m->k,rk}); return m?m:n; }
  // items an alternative can begin with (a terminal after layout counts as 100 + item); returns whether it can be empty
  bool firsts(const NP&n,std::set<long>&o){ if(n->kind==0){ o.insert((long)n->set[0].first); return false; } if(n->kind==6) return true; if(n->kind==1){ if(n->k.size()==2&&n->k[0]->kind==0&&(long)n->k[0]->set[0].first==WS){ o.insert(100+(long)n->k[1]->set[0].first); return false; } for(auto&k:n->k) if(!firsts(k,o)) return false; return true; } bool e=n->kind==3||n->kind==5; for(auto&k:n->k) if(firsts(k,o)) e=true; return e; }
};
