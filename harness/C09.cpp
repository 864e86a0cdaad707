// Grammar verification: rule sets with symbolic literal characters and any references.
#ifndef TC
#define TC unsigned char
#endif
#include "common.hpp"
#include "CharClass.hpp"
namespace Centaurus { template<> inline size_t CharClass<TC>::hash() const { return 0; } }
#include "net.hpp"
static int posts=POSTS, groups=GROUPS, ranks=RANKS, undef=0; static bool anyrank=false;
static GP symlit(){ return glit(std::string(1,(char)sx_range("l",'a','z'))); }
static GP leaf(int kinds){ switch(sx_choose("leaf",kinds)){ case 0: return symlit(); case 1: return gref(1); case 2: return gref(2); case 3: undef++; return gref(3); case 4: return grx(0); default: return grx(2); } }
static GP body(int leaves,int kinds){ std::vector<GP> alts; std::vector<int> rk(1,0); for(;;){ std::vector<GP> v; do{ GP n; if(groups>0&&leaves>1&&sx_choose("grp",2)){ groups--; n=body(leaves,kinds); leaves=0; } else { leaves--; n=leaf(kinds); } if(posts>0){ int p=sx_choose("post",4); if(p){ posts--; n=gof(p==1?GSTAR:p==2?GPLUS:GOPT,{n}); } } v.push_back(n); } while(leaves>0&&sx_choose("more",2)); alts.push_back(v.size()==1?v[0]:gof(GSEQ,v)); if(!leaves) break; int a=ranks>0?1+(int)sx_choose("rank",2):1; if(a==2){ ranks--; anyrank=true; } rk.push_back(rk.back()+(a==2)); } if(alts.size()==1) return alts[0]; GP m=gof(GALT,alts); m->rank=rk; return m; }
static void refset(const GP&p,std::set<int>&o){ if(p->k==GREF) o.insert(p->n); for(auto&c:p->c) refset(c,o); }
void sx_main(){
  sx_expect_reach("accepted"); sx_expect_reach("rejected");
  Gram g; g.rules.push_back(gof(GSEQ,{gref(1),glit(";")})); bool nested=false;
#if MODE==0
  int ls=1+sx_choose("inS",LS); g.rules.push_back(body(ls,KINDS)); std::set<int> rs; refset(g.rules[1],rs); int la=rs.count(2)?1+(int)sx_choose("inA",LA):0; g.rules.push_back(la?body(la,KINDS):glit("x"));
#else
  // two alternatives of a rule begin with the same text and a rule that leads back, in the middle, to the first
  GP x=sx_choose("lead",2)?gof(GSEQ,{symlit(),glit("k")}):symlit(); bool ind=sx_choose("indirect",2); GP r=gref(ind?2:1); GP q=sx_choose("opt",2)?gof(GSEQ,{r,gof(GOPT,{glit("m")})}):r;
  int ord=sx_choose("order",3); GP a=gof(GSEQ,{x,q,symlit()}), b=sx_choose("longer",2)?gof(GSEQ,{x,q,symlit(),glit("n")}):gof(GSEQ,{x,q,symlit()}), c=glit("p"); g.rules.push_back(galt(ord==0?std::vector<GP>{a,b,c}:ord==1?std::vector<GP>{a,c,b}:std::vector<GP>{c,a,b})); g.rules.push_back(ind?(sx_choose("wrap",2)?galt({gref(1),glit("0")}):gref(1)):glit("x")); nested=true; sx_reach("accepted");
#endif
  vfiles.push_back({"g",g.text()}); sx_steps(60000000,"reading a grammar"); Grammar<TC> gr("g"); bool ok=false; sx_steps(60000000,"verifying a grammar"); ok=gr.verify(); sx_reach(ok?"accepted":"rejected"); sx_steps(600000000,"the reference"); sx_observe("ok",ok);
  if(undef){ sx_assert(!ok,"a grammar that refers to an undefined rule is rejected"); return; }
  if(nested){ sx_assert(!ok,"a decision between nested recursive alternatives is rejected"); return; }
  std::set<int> rA; refset(g.rules[2],rA); std::set<int> rS; refset(g.rules[1],rS); bool recursive=rS.count(1)||rA.count(2)||(rS.count(2)&&rA.count(1));
  Net net(gr); bool deep=false, apart=true; for(size_t r=0;r<net.m.size();r++) for(int i=0;i<net.m[r]->get_node_num();i++){ auto&tr=net.m[r]->get_node(i).get_transitions(); if(tr.size()<2) continue; std::vector<std::vector<char>> first; 
    for(auto&t:tr){ std::vector<char> f(256,0); for(auto&o:net.outs(Cfg{(int)r,t.dest(),0})) if(o.kind) for(int c=0;c<256;c++){ bool in=false; if(o.kind==1) in=o.a==c; else for(auto&rg:*o.cc) in=bor(in,band(rg.start()<=c,c<rg.end())); f[c]=bor(f[c],in); } first.push_back(f); } 
    for(size_t a=0;a<first.size();a++) for(size_t b=a+1;b<first.size();b++) for(int c=0;c<256;c++) if(c==';'||c=='x'||(c>='a'&&c<='z')||c=='0') apart=band(apart,!band(first[a][c],first[b][c])); if(net.deep) deep=true; }
  if(deep) sx_assert(!ok,"a grammar that is left-recursive at a decision is rejected");
  else sx_assert(!band(apart,!ok),"a grammar whose alternatives start with distinguishable text is accepted");
}
