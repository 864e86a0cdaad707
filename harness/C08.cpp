// Lookahead decisions against a simulation of every alternative on the rule networks.
#ifndef TC
#define TC unsigned char
#endif
#include "common.hpp"
#include "CharClass.hpp"
namespace Centaurus { template<> inline size_t CharClass<TC>::hash() const { return 0; } }
#include "grammar.hpp"
#include "gram.hpp"
#include "net.hpp"
void sx_main(){
  sx_steps(60000000,"building a lookahead automaton"); sx_expect_reach("decided"); sx_expect_reach("verified");
  GramGen gen(1+sx_choose("leaves",LEAVES),POSTS,GROUPS,RANKS,KINDS,ABODIES); Gram g; if(!gen.make(g)) return; vfiles.push_back({"g",g.text()});
  Grammar<TC> gr("g"); { bool ok=false; try{ ok=gr.verify(); }catch(SimpleException&){} if(!ok) return; } sx_reach("verified");
  // a grammar with ordered choice: only the decision of the choice itself, when it is the body of S
  bool rk=g.ranked(g.rules[1]); if(rk){ const GP&b=g.rules[1]; if(b->k!=GALT||g.refs(b,1)) return; for(auto&c:b->c) if(g.ranked(c)) return; }
  CompositeATN<TC> catn(gr); Net net(gr); std::vector<std::pair<int,int>> ds; for(size_t r=0;r<net.m.size();r++) for(int i=0;i<net.m[r]->get_node_num();i++) if(net.m[r]->get_node(i).get_transitions().size()>1){ if(rk){ bool any=false; for(auto&t:net.m[r]->get_node(i).get_transitions()) any|=t.tag()!=0; if(!any) continue; } ds.push_back({(int)r,i}); }
  if(ds.empty()) return; auto d=ds[ds.size()>1?sx_choose("decision",ds.size()):0]; auto&tr=net.m[d.first]->get_node(d.second).get_transitions(); int nc=(int)tr.size();
  LookaheadDFA<TC> l(catn,catn.convert_atn_path(ATNPath(net.ids[d.first],d.second)));
  std::vector<uint64_t> x; for(int i=0;i<SLEN;i++) x.push_back(sx_range("x",0,255)); if(RUN) for(uint64_t v:x) sx_assume(band(band(v!=9,v!=10),v!=13));
  auto isws=[&](uint64_t v){ return bor(bor(v==9,v==10),bor(v==13,v==32)); };
  // what the alternatives allow
  std::vector<std::map<Cfg,bool>> cur(nc); for(int j=0;j<nc;j++) cur[j][Cfg{d.first,tr[j].dest(),0}]=true; std::vector<bool> fixed(nc,false); std::vector<char> exp(nc,0); char open=1, fail=0;
  for(int k=0;k<SLEN;k++){ std::vector<char> v(nc,0); for(int j=0;j<nc;j++){ std::map<Cfg,bool> nx; for(auto&e:cur[j]) for(auto&o:net.outs(e.first)){ bool in=false; if(o.kind==0) in=isws(x[k]); else if(o.kind==1) in=x[k]==(uint64_t)o.a; else for(auto&r:*o.cc) in=bor(in,band(r.start()<=x[k],x[k]<r.end())); bool c=band(e.second,in); auto it=nx.find(o.next); if(it==nx.end()) nx[o.next]=c; else it->second=bor(it->second,c); } cur[j]=nx; for(auto&e:nx) v[j]=bor(v[j],e.second); }
    if(net.deep) return;
    if(rk&&k==0) for(int j=0;j<nc;j++){ bool out=false; for(int i=0;i<nc;i++) if(tr[i].tag()<tr[j].tag()) out=bor(out,v[i]); for(auto&e:cur[j]) e.second=band(e.second,!out); v[j]=band(v[j],!out); } // ordered choice commits to the best ranks that match
    char none=1; for(int j=0;j<nc;j++) none=band(none,!v[j]); fail=bor(fail,band(open,none)); char done=none; for(int j=0;j<nc;j++){ char only=v[j]; for(int i=0;i<nc;i++) if(i!=j) only=band(only,!v[i]); exp[j]=bor(exp[j],band(open,only)); done=bor(done,only); } open=band(open,!done); }
  // what the automaton decides
  std::map<int,bool> st; st[0]=true; std::vector<char> got(nc,0); bool stray=false; for(int k=0;k<SLEN;k++){ std::map<int,bool> nx; for(auto&e:st){ bool none=true; for(auto&t:l.get_transitions(e.first)){ bool in=false; for(auto&r:t.label()) in=bor(in,band(r.start()<=x[k],x[k]<r.end())); in=band(in,none); none=band(none,!in); bool c=band(e.second,in); if(t.dest()<0){ if(-t.dest()<=nc) got[-t.dest()-1]=bor(got[-t.dest()-1],c); else stray=bor(stray,c); } else { auto it=nx.find(t.dest()); if(it==nx.end()) nx[t.dest()]=c; else it->second=bor(it->second,c); } } } st=nx; }
  sx_reach("decided"); sx_assert(!stray,"a decision names one of its alternatives");
  for(int j=0;j<nc;j++){ sx_assert(!band(got[j],!exp[j]),"a decision selects an alternative only once it is the one that can match"); sx_assert(!band(exp[j],!got[j]),"the only alternative that can match is selected"); }
  std::basic_string<TC> str; for(uint64_t v:x) str.push_back((TC)v);
  sx_observe("alternatives",nc);
if(RUN){
  int r=l.run(str); bool ok=r==-1; for(int j=0;j<nc;j++) ok=r==j+1?(bool)exp[j]:band(ok,r>0?true:!exp[j]); sx_assert(ok,"running the automaton gives its decision"); }
}
