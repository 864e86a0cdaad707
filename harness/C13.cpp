// Generated decision code against the lookahead automaton. MODE 0: generated grammars. MODE 1: symbolic character classes.
#define GRAMMAR_FILES
#ifndef TC
#define TC unsigned char
#endif
#include "jit.hpp"
#include "gram.hpp"
void sx_main(){
  sx_steps(60000000,"generating or running decision code"); sx_expect_reach("decided"); sx_expect_reach("rejected");
#if MODE==0
  GramGen gen(1+sx_choose("leaves",LEAVES),POSTS,GROUPS,RANKS,KINDS,ABODIES); Gram g; if(!gen.make(g)) return; vfiles.push_back({"g",g.text()});
#else
  std::vector<wchar_t> c; for(int i=0;i<8;i++) c.push_back((wchar_t)sx_range("c",CLO,CHI)); std::wstring s=L"Z: S ';'; S: "; // alternatives starting with classes of several characters and ranges
  int shape=sx_choose("shape",SHAPES); auto ch=[&](int i){ s.push_back(c[i]); }; auto rng=[&](int i,int j){ sx_assume(c[i]<=c[j]); ch(i); s+=L"-"; ch(j); };
  if(shape==0){ s+=L"/["; rng(0,1); s+=L"]/ 'x' | '"; ch(2); s+=L"'"; } else if(shape==1){ s+=L"/["; ch(0); rng(1,2); s+=L"]/ | /[^"; rng(1,2); s+=L"]/ 'y'"; } else if(shape==2){ s+=L"'"; ch(0); ch(1); s+=L"' | '"; ch(2); ch(3); s+=L"'"; } else if(shape==3){ s+=L"/["; rng(0,1); s+=L"]+/ | '"; ch(2); s+=L"'? ','"; } else { s+=L"( /["; rng(0,1); rng(2,3); s+=L"]/ )* 'z'"; }
  s+=L";"; vfiles.push_back({"g",s});
#endif
  Grammar<TC> gr("g"); { bool ok=false; try{ ok=gr.verify(); }catch(SimpleException&){} if(!ok) return; }
  CompositeATN<TC> catn(gr); std::vector<ATNPath> ds; for(int r=0;r<4;r++){ Identifier id(r==0?L"Z":r==1?L"S":r==2?L"A":L"B"); if(!gr.get_machines().count(id)) continue; const ATNMachine<TC>&m=gr[id]; for(int i=0;i<m.get_node_num();i++) if(m.get_node(i).get_transitions().size()>1) ds.push_back(ATNPath(id,i)); }
  if(ds.empty()) return; ATNPath at=ds[ds.size()>1?sx_choose("decision",ds.size()):0];
  LookaheadDFA<TC> l(catn,catn.convert_atn_path(at)); std::vector<uint64_t> x; for(int i=0;i<SLEN;i++) x.push_back(sx_range("x",0,255)); for(uint64_t v:x) if(ONEWS) sx_assume(band(band(v!=9,v!=10),v!=13));
  std::vector<TC> t=padded(x); LDFARoutineEM64T<TC> rt(l); int got=rt(t.data()); sx_reach(got?"decided":"rejected"); sx_assert(got>=0&&got<=l.get_color_num(),"generated decision code names an alternative or fails");
  // the automaton, without a path per character class
  std::vector<std::pair<int,bool>> cur(1,{0,true}); bool same=false, dead=true; for(size_t k=0;k<t.size()&&!cur.empty()&&(int)k<=SLEN;k++){ std::map<int,bool> nx; for(auto&e:cur){ bool none=true; for(auto&tr:l.get_transitions(e.first)){ bool in=false; for(auto&r:tr.label()) in=bor(in,band(r.start()<=t[k],t[k]<r.end())); in=band(in,none); none=band(none,!in); bool c=band(e.second,in); if(tr.dest()<0){ same=bor(same,band(c,-tr.dest()==got)); dead=band(dead,!c); } else nx[tr.dest()]=bor(nx.count(tr.dest())?nx[tr.dest()]:false,c); } } cur.assign(nx.begin(),nx.end()); }
  sx_assert(got?same:dead,"generated decision code decides as the lookahead automaton does");
  std::basic_string<TC> str(t.begin(),t.begin()+SLEN+1); int want=l.run(str); sx_assert(want==(got?got:-1),"generated decision code decides as the lookahead automaton run on the same text"); sx_observe("got",got);
}
