// The decision model of a rule (CATN) against the rule's text: language over characters and calls, and ranks at decisions.
#include "grammar.hpp"
#define CharClass_SEEN
#include "regex.hpp"
static const uint64_t CALL=1000;
struct BodyGen{ int leaves,posts,groups,ranks,kinds,lits; std::wstring txt; int nref=0; BodyGen(int l,int p,int g,int r,int k,int n):leaves(l),posts(p),groups(g),ranks(r),kinds(k),lits(n){}
  static NP one(uint64_t a,uint64_t b){ NP n(new Node); n->kind=0; n->set.push_back({a,b}); return n; } static NP mk(int k,std::vector<NP> c){ NP n(new Node); n->kind=k; n->k=c; return n; }
  static NP lay(){ NP w(new Node); w->kind=0; for(int c:{9,10,13,32}) w->set.push_back({(uint64_t)c,(uint64_t)c}); return mk(3,{w}); }
  NP leaf(){ leaves--; int k=kinds>1?sx_choose("leaf",kinds):0; 
    if(k==1){ int r=nref++%2; txt+=r?L" B":L" A"; return one(CALL+r,CALL+r); }
    if(k==0){ int n=lits>1?1+sx_choose("length",lits):1; txt+=L" '"; std::vector<NP> v(1,lay()); for(int i=0;i<n;i++){ uint64_t c=sx_range("l",0x28,0xfe); txt.push_back((wchar_t)c); v.push_back(one(c,c)); } txt+=L"'"; return mk(1,v); }
    NP a=one('a','a'),b=one('b','b'); switch(k){ case 2: txt+=L" /a+/"; return mk(1,{lay(),mk(4,{a})}); case 3: txt+=L" /a*b/"; return mk(1,{lay(),mk(3,{a}),b}); case 4: txt+=L" /ab?/"; return mk(1,{lay(),a,mk(5,{b})}); case 5: txt+=L" /(ab)++/"; return mk(1,{lay(),mk(4,{mk(1,{a,b})})}); default: txt+=L" /[a-c]|b*/"; return mk(1,{lay(),mk(2,{one('a','c'),mk(3,{b})})}); } }
  NP atom(){ NP n; if(groups>0&&leaves>1&&sx_choose("grp",2)){ groups--; txt+=L" ("; n=sel(); txt+=L")"; } else { if(!leaves) return nullptr; n=leaf(); } if(!n) return n; if(posts>0){ int p=sx_choose("post",4); if(p){ posts--; static const wchar_t pc[]=L" *+?"; txt.push_back(pc[p]); n=mk(2+p,{n}); } } return n; }
  NP seq(){ std::vector<NP> v; do{ NP u=atom(); if(!u) return u; v.push_back(u); }while(leaves>0&&sx_choose("more",2)); return v.size()==1?v[0]:mk(1,v); }
  NP sel(){ NP n=seq(); if(!n) return n; std::vector<NP> v(1,n); while(leaves>0){ int a=sx_choose("alt",ranks>0?3:2); if(!a) break; if(a==2) ranks--; txt+=a==2?L" |>":L" |"; NP u=seq(); if(!u) return u; v.push_back(u); } return v.size()==1?n:mk(2,v); } };
typedef std::vector<char> Bits; // nodes before (even) and after (odd) their call, if any
void sx_main(){
  sx_steps(20000000,"building a decision model"); sx_expect_reach("built");
  BodyGen g(1+sx_choose("leaves",LEAVES),POSTS,GROUPS,RANKS,KINDS,LITS); NP ref=g.sel(); if(!ref||g.leaves>0) return;
  vfiles.push_back({"g",L"S:"+g.txt+L"; A:'p'; B:'q';"}); Grammar<TC> gr; bool opt=OPT?sx_choose("optimised",2):1; gr.parse("g"); if(opt) gr.optimize();
  CompositeATN<TC> catn(gr); Identifier S(L"S"); const CATNMachine<TC>&m=catn[S]; const ATNMachine<TC>&atn=gr[S]; sx_reach("built"); int n=m.get_num_nodes(); Identifier A(L"A"),B(L"B");
  // ranks and alternatives at the decisions
  for(int i=0;i<atn.get_node_num();i++){ auto&tr=atn.get_node(i).get_transitions(); if(tr.size()<2) continue; int c=m.convert_atn_index(i); if(c<0||c>=n){ sx_fail("every decision of a rule has a place in the decision model"); return; }
    auto&ct=m[c].get_transitions(); sx_assert(ct.size()==tr.size(),"a decision offers its alternatives and nothing else"); if(ct.size()!=tr.size()) return; for(size_t j=0;j<tr.size();j++) sx_assert(ct[j].is_epsilon()&&ct[j].tag()==tr[j].tag(),"ranks of alternatives are carried over"); }
  // language; epsilon reachability is concrete
  std::vector<std::vector<char>> R(2*n,std::vector<char>(2*n,0)); for(int i=0;i<2*n;i++){ std::vector<int> w(1,i); R[i][i]=1; while(!w.empty()){ int k=w.back(); w.pop_back(); auto go=[&](int d){ if(!R[i][d]){ R[i][d]=1; w.push_back(d); } }; if(k%2==0){ if(m[k/2].is_terminal()) go(k+1); } else for(auto&t:m[k/2].get_transitions()) if(t.is_epsilon()) go(2*t.dest()); } }
  std::vector<uint64_t> x; for(int i=0;i<SLEN;i++) x.push_back(sx_range("x",0,CALL+1)); Mat want=refmatch(ref,x.data(),SLEN);
  auto clo=[&](const Bits&s){ Bits o(2*n,0); for(int i=0;i<2*n;i++) for(int j=0;j<2*n;j++) if(R[i][j]) o[j]=bor(o[j],s[i]); return o; };
  Bits s(2*n,0); s[0]=1; s=clo(s); int stops=0; for(int i=0;i<n;i++) if(m[i].is_stop_node()) stops++; sx_assert(stops==1,"a decision model has one end");
  for(int p=0;p<=SLEN;p++){ bool acc=false; for(int i=0;i<n;i++) if(m[i].is_stop_node()) acc=bor(acc,s[2*i+1]); sx_assert(acc==(bool)want[0][p],"the decision model accepts exactly the character and call sequences of the rule"); if(p==SLEN) break;
    Bits t(2*n,0); for(int i=0;i<n;i++){ if(!m[i].is_terminal()){ bool a=m[i].get_submachine()==A; t[2*i+1]=bor(t[2*i+1],band(s[2*i],x[p]==CALL+(a?0:1))); } for(auto&e:m[i].get_transitions()) if(!e.is_epsilon()) t[2*e.dest()]=bor(t[2*e.dest()],band(s[2*i+1],lab(e.label(),x[p]))); } s=clo(t); }
  sx_observe("nodes",n); (void)B;
}
