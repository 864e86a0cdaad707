// Rule networks: language of the network built from a rule body, before and after optimisation (MODE 0), and preserved ranks (MODE 1).
#include "rules.hpp"
#ifndef KINDS
#define KINDS 1
#endif
typedef ATNMachine<TC> M;
static RuleGen*G; static const long WSID=90;
static bool isitem(const ATNNode<TC>&n){ return n.type()!=ATNNodeType::Blank; }
static long itemof(const ATNNode<TC>&n){ // which item a node stands for; -1 if it is not one of the items written
  switch(n.type()){ case ATNNodeType::WhiteSpace: return WSID;
    case ATNNodeType::LiteralTerminal: for(int i=0;i<G->nleaf;i++) if(G->kind[i]==0&&n.get_literal().size()==1&&(wchar_t)n.get_literal()[0]==L'b'+2*i) return i; return -1;
    case ATNNodeType::Nonterminal: for(int i=0;i<G->nleaf;i++){ std::wstring w=L"R"; w+=(wchar_t)(L'b'+2*i); if(G->kind[i]==1&&n.get_invoke().str()==w) return i; } return -1;
    case ATNNodeType::RegularTerminal: { for(int i=0;i<G->nleaf;i++) if(G->kind[i]==2){ std::basic_string<TC> s(1,(TC)(L'b'+2*i)); if(n.get_nfa().run(s)) return i; } return -1; } default: return -1; } }
static void close_(const M&m,std::vector<char>&s){ int n=m.get_node_num(); for(int r=0;r<n;r++) for(int i=0;i<n;i++) for(auto&t:m.get_node(i).get_transitions()) if(!isitem(m.get_node(t.dest()))) s[t.dest()]=bor(s[t.dest()],s[i]); }
static std::vector<char> sim(const M&m,const uint64_t*x,int n,bool&known){ int ns=m.get_node_num(); std::vector<long> it(ns,-2); for(int i=0;i<ns;i++) if(isitem(m.get_node(i))){ it[i]=itemof(m.get_node(i)); if(it[i]==-1) known=false; }
  std::vector<char> s(ns,0),acc; s[0]=1; close_(m,s); acc.push_back(s[ns-1]);
  for(int p=0;p<n;p++){ std::vector<char> t(ns,0); for(int i=0;i<ns;i++) for(auto&tr:m.get_node(i).get_transitions()) if(it[tr.dest()]>=0) t[tr.dest()]=bor(t[tr.dest()],band(s[i],x[p]==(uint64_t)it[tr.dest()])); s=t; close_(m,s); acc.push_back(s[ns-1]); }
  return acc; }
static bool edges_ok(const M&m){ int n=m.get_node_num(); if(n<1) return false; for(int i=0;i<n;i++){ auto&t=m.get_node(i).get_transitions(); for(auto&e:t) if(e.dest()<0||e.dest()>=n) return false; if(t.empty()!=(i==n-1)) return false; } return true; }
// ranks: for two items (or the end) reachable without consuming anything from one context, the set of comparisons of the
// tags at the point where the ways to them diverge
typedef std::vector<std::pair<int,int>> Way; // (node, tag) steps
static void ways(const M&m,int at,Way&w,std::vector<char>&on,std::vector<std::pair<int,Way>>&out){ for(auto&t:m.get_node(at).get_transitions()){ int d=t.dest(); w.push_back({d,t.tag()}); bool end=d==m.get_node_num()-1;
    if(isitem(m.get_node(d))) out.push_back({d,w}); else if(end) out.push_back({-5,w}); else if(!on[d]){ on[d]=1; ways(m,d,w,on,out); on[d]=0; } w.pop_back(); } }
typedef std::map<std::vector<long>,std::set<int>> Ranks;
static Ranks ranks(const M&m){ Ranks r; int n=m.get_node_num(); std::map<long,int> wsnext; 
  auto key=[&](int d)->long{ if(d==-5) return -5; long k=itemof(m.get_node(d)); if(k==WSID){ auto&t=m.get_node(d).get_transitions(); if(t.size()==1) k=100+itemof(m.get_node(t[0].dest())); } return k; };
  for(int c=0;c<n;c++) if(c==0||isitem(m.get_node(c))){ std::vector<std::pair<int,Way>> out; Way w; std::vector<char> on(n,0); ways(m,c,w,on,out); long ck=c==0?-9:key(c);
    for(auto&a:out) for(auto&b:out) if(&a!=&b){ size_t i=0; while(i<a.second.size()&&i<b.second.size()&&a.second[i]==b.second[i]) i++; if(i>=a.second.size()||i>=b.second.size()) continue; int ta=a.second[i].second,tb=b.second[i].second; r[{ck,key(a.first),key(b.first)}].insert((ta>tb)-(ta<tb)); } }
  return r; }
#if MODE==2
// items numbered in braces
void sx_main(){
  sx_steps(3000000,"reading a rule"); sx_expect_reach("read");
  static const wchar_t*const IT[]={L"'l'",L"\"m\"",L"/p/",L"q",L"/r+/"}; static const wchar_t*const SEP[]={L"",L" ",L"/**/"};
  std::wstring t=L":"; int n=1+sx_choose("items",2); const wchar_t*sep=SEP[sx_choose("sep",3)]; bool star=sx_choose("star",2); int k[2]; std::vector<uint64_t> num[2];
  for(int i=0;i<n;i++){ if(i) t+=L" "; k[i]=sx_choose("item",5); t+=IT[k[i]]; int dn=sx_choose("digits",DIGITS+1); if(dn){ t+=sep; t+=L"{"; t+=sep; for(int j=0;j<dn;j++){ uint64_t c=sx_range("digit",'0','9'); num[i].push_back(c-'0'); t.push_back((wchar_t)c); } t+=sep; t+=L"}"; } if(star) t+=L"*"; }
  t+=L";"; Stream st(t); ATNMachine<TC> m(1,st); sx_reach("read"); int at=0;
  for(int i=0;i<m.get_node_num();i++){ auto&nd=m.get_node(i); if(nd.type()==ATNNodeType::Blank||nd.type()==ATNNodeType::WhiteSpace){ sx_assert(nd.get_id()<0,"only items carry numbers"); continue; }
    if(at<n){ if(num[at].empty()) sx_assert(nd.get_id()<0,"an item written without a number carries none"); else { uint64_t v=0; for(uint64_t d:num[at]) v=v*10+d; sx_assert((uint64_t)(int64_t)nd.get_id()==v,"an item carries the number written after it"); } } at++; }
  sx_assert(at==n,"every item is read");
}
#else
void sx_main(){
  sx_steps(4000000,"building or optimising a rule network"); sx_expect_reach("rule");
  int ws=sx_choose("layout",2); RuleGen g(1+sx_choose("leaves",LEAVES),POSTS,GROUPS,RANKS,KINDS,EMPTIES,ws,WSID); G=&g; NP ast=g.sel(); if(!ast||g.leaves>0) return;
  std::wstring t=L":"+g.txt+L";"; Stream st(t); M m(ws?1:0,st); sx_reach("rule"); sx_assert(st.peek()==0,"the whole rule is read");
  Stream st2(t); M o(ws?1:0,st2); o.drop_passthrough_nodes();
  sx_assert(edges_ok(m),"the network has one final node and every edge leads to a node"); bool eo=edges_ok(o); sx_assert(eo,"the optimised network has one final node and every edge leads to a node"); if(!eo) return;
#if MODE==0
  uint64_t x[SLEN]; for(int i=0;i<SLEN;i++) x[i]=sx_range("item",0,WSID);
  bool k1=true,k2=true; auto a=sim(m,x,SLEN,k1), b=sim(o,x,SLEN,k2); sx_assert(k1&&k2,"every node stands for an item of the rule");
  Mat ref=refmatch(ast,x,SLEN); bool s1=true,s2=true; for(int n=0;n<=SLEN;n++){ s1=band(s1,(bool)a[n]==(bool)ref[0][n]); s2=band(s2,(bool)b[n]==(bool)ref[0][n]); }
  sx_assert(s1,"the network recognises exactly the rule's sentences"); sx_assert(s2,"the optimised network recognises exactly the rule's sentences"); sx_observe("nodes",m.get_node_num()); sx_observe("onodes",o.get_node_num());
#else
  Ranks a=ranks(m),b=ranks(o);
  for(auto&s:g.sels) for(size_t i=0;i<s.first.size();i++) for(size_t j=0;j<s.first.size();j++) if(i!=j){ std::set<long> fi,fj; g.firsts(s.first[i],fi); g.firsts(s.first[j],fj); int want=(s.second[i]>s.second[j])-(s.second[i]<s.second[j]); bool ok=true,any=fi.empty()||fj.empty(); for(auto&e:a) if(fi.count(e.first[1])&&fj.count(e.first[2])){ any=true; if(!e.second.count(want)) ok=false; } sx_assert(ok&&any,"alternatives are ranked as written"); } sx_assert(a==b,"optimisation keeps the relative ranks of ordered alternatives"); sx_observe("n",a.size());
#endif
}
#endif
