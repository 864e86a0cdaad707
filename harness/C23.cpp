// Reading arbitrary grammar text: terminates with a well-formed grammar or an exception. MODE 0: a prefix that leads into a construct, then symbolic text. MODE 1: files that include each other.
#define SX_CODECVT
#include "grammar.hpp"
static void wellformed(const Grammar<TC>&g,bool opt){
  for(auto&p:g.get_machines()){ const auto&m=p.second; int n=m.get_node_num(); sx_assert(n>0,"every rule has a network"); if(n<=0) return;
    bool in=true; std::vector<char> seen(n,0); for(int i=0;i<n;i++) for(auto&t:m.get_node(i).get_transitions()) if(t.dest()<0||t.dest()>=n) in=false;
    sx_assert(in,"transitions of a rule network stay inside it"); if(!in) return;
    std::vector<int> todo{0}; seen[0]=1; while(!todo.empty()){ int i=todo.back(); todo.pop_back(); for(auto&t:m.get_node(i).get_transitions()) if(!seen[t.dest()]){ seen[t.dest()]=1; todo.push_back(t.dest()); } }
    sx_assert(seen[n-1],"the final node of a rule network is reachable"); sx_assert(m.get_node(n-1).get_transitions().empty(),"the final node of a rule network is final");
    for(int i=0;i<n;i++) if(m.get_node(i).type()==ATNNodeType::RegularTerminal){ auto&a=m.get_node(i).get_nfa(); int k=a.get_state_num(); sx_assert(k>0,"every pattern has an automaton"); if(k<=0) return; bool ok=true; for(int j=0;j<k;j++) for(auto&t:a.get_transitions(j)) if(t.dest()<0||t.dest()>=k) ok=false; sx_assert(ok,"transitions of a pattern's automaton stay inside it"); if(!ok) return;
      std::vector<char> s2(k,0); std::vector<int> td{0}; s2[0]=1; while(!td.empty()){ int j=td.back(); td.pop_back(); for(auto&t:a.get_transitions(j)) if(!s2[t.dest()]){ s2[t.dest()]=1; td.push_back(t.dest()); } } sx_assert(s2[k-1],"the final state of a pattern's automaton is reachable"); } }
}
#ifndef TAIL
#define TAIL 3
#endif
void sx_main(){
  sx_steps(20000000,"reading a grammar"); sx_expect_reach("accepted"); sx_expect_reach("rejected");
  Grammar<TC> g; bool threw=false;
#if MODE==0
  static const wchar_t*const PRE[]={L"",L"a:",L"a:(b",L"a:'",L"a:b{",L"a:/",L"a:/b",L"a:/(",L"a:/[",L"a:/[b-",L"a:/b\\",L"include",L"include \"",L"grammar",L"a:b|",L"a:b;/",L"a:'b';b:"};
  static const wchar_t*const POST[]={L"",L";",L"/;",L"]/;",L"\";"};
  std::wstring s=PRE[sx_choose("prefix",17)]; int n=sx_choose("length",TAIL+1);
  for(int i=0;i<n;i++){
#ifdef ALPHA
    static const wchar_t A[]=L"ab1:;|>(){}*+?'\"/\\[]^-. \n"; s.push_back(A[sx_choose("c",sizeof A/sizeof*A-1)]);
#else
    s.push_back((wchar_t)sx_range("c",0,0x10FFFF));
#endif
  }
  s+=POST[sx_choose("suffix",5)]; vfiles.push_back({"m",s});
#else
  static const char*const N[]={"m","d/f","d/g"}; static const wchar_t*const P[]={L"m",L"d/f",L"d/g",L"../m",L"f",L"../d/g",L"/d/f"};
  for(int f=0;f<FILES;f++){ std::wstring s; int n=sx_choose("directives",PER+1); for(int i=0;i<n;i++){ int k=sx_choose("d",8); if(k==7) s+=L"a:b;"; else s+=L"include\""+std::wstring(P[k])+L"\";"; } vfiles.push_back({N[f],s}); if(f){ vfiles.push_back({std::string("/")+N[f],s}); vfiles.push_back({std::string("d/../")+N[f],s}); } else vfiles.push_back({"d/../m",s}); }
#endif
  try{ g.parse("m"); }catch(std::exception&){ threw=true; }
  if(threw){ sx_reach("rejected"); return; } sx_reach("accepted");
  wellformed(g,false); g.optimize(); wellformed(g,true);
  sx_observe("n",g.get_machine_num());
}
