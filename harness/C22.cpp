// Numbering of rules across included files (MODE 0), include paths (MODE 1), malformed directives (MODE 2), the limit on rule numbers (MODE 3).
#define SX_CODECVT
#include "grammar.hpp"
static std::vector<std::pair<std::wstring,int>> seen; static void enumcb(const wchar_t*n,int id){ seen.push_back({n,id}); }
#if MODE==0
#ifndef MAINN
#define MAINN 3
#endif
#ifndef INCN
#define INCN 2
#endif
struct Item{ int k; }; // 0..2 rule A B C, 3 include of the next file, 4 grammar directive, 5 include of the last file by another way
static std::vector<Item> file[3]; static const char*const NAME[3]={"g/main","g/s/f1","g/s/t/f2"};
static const wchar_t*const INC[3][2]={{L"s/f1",L"/r/f2"},{L"t/f2",L"/r/f2"},{nullptr,nullptr}};
static std::vector<int> order;
static void walk(int f){ for(auto&i:file[f]){ if(i.k<3){ bool dup=false; for(int o:order) dup=dup||o==i.k; if(!dup) order.push_back(i.k); } else if(i.k==3) walk(f+1); else if(i.k==5) walk(2); } }
static std::wstring text(int f){ std::wstring w; for(auto&i:file[f]){ if(i.k<3){ w.push_back(L'A'+i.k); w+=L":'"; w.push_back(L'a'+i.k); w+=L"';\n"; } else if(i.k==4) w+=L"grammar X;\n"; else { w+=L"include \""; w+=INC[f][i.k==5]; w+=L"\";\n"; } } return w; }
static int used=0; // letters are introduced in order: rule names are interchangeable
static void gen(int f,int max){ int n=sx_choose("items",max+1); for(int i=0;i<n;i++){ int nr=std::min(3,used+1), k=sx_choose("item",nr+(f==2?1:3)); if(k>=nr) k=f==2?4:3+(k-nr); else used=std::max(used,k+1); file[f].push_back({k}); } }
static bool uses(int f,int k){ for(auto&i:file[f]) if(i.k==k) return true; return false; }
#endif
void sx_main(){
  sx_steps(8000000,"reading a grammar"); sx_expect_reach("read");
#if MODE==0
  gen(0,MAINN); bool f1=uses(0,3); if(f1) gen(1,INCN); bool f2=uses(0,5)||(f1&&(uses(1,3)||uses(1,5))); if(f2) gen(2,2);
  walk(0);
  for(int f=0;f<3;f++) vfiles.push_back({NAME[f],text(f)}); vfiles.push_back({"/r/f2",text(2)});
  Grammar<TC> g; bool threw=false; int next=0; try{ next=g.parse("g/main"); }catch(std::exception&){ threw=true; }
  sx_reach("read"); sx_assert(!threw,"well-formed directives are accepted"); if(threw) return;
  int n=order.size(); sx_assert(next==n+1,"rules are numbered densely from 1"); sx_assert(g.get_machine_num()==n,"every rule read is kept, once");
  if(n>0) sx_assert(g.get_root_id().str()==std::wstring(1,L'A'+order[0]),"the rule read first is the root");
  Grammar<TC> m(std::move(g));
  for(int i=0;i<n;i++){ std::wstring nm(1,L'A'+order[i]); Identifier id(nm); bool ok=m.get_machines().count(id)==1; sx_assert(ok,"every rule read is kept, once"); if(!ok) return;
    sx_assert(m.get_machine_id(id)==i+1,"rules are numbered in the order in which they are read");
    bool nam=false; try{ nam=m.lookup_id(i).str()==nm; }catch(std::out_of_range&){} sx_assert(nam,"a number maps to its own rule's name");
    const auto&net=m[id]; bool lit=false; for(int k=0;k<net.get_node_num();k++) lit=lit||(net.get_node(k).get_literal().size()==1&&net.get_node(k).get_literal()[0]==(TC)('a'+order[i])); sx_assert(lit,"a rule keeps its own definition"); }
  bool past=false; try{ m.lookup_id(n); }catch(std::out_of_range&){ past=true; } sx_assert(past,"there are no numbers beyond the last rule");
  if(n>0) sx_assert(m.get_root_id().str()==std::wstring(1,L'A'+order[0]),"the rule read first is the root");
  m.enum_machines(enumcb); sx_assert((int)seen.size()==n,"enumeration reports every rule once"); if((int)seen.size()!=n) return;
  for(int i=0;i<n;i++) sx_assert(seen[i].second==i+1&&seen[i].first==std::wstring(1,L'A'+order[i]),"enumeration reports each number with its own rule's name");
  sx_observe("n",n);
#elif MODE==1
  // the main file, a file it includes, and a symbolic path included from either of them
  static const char*const MAIN[]={"m","./m","/m","gr/m","/x/gr/m","../m","a//m"}; static const char*const MID[]={"","f","s/f","/f","/y/f","../f"};
  std::string mn=MAIN[sx_choose("main",7)], md=MID[sx_choose("middle",6)]; int n=1+sx_choose("length",PLEN); std::string p; std::wstring wp;
  for(int i=0;i<n;i++){ uint64_t c=sx_range("c",1,127); sx_assume(c!='"'&&c!='\r'); p.push_back((char)c); wp.push_back((wchar_t)c); }
  struct J{ static std::string join(const std::string&b,const std::string&d){ if(d[0]=='/') return d; size_t k=b.size(); while(k&&b[k-1]!='/') k--; return b.substr(0,k)+d; } };
  std::string inc=md.empty()?mn:J::join(mn,md); if(!md.empty()){ std::wstring wm(md.begin(),md.end()); vfiles.push_back({mn,L"include\""+wm+L"\";"}); }
  vfiles.push_back({inc,L"include \""+wp+L"\" ;"});
  std::string want=J::join(inc,p); sx_assume(want.size()!=inc.size()||!(want==inc)); sx_assume(want.size()!=mn.size()||!(want==mn));
  Grammar<TC> g; bool threw=false; try{ g.parse(mn); }catch(std::exception&){ threw=true; }
  sx_reach("read"); sx_assert(!threw,"well-formed directives are accepted"); if(threw) return; size_t k=md.empty()?1:2;
  sx_assert(vopened.size()==k+1,"each included file is opened once"); if(vopened.size()!=k+1) return;
  if(k==2) sx_assert(vopened[1]==inc,"an include path is relative to the including file unless absolute");
  bool e=vopened[k].size()==want.size(); if(e) for(size_t i=0;i<want.size();i++) e=band(e,vopened[k][i]==want[i]); sx_assert(e,"an include path is relative to the including file unless absolute");
  sx_observe("len",want.size());
#elif MODE==2
  // "include" or "grammar" followed by up to LEN characters over an alphabet that cannot form a rule
  static const wchar_t A[]={L'"',L';',L'a',L'/',L' ',L'*',L'\n'}; bool inc=sx_choose("directive",2)==0; int n=sx_choose("length",LEN+1); std::wstring s;
  for(int i=0;i<n;i++) s.push_back(A[sx_choose("c",7)]);
  size_t at=0; bool bad=false;
  auto lay=[&]{ for(;;){ if(at<s.size()&&(s[at]==L' '||s[at]==L'\n')) at++; else if(s.compare(at,2,L"//")==0){ while(at<s.size()&&s[at]!=L'\n') at++; } else if(s.compare(at,2,L"/*")==0){ size_t e=s.find(L"*/",at+2); if(e==std::wstring::npos){ bad=true; at=s.size(); return; } at=e+2; } else return; } };
  bool ok; if(inc){ lay(); ok=at<s.size()&&s[at]==L'"'; if(ok){ at++; while(at<s.size()&&s[at]!=L'"') at++; ok=at<s.size(); at++; } }
  else { size_t w=at; lay(); ok=at>w&&at<s.size()&&s[at]==L'a'; while(at<s.size()&&s[at]==L'a') at++; }
  if(ok&&!bad){ lay(); ok=at<s.size()&&s[at]==L';'; at++; if(ok){ lay(); ok=at>=s.size(); } }
  ok=ok&&!bad;
  vfiles.push_back({"m",(inc?L"include":L"grammar")+s}); Grammar<TC> g; bool threw=false; try{ g.parse("m"); }catch(std::exception&){ threw=true; }
  sx_reach("read"); if(ok) sx_assert(!threw,"well-formed directives are accepted"); else sx_assert(threw,"malformed directives are rejected");
#else
  uint64_t start=sx_range("start",1,70000); vfiles.push_back({"m",L"A:'a';B:'b';"}); Grammar<TC> g; bool threw=false; int next=0; try{ next=g.parse("m",(int)start); }catch(std::exception&){ threw=true; }
  sx_reach("read"); sx_assert(threw==(start+1>32767),"exactly the rules whose numbers fit in 15 bits are accepted"); if(!threw) sx_assert(next==(int)start+2,"rules are numbered densely");
#endif
}
