// Bracket notation: every text up to the bound, against a reference reading of the notation.
#include "common.hpp"
#include "CharClass.hpp"
using namespace Centaurus;
#ifndef TC
#define TC unsigned char
#endif
#ifndef L
#define L 4
#endif
#ifndef EMAX
#define EMAX 1
#endif
#ifndef OMAX
#define OMAX 4
#endif
static const uint64_t TOP = sizeof(TC)==1 ? 0xFE : 0x10FFFF;
static const uint64_t MAXC=(uint64_t)std::numeric_limits<TC>::max();
struct Tok{ bool esc; wchar_t c; };   // one notation unit: escaped or plain character
static bool cin(const CharClass<TC>&c,uint64_t x){ bool b=false; for(auto it=c.begin();it!=c.end();++it) b=bor(b,band((uint64_t)it->start()<=x,x<(uint64_t)it->end())); return b; }
static void check(const std::vector<wchar_t>&txt){
  // reference reading; the text is followed by 'Z' (if it is closed) or by its end
  size_t p=0,n=txt.size(); bool inv=false,bad=false,closed=false; if(n&&txt[0]==L'^'){ inv=true; p=1; }
  std::vector<std::pair<uint64_t,uint64_t>> rs; int st=0; uint64_t lo=0;
  while(p<n){ wchar_t c=txt[p++]; bool esc=false;
    if(c==L']'){ closed=true; break; }
    if(c==L'\\'){ if(p>=n){ bad=true; break; } c=txt[p++]; esc=true;
      if(c==L't'||c==L'T') c=L'\t'; else if(c==L'r'||c==L'R') c=L'\r'; else if(c==L'n'||c==L'N') c=L'\n'; else if(!(c==L'\\'||c==L'-'||c==L'['||c==L']')){ bad=true; break; } }
    if(!esc&&c==L'-'){ if(st!=1){ bad=true; break; } st=2; continue; }
    if(st==0){ lo=(uint64_t)c; st=1; }
    else if(st==1){ rs.push_back({lo,lo}); lo=(uint64_t)c; }
    else { sx_assume(lo<=(uint64_t)c); rs.push_back({lo,(uint64_t)c}); st=0; } }
  if(!bad){ if(!closed||st==2) bad=true; else if(st==1) rs.push_back({lo,lo}); }
  std::wstring s; for(wchar_t c:txt) s.push_back(c); bool tail=closed&&p==n; if(tail) s.push_back(L'Z');
  sx_steps(300000,"reading bracket notation");
  Stream stm(s); bool threw=false; CharClass<TC> cc;
  try{ CharClass<TC> r(stm); cc=r; }catch(StreamException&){ threw=true; }
  if(bad) sx_reach("malformed"); else sx_reach("well-formed");
  sx_assert(threw==bad,bad?"malformed notation must be rejected":"well-formed notation must be accepted");
  if(bad||threw) return;
  sx_assert(stm.peek()==(tail?L'Z':(wchar_t)(p<n?txt[p]:0)),"reading stops after the closing bracket");
  uint64_t x=sx_range("x",1,MAXC-1); bool want=false; for(auto&r:rs) want=bor(want,band(r.first<=x,x<=r.second));
  sx_assert(cin(cc,x)==(inv?!want:want),"class contains exactly the denoted characters");
  bool ok=true; uint64_t prev=0; bool first=true; for(auto it=cc.begin();it!=cc.end();++it){ ok=band(ok,it->start()<it->end()); if(!first) ok=band(ok,prev<(uint64_t)it->start()); prev=it->end(); first=false; }
  sx_assert(ok,"class is well-formed"); sx_observe("size",cc.size());
}
static wchar_t ordinary(bool special_ok){ uint64_t c=sx_range("c",1,TOP);
  if(!special_ok) sx_assume(band(band(band(c!='-',c!='\\'),band(c!=']',c!='^')),band(band(c!=10,c!=13),band(c!=0x85,band(c!=0x2028,band(c!=0x2029,c!=0xFFFF))))));
  return (wchar_t)c; }
void sx_main(){
  sx_expect_reach("malformed"); sx_expect_reach("well-formed");
  std::vector<wchar_t> t;
#ifdef RAW
  int n=sx_choose("n",RAW+1); for(int i=0;i<n;i++){ wchar_t c=ordinary(true); sx_assume(band(c!=0xFFFF,c!=13)); t.push_back(c); }
  if(sx_choose("close",2)) t.push_back(L']');
  check(t);
#else
  bool inv=sx_choose("inv",2); if(inv) t.push_back(L'^');
#ifdef SHAPE
  // fixed shapes with two and three ranges
  static const char*sh[]={"ODOODO","OODOODO","ODOODOO"}; const char*q=sh[sx_choose("shape",SHAPE)]; for(;*q;q++) t.push_back(*q=='O'?ordinary(false):L'-'); t.push_back(L']'); check(t); sx_reach("malformed"); return;
#endif
  int n=sx_choose("n",L+1),o=0,e=0;
  for(int i=0;i<n;i++){ int k=sx_choose("kind",3);
    if(k==0){ if(++o>OMAX) return; t.push_back(ordinary(false)); }
    else if(k==1) t.push_back(L'-');
    else { if(++e>EMAX) return; t.push_back(L'\\'); uint64_t c=sx_range("esc",1,TOP); sx_assume(band(band(c!=10,c!=13),band(c!=0x85,band(c!=0x2028,c!=0x2029)))); t.push_back((wchar_t)c); } }
  if(sx_choose("close",2)) t.push_back(L']');
  check(t);
#endif
}
