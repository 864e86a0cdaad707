// Layout independence: any layout at one token boundary (MODE 0) or the same layout at all boundaries at once (MODE 1).
#include "grammar.hpp"
#ifndef PIECES
#define PIECES 2
#endif
#ifndef CLEN
#define CLEN 2
#endif
// tokens; a leading '~' marks that the token needs layout before it (two adjacent words)
static const wchar_t*const TOK1[]={L"grammar",L"~T",L";",L"S",L":",L"A",L"\"l'm\"",L"{",L"12",L"}",L"/b[c-d]*x/",L"*",L"|",L"(",L"B",L"|>",L"'x'",L")",L"?",L";",L"include",L"\"f\"",L";",L"B",L":",L"'#'",L"+",L"(",L"A",L"~S",L")",L"*",L";",nullptr};
static const wchar_t*const TOK2[]={L"_a1",L":",L";",L"b",L":",L"_a1",L"{",L"3",L"}",L"*",L"|",L"|>",L"'/'",L"/\\[\"/",L"+",L";",nullptr};
static std::wstring layout(int pieces,bool need){ std::wstring w; int n=need?1+sx_choose("pieces",pieces):sx_choose("pieces",pieces+1);
  for(int i=0;i<n;i++){ int k=sx_choose("kind",4);
    if(k==0){ uint64_t c=sx_range("ws",9,32); sx_assume(bor(c<=13,c==32)); w.push_back((wchar_t)c); }
    else if(k==1){ w+=L"/*"; int m=sx_choose("len",CLEN+1); uint64_t pc=0; for(int j=0;j<m;j++){ uint64_t c=sx_range("cc",1,0x10FFFF); if(j) sx_assume(!band(pc=='*',c=='/')); pc=c; w.push_back((wchar_t)c); } w+=L"*/"; }
    else { w+=L"//"; int m=sx_choose("len",CLEN+1); for(int j=0;j<m;j++){ uint64_t c=sx_range("lc",1,0x10FFFF); sx_assume(c!=10); if(k==3&&j==m-1) sx_assume(c!=13); w.push_back((wchar_t)c); } w+=k==2?L"\n":L"\r\n"; } }
  return w; }
static std::wstring assemble(const wchar_t*const*tok,int at,const std::wstring&lay){ std::wstring w; int i=0; for(;tok[i];i++){ const wchar_t*t=tok[i]; bool need=*t==L'~'; if(need) t++; if(at==i||at==-2) w+=lay; else if(need) w+=L' '; w+=t; } if(at==i||at==-2) w+=lay; return w; }
void sx_main(){
  sx_steps(8000000,"reading a grammar"); sx_expect_reach("read");
  vfiles.push_back({"dir/f",L"A:'q';"});
  const wchar_t*const*tok=sx_choose("text",2)?TOK2:TOK1; int nt=0; while(tok[nt]) nt++;
  Grammar<TC> base; vfiles.push_back({"dir/base",assemble(tok,-1,L"")}); int idb=base.parse("dir/base");
#if MODE==0
  int at=sx_choose("boundary",nt+1); std::wstring lay=layout(PIECES,tok[at]&&tok[at][0]==L'~');
#else
  int at=-2; std::wstring lay=layout(PIECES,true);
#endif
  vfiles.push_back({"dir/var",assemble(tok,at,lay)}); Grammar<TC> var; bool threw=false; int idv=0;
  try{ idv=var.parse("dir/var"); }catch(StreamException&){ threw=true; }
  sx_reach("read"); sx_assert(!threw,"layout between tokens is accepted"); if(threw) return;
  sx_assert(idv==idb,"layout between tokens does not change rule numbers"); Dump a=dump_grammar(base),b=dump_grammar(var); sx_assert(same_dump(a,b),"layout between tokens does not change the grammar read"); sx_observe("size",a.size());
}
