// Generated parsers: acceptance and traces against a reference of derivations.
#define GRAMMAR_FILES
#ifndef TC
#define TC unsigned char
#endif
#include "jit.hpp"
#include "gram.hpp"
static int page=PAGE;
struct Pages : BaseListener{ std::vector<uint64_t*> pages; void*feed_callback()override{ uint64_t*p=new uint64_t[page]; for(int i=0;i<page;i++) p[i]=0xEEEEEEEEEEEEEEEEull; pages.push_back(p); return p; } };
// the trace as nested instances; numbers are those the grammar assigned
static bool nest(const std::vector<uint64_t>&m,const std::map<int,int>&ruleof,GRef::Inst&root){ std::vector<GRef::Inst> st; bool done=false; for(uint64_t w:m){ bool start=w>>63; int id=(int)((w>>48)&0x7fff); long pos=(long)(w&0xffffffffffffull); auto it=ruleof.find(id); if(it==ruleof.end()||done) return false;
    if(start) st.push_back(GRef::Inst{it->second,(int)pos,0,{}}); else { if(st.empty()||st.back().rule!=it->second) return false; GRef::Inst i=st.back(); i.e=(int)pos; st.pop_back(); if(st.empty()){ root=i; done=true; } else st.back().k.push_back(i); } } return done&&st.empty(); }
void sx_main(){
  sx_steps(60000000,"generating or running a parser"); sx_expect_reach("accepted"); sx_expect_reach("rejected");
#if PAGE<=8
  page=1+sx_choose("page",PAGE);
  sx_expect_reach("several pages");
#endif
  GramGen gen(1+sx_choose("leaves",LEAVES),POSTS,GROUPS,RANKS,KINDS,ABODIES); Gram g; if(!gen.make(g)) return;
  vfiles.push_back({"g",g.text()}); Grammar<TC> gr("g"); { bool ok=false; try{ ok=gr.verify(); }catch(SimpleException&){} if(!ok) return; }
  std::vector<uint64_t> x; for(int i=0;i<SLEN;i++) x.push_back(sx_range("x",0,255)); for(uint64_t v:x) if(ONEWS) sx_assume(band(band(v!=9,v!=10),v!=13)); std::vector<TC> t=padded(x);
  std::map<int,int> ruleof; for(size_t i=0;i<g.rules.size();i++) ruleof[gr[Identifier(Gram::name((int)i))].get_unique_id()]=(int)i;
  x86i::pageimm=8*1024*1024; x86i::pagelen=page*8;
  ParserEM64T<TC> parser(gr); Pages L; const TC*end=(const TC*)parser(&L,t.data());
  x86i::pageimm=0; bool acc=end!=nullptr; sx_reach(acc?"accepted":"rejected"); long stop=acc?end-t.data():-1;
  GRef ref(g,x); Two n{false,false}; for(int j=0;j<=SLEN;j++) n=tsum(n,ref.ways(g.rules[0],0,j));
  if(acc){ std::vector<uint64_t> m; bool z=false; for(size_t p=0;p<L.pages.size();p++) for(int i=0;i<page;i++){ uint64_t w=L.pages[p][i]; if(w==0){ z=true; continue; } if(z){ sx_fail("an accepted trace has no gap"); return; } m.push_back(w); }
    if(L.pages.size()>1) sx_reach("several pages");
    sx_assert(L.pages.size()==m.size()/page+1,"the trace takes as many buffers as it needs");
    GRef::Inst root; if(!nest(m,ruleof,root)){ sx_fail("start and end marks of an accepted text nest"); return; }
    sx_assert(root.rule==0&&root.s==0&&root.e==(int)stop,"the trace covers the text that was accepted");
    sx_assert(ref.fits(root),"the trace of an accepted text is one of its derivations");
    sx_observe("marks",m.size());
  } else {
    bool exact=!g.ranked(g.rules[1]); for(auto&r:g.rules) if(g.nullableloop(r)) exact=false; if(g.rules.size()>2){ int out=g.refs(g.rules[1],2); if(out>1) exact=false; } 
    if(exact){ bool must=band(n.one,!n.two); 
      // a text whose only derivation uses the longest match of every terminal
      bool lm=false; for(int j=0;j<=SLEN;j++) lm=bor(lm,ref.lm(g.rules[0],0,j)); sx_assert(!band(must,lm),"a text with exactly one derivation is accepted"); } }
if(DRY){
  DryParserEM64T<TC> dry(gr); const TC*e2=(const TC*)dry(nullptr,t.data()); sx_assert(e2==end,"the parser without a trace accepts the same texts"); }
  sx_observe("end",(uint64_t)stop);
}
