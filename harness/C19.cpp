// What an action sees: MODE 0 unrestricted rule instances, MODE 1 a whole parse of a text by Context, stage after stage.
#define GRAMMAR_FILES
#ifndef TC
#define TC unsigned char
#endif
#if MODE==1
#define SX_ATOMIC 4
#endif
#include "jit.hpp"
#include "runner.hpp"
#include "Context.hpp"
typedef SymbolContext<TC> SC; typedef Context<TC> CX;
static const wchar_t*const RN[]={L"Z",L"S",L"A",L"B"};
struct Call{ int act; uint64_t id,s,e; std::vector<uint64_t> kids; std::vector<TC> text; uint64_t ret; }; static std::vector<Call> calls; static const TC*window; static uint64_t rets[64]; static int maxkids=0;
static void*act(int k,const SC&c){ Call r; r.act=k; r.id=0; r.s=(uint64_t)((const char*)c.start()-(const char*)window); r.e=(uint64_t)((const char*)c.end()-(const char*)window); int n=(int)sx_concretize((uint64_t)c.count()); for(int i=1;i<=n;i++) r.kids.push_back((uint64_t)c.template value<char>(i)); r.ret=rets[calls.size()%64];
#if MODE==1
  std::basic_string<TC> t=c.read(); sx_assert((long)t.size()==(long)c.len(),"the length of the text"); for(TC ch:t) r.text.push_back(ch);
#endif
  calls.push_back(r); return (void*)r.ret; }
template<int K> static void*action(const SC&c){ return act(K,c); }
static const CppReductionCallback<TC> ACT[]={action<0>,action<1>,action<2>,action<3>};
#if MODE==0
static int sx_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*){ return 0; }
void sx_main(){ sx_steps(60000000,"an action"); sx_expect_reach("called"); sx_expect_reach("without an action");
  vfiles.push_back({"g",L"Z: A S ';'; S: 'x' A | 'y' B; A: 'a'; B: 'b' A;"}); CX cx("g"); 
  int reg[4]; for(int r=0;r<4;r++){ reg[r]=sx_choose("registered",4)-1; if(reg[r]>=0) cx.attach(Identifier(RN[r]),ACT[reg[r]]); }
  int r=sx_choose("rule",4); int id=cx.m_grammar[Identifier(RN[r])].get_unique_id();
  uint64_t st=sx_u("start",48), en=sx_u("end",48); sx_assume(st<=en); if(sizeof(TC)>1) sx_assume(band(st%sizeof(TC)==0,en%sizeof(TC)==0)); uint64_t wa=sx_u("window",46); sx_assume(wa%16==0); window=(const TC*)wa; int n=sx_choose("children",KIDS+1); uint64_t v[KIDS+1]; for(int i=0;i<KIDS;i++) v[i]=sx_u("value",64); rets[0]=sx_u("result",63); 
  SymbolEntry se(id,(long)st,(long)en); ParseContext<TC> pc(cx.m_callbacks,window); 
  SC sc(pc,se,v,n); sx_assert(sc.len()==(long)((en-st)/sizeof(TC)),"the length of the text"); sx_assert(sc.count()==n,"the number of children");
  long ret=CX::callback(&se,v,n,&pc);
  if(reg[r]<0){ sx_reach("without an action"); sx_assert(ret==0,"a rule without an action yields no value"); sx_assert(calls.empty(),"an action is called for its own rule only"); }
  else { sx_reach("called"); sx_assert(calls.size()==1,"the action is called once"); if(calls.size()!=1) return; Call&c=calls[0]; sx_assert(c.act==reg[r],"the action of the rule is called"); sx_assert((uint64_t)ret==rets[0],"the action's result is the value of the instance"); sx_assert(band(c.s==st,c.e==en),"the bounds of the text"); sx_assert((int)c.kids.size()==n,"the number of children"); for(int i=0;i<n&&i<(int)c.kids.size();i++) sx_assert(c.kids[i]==v[i],"the child values in order"); }
  sx_observe("n",n); }
#else
#include "gram.hpp"
// The stages run one after the other on one thread: when the first stage has filled a buffer, the workers and the final stage run to their ends.
struct Th{ void*(*f)(void*); void*a; }; static std::vector<Th> ths; static BE*bk=nullptr; static int nb=0, phase=0, waits=0; static std::vector<uint64_t> marks; static char*mainw=nullptr; static uint64_t lastpost=0;
static int sx_create(pthread_t*,const pthread_attr_t*,void*(*f)(void*),void*a){ ths.push_back({f,a}); if((int)ths.size()==nb/2+2){ phase=1; ths[0].f(ths[0].a); } return 0; }
static void all(BS from,BS to){ for(int i=0;i<nb;i++) if(bk[i].state.v==from) bk[i].state.v=to; }
static void onwait(){ if(phase==2&&waits++>0) all(BS::Free,BS::YouAreDone); }
static int onpost_done=0;
static void onpost(){ if(phase!=1||onpost_done) return; onpost_done=1; uint64_t*d=(uint64_t*)mainw; for(int i=0;i<PAGE&&d[i];i++) marks.push_back(d[i]);
  for(int w=1;w+1<(int)ths.size();w++){ phase=2; waits=0; int left=0; for(int i=0;i<nb;i++) if(bk[i].state.v==BS::Stage1_Unlocked) left++; if(!left){ waits=1; } ths[w].f(ths[w].a); all(BS::YouAreDone,BS::Free); }
  phase=3; ths.back().f(ths.back().a); all(BS::YouAreDone,BS::Free); phase=1; }
void std::sx_before(void*){ if(phase==3){ bool idle=true; for(int i=0;i<nb;i++) if(bk[i].state.v!=BS::Free) idle=false; if(idle) all(BS::Free,BS::YouAreDone); } }
void std::sx_write(void*,long,long,int){}
static const struct{ const wchar_t*t; int rules; } GR[]={ {L"Z: S ';'; S: 'a' A+ | /[b-c]+/ ; A: 'x' B | B; B: /[0-9]/;",4}, {L"Z: S ';'; S: A*; A: B 'p' | 'r'; B: 'q';",4}, {L"Z: A ';'; A: '(' A ')' S | 'n'; S: /[a-z]*1/ ?;",3}, };
void sx_main(){ sx_steps(60000000,"a parse"); sx_expect_reach("reduced"); int gi=sx_choose("grammar",3); vfiles.push_back({"g",GR[gi].t}); 
  std::vector<uint64_t> x; for(int i=0;i<SLEN;i++) x.push_back(sx_range("x",0,255)); static std::vector<TC> t; t=padded(x); sx_filebuf=(char*)t.data(); window=t.data();
  x86i::pageimm=8*1024*1024; x86i::pagelen=PAGE*8; CX cx("g"); 
  // which texts are accepted is another property; here the parser itself decides
  { struct D : BaseListener{ uint64_t b[PAGE]; void*feed_callback()override{ return b; } } D0; if(!cx.m_parser(&D0,t.data())) return; }
  static const unsigned REG[]={15,14,7,11,13,5,10,0}; unsigned rc=sx_choose("registered",8), reg=REG[rc]; int workers=1+(rc&1); nb=workers*2; for(int r=0;r<GR[gi].rules;r++) if(reg>>r&1) cx.attach(Identifier(RN[r]),ACT[r]); 
  for(int i=0;i<64;i++) rets[i]=100+i; int vl=rc==0?sx_choose("valueless",4):0; if(vl) for(int i=vl-1;i<64;i+=3) rets[i]=0;
  static char ctlbuf[4096]; bk=(BE*)ctlbuf; mainw=(char*)malloc(8*1024+PAGE*8); memset(mainw,0,8*1024+PAGE*8); sx_mm=[](uint64_t off)->char*{ return off==0?ctlbuf:mainw; };
  sx_onwait=onwait; sx_onpost=onpost; cx.parse("in",workers); x86i::pageimm=0; sx_assert(onpost_done&&(int)ths.size()==workers+2,"all stages ran"); sx_reach("reduced");
  // the serial bottom-up pass over the trace
  struct In{ int id; uint64_t s; std::vector<uint64_t> kids; }; std::vector<In> st; size_t k=0; for(uint64_t w:marks){ int id=(int)((w>>48)&0x7fff); uint64_t pos=w&0xffffffffffffull; if(w>>63){ st.push_back({id,pos,{}}); continue; } In in=st.back(); st.pop_back(); int rule=-1; for(int r=0;r<GR[gi].rules;r++) if(cx.m_grammar[Identifier(RN[r])].get_unique_id()==id) rule=r; sx_assert(rule>=0,"a known rule"); uint64_t ret=0;
    if(reg>>rule&1){ sx_assert(k<calls.size(),"the action of every instance is called"); if(k>=calls.size()) return; Call&c=calls[k++]; sx_assert(c.act==rule,"the action of the instance's own rule"); sx_assert(band(c.s==in.s,c.e==pos),"the bounds of the text"); sx_assert(c.kids==in.kids,"the child values in order"); sx_assert(c.text.size()==pos-in.s,"the text"); if(c.text.size()==pos-in.s) for(size_t i=0;i<c.text.size();i++) sx_assert(c.text[i]==x[in.s+i],"the text"); ret=c.ret; }
    if(ret&&!st.empty()) st.back().kids.push_back(ret); }
  sx_assert(k==calls.size(),"actions are called for instances only"); sx_observe("calls",calls.size()); }
#endif
