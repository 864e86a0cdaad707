// Hand-over of buffers: each stage's real code against the most general behaviour of all the others (rely-guarantee).
// STAGE 1..3: the stage under test; the others are a symbolic environment that acts before every access to a buffer state.
// PROG=1: no interference, but any state in which work is at hand: the stage has to get it within a bounded number of steps.
#define SX_ATOMIC 4
#include "runner.hpp"
#undef mmap
#include <sanitizer/asan_interface.h>
#ifndef PROG
#define PROG 0
#endif
enum { FREE=0,L1=1,U1=2,L2=3,U2=4,L3=5,DONE=6 };
static Stage2Runner*helper; static int NB; static BE*B; static bool live=false; static int own=-1; static char*addr[8]; static const int WORDS=8; static char token;
static uint64_t C=0; // buffers taken by the stage under test
static uint64_t Wmin=0; static bool noMore=false, fed_all=false, dry=false, started=false, resetting=true; static int posts=0,waits=0,scans=0,feeds=0,calls_in=0,xf_in=0; static uint64_t released=0, ownnum=0, ndone=0;
static bool is(int i,int s){ return (long)B[i].state.v==s; }
static long sv(int i){ return (long)B[i].state.v; }
static void guard(int i,bool open){ if(open) __asan_unpoison_memory_region(addr[i],8*WORDS); else __asan_poison_memory_region(addr[i],8*WORDS); }
static bool active(long s){ return bor(bor(s==U1,s==L2),s==U2); }
static bool active3(long s){ return bor(active(s),s==L3); }
// one step of the environment: any number of steps of all other participants
static void interfere(){
  long o[8]; uint64_t on[8]; for(int i=0;i<NB;i++){ o[i]=sv(i); on[i]=(uint64_t)B[i].number; }
  for(int i=0;i<NB;i++) if(i!=own){ long n=(long)sx_range("state",0,6); B[i].state.v=(BS)n;
#if STAGE==1
    sx_assume(bor(n==o[i],bor(band(band(o[i]>=U1,o[i]<=L3),band(n>=o[i],n<=L3)),band(band(o[i]>=U1,o[i]<=L3),n==FREE)))); // only this stage locks free buffers
#else
    uint64_t num=sx_range("number",0,1000); B[i].number=(int)num; sx_assume(bor(o[i]!=DONE,n==DONE));
#if STAGE==3
    bool same=num==on[i], fresh=num>=Wmin;
    sx_assume(bor(o[i]!=U2,band(n==U2,same))); sx_assume(bor(o[i]!=L2,band(bor(n==L2,n==U2),same))); sx_assume(bor(o[i]!=U1,band(bor(n==U1,bor(n==L2,n==U2)),same)));
    sx_assume(bor(bor(o[i]!=FREE,n!=FREE),same)); sx_assume(bor(bor(o[i]!=FREE,!active(n)),fresh)); sx_assume(bor(bor(o[i]!=L1,!active(n)),fresh)); sx_assume(bor(o[i]!=L1,n!=FREE)); sx_assume(n!=L3);
#endif
#endif
  }
#if STAGE!=1
  bool anydone=false,allidle=true; for(int i=0;i<NB;i++){ anydone=bor(anydone,is(i,DONE)); allidle=band(allidle,bor(is(i,DONE),is(i,FREE))); }
  sx_assume(bor(!anydone,allidle)); // nothing is declared done while a buffer is in use
  int l1=0,l3=0; for(int i=0;i<NB;i++){ l1+=is(i,L1); l3+=is(i,L3); for(int j=0;j<i;j++) sx_assume(bor(bor(!active3(sv(i)),!active3(sv(j))),B[i].number!=B[j].number)); } sx_assume(l1<=1); sx_assume(l3<=1);
#if STAGE==3
  uint64_t na=0; for(int i=0;i<NB;i++) if(i!=own) na+=active(sv(i)); Wmin=C+na; // numbers in use are exactly those not yet consumed
  for(int i=0;i<NB;i++) if(i!=own) sx_assume(bor(!active(sv(i)),band((uint64_t)B[i].number>=C,(uint64_t)B[i].number<Wmin)));
  for(int i=0;i<NB;i++) if(i!=own) sx_assume(bor(bor(active(sv(i)),is(i,L1)),(uint64_t)B[i].number<(C?C:1))); for(int i=0;i<NB;i++) sx_assume(bor(!is(i,L1),(uint64_t)B[i].number<=Wmin));
  if(noMore) sx_assume(band(na==0,l1==0)); else sx_assume(!anydone); // a parse fills at least one buffer 
#endif
#endif
}
void std::sx_before(void*p){ if(!live) return; 
#if PROG
  return;
#endif
  int i=-1; for(int k=0;k<NB;k++) if(p==(void*)&B[k].state) i=k; if(i<0) return; if(++scans>SCANS*NB) sx_assume(false); interfere(); }
void std::sx_write(void*p,long o,long n,int){ if(!live) return; int i=-1; for(int k=0;k<NB;k++) if(p==(void*)&B[k].state) i=k; sx_assert(i>=0,"only buffer states are changed"); if(i<0) return;
  long ow=sx_concretize((uint64_t)o); n=(long)sx_concretize((uint64_t)n);
#if STAGE==1
  if(n==L1){ resetting=false; sx_assert(ow==FREE,"only a free buffer is taken for writing"); sx_assert(own==-1,"one buffer is written at a time"); own=i; guard(i,true); scans=0; }
  else if(n==U1&&ow!=FREE){ sx_assert(i==own&&ow==L1,"only the buffer being written is handed over"); sx_assert((uint64_t)B[i].number==C,"buffers are numbered in the order written"); sx_assert(!dry,"a dry run hands nothing over"); C++; own=-1; guard(i,false); scans=0; }
  else if(n==FREE){ if(i==own){ sx_assert(dry,"a written buffer is not dropped"); C++; own=-1; guard(i,false); scans=0; } else sx_assert(resetting&&ow==FREE,"a buffer in use is not reset"); }
  else if(n==DONE){ sx_assert(fed_all&&own==-1&&C==(uint64_t)feeds,"the end is announced after the last buffer was handed over"); sx_assert(ow==FREE,"a buffer in use is not declared done"); for(int k=0;k<NB;k++) sx_assert(bor(is(k,FREE),is(k,DONE)),"the end is announced when all buffers are free"); ndone++; }
  else sx_fail("the writing stage only locks, hands over and finishes buffers");
#elif STAGE==2
  if(n==L2){ if(C>=MAXBUF) sx_assume(false); sx_assert(ow==U1,"only a filled buffer is taken for reduction"); sx_assert(own==-1,"a reducer holds one buffer at a time"); own=i; ownnum=B[i].number; guard(i,true); scans=0; C++; calls_in=xf_in=0; uint64_t*d=(uint64_t*)addr[i]; for(int k=0;k<WORDS;k++) d[k]=0; d[0]=((uint64_t)1<<63)|((uint64_t)(7+C)<<48)|1; d[1]=((uint64_t)(7+C)<<48)|2; d[2]=((uint64_t)1<<63)|((uint64_t)5<<48)|3; }
  else if(n==U2){ sx_assert(i==own&&ow==L2,"only the buffer being reduced is handed over"); sx_assert(calls_in==1,"a buffer is handed over after it was reduced"); sx_assert(xf_in==3,"both transfers are announced while the buffer is held"); own=-1; guard(i,false); scans=0; }
  else sx_fail("a reducer only takes filled buffers and hands over reduced ones");
#else
  if(n==L3){ sx_assert(ow==U2,"only a reduced buffer is consumed"); sx_assert(own==-1,"the final stage holds one buffer at a time"); sx_assert((uint64_t)B[i].number==C,"buffers are consumed in the order written"); own=i; guard(i,true); scans=0; C++; xf_in=0; calls_in=0;
    noMore=C>=MAXBUF||sx_choose("last",2); bool act=false; for(int k=0;k<NB;k++) if(k!=i) act=bor(act,bor(active(sv(k)),is(k,L1))); sx_assume(!band(noMore,act));
    // contents: the reduced form of a chunk that ends rule instance C-1 and, unless it is the last, begins instance C
    { uint64_t*d=(uint64_t*)addr[i]; int w=0; for(int k=0;k<WORDS;k++) d[k]=0; if(C>1) d[w++]=((uint64_t)(C-1)<<48)|(2*C); if(!noMore) d[w++]=((uint64_t)1<<63)|((uint64_t)C<<48)|(2*C+1); bool l=live; live=false; ::helper->reduce_bank(d); live=l; } }
  else if(n==FREE){ sx_assert(i==own&&ow==L3,"only the consumed buffer is freed"); sx_assert(calls_in==(C>1?1:0)||C==1,"a buffer is freed after its instances were reduced"); sx_assert(xf_in==1,"the transfer is announced once"); own=-1; guard(i,false); scans=0; }
  else sx_fail("the final stage only takes reduced buffers and frees them");
#endif
}
static long listener(const SymbolEntry*s,uint64_t*,int n,void*){ 
#if STAGE==2
  sx_assert(own>=0,"reduction happens while the buffer is held"); sx_assert(s->id==(long)(7+C)&&n==0,"the contents of the buffer are reduced"); calls_in++;
#else
  sx_assert(own>=0,"reduction happens while the buffer is held"); sx_assert(s->id==(long)(C-1)&&n==0,"buffers' contents are combined in order"); calls_in++;
#endif
  return 0; }
static void xfer(int a,int b,void*ctx){ sx_assert(ctx==&token,"the transfer gets its context");
#if STAGE==2
  if(a==-1){ sx_assert(own>=0&&xf_in==0&&calls_in==0,"the take-over is announced once, before reducing"); sx_assert((uint64_t)b==ownnum,"the take-over names the buffer's number"); xf_in=1; }
  else { sx_assert(own>=0&&a==own&&b==-1&&xf_in==1&&calls_in==1,"the hand-over names the buffer held, after reducing"); xf_in=3; }
#else
  sx_assert(own>=0&&a==own&&(uint64_t)b==C-1&&xf_in==0&&calls_in==0,"the take-over names the buffer and its number"); xf_in=1;
#endif
}
struct Par: IParser { const void*operator()(BaseListener*l,const void*in) override { for(int k=0;k<feeds;k++){ uint64_t*p=(uint64_t*)l->feed_callback(); sx_assert(own>=0&&(char*)p==addr[own],"the parser writes into the buffer it holds"); if(own<0) return in; for(int w=0;w<WORDS;w++) p[w]=k+1; } if(resetting&&feeds==0) resetting=false; fed_all=true; return in; } };
static void*(*thr)(void*); static void*targ;
static int sx_create(pthread_t*,const pthread_attr_t*,void*(*f)(void*),void*a){ thr=f; targ=a; return 0; }
void sx_main(){
  sx_expect_reach("end"); static char fb[16]; sx_filebuf=fb; NB=1+sx_choose("buffers",BUFS); static char*shm=(char*)malloc(1<<14); memset(shm,0,1<<14); sx_shm=shm; sx_mm=[](uint64_t off)->char*{ return off==0?shm:shm+4096; };
  Par par; 
#if STAGE==1
  dry=sx_choose("dry",2); bool cap=sx_choose("capture",2); feeds=sx_choose("feeds",MAXBUF+1); Stage1Runner s1("in",&par,8*WORDS,NB,dry,cap);
#else
  Stage1Runner s1("in",&par,8*WORDS,NB);
#endif
  Stage2Runner s2("in",8*WORDS,NB,(int)sx_pid,&token), h2("in",8*WORDS,NB,(int)sx_pid,nullptr); Stage3Runner s3("in",8*WORDS,NB,(int)sx_pid,&token); helper=&h2; B=(BE*)s1.m_sub_window;
  // where the stage under test places each buffer
  for(int i=0;i<NB;i++){ for(int k=0;k<NB;k++){ B[k].state.v=BS::Stage3_Locked; B[k].number=0; }
#if STAGE==1
    B[i].state.v=BS::Free; s1.m_current_bank=-1; addr[i]=(char*)s1.feed_callback();
#elif STAGE==2
    B[i].state.v=BS::Stage1_Unlocked; addr[i]=(char*)s2.acquire_bank();
#else
    B[i].state.v=BS::Stage2_Unlocked; s3.m_counter=0; addr[i]=(char*)s3.acquire_bank();
#endif
  }
  for(int k=0;k<NB;k++){ B[k].state.v=BS::Free; B[k].number=0; guard(k,false); }
  sx_onpost=[]{ if(live) posts++; }; sx_onwait=[]{ if(live){ waits++; scans=0; } };
#if PROG
  // any state with work at hand, and nobody interferes
  sx_steps(200000,"taking a buffer that is at hand"); bool work=false; bool any=false; for(int k=0;k<NB;k++){ long st=(long)sx_range("state",0,6); B[k].state.v=(BS)st; B[k].number=(int)sx_range("number",0,5); }
#if STAGE==1
  for(int k=0;k<NB;k++){ sx_assume(!bor(is(k,DONE),is(k,L1))); work=bor(work,is(k,FREE)); } sx_assume(work); dry=false; s1.m_current_bank=-1; live=true; void*p=s1.feed_callback(); live=false; sx_assert(own>=0&&p==addr[own],"a free buffer is taken"); 
  for(int k=0;k<NB;k++) B[k].state.v=BS::Free; s1.m_current_bank=-1; own=-1; resetting=false; fed_all=true; feeds=0; C=0; live=true; s1.signal_exit(); live=false; sx_assert(ndone==(uint64_t)NB,"every buffer is declared done"); sx_assert(posts>=(NB+1)/2,"every waiting reducer is woken");
#elif STAGE==2
  for(int k=0;k<NB;k++) work=bor(work,bor(is(k,U1),is(k,DONE))); sx_assume(work); for(int k=0;k<NB;k++) any=bor(any,is(k,DONE)); bool idle=true; for(int k=0;k<NB;k++) idle=band(idle,bor(is(k,DONE),is(k,FREE))); sx_assume(bor(!any,idle)); s2.register_python_listener(listener,xfer); live=true; void*p=s2.acquire_bank(); live=false; if(any) sx_assert(p==nullptr&&own<0,"the reducer ends after the end was announced"); else sx_assert(own>=0&&p==addr[own],"a filled buffer is taken");
#else
  C=sx_choose("counter",3); uint64_t c0=C; for(int k=0;k<NB;k++){ work=bor(work,bor(band(is(k,U2),(uint64_t)B[k].number==C),is(k,DONE))); any=bor(any,is(k,DONE)); for(int j=0;j<k;j++) sx_assume(bor(bor(!active3(sv(k)),!active3(sv(j))),B[k].number!=B[j].number)); } bool idle=true; for(int k=0;k<NB;k++) idle=band(idle,bor(is(k,DONE),is(k,FREE))); sx_assume(bor(!any,idle)); sx_assume(work); s3.register_python_listener(listener,xfer); s3.m_counter=(int)C; live=true; void*p=s3.acquire_bank(); live=false; if(any) sx_assert(p==nullptr&&own<0,"the final stage ends after the end was announced"); else sx_assert(own>=0&&p==addr[own]&&C==c0+1,"the next buffer is taken");
#endif
  sx_reach("end"); sx_observe("own",own);
#else
  sx_steps(3000000,"handing over buffers"); BaseRunner*r;
#if STAGE==1
  r=&s1; for(int k=0;k<NB;k++) B[k].number=0;
#elif STAGE==2
  r=&s2; s2.register_python_listener(listener,xfer);
#else
  r=&s3; s3.register_python_listener(listener,xfer);
#endif
  r->start(); live=true; thr(targ); live=false; sx_reach("end");
#if STAGE==1
  sx_assert(ndone==(uint64_t)NB&&C==(uint64_t)feeds,"the stage ends after announcing the end on every buffer"); sx_assert(posts>=feeds+(NB+1)/2,"there is one wake-up per buffer and one per reducer");
  if(cap){ auto&rc=s1.result_chunks(); sx_assert((int)rc.size()==feeds,"every buffer is captured"); for(size_t k=0;k<rc.size();k++) for(size_t w=0;w<rc[k].size();w++) sx_assert(*(const uint64_t*)&rc[k][w]==k+1,"captured buffers are as written, in order"); }
#else
  bool dn=false; for(int k=0;k<NB;k++) dn=bor(dn,is(k,DONE)); sx_assert(dn&&own==-1,"the stage ends only after the end was announced");
#if STAGE==2
  sx_assert(waits<=(int)C+1,"a reducer waits once per buffer and once for the end");
#else
  sx_assert(noMore,"the final stage ends only after the last buffer");
#endif
#endif
  sx_observe("taken",C); sx_observe("posts",posts);
#endif
}
