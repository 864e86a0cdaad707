// Chunked reduction of a well-nested trace by the real chunk reducers and the real final stage, against the serial bottom-up pass.
#include "runner.hpp"
#undef mmap
#ifndef FULL
#define FULL 0
#endif
#ifndef DUP
#define DUP 0
#endif
#if DUP
#define POS(x) sx_u(x,48)
#else
#define POS(x) ((sx_u(x,40)<<8)|marks.size())
#endif
static std::vector<int> predicted;
struct Sy{ int par; uint64_t id,so,eo; std::vector<int> kids; bool done=false,none=false; uint64_t val=0; int sm,em; };
static std::vector<Sy> T; static std::vector<uint64_t> marks; static std::vector<int> owner; static std::vector<std::vector<uint64_t>> chunks; static int ncalls=0, NB, W; static BE*B; static char token;
// --- the value lists as the Python adapters keep them (used when compiled for the Python binding)
static std::vector<uint64_t> plist; static std::vector<std::vector<uint64_t>> chan; static size_t qpos=0; static std::vector<uint64_t> queue_; static bool stage3=false, open2=false, first3=true;
static long listener(const SymbolEntry*s,uint64_t*v,int n,void*ctx){ ncalls++; sx_assert(ctx==&token,"the action gets its context"); int node=-1;
#if DUP
  // equal marks are possible: instances are told apart by the order in which they have to be reduced
  if(ncalls<=(int)predicted.size()) node=predicted[ncalls-1]; sx_assert(node>=0,"no more actions than rule instances"); if(node<0) return 0;
#else
  int k=(int)sx_concretize((uint64_t)s->start&0xff); for(size_t i=0;i<T.size();i++) if(T[i].sm==k) node=i; sx_assert(node>=0,"the range starts where a rule instance starts"); if(node<0) return 0;
#endif
  Sy&t=T[node];
  sx_assert(!t.done,"every rule instance is reduced once"); t.done=true; sx_assert((uint64_t)s->id==t.id,"the rule of the instance"); sx_assert(band((uint64_t)s->start==t.so,(uint64_t)s->end==t.eo),"the text range of the instance");
  std::vector<uint64_t> ex; for(int c:t.kids){ sx_assert(T[c].done,"children are reduced before their parent"); if(!T[c].none) ex.push_back(T[c].val); }
  sx_assert(n==(int)ex.size(),"the number of child values"); if(n!=(int)ex.size()) return 0;
#if PYCENTAURUS
  if(stage3){ uint64_t sh=v[0]; for(uint64_t i=0;i<sh;i++){ sx_assert(qpos<queue_.size(),"no more values are taken over than were transferred"); if(qpos>=queue_.size()) return 0; plist.push_back(queue_[qpos++]); } }
  sx_assert((int)plist.size()>=n,"the child values are at hand"); if((int)plist.size()<n) return 0; for(int i=0;i<n;i++) sx_assert(plist[plist.size()-n+i]==ex[i],"the child values in order"); plist.resize(plist.size()-n);
#else
  for(int i=0;i<n;i++) sx_assert(v[i]==ex[i],"the child values in order");
#endif
  uint64_t val=VALUES?sx_u("value",VALUES):7+node; t.val=val; t.none=val==0;
#if PYCENTAURUS
  if(t.none) return 0; plist.push_back(val); return 1;
#else
  return (long)val;
#endif
}
static void xfer(int index,int ni,void*ctx){ sx_assert(ctx==&token,"the transfer gets its context"); 
#if PYCENTAURUS
  if(!stage3){ if(!open2){ open2=true; plist.clear(); } else { open2=false; sx_assert(index>=0&&index<NB,"a chunk's values are sent to a channel"); if(index<0||index>=NB) return; sx_assert(chan[index].empty()||chunks.empty(),"one list per channel"); chan[index]=plist; } }
  else { sx_assert(index>=0&&index<NB,"a chunk's values come from a channel"); if(index<0||index>=NB) return; if(first3){ plist=chan[index]; first3=false; } else for(auto x:chan[index]) queue_.push_back(x); }
#endif
  if(stage3&&ni==(int)chunks.size()-1) for(int i=0;i<NB;i++) if(B[i].state.load()==BS::Free) B[i].state.store(BS::YouAreDone);
}
static size_t given=0; static int bankof(int c){ return (c*2+1)%NB; }
static void next_chunk(){ if(given<chunks.size()){ B[bankof(given)].number=given; B[bankof(given)].state.store(BS::Stage1_Unlocked); given++; } else for(int i=0;i<NB;i++) if(B[i].state.load()!=BS::Stage2_Unlocked) B[i].state.store(BS::YouAreDone); }
static void*(*thr)(void*); static void*targ;
static int sx_create(pthread_t*,const pthread_attr_t*,void*(*f)(void*),void*a){ thr=f; targ=a; return 0; }
void sx_main(){
  sx_steps(3000000,"reducing a trace"); sx_expect_reach("reduced"); static char fb[16]; sx_filebuf=fb; 
  // a tree of rule instances with one root
  int n=1+sx_choose("symbols",SYMS); std::vector<int> st; for(int made=0;;){ bool op; if(st.empty()){ if(made) break; op=true; } else if(made==n) op=false; else if(st.size()==1) op=true; else op=sx_choose("open",2);
    if(op){ Sy s; s.par=st.empty()?-1:st.back(); s.sm=marks.size(); s.id=sx_range("rule",1,32767); s.so=POS("position"); if(s.par>=0) T[s.par].kids.push_back(made); st.push_back(made); owner.push_back(made); T.push_back(s); made++; marks.push_back(((uint64_t)1<<63)|(s.id<<48)|s.so); }
    else { Sy&s=T[st.back()]; s.em=marks.size(); s.eo=POS("endposition"); marks.push_back((s.id<<48)|s.eo); owner.push_back(st.back()); st.pop_back(); } }
  // cut it
  int m=marks.size(); chunks.push_back({}); 
#if FULL
  W=1+sx_choose("words",m); for(int i=0;i<m;i++){ if((int)chunks.back().size()==W) chunks.push_back({}); chunks.back().push_back(marks[i]); } if((int)chunks.back().size()==W&&sx_choose("tail",2)) chunks.push_back({});
#else
  W=3*m+16; for(int i=0;i<m;i++){ if(i&&sx_choose("cut",2)) chunks.push_back({}); chunks.back().push_back(marks[i]); } if(sx_choose("tail",2)) chunks.push_back({});
#endif
  { std::vector<int> at(m); int k=0; for(size_t c=0;c<chunks.size();c++) for(size_t i=0;i<chunks[c].size();i++) at[k++]=c; for(int ph=0;ph<2;ph++) for(int i=0;i<m;i++){ Sy&s=T[owner[i]]; if(s.em==i&&(at[s.sm]==at[i])==(ph==0)) predicted.push_back(owner[i]); } }
  NB=chunks.size()+1; if(NB%2==0) NB++; chan.resize(NB);
  static char*shm=(char*)malloc(1<<16); memset(shm,0,1<<16); sx_shm=shm;
  sx_mm=[](uint64_t off)->char*{ return off==0?shm:shm+4096; };
  Stage1Runner s1("in",nullptr,8*W,NB); Stage2Runner s2("in",8*W,NB,(int)sx_pid,&token); Stage3Runner s3("in",8*W,NB,(int)sx_pid,&token);
  // the first stage fills the buffers; the order in which it gets them is arbitrary
  B=(BE*)s1.m_sub_window; s1.m_current_bank=-1; s1.m_counter=0; for(size_t c=0;c<chunks.size();c++){ for(int i=0;i<NB;i++) B[i].state.store(BS::Stage3_Locked); B[bankof(c)].state.store(BS::Free); s1.m_current_bank=-1; uint64_t*d=(uint64_t*)s1.feed_callback(); sx_assert((char*)d>=shm+4096&&(char*)(d+W)<=shm+(1<<16),"harness size"); for(int i=0;i<W;i++) d[i]=i<(int)chunks[c].size()?chunks[c][i]:0; }
  for(int i=0;i<NB;i++) B[i].state.store(BS::Free);
  s2.register_python_listener(listener,xfer); s3.register_python_listener(listener,xfer);
  sx_onwait=next_chunk; s2.start(); thr(targ); for(size_t c=0;c<chunks.size();c++) sx_assert(B[bankof(c)].state.load()==BS::Stage2_Unlocked&&B[bankof(c)].number==(int)c,"every chunk was reduced"); 
  for(int i=0;i<NB;i++) if(B[i].state.load()==BS::YouAreDone) B[i].state.store(BS::Free);
  stage3=true; s3.start(); thr(targ); for(auto&t:T) sx_assert(t.done,"every rule instance is reduced"); sx_assert(ncalls==n,"every rule instance is reduced exactly once");
#if PYCENTAURUS
  sx_assert(plist.size()==(T[0].none?0:1),"the final value remains"); if(plist.size()==1) sx_assert(plist[0]==T[0].val,"the final value is the root's");
#endif
  for(int i=0;i<NB;i++) sx_assert(B[i].state.load()==BS::Free||B[i].state.load()==BS::YouAreDone,"every buffer is given back"); sx_reach("reduced"); sx_observe("calls",ncalls); }
