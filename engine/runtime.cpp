#include <execinfo.h>
// Symx runtime: expression DAG, shadow memory, path forking (fork(2)), SMT queries (Z3, QF_BV).
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <vector>
#include <string>
#include <unordered_set>
#include <atomic>
#include "sx.h"

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*)) __attribute__((weak));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*) __attribute__((weak));

typedef uint64_t u64;
enum Op { OP_ADD=1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
          OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_CONST, OP_SYM, OP_ZEXT, OP_SEXT, OP_EXTRACT, OP_CONCAT, OP_ITE };

struct Expr { uint8_t op; uint8_t w; uint16_t flags; uint32_t id; u64 val; Expr*k[3]; uint32_t epoch; u64 ev; Z3_ast zbv, zb, zi, zib; uint8_t ist, iist; Expr*next; };
static inline u64 mask(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline int64_t sx_(u64 v,unsigned w){ if(w>=64) return (int64_t)v; u64 m=1ull<<(w-1); v&=mask(w); return (int64_t)((v^m)-m); }

// ---------------------------------------------------------------- shared statistics
struct Viol { volatile int kind; char msg[300]; char model[6000]; };  // kind: 1 assertion 2 memory/crash 3 steps 4 inconclusive 5 known finding
struct Sample { volatile int used; char model[6000]; char obs[8000]; };
struct Reach { char label[80]; volatile long n; volatile int expected; };
struct Shared {
  sem_t tokens; sem_t lock;
  volatile int stop; 
  volatile long paths, forks, branches, queries, sat, unsat, unknown, assertq, asserts, solver_us, conc, extconc, infeasible, maxdepth, killed, bvswitch;
  volatile int nviol; Viol viol[24];
  volatile int nreach; Reach reach[200];
  volatile long nsample; Sample sample[48];
  volatile int next; char extnames[60][120];
  unsigned char hit[1<<17];
};
static Shared*S;
static void slock(){ while(sem_wait(&S->lock)&&errno==EINTR); } static void sunlock(){ sem_post(&S->lock); }

// ---------------------------------------------------------------- process-local state
static const unsigned NB=1<<15;
static Expr**table; static uint32_t nexpr=0; static uint32_t epoch=1;
static char*pool=nullptr; static size_t poolLeft=0;
static void*rawalloc(size_t n){ n=(n+15)&~15ul; if(n>poolLeft){ size_t c=n>(1u<<20)?n:(1u<<20); pool=(char*)mmap(0,c,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); poolLeft=c; } void*r=pool; pool+=n; poolLeft-=n; return r; }
struct SymInfo { Expr*e; const char*name; };
static SymInfo syms[4096]; static int nsyms=0; static u64 model[4096];
static Z3_context Z; static Z3_solver solver; 
static int depth=0; static int opt_all=0, opt_tier=0, opt_case=0, opt_jobs=8; static long opt_maxvals=5000;
static u64 pathStepsUsed=0; static const char*stepsWhat="path"; static bool stepsIsProperty=false;
static std::string *obsTrace; 
static bool parentOwnsToken=true; static std::vector<pid_t>*asyncKids;
static bool active=false;
extern "C" { Expr*__sx_args[64]; Expr*__sx_ret[16]; void*__sx_callee; int64_t __sx_budget=(int64_t)1<<62; unsigned char*__sx_hit; }

static inline u64 now_us(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (u64)t.tv_sec*1000000+t.tv_nsec/1000; }
static void die(const char*fmt,...);

// ---------------------------------------------------------------- expressions
static Expr*mk(int op,unsigned w,u64 val,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr){
  u64 h=op*0x9E3779B97F4A7C15ull^w*0xC2B2AE3D27D4EB4Full^val*0x165667B19E3779F9ull; h^=(a?a->id:0)*0xD6E8FEB86659FD93ull; h=(h<<13)|(h>>51); h^=(b?b->id:0)*0xA0761D6478BD642Full; h=(h<<17)|(h>>47); h^=(c?c->id:0)*0xE7037ED1A0B428DBull; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32;
  Expr**s=&table[h&(NB-1)];
  for(Expr*e=*s;e;e=e->next) if(e->op==op&&e->w==w&&e->val==val&&e->k[0]==a&&e->k[1]==b&&e->k[2]==c) return e;
  Expr*e=(Expr*)rawalloc(sizeof(Expr)); memset(e,0,sizeof*e); e->op=op;e->w=w;e->val=val;e->k[0]=a;e->k[1]=b;e->k[2]=c;e->id=++nexpr; e->next=*s;*s=e; return e; }
static Expr*K(u64 v,unsigned w){ return mk(OP_CONST,w,v&mask(w)); }
static inline bool isK(Expr*e){ return e->op==OP_CONST; }
static u64 fold(int op,unsigned w,u64 a,u64 b){ u64 m=mask(w); switch(op){ case OP_ADD:return (a+b)&m;case OP_SUB:return (a-b)&m;case OP_MUL:return (a*b)&m;case OP_UDIV:return b?(a/b)&m:m;case OP_UREM:return b?(a%b)&m:a;
  case OP_SDIV:{int64_t x=sx_(a,w),y=sx_(b,w); if(!y) return x<0?1:m; if(y==-1) return (u64)(-(u64)x)&m; return (u64)(x/y)&m;} case OP_SREM:{int64_t x=sx_(a,w),y=sx_(b,w); if(!y) return a; if(y==-1) return 0; return (u64)(x%y)&m;}
  case OP_SHL:return b>=w?0:(a<<b)&m;case OP_LSHR:return b>=w?0:(a>>b)&m;case OP_ASHR:return (u64)(sx_(a,w)>>(b>=w?w-1:b))&m;case OP_AND:return a&b;case OP_OR:return a|b;case OP_XOR:return a^b;
  case OP_EQ:return a==b;case OP_NE:return a!=b;case OP_ULT:return a<b;case OP_ULE:return a<=b;case OP_SLT:return sx_(a,w)<sx_(b,w);case OP_SLE:return sx_(a,w)<=sx_(b,w);} abort(); }
static bool isCmp(int op){ return op>=OP_EQ&&op<=OP_SLE; }
static Expr*bin(int op,Expr*a,Expr*b);
static Expr*ite(Expr*c,Expr*a,Expr*b);
static Expr*notE(Expr*e);
static Expr*ext(Expr*e,unsigned lo,unsigned w){
  if(lo==0&&w==e->w) return e; if(isK(e)) return K(e->val>>lo,w);
  if(e->op==OP_EXTRACT) return ext(e->k[0],lo+e->val,w);
  if(e->op==OP_CONCAT){ unsigned lw=e->k[1]->w; if(lo+w<=lw) return ext(e->k[1],lo,w); if(lo>=lw) return ext(e->k[0],lo-lw,w); }
  if(e->op==OP_ZEXT){ unsigned iw=e->k[0]->w; if(lo+w<=iw) return ext(e->k[0],lo,w); if(lo>=iw) return K(0,w); if(lo==0) return mk(OP_ZEXT,w,0,e->k[0]); }
  if(e->op==OP_SEXT){ unsigned iw=e->k[0]->w; if(lo+w<=iw) return ext(e->k[0],lo,w); if(lo==0) return mk(OP_SEXT,w,0,e->k[0]); }
  if(lo==0&&(e->op==OP_ADD||e->op==OP_SUB||e->op==OP_MUL||e->op==OP_AND||e->op==OP_OR||e->op==OP_XOR)) return bin(e->op,ext(e->k[0],0,w),ext(e->k[1],0,w));
  if(e->op==OP_AND||e->op==OP_OR||e->op==OP_XOR) return bin(e->op,ext(e->k[0],lo,w),ext(e->k[1],lo,w));
  if(e->op==OP_ITE) { if(isK(e->k[1])||isK(e->k[2])||(e->w>8)) return ite(e->k[0],ext(e->k[1],lo,w),ext(e->k[2],lo,w)); }
  return mk(OP_EXTRACT,w,lo,e); }
static Expr*zext(Expr*e,unsigned w){ if(e->w==w) return e; if(isK(e)) return K(e->val,w); if(e->op==OP_ZEXT) return zext(e->k[0],w); 
  if(e->op==OP_ITE&&(isK(e->k[1])&&isK(e->k[2]))) return mk(OP_ITE,w,0,e->k[0],zext(e->k[1],w),zext(e->k[2],w)); return mk(OP_ZEXT,w,0,e); }
static Expr*sext(Expr*e,unsigned w){ if(e->w==w) return e; if(isK(e)) return K((u64)sx_(e->val,e->w),w); if(e->op==OP_ZEXT) return zext(e->k[0],w); if(e->op==OP_SEXT) return sext(e->k[0],w); return mk(OP_SEXT,w,0,e); }
static Expr*concat(Expr*hi,Expr*lo){ unsigned w=hi->w+lo->w; if(isK(hi)&&isK(lo)) return K((hi->val<<lo->w)|lo->val,w); if(isK(hi)&&hi->val==0) return zext(lo,w);
  if(hi->op==OP_EXTRACT&&lo->op==OP_EXTRACT&&hi->k[0]==lo->k[0]&&hi->val==lo->val+lo->w) return ext(hi->k[0],lo->val,w);
  if(hi->op==OP_EXTRACT&&hi->k[0]==lo&&hi->val==lo->w) return ext(lo,0,w);
  if(hi->op==OP_EXTRACT&&lo->op==OP_CONCAT&&lo->k[0]->op==OP_EXTRACT&&hi->k[0]==lo->k[0]->k[0]&&hi->val==lo->k[0]->val+lo->k[0]->w) return concat(ext(hi->k[0],lo->k[0]->val,hi->w+lo->k[0]->w),lo->k[1]);
  if(lo->op==OP_CONCAT&&isK(hi)&&isK(lo->k[0])) return concat(concat(hi,lo->k[0]),lo->k[1]);
  if(lo->op==OP_ZEXT&&isK(hi)&&hi->val==0) return zext(lo->k[0],w);
  if(hi->op==OP_ITE&&lo->op==OP_ITE&&hi->k[0]==lo->k[0]) return ite(hi->k[0],concat(hi->k[1],lo->k[1]),concat(hi->k[2],lo->k[2]));
  return mk(OP_CONCAT,w,0,hi,lo); }
static Expr*notE(Expr*e){ switch(e->op){ case OP_CONST:return K(!e->val,1); case OP_EQ:return mk(OP_NE,1,0,e->k[0],e->k[1]); case OP_NE:return mk(OP_EQ,1,0,e->k[0],e->k[1]); case OP_ULT:return bin(OP_ULE,e->k[1],e->k[0]); case OP_ULE:return bin(OP_ULT,e->k[1],e->k[0]);case OP_SLT:return bin(OP_SLE,e->k[1],e->k[0]);case OP_SLE:return bin(OP_SLT,e->k[1],e->k[0]);
   case OP_XOR: if(isK(e->k[1])&&e->k[1]->val==1) return e->k[0]; break; } return mk(OP_XOR,1,0,e,K(1,1)); }
static Expr*ite(Expr*c,Expr*a,Expr*b){ if(isK(c)) return c->val?a:b; if(a==b) return a; if(a->w==1&&isK(a)&&isK(b)) return a->val?c:notE(c);
  if(c->op==OP_XOR&&isK(c->k[1])) return ite(c->k[0],b,a);
  if(a->w==1){ if(isK(a)) return a->val?bin(OP_OR,c,b):bin(OP_AND,notE(c),b); if(isK(b)) return b->val?bin(OP_OR,notE(c),a):bin(OP_AND,c,a); }
  if(a->op==OP_ITE&&a->k[0]==c) a=a->k[1]; if(b->op==OP_ITE&&b->k[0]==c) b=b->k[2];
  return mk(OP_ITE,a->w,0,c,a,b); }
static Expr*bin(int op,Expr*a,Expr*b){
  unsigned w=a->w; unsigned rw=isCmp(op)?1:w;
  if(isK(a)&&isK(b)) return K(fold(op,w,a->val,b->val),rw);
  // commutative: constant right
  if((op==OP_ADD||op==OP_MUL||op==OP_AND||op==OP_OR||op==OP_XOR||op==OP_EQ||op==OP_NE)&&(isK(a)||(!isK(b)&&a->id>b->id))) std::swap(a,b);
  u64 m=mask(w);
  if((op==OP_AND||op==OP_OR||op==OP_XOR)&&w>1&&a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->k[0]->w==b->k[0]->w) return zext(bin(op,a->k[0],b->k[0]),w);
  if((op==OP_OR||op==OP_XOR)&&w>1&&a->op==OP_ZEXT&&isK(b)&&b->val&&b->val<=mask(a->k[0]->w)) return zext(bin(op,a->k[0],K(b->val,a->k[0]->w)),w);
  switch(op){
   case OP_ADD: if(isK(b)){ if(!b->val) return a; if(a->op==OP_ADD&&isK(a->k[1])) return bin(OP_ADD,a->k[0],K(a->k[1]->val+b->val,w)); if(a->op==OP_ITE&&isK(a->k[1])&&isK(a->k[2])) return ite(a->k[0],bin(op,a->k[1],b),bin(op,a->k[2],b)); } break;
   case OP_SUB: if(isK(b)) return bin(OP_ADD,a,K(-b->val,w)); if(a==b) return K(0,w); if(a->op==OP_ADD&&isK(a->k[1])&&a->k[0]==b) return a->k[1];
       if(a->op==OP_ADD&&b->op==OP_ADD&&a->k[0]==b->k[0]) return bin(OP_SUB,a->k[1],b->k[1]); break;
   case OP_MUL: if(isK(b)){ if(b->val==0) return b; if(b->val==1) return a; } break;
   case OP_UDIV: if(isK(b)&&b->val==1) return a; break;
   case OP_SHL: case OP_LSHR: case OP_ASHR: if(isK(b)){ if(!b->val) return a; 
       if(op==OP_LSHR&&b->val<w) return zext(ext(a,b->val,w-b->val),w); 
       if(op==OP_SHL&&b->val<w) return concat(ext(a,0,w-b->val),K(0,b->val)); } break;
   case OP_AND: if(a==b) return a; if(isK(b)){ if(!b->val) return b; if(b->val==m) return a; 
       // low mask
       if((b->val&(b->val+1))==0){ unsigned n=__builtin_popcountll(b->val); return zext(ext(a,0,n),w); }
       if(a->op==OP_ZEXT&&(b->val&mask(a->k[0]->w))==mask(a->k[0]->w)) return a; if(a->op==OP_ZEXT) return zext(bin(OP_AND,a->k[0],K(b->val,a->k[0]->w)),w); 
       if(a->op==OP_ITE&&isK(a->k[1])&&isK(a->k[2])) return ite(a->k[0],bin(op,a->k[1],b),bin(op,a->k[2],b)); }
       if(w==1&&notE(a)==b) return K(0,1); 
       if(w==1&&b->op==OP_AND&&(b->k[0]==a||b->k[1]==a)) return b; if(w==1&&a->op==OP_AND&&(a->k[0]==b||a->k[1]==b)) return a; break;
   case OP_OR: if(a==b) return a; if(isK(b)){ if(!b->val) return a; if(b->val==m) return b; } if(w==1&&notE(a)==b) return K(1,1);
       if(w>1&&a->op==OP_ZEXT&&b->op==OP_CONCAT&&isK(b->k[1])&&b->k[1]->val==0&&a->k[0]->w<=b->k[1]->w) return concat(b->k[0],zext(a->k[0],b->k[1]->w));
       if(w>1&&b->op==OP_ZEXT&&a->op==OP_CONCAT&&isK(a->k[1])&&a->k[1]->val==0&&b->k[0]->w<=a->k[1]->w) return concat(a->k[0],zext(b->k[0],a->k[1]->w)); break;
   case OP_XOR: if(a==b) return K(0,w); if(isK(b)){ if(!b->val) return a; if(w==1) return notE(a); if(a->op==OP_ITE&&isK(a->k[1])&&isK(a->k[2])) return ite(a->k[0],bin(op,a->k[1],b),bin(op,a->k[2],b)); } break;
   case OP_EQ: if(a==b) return K(1,1); if(w==1&&isK(b)) return b->val?a:notE(a);
       if(isK(b)){ if(a->op==OP_ZEXT){ Expr*i=a->k[0]; if(b->val>mask(i->w)) return K(0,1); return bin(OP_EQ,i,K(b->val,i->w)); }
         if(a->op==OP_SEXT){ Expr*i=a->k[0]; if(((u64)sx_(b->val&mask(i->w),i->w)&m)!=b->val) return K(0,1); return bin(OP_EQ,i,K(b->val,i->w)); }
         if(a->op==OP_ADD&&isK(a->k[1])) return bin(OP_EQ,a->k[0],K(b->val-a->k[1]->val,w)); if(a->op==OP_XOR&&isK(a->k[1])) return bin(OP_EQ,a->k[0],K(b->val^a->k[1]->val,w));
         if(a->op==OP_CONCAT) return bin(OP_AND,bin(OP_EQ,a->k[0],K(b->val>>a->k[1]->w,a->k[0]->w)),bin(OP_EQ,a->k[1],K(b->val,a->k[1]->w)));
         if(a->op==OP_ITE){ if(isK(a->k[1])) return a->k[1]->val==b->val?bin(OP_OR,a->k[0],bin(OP_EQ,a->k[2],b)):bin(OP_AND,notE(a->k[0]),bin(OP_EQ,a->k[2],b)); if(isK(a->k[2])) return a->k[2]->val==b->val?bin(OP_OR,notE(a->k[0]),bin(OP_EQ,a->k[1],b)):bin(OP_AND,a->k[0],bin(OP_EQ,a->k[1],b)); } }
       if(a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->k[0]->w==b->k[0]->w) return bin(OP_EQ,a->k[0],b->k[0]); 
       if(a->op==OP_SEXT&&b->op==OP_SEXT&&a->k[0]->w==b->k[0]->w) return bin(OP_EQ,a->k[0],b->k[0]); 
       if(a->op==OP_ADD&&b->op==OP_ADD&&isK(a->k[1])&&isK(b->k[1])) return bin(OP_EQ,a->k[0],bin(OP_ADD,b->k[0],K(b->k[1]->val-a->k[1]->val,w)));
       if(a->op==OP_ADD&&isK(a->k[1])&&a->k[0]==b) return K(0,1); if(b->op==OP_ADD&&isK(b->k[1])&&b->k[0]==a) return K(0,1); break;
   case OP_NE: return notE(bin(OP_EQ,a,b));
   case OP_ULT: if(a==b) return K(0,1); if(isK(b)&&b->val==0) return K(0,1); if(isK(a)&&a->val==m) return K(0,1); if(isK(b)&&b->val==1) return bin(OP_EQ,a,K(0,w));
       if(isK(b)&&a->op==OP_ZEXT){ Expr*i=a->k[0]; if(b->val>mask(i->w)) return K(1,1); return bin(OP_ULT,i,K(b->val,i->w)); }
       if(isK(a)&&b->op==OP_ZEXT){ Expr*i=b->k[0]; if(a->val>=mask(i->w)) return K(0,1); return bin(OP_ULT,K(a->val,i->w),i); }
       if(a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->k[0]->w==b->k[0]->w) return bin(OP_ULT,a->k[0],b->k[0]); break;
   case OP_ULE: if(a==b) return K(1,1); if(isK(a)&&a->val==0) return K(1,1); if(isK(b)&&b->val==m) return K(1,1); if(isK(b)&&b->val==0) return bin(OP_EQ,a,b);
       if(isK(b)&&a->op==OP_ZEXT){ Expr*i=a->k[0]; if(b->val>=mask(i->w)) return K(1,1); return bin(OP_ULE,i,K(b->val,i->w)); }
       if(isK(a)&&b->op==OP_ZEXT){ Expr*i=b->k[0]; if(a->val>mask(i->w)) return K(0,1); return bin(OP_ULE,K(a->val,i->w),i); }
       if(a->op==OP_ZEXT&&b->op==OP_ZEXT&&a->k[0]->w==b->k[0]->w) return bin(OP_ULE,a->k[0],b->k[0]); break;
   case OP_SLT: case OP_SLE: if(a==b) return K(op==OP_SLE,1);
       if(a->op==OP_ZEXT&&b->op==OP_ZEXT) return bin(op==OP_SLT?OP_ULT:OP_ULE,a,b);
       if(a->op==OP_ZEXT&&isK(b)){ if(sx_(b->val,w)<0) return K(0,1); return bin(op==OP_SLT?OP_ULT:OP_ULE,a,b); }
       if(b->op==OP_ZEXT&&isK(a)){ if(sx_(a->val,w)<0) return K(1,1); return bin(op==OP_SLT?OP_ULT:OP_ULE,a,b); }
       if(a->op==OP_SEXT&&b->op==OP_SEXT&&a->k[0]->w==b->k[0]->w) return bin(op,a->k[0],b->k[0]); break;
  }
  // distribute comparison/arith with constant over ite of constants
  if(isK(b)&&a->op==OP_ITE&&isK(a->k[1])&&isK(a->k[2])) return ite(a->k[0],K(fold(op,w,a->k[1]->val,b->val),rw),K(fold(op,w,a->k[2]->val,b->val),rw));
  if(isK(a)&&b->op==OP_ITE&&isK(b->k[1])&&isK(b->k[2])) return ite(b->k[0],K(fold(op,w,a->val,b->k[1]->val),rw),K(fold(op,w,a->val,b->k[2]->val),rw));
  if(isK(b)&&isCmp(op)&&a->op==OP_ITE&&(isK(a->k[1])||isK(a->k[2]))) return ite(a->k[0],bin(op,a->k[1],b),bin(op,a->k[2],b));
  return mk(op,rw,0,a,b); }

static u64 eval(Expr*e){
  if(e->op==OP_CONST) return e->val; if(e->op==OP_SYM) return model[e->val]&mask(e->w);
  if(e->epoch==epoch) return e->ev; u64 r;
  switch(e->op){ case OP_ZEXT: r=eval(e->k[0]); break; case OP_SEXT: r=(u64)sx_(eval(e->k[0]),e->k[0]->w)&mask(e->w); break; case OP_EXTRACT: r=(eval(e->k[0])>>e->val)&mask(e->w); break;
    case OP_CONCAT: r=(eval(e->k[0])<<e->k[1]->w)|eval(e->k[1]); break; case OP_ITE: r=eval(e->k[0])?eval(e->k[1]):eval(e->k[2]); break;
    default: { u64 a=eval(e->k[0]),b=eval(e->k[1]); r=fold(e->op,e->k[0]->w,a,b); } }
  e->epoch=epoch; e->ev=r; return r; }

// ---------------------------------------------------------------- Z3
static Z3_ast zBool(Expr*e); 
static Z3_ast zBV(Expr*e){
  if(e->zbv) return e->zbv; Z3_ast r; Z3_sort s;
  if(e->w==1&&e->op!=OP_CONST&&e->op!=OP_SYM&&e->op!=OP_EXTRACT){ Z3_sort s1=Z3_mk_bv_sort(Z,1); r=Z3_mk_ite(Z,zBool(e),Z3_mk_unsigned_int64(Z,1,s1),Z3_mk_unsigned_int64(Z,0,s1)); e->zbv=r; return r; }
  switch(e->op){
   case OP_CONST: s=Z3_mk_bv_sort(Z,e->w); r=Z3_mk_unsigned_int64(Z,e->val,s); break;
   case OP_SYM: { char b[32]; snprintf(b,32,"s%d",(int)e->val); r=Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),Z3_mk_bv_sort(Z,e->w)); break; }
   case OP_ZEXT: r=Z3_mk_zero_ext(Z,e->w-e->k[0]->w,zBV(e->k[0])); break;
   case OP_SEXT: r=Z3_mk_sign_ext(Z,e->w-e->k[0]->w,zBV(e->k[0])); break;
   case OP_EXTRACT: r=Z3_mk_extract(Z,e->val+e->w-1,e->val,zBV(e->k[0])); break;
   case OP_CONCAT: r=Z3_mk_concat(Z,zBV(e->k[0]),zBV(e->k[1])); break;
   case OP_ITE: r=Z3_mk_ite(Z,zBool(e->k[0]),zBV(e->k[1]),zBV(e->k[2])); break;
   default: { Z3_ast a=zBV(e->k[0]),b=zBV(e->k[1]); switch(e->op){
     case OP_ADD:r=Z3_mk_bvadd(Z,a,b);break;case OP_SUB:r=Z3_mk_bvsub(Z,a,b);break;case OP_MUL:r=Z3_mk_bvmul(Z,a,b);break;case OP_UDIV:r=Z3_mk_bvudiv(Z,a,b);break;case OP_SDIV:r=Z3_mk_bvsdiv(Z,a,b);break;case OP_UREM:r=Z3_mk_bvurem(Z,a,b);break;case OP_SREM:r=Z3_mk_bvsrem(Z,a,b);break;
     case OP_SHL:r=Z3_mk_bvshl(Z,a,b);break;case OP_LSHR:r=Z3_mk_bvlshr(Z,a,b);break;case OP_ASHR:r=Z3_mk_bvashr(Z,a,b);break;case OP_AND:r=Z3_mk_bvand(Z,a,b);break;case OP_OR:r=Z3_mk_bvor(Z,a,b);break;case OP_XOR:r=Z3_mk_bvxor(Z,a,b);break; default: abort(); } } }
  e->zbv=r; return r; }
static Z3_ast zBool(Expr*e){
  if(e->zb) return e->zb; Z3_ast r;
  if(isCmp(e->op)){ Z3_ast a,b; 
    if(e->k[0]->w==1&&(e->op==OP_EQ||e->op==OP_NE)){ a=zBool(e->k[0]);b=zBool(e->k[1]); r=Z3_mk_iff(Z,a,b); if(e->op==OP_NE) r=Z3_mk_not(Z,r); e->zb=r; return r; }
    a=zBV(e->k[0]);b=zBV(e->k[1]);
    switch(e->op){case OP_EQ:r=Z3_mk_eq(Z,a,b);break;case OP_NE:r=Z3_mk_not(Z,Z3_mk_eq(Z,a,b));break;case OP_ULT:r=Z3_mk_bvult(Z,a,b);break;case OP_ULE:r=Z3_mk_bvule(Z,a,b);break;case OP_SLT:r=Z3_mk_bvslt(Z,a,b);break;default:r=Z3_mk_bvsle(Z,a,b);break;} }
  else switch(e->op){ case OP_CONST: r=e->val?Z3_mk_true(Z):Z3_mk_false(Z); break;
    case OP_AND:{Z3_ast x[2]={zBool(e->k[0]),zBool(e->k[1])}; r=Z3_mk_and(Z,2,x);break;} case OP_OR:{Z3_ast x[2]={zBool(e->k[0]),zBool(e->k[1])}; r=Z3_mk_or(Z,2,x);break;} case OP_XOR: case OP_ADD: case OP_SUB: r=Z3_mk_xor(Z,zBool(e->k[0]),zBool(e->k[1])); break;
    case OP_ITE: r=Z3_mk_ite(Z,zBool(e->k[0]),zBool(e->k[1]),zBool(e->k[2])); break;
    case OP_MUL: {Z3_ast x[2]={zBool(e->k[0]),zBool(e->k[1])}; r=Z3_mk_and(Z,2,x);break;}
    default: r=Z3_mk_eq(Z,zBV(e),Z3_mk_unsigned_int64(Z,1,Z3_mk_bv_sort(Z,1))); }
  e->zb=r; return r; }

// Exact integer encoding (no wrap-around lost: wrapping operations become explicit case splits).  Used
// while every constraint of the path translates; otherwise the path switches to the bit-vector solver.
static unsigned __int128 hiB(Expr*e){ switch(e->op){ case OP_CONST:return e->val; case OP_ZEXT:return hiB(e->k[0]); case OP_ITE:{ auto a=hiB(e->k[1]),b=hiB(e->k[2]); return a>b?a:b; } case OP_ADD:{ auto s=hiB(e->k[0])+hiB(e->k[1]); return s<=mask(e->w)?s:mask(e->w); } default:return mask(e->w);} }
static Z3_sort ISort; 
static Z3_ast numI(unsigned __int128 v){ char b[48]; int i=47; b[i]=0; if(!v) b[--i]='0'; while(v){ b[--i]='0'+(int)(v%10); v/=10; } return Z3_mk_numeral(Z,b+i,ISort); }
static Z3_ast zIB(Expr*e);
static Z3_ast zI(Expr*e){
  if(e->iist) return e->zi; e->iist=1; Z3_ast r=nullptr,a,b; unsigned __int128 M=(unsigned __int128)1<<e->w;
  if(e->w==1&&e->op!=OP_CONST&&e->op!=OP_SYM){ a=zIB(e); if(a) r=Z3_mk_ite(Z,a,numI(1),numI(0)); e->zi=r; return r; }
  switch(e->op){
   case OP_CONST: r=numI(e->val); break;
   case OP_SYM: { char n[32]; snprintf(n,32,"i%d",(int)e->val); r=Z3_mk_const(Z,Z3_mk_string_symbol(Z,n),ISort); break; }
   case OP_ZEXT: r=zI(e->k[0]); break;
   case OP_SEXT: a=zI(e->k[0]); if(a) r=Z3_mk_ite(Z,Z3_mk_ge(Z,a,numI((unsigned __int128)1<<(e->k[0]->w-1))),({Z3_ast t[2]={a,numI(M-((unsigned __int128)1<<e->k[0]->w))}; Z3_mk_add(Z,2,t);}),a); break;
   case OP_EXTRACT: if(e->val==0&&hiB(e->k[0])<M) r=zI(e->k[0]); break;
   case OP_ITE: { Z3_ast c=zIB(e->k[0]); a=zI(e->k[1]); b=zI(e->k[2]); if(a&&b&&c) r=Z3_mk_ite(Z,c,a,b); break; }
   case OP_ADD: { a=zI(e->k[0]); b=zI(e->k[1]); if(!a||!b) break; Z3_ast t[2]={a,b}; r=Z3_mk_add(Z,2,t); if(hiB(e->k[0])+hiB(e->k[1])>=M){ 
        if(isK(e->k[1])&&e->k[1]->val>=(mask(e->w)>>1)+1){ Z3_ast k=numI(M-e->k[1]->val); Z3_ast t1[2]={a,k}; Z3_ast d=Z3_mk_sub(Z,2,t1); r=Z3_mk_ite(Z,Z3_mk_ge(Z,a,k),d,r); }
        else { Z3_ast t2[2]={r,numI(M)}; r=Z3_mk_ite(Z,Z3_mk_ge(Z,r,numI(M)),Z3_mk_sub(Z,2,t2),r); } } break; }
   case OP_SUB: { a=zI(e->k[0]); b=zI(e->k[1]); if(!a||!b) break; Z3_ast t[2]={a,b}; Z3_ast d=Z3_mk_sub(Z,2,t); Z3_ast t2[2]={d,numI(M)}; r=Z3_mk_ite(Z,Z3_mk_ge(Z,a,b),d,Z3_mk_add(Z,2,t2)); break; }
   case OP_MUL: if(isK(e->k[1])&&hiB(e->k[0])*e->k[1]->val<M&&e->k[1]->val<((u64)1<<62)){ a=zI(e->k[0]); if(a){ Z3_ast t[2]={a,numI(e->k[1]->val)}; r=Z3_mk_mul(Z,2,t);} } break;
   default: break; }
  e->zi=r; return r; }
static Z3_ast zIS(Expr*e){ Z3_ast a=zI(e); if(!a) return a; unsigned __int128 H=(unsigned __int128)1<<(e->w-1); if(isK(e)){ if(e->val>=H){ Z3_ast t[2]={numI(e->val),numI(H*2)}; return Z3_mk_sub(Z,2,t);} return a; } if(hiB(e)<H) return a; Z3_ast t[2]={a,numI(H*2)}; return Z3_mk_ite(Z,Z3_mk_ge(Z,a,numI(H)),Z3_mk_sub(Z,2,t),a); }
static Z3_ast zIB(Expr*e){
  if(e->ist) return e->zib; e->ist=1; Z3_ast r=nullptr,a,b;
  if(isCmp(e->op)){
    if(e->k[0]->w==1&&(e->op==OP_EQ||e->op==OP_NE)){ a=zIB(e->k[0]);b=zIB(e->k[1]); if(a&&b){ r=Z3_mk_iff(Z,a,b); if(e->op==OP_NE) r=Z3_mk_not(Z,r);} e->zib=r; return r; }
    if(e->op==OP_SLT||e->op==OP_SLE){ a=zIS(e->k[0]);b=zIS(e->k[1]); } else { a=zI(e->k[0]);b=zI(e->k[1]); }
    if(a&&b) switch(e->op){case OP_EQ:r=Z3_mk_eq(Z,a,b);break;case OP_NE:r=Z3_mk_not(Z,Z3_mk_eq(Z,a,b));break;case OP_ULT:case OP_SLT:r=Z3_mk_lt(Z,a,b);break;default:r=Z3_mk_le(Z,a,b);break;} }
  else switch(e->op){ case OP_CONST: r=e->val?Z3_mk_true(Z):Z3_mk_false(Z); break;
    case OP_AND: case OP_MUL: a=zIB(e->k[0]);b=zIB(e->k[1]); if(a&&b){Z3_ast x[2]={a,b}; r=Z3_mk_and(Z,2,x);} break; case OP_OR: a=zIB(e->k[0]);b=zIB(e->k[1]); if(a&&b){Z3_ast x[2]={a,b}; r=Z3_mk_or(Z,2,x);} break;
    case OP_XOR: case OP_ADD: case OP_SUB: a=zIB(e->k[0]);b=zIB(e->k[1]); if(a&&b) r=Z3_mk_xor(Z,a,b); break;
    case OP_ITE: { Z3_ast c=zIB(e->k[0]); a=zIB(e->k[1]);b=zIB(e->k[2]); if(a&&b&&c) r=Z3_mk_ite(Z,c,a,b); break; }
    case OP_SYM: a=zI(e); if(a) r=Z3_mk_eq(Z,a,numI(1)); break;
    default: break; }
  e->zib=r; return r; }
static bool useInt=true; static Z3_solver isolver; static std::vector<Expr*>*pcs; static int intSyms=0;
static void intBounds(){ for(;intSyms<nsyms;intSyms++){ Z3_ast v=zI(syms[intSyms].e); Z3_solver_assert(Z,isolver,Z3_mk_ge(Z,v,numI(0))); Z3_solver_assert(Z,isolver,Z3_mk_le(Z,v,numI(mask(syms[intSyms].e->w)))); } }
static void whyBV(Expr*e,int d){ if(d>12) return; bool ii=e->iist||e->ist; fprintf(stderr,"%*s op%d w%d val%llu zi%d zib%d\n",d*2,"",e->op,e->w,(unsigned long long)e->val,!!e->zi,!!e->zib); if(ii) for(int i=0;i<3;i++) if(e->k[i]&&!e->k[i]->zi&&!e->k[i]->zib) whyBV(e->k[i],d+1); }
static void switchToBV(Expr*c){ if(getenv("SYMX_WHYBV")) whyBV(c,0); useInt=false; for(Expr*c:*pcs) Z3_solver_assert(Z,solver,zBool(c)); __sync_fetch_and_add(&S->bvswitch,1); }

static void writeModel(char*buf,size_t n){ size_t p=0; buf[0]=0; for(int i=0;i<nsyms&&p+80<n;i++) p+=snprintf(buf+p,n-p,"%s %llu\n",syms[i].name,(unsigned long long)(model[i]&mask(syms[i].e->w))); }
static void record(int kind,const char*msg){
  slock(); int dup=-1; for(int i=0;i<S->nviol;i++) if(S->viol[i].kind==kind&&!strncmp(S->viol[i].msg,msg,299)) dup=i;
  if(dup<0&&S->nviol<24){ Viol*v=&S->viol[S->nviol]; v->kind=kind; snprintf(v->msg,300,"%s",msg); writeModel(v->model,sizeof v->model); S->nviol++; }
  if(kind!=5&&!opt_all) S->stop=1; sunlock(); }

static void finishKids(){ for(pid_t p:*asyncKids){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(!(WIFEXITED(st))){ __sync_fetch_and_add(&S->killed,1); } } asyncKids->clear(); }
static bool holdToken=true;
static void releaseToken(){ if(holdToken){ holdToken=false; sem_post(&S->tokens);} }
[[noreturn]] static void pathExit(int code){ active=false; bool had=holdToken; (void)had; releaseToken(); finishKids(); _exit(code); }
static void die(const char*fmt,...){ char b[300]; va_list a; va_start(a,fmt); vsnprintf(b,300,fmt,a); va_end(a); record(4,b); pathExit(3); }
static void checkStop(){ if(S->stop) pathExit(0); }

// is pc && c satisfiable?  On sat, the model of the last query is left in m2.
static u64 m2[4096];
static int query(Expr*c,bool wantModel){
  if(isK(c)&&!c->val) return 0;
  u64 t0=now_us(); __sync_fetch_and_add(&S->queries,1);
  Z3_ast fi=nullptr; if(useInt){ intBounds(); fi=zIB(c); if(!fi) switchToBV(c); }
  Z3_solver sv=useInt?isolver:solver;
  Z3_solver_push(Z,sv); Z3_solver_assert(Z,sv,useInt?fi:zBool(c));
  Z3_lbool r=Z3_solver_check(Z,sv);
  if(r==Z3_L_TRUE&&wantModel){ Z3_model mo=Z3_solver_get_model(Z,sv); Z3_model_inc_ref(Z,mo);
    for(int i=0;i<nsyms;i++){ Z3_ast v; u64 x=0; if(Z3_model_eval(Z,mo,useInt?zI(syms[i].e):zBV(syms[i].e),true,&v)) Z3_get_numeral_uint64(Z,v,&x); m2[i]=x; } Z3_model_dec_ref(Z,mo); }
  Z3_solver_pop(Z,sv,1);
  __sync_fetch_and_add(&S->solver_us,now_us()-t0);
  if(r==Z3_L_TRUE){ __sync_fetch_and_add(&S->sat,1); return 1; } if(r==Z3_L_FALSE){ __sync_fetch_and_add(&S->unsat,1); return 0; }
  __sync_fetch_and_add(&S->unknown,1); die("solver returned unknown"); return -1; }
static void setModel(){ memcpy(model,m2,nsyms*sizeof(u64)); epoch++; }
static void addPC(Expr*c){ if(isK(c)) return; if(useInt){ pcs->push_back(c); intBounds(); Z3_ast f=zIB(c); if(f){ Z3_solver_assert(Z,isolver,f); return; } switchToBV(c); return; } Z3_solver_assert(Z,solver,zBool(c)); }

// fork: returns true in the child.
static bool forkPath(){
  static int why=-1; if(why<0) why=!!getenv("SYMX_WHYFORK"); if(why){ void*bt[8]; int n=backtrace(bt,8); char b[300]; int p=0; for(int i=1;i<n;i++) p+=snprintf(b+p,300-p,"%p ",bt[i]); b[p++]='\n'; if(write(2,b,p)){} }
  checkStop(); __sync_fetch_and_add(&S->forks,1); depth++; if(depth>S->maxdepth) S->maxdepth=depth;
  bool par = sem_trywait(&S->tokens)==0;
  fflush(stdout); fflush(stderr);
  pid_t p; int tries=0; while((p=fork())<0){ if(++tries>200) die("fork failed"); usleep(20000); }
  if(p==0){ asyncKids->clear(); holdToken=par; if(!par) holdToken=false; 
    // a child run synchronously borrows the parent's token
    return true; }
  if(par) asyncKids->push_back(p);
  else { int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(!WIFEXITED(st)) { __sync_fetch_and_add(&S->killed,1); } checkStop(); }
  if(asyncKids->size()>64){ // reap finished ones
    for(size_t i=0;i<asyncKids->size();){ int st; pid_t q=waitpid((*asyncKids)[i],&st,WNOHANG); if(q>0){ if(!WIFEXITED(st)) __sync_fetch_and_add(&S->killed,1); (*asyncKids)[i]=asyncKids->back(); asyncKids->pop_back(); } else i++; } }
  return false; }

// make later-created symbols keep their current value across model switches
static void know(Expr*c,bool v){ c->flags=(c->flags&~6)|2|(v?4:0); Expr*n=notE(c); if(!isK(n)) n->flags=(n->flags&~6)|2|(v?0:4); }
static bool decide(Expr*c){
  if(isK(c)) return c->val;
  if(c->flags&2) return (c->flags&4)!=0; // already decided on this path
  __sync_fetch_and_add(&S->branches,1); checkStop();
  bool v=eval(c); Expr*other=v?notE(c):c; Expr*mine=v?c:notE(c);
  int r=query(other,true);
  if(r==0){ know(c,v); return v; }
  if(forkPath()){ setModel(); addPC(other); know(c,!v); return !v; }
  addPC(mine); know(c,v); return v; }
static u64 concretize(Expr*e){
  if(isK(e)) return e->val; __sync_fetch_and_add(&S->conc,1);
  long n=0;
  for(;;){ u64 v=eval(e); Expr*eq=bin(OP_EQ,e,K(v,e->w)); if(isK(eq)) return v; int r=query(notE(eq),true); if(r==0) return v; 
    if(++n>opt_maxvals) die("too many values while concretising a symbolic address, size or opaque operand");
    if(forkPath()){ setModel(); addPC(notE(eq)); continue; } addPC(eq); return v; } }

// ---------------------------------------------------------------- shadow memory
struct Page { u64 no; Expr*b[4096]; Page*next; };
static Page**pages; static unsigned char*bloom; static const unsigned NPB=1<<12, NBL=1<<20;
static inline Page*page(u64 no){ for(Page*p=pages[(no*0x9E3779B97F4A7C15ull)>>52];p;p=p->next) if(p->no==no) return p; return nullptr; }
static Page*pageNew(u64 no){ Page*p=page(no); if(p) return p; p=(Page*)rawalloc(sizeof(Page)); memset(p,0,sizeof*p); p->no=no; Page**s=&pages[(no*0x9E3779B97F4A7C15ull)>>52]; p->next=*s; *s=p; bloom[no&(NBL-1)]=1; return p; }
static inline Expr*rdb(u64 a){ if(!bloom[(a>>12)&(NBL-1)]) return nullptr; Page*p=page(a>>12); return p?p->b[a&4095]:nullptr; }
static inline void wrb(u64 a,Expr*e){ if(!e){ if(!bloom[(a>>12)&(NBL-1)]) return; Page*p=page(a>>12); if(p) p->b[a&4095]=nullptr; return; } pageNew(a>>12)->b[a&4095]=e; }
static void clearRange(u64 a,u64 n){ while(n){ u64 c=4096-(a&4095); if(c>n) c=n; if(bloom[(a>>12)&(NBL-1)]){ Page*p=page(a>>12); if(p) memset(&p->b[a&4095],0,c*sizeof(Expr*)); } a+=c; n-=c; } }

extern "C" {
Expr*__sx_load(void*pa,u64 sz,unsigned bits){
  u64 a=(u64)pa; if(__builtin_expect(!bloom[(a>>12)&(NBL-1)]&&!bloom[((a+sz-1)>>12)&(NBL-1)],1)) return nullptr;
  bool any=false; Expr*t[8]; for(u64 i=0;i<sz;i++){ t[i]=rdb(a+i); if(t[i]) any=true; } if(!any) return nullptr;
  // maximal runs of consecutive bytes of one stored value (a shadow entry is the value tagged with the byte index)
  Expr*r=nullptr; for(u64 i=0;i<sz;){ Expr*x; u64 j=i+1; if(!t[i]) x=K(*(volatile unsigned char*)(a+i),8); else { u64 b=(u64)t[i]&~7ull,ix=(u64)t[i]&7; while(j<sz&&t[j]&&((u64)t[j]&~7ull)==b&&((u64)t[j]&7)==ix+(j-i)) j++; x=ext((Expr*)b,ix*8,(j-i)*8); } r=r?concat(x,r):x; i=j; }
  if(bits<r->w) r=ext(r,0,bits); if(isK(r)){ /* keep as constant expression: the concrete memory may be stale */ } return r; }
void __sx_store(void*pa,u64 sz,Expr*e,unsigned bits){
  u64 a=(u64)pa; if(!e){ if(__builtin_expect(!bloom[(a>>12)&(NBL-1)]&&!bloom[((a+sz-1)>>12)&(NBL-1)],1)) return; for(u64 i=0;i<sz;i++) wrb(a+i,nullptr); return; }
  if(e->w<sz*8) e=zext(e,sz*8); for(u64 i=0;i<sz;i++) wrb(a+i,(Expr*)((u64)e|i)); }
void __sx_clear(void*pa,u64 n){ clearRange((u64)pa,n); }
void __sx_chk(void*pa,u64 n){ u64 a=(u64)pa; for(u64 i=0;i<n;i++) if(rdb(a+i)) die("unsupported: symbolic bytes read through a vector/float/aggregate access"); }
Expr*__sx_bin(unsigned op,unsigned w,Expr*ea,u64 a,Expr*eb,u64 b){ if(__builtin_expect(!ea&&!eb,1)) return nullptr; if(!ea) ea=K(a,w); if(!eb) eb=K(b,w);
  if(op>=OP_UDIV&&op<=OP_SREM&&!isK(eb)){ Expr*z=bin(OP_EQ,eb,K(0,w)); if(decide(z)){ record(2,"division by zero"); pathExit(1); } }
  return bin(op,ea,eb); }
Expr*__sx_cast(unsigned kind,unsigned from,unsigned to,Expr*e){ if(!e) return nullptr; return kind==0?zext(e,to):kind==1?sext(e,to):ext(e,0,to); }
Expr*__sx_sel(unsigned w,Expr*c,Expr*con,Expr*ea,u64 a,Expr*eb,u64 b){ if(!c) return con; return ite(c,ea?ea:K(a,w),eb?eb:K(b,w)); }
Expr*__sx_gep(Expr*ea,u64 acc,Expr*ei,u64 idx,unsigned iw,u64 scale){ if(!ea&&!ei) return nullptr; if(!ea) ea=K(acc,64); Expr*i=ei?(iw<64?sext(ei,64):ei):K(idx,64); return bin(OP_ADD,ea,bin(OP_MUL,i,K(scale,64))); }
bool __sx_cond(Expr*e,bool c){ if(!e) return c; return decide(e); }
void*__sx_addr(Expr*e,void*p){ if(!e) return p; return (void*)concretize(e); }
u64 __sx_conc(Expr*e,u64 v,unsigned w){ (void)w; if(!e) return v; return concretize(e); }
// operands of uninstrumented library functions
static const char*fmtNames[]={"_ZNSo","_ZNSt13basic_ostream","_ZNSt15basic_","_ZStls","swprintf","_ZNSt9basic_ios","_ZNKSt5ctype","_ZNKSt7num_put","_ZNSt7num_put","_ZNKSt12__ctype_abstract","_ZNSt8ios_base","snprintf","printf","puts","putchar","fprintf","_ZNKSt5ctypeIwE","_ZNSt15basic_streambuf","wprintf",nullptr};
static u64 extPolicy(Expr*e,u64 v,const char*name){
  bool fmt=false; for(const char**p=fmtNames;*p;p++) if(!strncmp(name,*p,strlen(*p))) fmt=true;
  if(S->next<60){ slock(); int f=0; for(int i=0;i<S->next;i++) if(!strncmp(S->extnames[i],name,119)) f=1; if(!f&&S->next<60) snprintf(S->extnames[S->next++],120,"%s",name); sunlock(); }
  __sync_fetch_and_add(&S->extconc,1);
  if(fmt) return eval(e);  // formatting only: a representative value (message text is never part of a property)
  return concretize(e); }
u64 __sx_extarg(Expr*e,u64 v,unsigned w,const char*name){ if(!e) return v; if(isK(e)) return e->val; return extPolicy(e,v,name); }
static std::unordered_set<void*>*inst;
bool __sx_isinst(void*f){ return inst&&inst->count(f); }
u64 __sx_indarg(Expr*e,u64 v,unsigned w,void*f){ if(!e) return v; if(__sx_isinst(f)) return v; if(isK(e)) return e->val; Dl_info di; const char*n="?"; if(dladdr(f,&di)&&di.dli_sname) n=di.dli_sname; return extPolicy(e,v,n); }
void __sx_memcpy(void*d,void*s,u64 n){ u64 a=(u64)d,b=(u64)s; if(!n||a==b) return;
  bool any=false; for(u64 p=b>>12;p<=(b+n-1)>>12&&!any;p++) any|=bloom[p&(NBL-1)]; for(u64 p=a>>12;p<=(a+n-1)>>12&&!any;p++) any|=bloom[p&(NBL-1)]; if(!any) return;
  if(a<b) for(u64 i=0;i<n;i++) wrb(a+i,rdb(b+i)); else for(u64 i=n;i>0;i--) wrb(a+i-1,rdb(b+i-1)); }
void __sx_memset(void*d,Expr*e,u64 v,u64 n){ u64 a=(u64)d; if(!e){ clearRange(a,n); return; } for(u64 i=0;i<n;i++) wrb(a+i,e); }
void __sx_enter(void*f,unsigned n){ if(__builtin_expect(__sx_callee!=f,0)) memset(__sx_args,0,n*sizeof(Expr*)); __sx_callee=nullptr; }
static u64 nfn=0; static std::vector<const char*>*fnnames;
u64 __sx_register_all(void**p,const char**names,u64 n){ if(!inst){ inst=new std::unordered_set<void*>; fnnames=new std::vector<const char*>; static unsigned char dummy[1<<17]; if(!__sx_hit) __sx_hit=dummy; } u64 base=nfn; for(u64 i=0;i<n;i++){ inst->insert(p[i]); fnnames->push_back(names[i]); } nfn+=n; if(nfn>(1<<17)) abort(); return base; }
void __sx_budget_hit(){ if(!active){ __sx_budget=(int64_t)1<<62; return; } char b[300]; snprintf(b,300,"step budget exhausted in %s",stepsWhat); record(stepsIsProperty?3:4,b); pathExit(1); }

// ---------------------------------------------------------------- harness API
u64 sx_u(const char*name,unsigned bits){ if(nsyms>=4096) abort(); Expr*e=mk(OP_SYM,bits,nsyms); syms[nsyms]={e,strdup(name)}; model[nsyms]=0; nsyms++; __sx_ret[0]=zext(e,64); return 0; }
u64 sx_range(const char*name,u64 lo,u64 hi){ if(lo==hi){ __sx_ret[0]=nullptr; return lo; } unsigned b=1; while(b<64&&(hi>>b)) b++; Expr*e=mk(OP_SYM,b,nsyms); syms[nsyms]={e,strdup(name)}; model[nsyms]=lo; nsyms++;
  Expr*c=bin(OP_AND,bin(OP_ULE,K(lo,b),e),bin(OP_ULE,e,K(hi,b))); addPC(c); __sx_ret[0]=zext(e,64); return lo; }
u64 sx_choose(const char*name,u64 n){ if(n<=1){ __sx_ret[0]=nullptr; return 0; } sx_range(name,0,n-1); Expr*e=__sx_ret[0]; u64 v=concretize(e); __sx_ret[0]=nullptr; return v; }
u64 sx_concretize(u64 v){ Expr*e=__sx_args[0]; __sx_ret[0]=nullptr; if(!e) return v; return concretize(e); }
void sx_assume(bool c){ Expr*e=__sx_args[0]; if(!e){ if(!c){ __sync_fetch_and_add(&S->infeasible,1); pathExit(0);} return; } if(isK(e)){ if(!e->val){ __sync_fetch_and_add(&S->infeasible,1); pathExit(0);} return; }
  if(!eval(e)){ if(!query(e,true)){ __sync_fetch_and_add(&S->infeasible,1); pathExit(0);} setModel(); } addPC(e); }
void sx_assert_kf(bool c,bool kf,const char*id,const char*msg){
  Expr*e=__sx_args[0],*k=__sx_args[1]; if(!e) e=K(c,1); if(!k) k=K(kf,1); __sync_fetch_and_add(&S->asserts,1);
  Expr*bad=notE(e); if(isK(bad)&&!bad->val) return; checkStop();
  __sync_fetch_and_add(&S->assertq,1);
  Expr*b1=bin(OP_AND,bad,notE(k));
  if(query(b1,true)){ setModel(); record(1,msg); pathExit(1); }
  Expr*b2=bin(OP_AND,bad,k);
  if(query(b2,true)){ u64 sv[4096]; memcpy(sv,model,nsyms*sizeof(u64)); setModel(); char b[300]; snprintf(b,300,"%s|%s",id,msg); record(5,b); memcpy(model,sv,nsyms*sizeof(u64)); epoch++; }
  // continue on the part where the assertion holds
  if(!isK(e)){ if(!eval(e)){ if(!query(e,true)) pathExit(0); setModel(); } addPC(e); } else pathExit(0); }
void sx_assert(bool c,const char*msg){ Expr*e=__sx_args[0]; if(!e&&c){ __sync_fetch_and_add(&S->asserts,1); return; } __sync_fetch_and_add(&S->asserts,1); if(!e) e=K(c,1);
  Expr*bad=notE(e); if(isK(bad)&&!bad->val) return; checkStop(); __sync_fetch_and_add(&S->assertq,1); if(query(bad,true)){ setModel(); record(1,msg); pathExit(1); } }
void sx_fail(const char*msg){ __sync_fetch_and_add(&S->asserts,1); record(1,msg); pathExit(1); }
static Reach*reachSlot(const char*l){ for(int i=0;i<S->nreach;i++) if(!strcmp(S->reach[i].label,l)) return &S->reach[i]; slock(); for(int i=0;i<S->nreach;i++) if(!strcmp(S->reach[i].label,l)){ sunlock(); return &S->reach[i]; } if(S->nreach>=200){ sunlock(); abort(); } Reach*r=&S->reach[S->nreach]; snprintf(r->label,80,"%s",l); S->nreach++; sunlock(); return r; }
void sx_reach(const char*l){ __sync_fetch_and_add(&reachSlot(l)->n,1); }
void sx_expect_reach(const char*l){ reachSlot(l)->expected=1; }
void sx_observe(const char*name,u64 v){ Expr*e=__sx_args[1]; if(obsTrace->size()>7000) return; 
  // evaluated lazily under the final model of the path: keep the expression
  struct O{const char*n;Expr*e;u64 v;}; (void)sizeof(O); char b[64]; obsTrace->append(name); snprintf(b,64," %p %llu\n",(void*)e,(unsigned long long)v); obsTrace->append(b); }
void sx_steps(u64 n,const char*what){ __sx_budget=n; stepsWhat=strdup(what); stepsIsProperty=true; }
bool sx_feasible(bool c){ Expr*e=__sx_args[0]; __sx_ret[0]=nullptr; if(!e) return c; if(isK(e)) return e->val; if(eval(e)) return true; return query(e,false); }
bool sx_symbolic(void){ return true; }
int sx_tier(void){ return opt_tier; } int sx_case(void){ return opt_case; } int sx_param(const char*n){ char b[64]; snprintf(b,sizeof b,"SX_P_%s",n); const char*v=getenv(b); if(!v){ fprintf(stderr,"missing parameter %s\n",n); _exit(97); } return atoi(v); }
u64 sx_ite(bool c,u64 a,u64 b){ Expr*ec=__sx_args[0],*ea=__sx_args[1],*eb=__sx_args[2]; __sx_ret[0]=nullptr; if(!ec){ __sx_ret[0]=c?ea:eb; return c?a:b; } __sx_ret[0]=ite(ec,ea?ea:K(a,64),eb?eb:K(b,64)); return 0; }
}
static void endPath(){
  long n=__sync_fetch_and_add(&S->paths,1);
  // sample: first 6 paths, then a sparse hash-selected set
  bool take = n<6 || (n%7==0&&n<200) || (n*2654435761u>>7)%997==0;
  if(take){ long i=__sync_fetch_and_add(&S->nsample,1); if(i<48){ Sample*s=&S->sample[i]; writeModel(s->model,sizeof s->model); size_t p=0; 
      const char*t=obsTrace->c_str(); while(*t&&p+200<sizeof s->obs){ char nm[160]; void*ep; unsigned long long v; int used; if(sscanf(t,"%150s %p %llu\n%n",nm,&ep,&v,&used)<2){ char raw[160]; if(sscanf(t,"%150s (nil) %llu\n%n",raw,&v,&used)==2){ p+=snprintf(s->obs+p,sizeof s->obs-p,"%s %llu\n",raw,v); t+=used; continue; } break; } 
        u64 x=ep?eval((Expr*)ep):v; p+=snprintf(s->obs+p,sizeof s->obs-p,"%s %llu\n",nm,(unsigned long long)x); t+=used; } s->used=1; } }
}
static void onDeath(){ if(!active) return; active=false; record(2,"memory error or crash detected by the sanitizer"); releaseToken(); }
static void onSig(int sig){ if(active){ active=false; char b[80]; snprintf(b,80,"killed by signal %d",sig); record(2,b); releaseToken(); finishKids(); } _exit(1); }
static void freeHook(const volatile void*p){ if(!p||!__sanitizer_get_allocated_size) return; clearRange((u64)p,__sanitizer_get_allocated_size(p)); }
static void nullMalloc(const volatile void*,size_t){}
static void jstr(FILE*f,const char*s){ fputc('"',f); for(;*s;s++){ unsigned char c=*s; if(c=='"'||c=='\\'){ fputc('\\',f); fputc(c,f);} else if(c=='\n') fputs("\\n",f); else if(c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f);} fputc('"',f); }
#include <exception>
#include <cxxabi.h>
int main(int argc,char**argv){
  const char*out="/dev/stdout"; long tmo=600;
  for(int i=1;i<argc;i++){ if(!strcmp(argv[i],"--all")) opt_all=1; else if(!strcmp(argv[i],"--tier")&&i+1<argc) opt_tier=!strcmp(argv[++i],"thorough"); else if(!strcmp(argv[i],"--case")) opt_case=atoi(argv[++i]); else if(!strcmp(argv[i],"--jobs")) opt_jobs=atoi(argv[++i]); else if(!strcmp(argv[i],"--out")) out=argv[++i]; else if(!strcmp(argv[i],"--timeout")) tmo=atol(argv[++i]); else if(!strcmp(argv[i],"--maxvals")) opt_maxvals=atol(argv[++i]); }
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  sem_init(&S->tokens,1,opt_jobs-1); sem_init(&S->lock,1,1);
  table=(Expr**)mmap(0,NB*sizeof(Expr*),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  pages=(Page**)mmap(0,NPB*sizeof(Page*),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  u64 t0=now_us();
  pid_t root=fork();
  if(root==0){
    setpgid(0,0);
    __sx_hit=S->hit;
    obsTrace=new std::string; asyncKids=new std::vector<pid_t>;
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
    if(__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(nullMalloc,freeHook);
    stack_t ss; ss.ss_sp=mmap(0,1<<16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); ss.ss_size=1<<16; ss.ss_flags=0;
    sigaltstack(&ss,0);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onSig; sa.sa_flags=SA_ONSTACK; sigaction(SIGABRT,&sa,0); sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGILL,&sa,0); sigaction(SIGTRAP,&sa,0);
    Z3_config c=Z3_mk_config(); Z=Z3_mk_context(c); solver=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,solver);
    isolver=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,isolver); { Z3_params pr=Z3_mk_params(Z); Z3_params_inc_ref(Z,pr); Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"arith.propagation_mode"),getenv("PM")?atoi(getenv("PM")):0); if(getenv("AS")) Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"arith.solver"),atoi(getenv("AS"))); Z3_solver_set_params(Z,isolver,pr); Z3_params_dec_ref(Z,pr); } ISort=Z3_mk_int_sort(Z); pcs=new std::vector<Expr*>; if(getenv("SYMX_BV")) useInt=false;
    Z3_set_error_handler(Z,[](Z3_context,Z3_error_code e){ char b[80]; snprintf(b,80,"z3 error %d",(int)e); die("%s",b); });
    active=true; __sx_budget=2000000000LL; 
    bool exc=false; char en[200]="";
    try { sx_main(); } catch(...) { exc=true; std::type_info*t=abi::__cxa_current_exception_type(); snprintf(en,200,"uncaught exception escaped: %s",t?t->name():"?"); }
    if(exc){ if(!strcmp(en,"")) {} record(2,en); pathExit(1); }
    endPath(); pathExit(0);
  }
  int timedout=0; { u64 dl=t0+tmo*1000000ull; int st; for(;;){ pid_t q=waitpid(root,&st,WNOHANG); if(q==root){ if(!WIFEXITED(st)) S->killed++; break; } if(now_us()>dl){ timedout=1; S->stop=1; usleep(1500000); kill(-root,SIGKILL); waitpid(root,&st,0); break; } usleep(2000); } }
  FILE*f=fopen(out,"w");
  fprintf(f,"{\"paths\":%ld,\"forks\":%ld,\"branches\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"asserts\":%ld,\"assert_queries\":%ld,\"solver_s\":%.3f,\"concretisations\":%ld,\"ext_symbolic_args\":%ld,\"infeasible\":%ld,\"maxdepth\":%ld,\"killed\":%ld,\"timeout\":%d,\"bvswitch\":%ld,\"wall_s\":%.3f,\n",S->paths,S->forks,S->branches,S->queries,S->sat,S->unsat,S->unknown,S->asserts,S->assertq,S->solver_us/1e6,S->conc,S->extconc,S->infeasible,S->maxdepth,S->killed,timedout,S->bvswitch,(now_us()-t0)/1e6);
  fprintf(f,"\"violations\":["); for(int i=0;i<S->nviol;i++){ fprintf(f,"%s{\"kind\":%d,\"msg\":",i?",":"",S->viol[i].kind); jstr(f,S->viol[i].msg); fprintf(f,",\"model\":"); jstr(f,S->viol[i].model); fprintf(f,"}"); } fprintf(f,"],\n");
  fprintf(f,"\"reach\":{"); for(int i=0;i<S->nreach;i++){ fprintf(f,"%s",i?",":""); jstr(f,S->reach[i].label); fprintf(f,":[%ld,%d]",S->reach[i].n,S->reach[i].expected); } fprintf(f,"},\n");
  fprintf(f,"\"samples\":["); int fs=0; for(int i=0;i<48;i++) if(S->sample[i].used){ fprintf(f,"%s{\"model\":",fs++?",":""); jstr(f,S->sample[i].model); fprintf(f,",\"obs\":"); jstr(f,S->sample[i].obs); fprintf(f,"}"); } fprintf(f,"],\n");
  fprintf(f,"\"externals\":["); for(int i=0;i<S->next;i++){ fprintf(f,"%s",i?",":""); jstr(f,S->extnames[i]); } fprintf(f,"],\n\"functions\":["); int fi=0; for(u64 i=0;i<nfn;i++) if(S->hit[i]){ fprintf(f,"%s",fi++?",":""); jstr(f,(*fnnames)[i]); } fprintf(f,"]}\n"); fclose(f);
  return 0; }
// storage that instrumented constructors may touch before main
__attribute__((constructor(101))) static void early(){ bloom=(unsigned char*)mmap(0,NBL,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); static unsigned char dummy[1<<17]; __sx_hit=dummy; }
