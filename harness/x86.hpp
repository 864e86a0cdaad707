// Interpreter for the recorded x86-64 instructions; registers and memory may hold symbolic values.
#pragma once
#include "common.hpp"
#include "asmjit/asmjit.h"
namespace x86i {
using namespace asmjit;
static const uint64_t CODE=0x700000000000ull; // return addresses are CODE + index; EXIT ends the run
static const uint64_t EXIT=0x6fffffffffffull, POISON=0x0123456789ABCDEFull;
static std::vector<CodeHolder*> codes; static const uint64_t CSTEP=1ull<<24;
struct X{ uint8_t b[16]; };
static uint64_t pagelen=0, pageimm=0; // when set, the immediate `pageimm` (the size of an output page) stands for pagelen
struct Cpu{ uint64_t r[16]; X x[16]; bool cf,zf,sf,of; };
static inline uint64_t ld(const void*p,int n){ const uint8_t*c=(const uint8_t*)p; switch(n){ case 1: return *c; case 2: { uint16_t v; __builtin_memcpy(&v,c,2); return v; } case 4: { uint32_t v; __builtin_memcpy(&v,c,4); return v; } default: { uint64_t v; __builtin_memcpy(&v,c,8); return v; } } }
static inline void st(void*p,int n,uint64_t v){ switch(n){ case 1: *(uint8_t*)p=(uint8_t)v; break; case 2: { uint16_t w=(uint16_t)v; __builtin_memcpy(p,&w,2); } break; case 4: { uint32_t w=(uint32_t)v; __builtin_memcpy(p,&w,4); } break; default: __builtin_memcpy(p,&v,8); } }
// SSE4.2 PCMPISTRI, Intel SDM volume 2B; the index is returned as a value, not as one path per index
static uint64_t pcmpistri(const X&s1,const X&s2,int imm,Cpu&c){ int fmt=imm&3,agg=(imm>>2)&3,pol=(imm>>4)&3; int n=(fmt&1)?8:16; bool sg=fmt>>1; int64_t a[16],b[16]; bool va[16],vb[16]; bool ea=false,eb=false;
  for(int i=0;i<n;i++){ uint64_t u,w; if(n==16){ u=s1.b[i]; w=s2.b[i]; } else { u=s1.b[2*i]|((uint64_t)s1.b[2*i+1]<<8); w=s2.b[2*i]|((uint64_t)s2.b[2*i+1]<<8); } ea=bor(ea,u==0); eb=bor(eb,w==0); va[i]=!ea; vb[i]=!eb; if(sg){ a[i]=n==16?(int64_t)(int8_t)u:(int64_t)(int16_t)u; b[i]=n==16?(int64_t)(int8_t)w:(int64_t)(int16_t)w; } else { a[i]=(int64_t)u; b[i]=(int64_t)w; } }
  bool r1[16];
  if(agg==0) for(int j=0;j<n;j++){ bool m=false; for(int i=0;i<n;i++) m=bor(m,band(va[i],a[i]==b[j])); r1[j]=band(m,vb[j]); }
  else if(agg==1) for(int j=0;j<n;j++){ bool m=false; for(int i=0;i+1<n;i+=2) m=bor(m,band(band(va[i],va[i+1]),band(a[i]<=b[j],b[j]<=a[i+1]))); r1[j]=band(m,vb[j]); }
  else if(agg==2) for(int j=0;j<n;j++) r1[j]=bor(band(band(va[j],vb[j]),a[j]==b[j]),band(!va[j],!vb[j]));
  else for(int j=0;j<n;j++){ bool m=true; for(int i=0;i+j<n;i++) m=band(m,bor(!va[i],band(vb[i+j],a[i]==b[i+j]))); r1[j]=m; }
  bool r2[16]; for(int j=0;j<n;j++) r2[j]=pol==1?!r1[j]:pol==3?(bool)((unsigned)vb[j]^(unsigned)r1[j]):r1[j];
  bool any=false; uint64_t idx=(uint64_t)n; for(int k=0;k<n;k++){ int j=(imm&64)?k:n-1-k; idx=sx_ite(r2[j],(uint64_t)j,idx); any=bor(any,r2[j]); }
  c.cf=any; c.zf=eb; c.sf=ea; c.of=r2[0]; return idx; }
struct Machine{ CodeHolder*h; uint64_t k; Cpu c; std::vector<uint64_t> stack; uint64_t maxdepth; const char*err;
  static const int STK=4096;
  Machine(CodeHolder*hh,uint64_t kk):h(hh),k(kk),stack(STK,POISON),maxdepth(0),err(nullptr){ for(int i=0;i<16;i++){ c.r[i]=POISON+i*0x1111; for(int j=0;j<16;j++) c.x[i].b[j]=0xA5; } c.cf=c.zf=c.sf=c.of=false; }
  uint8_t*addr(const X86Mem&m){ if(m.kind==1){ const unsigned char*d=h->labdata[m.id]; return const_cast<uint8_t*>(d)+m.off; } return (uint8_t*)(uintptr_t)(c.r[m.id]+(uint64_t)m.off); }
  static uint64_t mask(int bits){ return bits>=64?~0ull:((1ull<<bits)-1); }
  int width(const Opd&a,const Opd&b){ if(a.k==Opd::GP) return a.r.bits; if(b.k==Opd::GP) return b.r.bits; if(a.k==Opd::MEM&&a.m.size) return a.m.size*8; return 64; }
  uint64_t val(const Opd&o,int bits){ switch(o.k){ case Opd::GP: return c.r[o.r.id]&mask(o.r.bits<bits?o.r.bits:bits); case Opd::IMM: return (pageimm&&(uint64_t)o.i==pageimm?pagelen:(uint64_t)o.i)&mask(bits); case Opd::MEM: return ld(addr(o.m),bits/8); default: sx_fail("generated code uses an operand the interpreter knows"); return 0; } }
  void put(const Opd&o,int bits,uint64_t v){ if(o.k==Opd::GP){ uint64_t&r=c.r[o.r.id]; if(bits==64) r=v; else if(bits==32) r=v&mask(32); else r=(r&~mask(bits))|(v&mask(bits)); } else if(o.k==Opd::MEM) st(addr(o.m),bits/8,v); else sx_fail("generated code writes to a register or memory"); }
  void logic(uint64_t v,int bits){ c.cf=c.of=false; c.zf=(v&mask(bits))==0; c.sf=(v>>(bits-1))&1; }
  uint64_t doadd(uint64_t a,uint64_t b,int bits,bool keepcf=false){ uint64_t v=(a+b)&mask(bits); if(!keepcf) c.cf=v<(a&mask(bits)); c.zf=v==0; c.sf=(v>>(bits-1))&1; c.of=(((a^v)&(b^v))>>(bits-1))&1; return v; }
  uint64_t dosub(uint64_t a,uint64_t b,int bits,bool keepcf=false){ a&=mask(bits); b&=mask(bits); uint64_t v=(a-b)&mask(bits); if(!keepcf) c.cf=a<b; c.zf=a==b; c.sf=(v>>(bits-1))&1; c.of=(((a^b)&(a^v))>>(bits-1))&1; return v; }
  bool cond(int cc){ switch(cc){ case O_: return c.of; case NO_: return !c.of; case B_: return c.cf; case AE_: return !c.cf; case E_: return c.zf; case NE_: return !c.zf; case BE_: return bor(c.cf,c.zf); case A_: return band(!c.cf,!c.zf); case S_: return c.sf; case NS_: return !c.sf; case L_: return c.sf!=c.of; case GE_: return c.sf==c.of; case LE_: return bor(c.zf,c.sf!=c.of); case G_: return band(!c.zf,c.sf==c.of); } sx_fail("generated code uses a condition the interpreter knows"); return false; }
  void push(uint64_t v){ c.r[4]-=8; st((void*)(uintptr_t)c.r[4],8,v); } uint64_t pop(){ uint64_t v=ld((void*)(uintptr_t)c.r[4],8); c.r[4]+=8; return v; }
  X xval(const Opd&o,bool al){ if(o.k==Opd::XMM) return c.x[o.x.id]; X v; uint8_t*p=addr(o.m); if(al&&o.m.kind==0) sx_assert(((uintptr_t)p&15)==0,"aligned vector accesses are aligned"); for(int i=0;i<16;i++) v.b[i]=p[i]; return v; }
  uint64_t run(size_t start,uint64_t a1,uint64_t a2=0,uint64_t a3=0,uint64_t a4=0){
    sx_assert(!h->broken,"every label of the generated code is bound once");
    uintptr_t top=(uintptr_t)(stack.data()+STK-8); top&=~(uintptr_t)15; top-=8; c.r[4]=top; st((void*)top,8,EXIT); // as after a call from an aligned frame
    c.r[7]=a1; c.r[6]=a2; c.r[2]=a3; c.r[1]=a4; uint64_t keep[16]; for(int i=0;i<16;i++) keep[i]=c.r[i];
    size_t pc=start;
    for(;;){ if(pc>=h->code.size()){ sx_fail("generated code stays inside its instructions"); return 0; } const Ins&I=h->code[pc++];
      switch(I.op){
      case MOV: { if(I.a.k==Opd::GP&&I.b.k==Opd::LAB){ put(I.a,64,CODE+k*CSTEP+(uint64_t)h->lab[I.b.l]); break; } int w=width(I.a,I.b); put(I.a,w,val(I.b,w)); } break;
      case MOVZX: { int w=I.b.k==Opd::MEM?I.b.m.size*8:I.b.r.bits; if(w!=8&&w!=16){ sx_fail("movzx reads a byte or a word"); return 0; } put(I.a,64,val(I.b,w)); } break;
      case ADD: { int w=width(I.a,I.b); uint64_t x=val(I.a,w),y=val(I.b,w); put(I.a,w,doadd(x,y,w)); } break;
      case SUB: { int w=width(I.a,I.b); uint64_t x=val(I.a,w),y=val(I.b,w); put(I.a,w,dosub(x,y,w)); } break;
      case CMP: { int w=width(I.a,I.b); uint64_t x=val(I.a,w),y=val(I.b,w); dosub(x,y,w); } break;
      case AND: { int w=width(I.a,I.b); uint64_t v=val(I.a,w)&val(I.b,w); logic(v,w); put(I.a,w,v); } break;
      case OR: { int w=width(I.a,I.b); uint64_t v=val(I.a,w)|val(I.b,w); logic(v,w); put(I.a,w,v); } break;
      case XOR: { int w=width(I.a,I.b); uint64_t v=val(I.a,w)^val(I.b,w); logic(v,w); put(I.a,w,v); } break;
      case TEST: { int w=width(I.a,I.b); logic(val(I.a,w)&val(I.b,w),w); } break;
      case SHL: case SHR: case SAR: { int w=width(I.a,Opd()); uint64_t n=val(I.b,8)&(w==64?63:31),x=val(I.a,w),v=x; if(n){ if(I.op==SHL){ v=(x<<n)&mask(w); c.cf=(x>>(w-n))&1; } else if(I.op==SHR){ v=x>>n; c.cf=(x>>(n-1))&1; } else { v=(uint64_t)((int64_t)(x<<(64-w))>>(64-w)>>n)&mask(w); c.cf=(x>>(n-1))&1; } c.zf=v==0; c.sf=(v>>(w-1))&1; put(I.a,w,v); } } break;
      case INC: { int w=width(I.a,Opd()); put(I.a,w,doadd(val(I.a,w),1,w,true)); } break;
      case DEC: { int w=width(I.a,Opd()); put(I.a,w,dosub(val(I.a,w),1,w,true)); } break;
      case NEG: { int w=width(I.a,Opd()); put(I.a,w,dosub(0,val(I.a,w),w)); } break;
      case NOT: { int w=width(I.a,Opd()); put(I.a,w,~val(I.a,w)&mask(w)); } break;
      case LEA: put(I.a,I.a.r.bits,(uint64_t)(uintptr_t)addr(I.b.m)); break;
      case PUSH: { uint64_t v=I.a.k==Opd::IMM?(uint64_t)(int64_t)(int32_t)I.a.i:val(I.a,64); if(I.a.k==Opd::IMM&&v!=(uint64_t)I.a.i) sx_fail("a pushed immediate fits in 32 bits"); push(v); } break;
      case POP: put(I.a,64,pop()); break;
      case CALL: if(I.a.k==Opd::LAB){ push(CODE+k*CSTEP+pc); long t=h->lab[I.a.l]; if(t<0){ sx_fail("called labels are bound"); return 0; } pc=(size_t)t; } else { uint64_t f=val(I.a,64); sx_assert((c.r[4]&15)==0,"the stack is aligned when the listener is called");
          typedef uint64_t(*F)(uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,uint64_t); uint64_t v=((F)(uintptr_t)f)(c.r[7],c.r[6],c.r[2],c.r[1],c.r[8],c.r[9]);
          static const int vol[]={1,2,6,7,8,9,10,11}; for(int i:vol) c.r[i]=POISON^(uint64_t)i<<40; for(int i=0;i<16;i++) for(int j=0;j<16;j++) c.x[i].b[j]=0x5A; c.r[0]=v; c.cf=c.zf=c.sf=c.of=true; } break;
      case RET: { uint64_t v=pop(); if(v==EXIT){ bool ok=c.r[4]==top+8; static const int sv[]={3,5,12,13,14,15}; for(int i:sv) ok=band(ok,c.r[i]==keep[i]); sx_assert(ok,"generated code restores the stack and the registers it must preserve"); return c.r[0]; } if(v<CODE+k*CSTEP||v>=CODE+k*CSTEP+h->code.size()){ sx_fail("returns go to the caller"); return 0; } pc=(size_t)(v-CODE-k*CSTEP); } break;
      case JMP: { long t=I.a.k==Opd::LAB?h->lab[I.a.l]:-1; if(t<0){ sx_fail("jumps go to bound labels"); return 0; } pc=(size_t)t; } break;
      case JCC: { long t=h->lab[I.a.l]; if(cond(I.cc)){ if(t<0){ sx_fail("jumps go to bound labels"); return 0; } pc=(size_t)t; } } break;
      case MOVDQA: case MOVDQU: { X v=xval(I.b,I.op==MOVDQA); if(I.a.k==Opd::XMM) c.x[I.a.x.id]=v; else { uint8_t*p=addr(I.a.m); if(I.op==MOVDQA) sx_assert(((uintptr_t)p&15)==0,"aligned vector accesses are aligned"); for(int i=0;i<16;i++) p[i]=v.b[i]; } } break;
      case MOVNTI: put(I.a,I.b.r.bits,val(I.b,I.b.r.bits)); break;
      case PCMPISTRI: { X a=xval(I.a,false),b=xval(I.b,true); c.r[1]=sx_concretize(pcmpistri(a,b,(int)I.c.i,c)); } break;
      case FENCE: case NOP_: break;
      default: sx_fail("generated code uses an instruction the interpreter knows"); return 0; } } }
};
static uint64_t call(uint64_t k,size_t start,uint64_t a1,uint64_t a2=0,uint64_t a3=0,uint64_t a4=0){ Machine*m=new Machine(codes[k],k); uint64_t v=m->run(start,a1,a2,a3,a4); delete m; return v; }
// function pointers handed out for generated code
template<int K,class R,class...A> struct Tramp{ static R f(A...a){ return (R)call(K,0,(uint64_t)(a)...); } };
template<class F> struct Table; template<class R,class...A> struct Table<R(*)(A...)>{ typedef R(*F)(A...); static F get(size_t k){ static const F t[]={Tramp<0,R,A...>::f,Tramp<1,R,A...>::f,Tramp<2,R,A...>::f,Tramp<3,R,A...>::f}; if(k>=4){ sx_fail("at most four generated routines"); return t[0]; } return t[k]; } };
template<class T> struct AddTo{ static void set(T*d,size_t k){ *d=Table<T>::get(k); } };
template<> struct AddTo<char*>{ static void set(char**d,size_t k){ *d=(char*)(uintptr_t)(CODE+k*CSTEP); } };
}
namespace asmjit { template<class T> Error JitRuntime::add(T*dst,CodeHolder*c){ size_t k=0; while(k<x86i::codes.size()&&x86i::codes[k]!=c) k++; if(k==x86i::codes.size()) x86i::codes.push_back(c); x86i::AddTo<T>::set(dst,k); return 0; } }
