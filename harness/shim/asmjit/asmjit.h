// Recording stand-in for the asmjit assembler (its sources are not part of this tree): every emitted instruction is kept, and an
// interpreter of the instructions' architectural semantics executes the generated code inside the symbolic run.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <vector>
#include <string>
#include <type_traits>
namespace asmjit {
typedef uint32_t Error;
struct Logger{}; struct ErrorHandler{}; struct FileLogger:Logger{ template<class...A> FileLogger(A...){} }; struct StringLogger:Logger{};
struct CodeInfo{};
union Data128{ int8_t sb[16]; uint8_t ub[16]; int16_t sw[8]; uint16_t uw[8]; int32_t sd[4]; uint32_t ud[4]; int64_t sq[2]; uint64_t uq[2]; };
struct X86Gp{ int id; int bits; constexpr X86Gp(int i=0,int b=64):id(i),bits(b){} X86Gp r64()const{return X86Gp(id,64);} X86Gp r32()const{return X86Gp(id,32);} X86Gp r8()const{return X86Gp(id,8);} X86Gp r16()const{return X86Gp(id,16);} };
struct X86Xmm{ int id; constexpr X86Xmm(int i=0):id(i){} };
struct Imm{ int64_t v; Imm(int64_t x=0):v(x){} };
inline Imm imm(int64_t v){ return Imm(v); }
struct Label{ int id; Label(int i=-1):id(i){} };
struct X86Mem{ int kind,id; int64_t off; int size; // kind 0: base register, 1: label
  X86Mem():kind(0),id(0),off(0),size(0){} X86Mem(const X86Gp&b,int64_t o,int s=0):kind(0),id(b.id),off(o),size(s){} X86Mem(const Label&l,int64_t o,int s=0):kind(1),id(l.id),off(o),size(s){} };
struct Zone{ Zone(size_t){} };
struct ConstPool{ std::vector<unsigned char> d; ConstPool(Zone*){} Error add(const void*p,size_t n,size_t&off){ while(d.size()%n) d.push_back(0); off=d.size(); const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++) d.push_back(c[i]); return 0; } };
namespace x86{ constexpr X86Gp rax(0),rcx(1),rdx(2),rbx(3),rsp(4),rbp(5),rsi(6),rdi(7),r8(8),r9(9),r10(10),r11(11),r12(12),r13(13),r14(14),r15(15);
  constexpr X86Gp eax(0,32),ecx(1,32),edx(2,32),ebx(3,32),esi(6,32),edi(7,32),al(0,8),cl(1,8),bl(3,8);
  constexpr X86Xmm xmm0(0),xmm1(1),xmm2(2),xmm3(3),xmm4(4),xmm5(5),xmm6(6),xmm7(7),xmm8(8),xmm9(9),xmm10(10),xmm11(11),xmm12(12),xmm13(13),xmm14(14),xmm15(15);
  inline X86Mem ptr(const X86Gp&b,int64_t o=0,int s=0){ return X86Mem(b,o,s); } inline X86Mem byte_ptr(const X86Gp&b,int64_t o=0){ return X86Mem(b,o,1); } inline X86Mem word_ptr(const X86Gp&b,int64_t o=0){ return X86Mem(b,o,2); } inline X86Mem dword_ptr(const X86Gp&b,int64_t o=0){ return X86Mem(b,o,4); } inline X86Mem qword_ptr(const X86Gp&b,int64_t o=0){ return X86Mem(b,o,8); } inline X86Mem oword_ptr(const X86Gp&b,int64_t o=0){ return X86Mem(b,o,16); } }
enum Op{ MOV,MOVZX,ADD,SUB,CMP,AND,OR,XOR,TEST,SHL,SHR,SAR,INC,DEC,NEG,NOT,LEA,PUSH,POP,CALL,RET,JMP,JCC,MOVDQA,MOVDQU,MOVNTI,PCMPISTRI,FENCE,NOP_ };
enum Cond{ O_,NO_,B_,AE_,E_,NE_,BE_,A_,S_,NS_,P_,NP_,L_,GE_,LE_,G_ };
struct Opd{ enum K{NONE,GP,XMM,IMM,MEM,LAB} k; X86Gp r; X86Xmm x; int64_t i; X86Mem m; int l; Opd():k(NONE),i(0),l(-1){} Opd(const X86Gp&g):k(GP),r(g),i(0),l(-1){} Opd(const X86Xmm&g):k(XMM),x(g),i(0),l(-1){} Opd(const Imm&v):k(IMM),i(v.v),l(-1){} Opd(const X86Mem&v):k(MEM),i(0),m(v),l(-1){} Opd(const Label&v):k(LAB),i(0),l(v.id){}
  template<class T,class=typename std::enable_if<std::is_integral<T>::value>::type> Opd(T v):k(IMM),i((int64_t)v),l(-1){} };
struct Ins{ int op,cc; Opd a,b,c; };
struct CodeHolder{ std::vector<Ins> code; std::vector<long> lab; std::vector<const unsigned char*> labdata; std::vector<std::vector<unsigned char>*> pools; bool broken; CodeHolder():broken(false){}
  ~CodeHolder(){ for(auto p:pools) delete p; } Error init(const CodeInfo&){ return 0; } void setLogger(Logger*){} void setErrorHandler(ErrorHandler*){} size_t getLabelOffset(const Label&l){ return (size_t)lab[l.id]; } };
struct X86Assembler{ CodeHolder*h; X86Assembler(CodeHolder*c):h(c){}
  Label newLabel(){ h->lab.push_back(-1); h->labdata.push_back(nullptr); return Label((int)h->lab.size()-1); }
  Error bind(const Label&l){ if(l.id<0||l.id>=(int)h->lab.size()||h->lab[l.id]>=0){ h->broken=true; return 1; } h->lab[l.id]=(long)h->code.size(); return 0; }
  Error embedConstPool(const Label&l,const ConstPool&p){ auto*v=new std::vector<unsigned char>(p.d); h->pools.push_back(v); h->lab[l.id]=(long)h->code.size(); h->labdata[l.id]=v->data(); return 0; }
  Error finalize(){ return 0; }
  Error put(int op,int cc=0,const Opd&a=Opd(),const Opd&b=Opd(),const Opd&c=Opd()){ Ins i; i.op=op; i.cc=cc; i.a=a; i.b=b; i.c=c; h->code.push_back(i); return 0; }
#define A2(n,o) Error n(const Opd&a,const Opd&b){ return put(o,0,a,b); }
#define A1(n,o) Error n(const Opd&a){ return put(o,0,a); }
#define A0(n,o) Error n(){ return put(o); }
#define JC(n,c) Error n(const Label&l){ return put(JCC,c,l); }
  A2(mov,MOV) A2(movabs,MOV) A2(movzx,MOVZX) A2(add,ADD) A2(sub,SUB) A2(cmp,CMP) A2(and_,AND) A2(or_,OR) A2(xor_,XOR) A2(test,TEST) A2(shl,SHL) A2(sal,SHL) A2(shr,SHR) A2(sar,SAR) A2(lea,LEA) A2(movdqa,MOVDQA) A2(movaps,MOVDQA) A2(movdqu,MOVDQU) A2(movups,MOVDQU) A2(movnti,MOVNTI)
  A1(inc,INC) A1(dec,DEC) A1(neg,NEG) A1(not_,NOT) A1(push,PUSH) A1(pop,POP) A1(call,CALL) A1(jmp,JMP) A0(ret,RET) A0(sfence,FENCE) A0(mfence,FENCE) A0(lfence,FENCE) A0(nop,NOP_)
  Error pcmpistri(const Opd&a,const Opd&b,const Opd&c){ return put(PCMPISTRI,0,a,b,c); }
  JC(jo,O_) JC(jno,NO_) JC(jb,B_) JC(jc,B_) JC(jnae,B_) JC(jae,AE_) JC(jnb,AE_) JC(jnc,AE_) JC(je,E_) JC(jz,E_) JC(jne,NE_) JC(jnz,NE_) JC(jbe,BE_) JC(jna,BE_) JC(ja,A_) JC(jnbe,A_) JC(js,S_) JC(jns,NS_) JC(jl,L_) JC(jnge,L_) JC(jge,GE_) JC(jnl,GE_) JC(jle,LE_) JC(jng,LE_) JC(jg,G_) JC(jnle,G_)
#undef A2
#undef A1
#undef A0
#undef JC
};
struct JitRuntime{ CodeInfo getCodeInfo()const{ return CodeInfo(); } template<class T> Error add(T*dst,CodeHolder*c); };
}
