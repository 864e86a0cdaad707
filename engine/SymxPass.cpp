// Symx: compiles LLVM IR into a symbolic executor of itself.
// Every SSA value of integer/pointer type gets a "shadow": a pointer to a symbolic expression, or
// null when the value is concrete.  Every operation is accompanied by a call that builds the
// expression; every conditional branch on a symbolic condition asks the runtime (and thereby the
// SMT solver) which sides are feasible, and the process is forked when both are.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <set>
#include <map>
using namespace llvm;

static cl::opt<std::string> FnListOut("symx-fnlist", cl::desc("write list of instrumented functions"), cl::init(""));

namespace {

enum Op { OP_ADD=1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
          OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_SLT, OP_SLE };

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *I1,*I8,*I32,*I64; PointerType *P; Type *V;
  FunctionCallee fBin, fCast, fSel, fLoad, fStore, fAddr, fCond, fConc, fConcU, fExtArg, fIndArg, fMemcpy, fMemset, fEnter, fBudget, fRegister, fChk, fClear, fGep, fPtrArith;
  GlobalVariable *gArgs, *gRet, *gCallee, *gBudget, *gHit;
  std::vector<Function*> fns;

  FunctionCallee decl(const char*n, Type*r, std::initializer_list<Type*> a){ return M.getOrInsertFunction(n, FunctionType::get(r, std::vector<Type*>(a), false)); }
  GlobalVariable* ext(const char*n, Type*t){ auto*g=M.getNamedGlobal(n); if(g) return g; return new GlobalVariable(M,t,false,GlobalValue::ExternalLinkage,nullptr,n); }

  Inst(Module&m):M(m),C(m.getContext()),DL(m.getDataLayout()){
    I1=Type::getInt1Ty(C);I8=Type::getInt8Ty(C);I32=Type::getInt32Ty(C);I64=Type::getInt64Ty(C);P=PointerType::get(C,0);V=Type::getVoidTy(C);
    fBin=decl("__sx_bin",P,{I32,I32,P,I64,P,I64});      // op,width,ea,a,eb,b
    fCast=decl("__sx_cast",P,{I32,I32,I32,P});           // kind(0 zext,1 sext,2 trunc), from, to, e
    fSel=decl("__sx_select",P,{I32,P,P,I64,P,I64});      // width, c, ea,a,eb,b  (c non-null)
    fLoad=decl("__sx_load",P,{P,I64,I32});               // addr,size,bits
    fStore=decl("__sx_store",V,{P,I64,P,I32});           // addr,size,e,bits
    fAddr=decl("__sx_addr",P,{P,P});
    fCond=decl("__sx_cond",I1,{P,I1});
    fConc=decl("__sx_conc",I64,{P,I64,I32});
    fExtArg=decl("__sx_extarg",I64,{P,I64,I32,P});
    fIndArg=decl("__sx_indarg",I64,{P,I64,I32,P});
    fMemcpy=decl("__sx_memcpy",V,{P,P,I64});
    fMemset=decl("__sx_memset",V,{P,P,I64,I64});
    fEnter=decl("__sx_enter",V,{P,I32});
    fBudget=decl("__sx_budget_hit",V,{});
    fRegister=decl("__sx_register",V,{P,P,I32});
    fClear=decl("__sx_clear",V,{P,I64});
    fChk=decl("__sx_chk",V,{P,I64});
    fGep=decl("__sx_gep",P,{P,I64,P,I64,I32,I64});       // eacc, acc, eidx, idx, width, scale
    gArgs=ext("__sx_args",ArrayType::get(P,64)); gRet=ext("__sx_ret",ArrayType::get(P,16));
    gCallee=ext("__sx_callee",P); gBudget=ext("__sx_budget",I64); gHit=ext("__sx_hit",P);
  }

  bool isScalar(Type*t){ if(auto*i=dyn_cast<IntegerType>(t)) return i->getBitWidth()<=64; return t->isPointerTy(); }
  unsigned bits(Type*t){ if(t->isPointerTy()) return 64; return cast<IntegerType>(t)->getBitWidth(); }
  // leaves of aggregates
  void leaves(Type*t, std::vector<std::vector<unsigned>>&out, std::vector<unsigned>&pre){
    if(isScalar(t)){ out.push_back(pre); return; }
    if(auto*s=dyn_cast<StructType>(t)){ for(unsigned i=0;i<s->getNumElements();i++){pre.push_back(i);leaves(s->getElementType(i),out,pre);pre.pop_back();} return; }
    if(auto*a=dyn_cast<ArrayType>(t)){ for(unsigned i=0;i<a->getNumElements();i++){pre.push_back(i);leaves(a->getElementType(),out,pre);pre.pop_back();} return; }
  }
  std::vector<std::vector<unsigned>> leaves(Type*t){ std::vector<std::vector<unsigned>> o; std::vector<unsigned> p; leaves(t,o,p); return o; }
  Type* leafType(Type*t,const std::vector<unsigned>&ix){ for(unsigned i:ix){ if(auto*s=dyn_cast<StructType>(t)) t=s->getElementType(i); else t=cast<ArrayType>(t)->getElementType(); } return t; }
  Type* shadowType(Type*t){
    if(isScalar(t)) return P;
    if(auto*s=dyn_cast<StructType>(t)){ std::vector<Type*> e; for(auto*x:s->elements()) e.push_back(shadowType(x)?shadowType(x):I8); return StructType::get(C,e); }
    if(auto*a=dyn_cast<ArrayType>(t)){ auto*e=shadowType(a->getElementType()); return ArrayType::get(e?e:I8,a->getNumElements()); }
    return nullptr;
  }

  struct FnCtx { std::map<Value*,Value*> sh; std::vector<std::pair<PHINode*,PHINode*>> phis; };

  Value* nullP(){ return ConstantPointerNull::get(P); }
  // shadow of value; nullptr => statically concrete
  Value* S(FnCtx&f, Value*v){ if(isa<Constant>(v)) return nullptr; auto it=f.sh.find(v); return it==f.sh.end()?nullptr:it->second; }
  Value* SN(FnCtx&f, Value*v){ Value*s=S(f,v); if(s) return s; Type*st=shadowType(v->getType()); if(!st) return nullptr; return Constant::getNullValue(st); }
  Value* to64(IRBuilder<>&B, Value*v){ Type*t=v->getType(); if(t->isPointerTy()) return B.CreatePtrToInt(v,I64); return B.CreateZExtOrTrunc(v,I64); }
  Value* from64(IRBuilder<>&B, Value*v, Type*t){ if(t->isPointerTy()) return B.CreateIntToPtr(v,t); return B.CreateZExtOrTrunc(v,t); }
  Value* leafOf(IRBuilder<>&B, Value*agg, const std::vector<unsigned>&ix){ if(ix.empty()) return agg; return B.CreateExtractValue(agg,ix); }
  Value* conc(IRBuilder<>&B, FnCtx&f, Value*v){ // concretise value (forks over all feasible values)
    Value*s=S(f,v); if(!s) return v;
    if(isScalar(v->getType())) return from64(B,B.CreateCall(fConc,{s,to64(B,v),B.getInt32(bits(v->getType()))}),v->getType());
    return v;
  }
  Value* addr(IRBuilder<>&B, FnCtx&f, Value*p){ Value*s=S(f,p); if(!s) return p; return B.CreateCall(fAddr,{s,p}); }

  bool skipFn(Function&F){ StringRef n=F.getName(); return F.isDeclaration()||n.starts_with("__sx_")||n.starts_with("sxn_")||n.starts_with("asan.")||n.starts_with("__asan")||n.starts_with("_GLOBAL__sub_I"); }

  void lowerIntrinsics(Function&F){
    std::vector<IntrinsicInst*> w;
    for(auto&BB:F) for(auto&I:BB) if(auto*II=dyn_cast<IntrinsicInst>(&I)) w.push_back(II);
    for(auto*II:w){
      IRBuilder<> B(II); Value*r=nullptr;
      auto a=[&](unsigned i){return II->getArgOperand(i);};
      if(II->getType()->isVectorTy()) continue;
      switch(II->getIntrinsicID()){
        case Intrinsic::umax: r=B.CreateSelect(B.CreateICmpUGT(a(0),a(1)),a(0),a(1)); break;
        case Intrinsic::umin: r=B.CreateSelect(B.CreateICmpULT(a(0),a(1)),a(0),a(1)); break;
        case Intrinsic::smax: r=B.CreateSelect(B.CreateICmpSGT(a(0),a(1)),a(0),a(1)); break;
        case Intrinsic::smin: r=B.CreateSelect(B.CreateICmpSLT(a(0),a(1)),a(0),a(1)); break;
        case Intrinsic::abs: r=B.CreateSelect(B.CreateICmpSLT(a(0),ConstantInt::get(a(0)->getType(),0)),B.CreateNeg(a(0)),a(0)); break;
        case Intrinsic::usub_sat: r=B.CreateSelect(B.CreateICmpUGT(a(0),a(1)),B.CreateSub(a(0),a(1)),ConstantInt::get(a(0)->getType(),0)); break;
        case Intrinsic::uadd_sat: { Value*s=B.CreateAdd(a(0),a(1)); r=B.CreateSelect(B.CreateICmpULT(s,a(0)),ConstantInt::getAllOnesValue(a(0)->getType()),s); break; }
        case Intrinsic::fshl: case Intrinsic::fshr: if(isa<ConstantInt>(a(2))){ unsigned w_=bits(II->getType()); uint64_t k=cast<ConstantInt>(a(2))->getZExtValue()%w_; if(II->getIntrinsicID()==Intrinsic::fshr) k=(w_-k)%w_; 
            if(k==0) r=II->getIntrinsicID()==Intrinsic::fshl?a(0):a(1); else r=B.CreateOr(B.CreateShl(a(0),k),B.CreateLShr(a(1),w_-k)); } break;
        case Intrinsic::expect: r=a(0); break;
        case Intrinsic::assume: II->eraseFromParent(); continue;
        case Intrinsic::experimental_noalias_scope_decl: II->eraseFromParent(); continue;
        case Intrinsic::uadd_with_overflow: { Value*s=B.CreateAdd(a(0),a(1)); Value*o=B.CreateICmpULT(s,a(0)); r=B.CreateInsertValue(B.CreateInsertValue(UndefValue::get(II->getType()),s,0),o,1); break; }
        case Intrinsic::usub_with_overflow: { Value*s=B.CreateSub(a(0),a(1)); Value*o=B.CreateICmpULT(a(0),a(1)); r=B.CreateInsertValue(B.CreateInsertValue(UndefValue::get(II->getType()),s,0),o,1); break; }
        case Intrinsic::sadd_with_overflow: { Value*s=B.CreateAdd(a(0),a(1)); Value*z=ConstantInt::get(a(0)->getType(),0); Value*o=B.CreateICmpNE(B.CreateICmpSLT(s,a(0)),B.CreateICmpSLT(a(1),z)); r=B.CreateInsertValue(B.CreateInsertValue(UndefValue::get(II->getType()),s,0),o,1); break; }
        case Intrinsic::umul_with_overflow: if(auto*k=dyn_cast<ConstantInt>(a(1))) if(!k->isZero()){ Value*s=B.CreateMul(a(0),a(1)); Value*o=B.CreateICmpUGT(a(0),ConstantInt::get(a(0)->getType(),APInt::getMaxValue(bits(a(0)->getType())).udiv(k->getValue()))); r=B.CreateInsertValue(B.CreateInsertValue(UndefValue::get(II->getType()),s,0),o,1); } break;
        default: break;
      }
      if(r){ II->replaceAllUsesWith(r); II->eraseFromParent(); }
    }
  }

  void instrument(Function&F){
    lowerIntrinsics(F);
    { std::vector<InvokeInst*> iv; for(auto&BB:F) if(auto*i=dyn_cast<InvokeInst>(BB.getTerminator())) iv.push_back(i);
      for(auto*i:iv){ BasicBlock*nb=i->getNormalDest(); if(!nb->getSinglePredecessor()||isa<PHINode>(nb->front())) { BasicBlock*mid=BasicBlock::Create(C,"inv",&F,nb); BranchInst::Create(nb,mid); i->setNormalDest(mid); nb->replacePhiUsesWith(i->getParent(),mid); } } }
    // loop headers for the step budget
    std::set<BasicBlock*> headers; { DominatorTree DT(F); LoopInfo LI(DT); for(auto&BB:F) if(LI.isLoopHeader(&BB)) headers.insert(&BB); }
    headers.insert(&F.getEntryBlock());
    FnCtx f; unsigned fnIdx=fns.size(); fns.push_back(&F);
    ReversePostOrderTraversal<Function*> RPO(&F);
    std::vector<BasicBlock*> order(RPO.begin(),RPO.end());
    // remove unreachable blocks first
    { std::set<BasicBlock*> live(order.begin(),order.end()); std::vector<BasicBlock*> dead; for(auto&BB:F) if(!live.count(&BB)) dead.push_back(&BB); DeleteDeadBlocks(dead); }
    // allocate shadow phis
    for(auto*BB:order) for(auto&I:*BB) if(auto*ph=dyn_cast<PHINode>(&I)){ Type*st=shadowType(ph->getType()); if(!st) continue; 
        f.phis.push_back({ph,nullptr}); }
    for(auto&pr:f.phis){ PHINode*np=PHINode::Create(shadowType(pr.first->getType()),pr.first->getNumIncomingValues(),"sh",pr.first); pr.second=np; f.sh[pr.first]=np; }
    // args
    Instruction*entryIP=&*F.getEntryBlock().getFirstInsertionPt();
    { Instruction*lastA=nullptr; for(auto&I:F.getEntryBlock()) if(isa<AllocaInst>(I)&&cast<AllocaInst>(I).isStaticAlloca()) lastA=&I; if(lastA) entryIP=lastA->getNextNode(); }
    { IRBuilder<> B(entryIP);
      std::vector<std::pair<Argument*,unsigned>> sc; unsigned n=0; for(auto&A:F.args()) { if(isScalar(A.getType())) sc.push_back({&A,n}); n++; }
      if(!sc.empty()){
        B.CreateCall(fEnter,{&F,B.getInt32(std::min(n,64u))});
        for(auto&pr:sc){ if(pr.second>=64) continue; Value*g=B.CreateConstInBoundsGEP2_32(gArgs->getValueType(),gArgs,0,pr.second); f.sh[pr.first]=B.CreateLoad(P,g); }
      }
      for(auto&I:F.getEntryBlock()) if(auto*al=dyn_cast<AllocaInst>(&I)) if(al->isStaticAlloca()) if(auto sz=al->getAllocationSize(DL)) B.CreateCall(fClear,{al,B.getInt64(sz->getFixedValue())});
      // coverage
      Value*h=B.CreateLoad(P,gHit); B.CreateStore(B.getInt8(1),B.CreateGEP(I8,h,B.CreateAdd(B.CreateLoad(I64,fnBase()),B.getInt64(fnIdx))));
    }
    std::set<Instruction*> mine;
    // collect original instructions
    std::vector<Instruction*> work; std::set<BasicBlock*> seenHdr;
    Instruction*firstOrig=entryIP;
    bool on=true; (void)on;
    std::vector<std::vector<Instruction*>> orig;
    for(auto*BB:order){ std::vector<Instruction*> v; bool skip=(BB==&F.getEntryBlock()); for(auto&I:*BB){ if(skip){ if(&I==firstOrig) skip=false; else continue; } if(isa<PHINode>(I)) continue; v.push_back(&I);} orig.push_back(v); }
    for(size_t k=0;k<order.size();k++){
      if(headers.count(order[k])&&!orig[k].empty()&&!order[k]->isEHPad()){
        // budget at header
        Instruction*ip=&*order[k]->getFirstInsertionPt(); if(order[k]==&F.getEntryBlock()) ip=firstOrig; IRBuilder<> B(ip);
        budgets.push_back({order[k],nullptr});
        Value*v=B.CreateLoad(I64,gBudget); Value*n=B.CreateSub(v,B.getInt64(1)); B.CreateStore(n,gBudget);
        budgetChecks.push_back({cast<Instruction>(n),nullptr});
      }
      for(auto*I:orig[k]) visit(f,*I);
    }
    for(auto&pr:f.phis){ for(unsigned i=0;i<pr.first->getNumIncomingValues();i++){ Value*s=S(f,pr.first->getIncomingValue(i)); if(!s) s=Constant::getNullValue(pr.second->getType()); pr.second->addIncoming(s,pr.first->getIncomingBlock(i)); } }
    // budget checks: n < 0 -> call
    for(auto&bc:budgetChecks){ Instruction*n=bc.first; IRBuilder<> B(n->getNextNode()->getNextNode()); 
      // after the store
      Value*neg=B.CreateICmpSLT(n,B.getInt64(0)); Instruction*ip=&*B.GetInsertPoint(); Instruction*t=SplitBlockAndInsertIfThen(neg,ip,false); IRBuilder<> TB(t); TB.CreateCall(fBudget,{}); }
    budgetChecks.clear();
    // trivial all-null shadow phis are left to the optimiser
  }
  std::vector<std::pair<BasicBlock*,Instruction*>> budgets; std::vector<std::pair<Instruction*,Instruction*>> budgetChecks;
  GlobalVariable*gBase=nullptr;
  GlobalVariable* fnBase(){ if(!gBase) gBase=new GlobalVariable(M,I64,false,GlobalValue::InternalLinkage,ConstantInt::get(I64,0),"__sx_fnbase"); return gBase; }

  Value* binE(IRBuilder<>&B,FnCtx&f,int op,Value*a,Value*b){ Value*sa=S(f,a),*sb=S(f,b); if(!sa&&!sb) return nullptr; unsigned w=bits(a->getType());
    return B.CreateCall(fBin,{B.getInt32(op),B.getInt32(w),sa?sa:nullP(),to64(B,a),sb?sb:nullP(),to64(B,b)}); }

  void visit(FnCtx&f, Instruction&I){
    I.dropPoisonGeneratingFlags();
    if(isa<LoadInst>(I)) I.dropUnknownNonDebugMetadata();
    IRBuilder<> B(&I);
    auto after=[&]()->Instruction*{ return I.getNextNode(); };
    if(auto*bo=dyn_cast<BinaryOperator>(&I)){
      if(!isScalar(bo->getType())){ chkNonScalar(f,I); return; }
      static const std::map<unsigned,int> ops={{Instruction::Add,OP_ADD},{Instruction::Sub,OP_SUB},{Instruction::Mul,OP_MUL},{Instruction::UDiv,OP_UDIV},{Instruction::SDiv,OP_SDIV},{Instruction::URem,OP_UREM},{Instruction::SRem,OP_SREM},{Instruction::Shl,OP_SHL},{Instruction::LShr,OP_LSHR},{Instruction::AShr,OP_ASHR},{Instruction::And,OP_AND},{Instruction::Or,OP_OR},{Instruction::Xor,OP_XOR}};
      int op=ops.at(bo->getOpcode());
      Value*e=binE(B,f,op,bo->getOperand(0),bo->getOperand(1));
      if(e){ f.sh[&I]=e; if(op>=OP_UDIV&&op<=OP_SREM){ Value*nn=B.CreateIsNotNull(e); bo->setOperand(1,B.CreateSelect(nn,ConstantInt::get(bo->getType(),1),bo->getOperand(1))); bo->setOperand(0,B.CreateSelect(nn,ConstantInt::get(bo->getType(),0),bo->getOperand(0))); } }
      return;
    }
    if(auto*ic=dyn_cast<ICmpInst>(&I)){
      if(!isScalar(ic->getOperand(0)->getType())){ chkNonScalar(f,I); return; }
      Value*a=ic->getOperand(0),*b=ic->getOperand(1); int op=0; bool sw=false;
      switch(ic->getPredicate()){ case CmpInst::ICMP_EQ:op=OP_EQ;break;case CmpInst::ICMP_NE:op=OP_NE;break;case CmpInst::ICMP_ULT:op=OP_ULT;break;case CmpInst::ICMP_ULE:op=OP_ULE;break;
        case CmpInst::ICMP_UGT:op=OP_ULT;sw=true;break;case CmpInst::ICMP_UGE:op=OP_ULE;sw=true;break;case CmpInst::ICMP_SLT:op=OP_SLT;break;case CmpInst::ICMP_SLE:op=OP_SLE;break;
        case CmpInst::ICMP_SGT:op=OP_SLT;sw=true;break;case CmpInst::ICMP_SGE:op=OP_SLE;sw=true;break; default:break; }
      if(sw) std::swap(a,b);
      if(Value*e=binE(B,f,op,a,b)) f.sh[&I]=e;
      return;
    }
    if(auto*ci=dyn_cast<CastInst>(&I)){
      Value*s=S(f,ci->getOperand(0)); if(!s) return;
      if(!isScalar(ci->getType())||!isScalar(ci->getOperand(0)->getType())){ ci->setOperand(0,conc(B,f,ci->getOperand(0))); return; }
      unsigned fw=bits(ci->getOperand(0)->getType()), tw=bits(ci->getType());
      int kind = isa<SExtInst>(ci)?1:(tw<fw?2:0);
      if(tw==fw) f.sh[&I]=s; else f.sh[&I]=B.CreateCall(fCast,{B.getInt32(kind),B.getInt32(fw),B.getInt32(tw),s});
      return;
    }
    if(auto*fr=dyn_cast<FreezeInst>(&I)){ if(Value*s=S(f,fr->getOperand(0))) f.sh[&I]=s; return; }
    if(auto*se=dyn_cast<SelectInst>(&I)){
      Value*sc=S(f,se->getCondition()); Type*t=se->getType();
      Type*st=shadowType(t);
      Value*sa=S(f,se->getTrueValue()),*sb=S(f,se->getFalseValue());
      if(!sc){ if(st&&(sa||sb)) f.sh[&I]=B.CreateSelect(se->getCondition(),sa?sa:Constant::getNullValue(st),sb?sb:Constant::getNullValue(st)); return; }
      if(!isScalar(t)){ se->setCondition(B.CreateCall(fCond,{sc,se->getCondition()})); if(st&&(sa||sb)) f.sh[&I]=B.CreateSelect(se->getCondition(),sa?sa:Constant::getNullValue(st),sb?sb:Constant::getNullValue(st)); return; }
      // runtime: if sc==null choose concretely
      Value*con=B.CreateSelect(se->getCondition(),sa?sa:nullP(),sb?sb:nullP());
      Value*e=B.CreateCall(selFn(),{B.getInt32(bits(t)),sc,con,sa?sa:nullP(),to64(B,se->getTrueValue()),sb?sb:nullP(),to64(B,se->getFalseValue())});
      f.sh[&I]=e; return;
    }
    if(auto*ld=dyn_cast<LoadInst>(&I)){
      Value*p=addr(B,f,ld->getPointerOperand()); ld->setOperand(0,p);
      Type*t=ld->getType(); uint64_t sz=DL.getTypeStoreSize(t);
      if(isa<AllocaInst>(p)&&0){}
      if(isScalar(t)){ f.sh[&I]=B.CreateCall(fLoad,{p,B.getInt64(sz),B.getInt32(bits(t))}); return; }
      auto lv=leaves(t); 
      if(t->isAggregateType()&&!lv.empty()){ Value*agg=Constant::getNullValue(shadowType(t));
        for(auto&ix:lv){ Type*lt=leafType(t,ix); std::vector<Value*> gi={B.getInt32(0)}; for(unsigned x:ix) gi.push_back(B.getInt32(x)); Value*lp=B.CreateGEP(t,p,gi); Value*e=B.CreateCall(fLoad,{lp,B.getInt64(DL.getTypeStoreSize(lt)),B.getInt32(bits(lt))}); agg=B.CreateInsertValue(agg,e,ix);} f.sh[&I]=agg; return; }
      B.CreateCall(fChk,{p,B.getInt64(sz)}); return;
    }
    if(auto*st=dyn_cast<StoreInst>(&I)){
      Value*p=addr(B,f,st->getPointerOperand()); st->setOperand(1,p);
      Value*v=st->getValueOperand(); Type*t=v->getType(); uint64_t sz=DL.getTypeStoreSize(t);
      if(isScalar(t)){ Value*s=S(f,v); B.CreateCall(fStore,{p,B.getInt64(sz),s?s:nullP(),B.getInt32(bits(t))}); return; }
      Value*s=S(f,v);
      B.CreateCall(fStore,{p,B.getInt64(sz),nullP(),B.getInt32(0)});
      if(s&&t->isAggregateType()){ for(auto&ix:leaves(t)){ Type*lt=leafType(t,ix); std::vector<Value*> gi={B.getInt32(0)}; for(unsigned x:ix) gi.push_back(B.getInt32(x)); Value*lp=B.CreateGEP(t,p,gi); B.CreateCall(fStore,{lp,B.getInt64(DL.getTypeStoreSize(lt)),leafOf(B,s,ix),B.getInt32(bits(lt))}); } }
      return;
    }
    if(auto*g=dyn_cast<GetElementPtrInst>(&I)){
      if(g->getType()->isVectorTy()) return;
      bool any=S(f,g->getPointerOperand()); for(auto&ix:g->indices()) if(S(f,ix)) any=true;
      if(!any) return;
      unsigned bw=64; MapVector<Value*,APInt> vo; APInt co(bw,0);
      if(!g->collectOffset(DL,bw,vo,co)) { errs()<<"symx: collectOffset failed\n"; abort(); }
      Value*acc=to64(B,g->getPointerOperand()); Value*ea=SN(f,g->getPointerOperand());
      for(auto&pr:vo){ Value*ix=pr.first; Value*si=S(f,ix); unsigned iw=bits(ix->getType()); 
        Value*ix64=B.CreateSExtOrTrunc(ix,I64);
        ea=B.CreateCall(fGep,{ea,acc,si?si:nullP(),ix64,B.getInt32(iw),B.getInt64(pr.second.getSExtValue())});
        acc=B.CreateAdd(acc,B.CreateMul(ix64,B.getInt64(pr.second.getSExtValue()))); }
      if(!co.isZero()) ea=B.CreateCall(fBin,{B.getInt32(OP_ADD),B.getInt32(64),ea,acc,nullP(),B.getInt64(co.getSExtValue())});
      f.sh[&I]=ea; return;
    }
    if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()) if(Value*s=S(f,br->getCondition())) br->setCondition(B.CreateCall(fCond,{s,br->getCondition()})); return; }
    if(auto*sw=dyn_cast<SwitchInst>(&I)){ if(S(f,sw->getCondition())){ sw->setCondition(conc(B,f,sw->getCondition())); } return; }
    if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ if(Value*s=S(f,ev->getAggregateOperand())) if(shadowType(ev->getType())) f.sh[&I]=B.CreateExtractValue(s,ev->getIndices()); return; }
    if(auto*iv=dyn_cast<InsertValueInst>(&I)){ Value*sa=S(f,iv->getAggregateOperand()),*sv=S(f,iv->getInsertedValueOperand()); if(!sa&&!sv) return; Type*st=shadowType(iv->getType()); if(!st) return;
      if(!shadowType(iv->getInsertedValueOperand()->getType())){ f.sh[&I]=sa?sa:Constant::getNullValue(st); return; }
      f.sh[&I]=B.CreateInsertValue(sa?sa:Constant::getNullValue(st), sv?sv:Constant::getNullValue(shadowType(iv->getInsertedValueOperand()->getType())), iv->getIndices()); return; }
    if(auto*rt=dyn_cast<ReturnInst>(&I)){ Value*v=rt->getReturnValue(); if(!v) return; auto lv=leaves(v->getType()); if(lv.size()>16) return; Value*s=S(f,v);
      for(unsigned i=0;i<lv.size();i++){ Value*e=s?leafOf(B,s,lv[i]):nullP(); B.CreateStore(e,B.CreateConstInBoundsGEP2_32(gRet->getValueType(),gRet,0,i)); } return; }
    if(auto*cb=dyn_cast<CallBase>(&I)){ visitCall(f,*cb); return; }
    if(isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)){ errs()<<"symx: atomic left: "<<I<<"\n"; abort(); }
    chkNonScalar(f,I);
    (void)after;
  }
  FunctionCallee selFn(){ return decl("__sx_sel",P,{I32,P,P,P,I64,P,I64}); }
  void chkNonScalar(FnCtx&f,Instruction&I){ IRBuilder<> B(&I); for(auto&U:I.operands()) if(S(f,U.get())&&isScalar(U->getType())) { if(isa<ResumeInst>(I)||isa<AllocaInst>(I)||isa<InvokeInst>(I)||1) U.set(conc(B,f,U.get())); } }

  void visitCall(FnCtx&f, CallBase&cb){
    IRBuilder<> B(&cb);
    if(cb.isInlineAsm()){ for(auto&U:cb.args()) U.set(conc(B,f,U.get())); return; }
    Function*callee=cb.getCalledFunction();
    if(!callee) if(auto*a=dyn_cast<GlobalAlias>(cb.getCalledOperand())) callee=dyn_cast<Function>(a->getAliaseeObject());
    if(auto*II=dyn_cast<IntrinsicInst>(&cb)){
      switch(II->getIntrinsicID()){
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { auto*m=cast<MemTransferInst>(II); Value*d=addr(B,f,m->getRawDest()),*s=addr(B,f,m->getRawSource()),*n=conc(B,f,m->getLength()); m->setArgOperand(0,d);m->setArgOperand(1,s);m->setArgOperand(2,n); B.CreateCall(fMemcpy,{d,s,B.CreateZExtOrTrunc(n,I64)}); return; }
        case Intrinsic::memset: { auto*m=cast<MemSetInst>(II); Value*d=addr(B,f,m->getRawDest()),*n=conc(B,f,m->getLength()); m->setArgOperand(0,d); m->setArgOperand(2,n); B.CreateCall(fMemset,{d,SN(f,m->getValue()),B.CreateZExt(m->getValue(),I64),B.CreateZExtOrTrunc(n,I64)}); return; }
        case Intrinsic::lifetime_start: if(auto*ci=dyn_cast<ConstantInt>(II->getArgOperand(0))) if(ci->getSExtValue()>0) B.CreateCall(fClear,{II->getArgOperand(1),ci}); return;
        case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::eh_typeid_for: return;
        default: for(auto&U:II->args()) if(S(f,U.get())) U.set(conc(B,f,U.get())); return;
      }
    }
    StringRef nm=callee?callee->getName():"";
    // indirect target must be concrete
    if(!callee){ Value*t=cb.getCalledOperand(); if(S(f,t)) cb.setCalledOperand(addr(B,f,t)); }
    bool api = callee && (nm.starts_with("sx_")||nm.starts_with("sxr_"));
    bool instr = callee && !callee->isDeclaration() && !skipFn(*callee);
    if(callee&&!instr&&!api){
      if(nm.starts_with("__sx_")) return;
      // external: concretise symbolic args by policy
      bool any=false; for(auto&U:cb.args()) if(S(f,U.get())&&isScalar(U->getType())) any=true;
      if(any){ Value*nmv=strConst(nm); for(auto&U:cb.args()){ Value*s=S(f,U.get()); if(!s||!isScalar(U->getType())) continue; Value*v=U.get(); U.set(from64(B,B.CreateCall(fExtArg,{s,to64(B,v),B.getInt32(bits(v->getType())),nmv}),v->getType())); } }
      // buffers handed to externals are checked by the runtime for known names only
      return;
    }
    if(!callee){ for(auto&U:cb.args()){ Value*s=S(f,U.get()); if(!s||!isScalar(U->getType())) continue; Value*v=U.get(); 
        // concretise only if the target is not instrumented; shadow then must be dropped
        Value*ind=B.CreateCall(decl("__sx_isinst",I1,{P}),{cb.getCalledOperand()});
        Value*nv=B.CreateCall(fIndArg,{s,to64(B,v),B.getInt32(bits(v->getType())),cb.getCalledOperand()}); (void)ind;
        U.set(from64(B,nv,v->getType())); argShadowOverride[&U]=s; } }
    // pass shadows
    bool hasScalarArg=false; unsigned i=0; for(auto&U:cb.args()){ if(i>=64) break; if(isScalar(U->getType())){ hasScalarArg=true; Value*s=nullptr; auto it=argShadowOverride.find(&U); s= it!=argShadowOverride.end()?it->second:S(f,U.get()); B.CreateStore(s?s:nullP(),B.CreateConstInBoundsGEP2_32(gArgs->getValueType(),gArgs,0,i)); } i++; }
    argShadowOverride.clear();
    if(hasScalarArg) B.CreateStore(cb.getCalledOperand(),gCallee);
    Type*rt=cb.getType(); auto lv=leaves(rt); if(rt->isVoidTy()||lv.empty()||lv.size()>16) return;
    if(!callee||api){ for(unsigned k=0;k<lv.size();k++) B.CreateStore(nullP(),B.CreateConstInBoundsGEP2_32(gRet->getValueType(),gRet,0,k)); }
    // read return shadow
    Instruction*ip;
    if(auto*iv=dyn_cast<InvokeInst>(&cb)){ BasicBlock*nb=iv->getNormalDest(); ip=&*nb->getFirstInsertionPt(); }
    else ip=cb.getNextNode();
    if(cb.isMustTailCall()) return;
    if(auto*ci=dyn_cast<CallInst>(&cb)) ci->setTailCall(false);
    IRBuilder<> A(ip);
    if(isScalar(rt)){ f.sh[&cb]=A.CreateLoad(P,A.CreateConstInBoundsGEP2_32(gRet->getValueType(),gRet,0,0)); }
    else { Value*agg=Constant::getNullValue(shadowType(rt)); for(unsigned k=0;k<lv.size();k++) agg=A.CreateInsertValue(agg,A.CreateLoad(P,A.CreateConstInBoundsGEP2_32(gRet->getValueType(),gRet,0,k)),lv[k]); f.sh[&cb]=agg; }
  }
  std::map<Use*,Value*> argShadowOverride;
  std::map<std::string,Constant*> strs;
  Constant* strConst(StringRef s){ auto&c=strs[s.str()]; if(c) return c; auto*ca=ConstantDataArray::getString(C,s); auto*g=new GlobalVariable(M,ca->getType(),true,GlobalValue::PrivateLinkage,ca,"sxs"); c=g; return c; }

  void run(){
    // redirect libc memory/string helpers to instrumented models (sxm_*) so that symbolic bytes flow through them
    static const char* redir[]={"memcmp","bcmp","strlen","wcslen","memchr","wmemchr","wmemcmp","wmemset","strcmp","wcscmp","strncmp","strchr","wcschr","memrchr","strcpy","isgraph","iswgraph","isspace","iswspace","isalnum","isalpha","isdigit","iswalpha","iswalnum","iswdigit","tolower","toupper",nullptr};
    static const char* redirMem[]={"memcpy","memmove","memset","wmemcpy","wmemmove",nullptr};
    auto doRedir=[&](const char*n){ Function*F=M.getFunction(n); if(!F||!F->isDeclaration()) return; Function*T=M.getFunction(std::string("sxm_")+n); if(!T) return; F->replaceAllUsesWith(T); };
    for(auto**p=redir;*p;p++) doRedir(*p);
    static const char* redirAs[][2]={{"_ZSt11_Hash_bytesPKvmm","sxm_hashbytes"},{"wcstol","sxm_wcstol"},{"__isoc23_wcstol","sxm_wcstol"},{"strtol","sxm_strtol"},{"__isoc23_strtol","sxm_strtol"},{nullptr,nullptr}};
    for(auto*p=redirAs;(*p)[0];p++){ Function*F=M.getFunction((*p)[0]),*T=M.getFunction((*p)[1]); if(F&&T&&F->isDeclaration()) F->replaceAllUsesWith(T); }
    for(auto**p=redirMem;*p;p++) doRedir(*p);
    std::vector<Function*> todo; for(auto&F:M) if(!skipFn(F)&&!F.isIntrinsic()) todo.push_back(&F);
    for(auto*F:todo){ F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::NoCallback); F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::NoFree); F->removeFnAttr(Attribute::Speculatable); F->removeFnAttr(Attribute::WillReturn); 
      if(F->hasFnAttribute(Attribute::AlwaysInline)) F->removeFnAttr(Attribute::AlwaysInline);
      for(auto&A:F->args()){ A.removeAttr(Attribute::ReadOnly);A.removeAttr(Attribute::ReadNone);A.removeAttr(Attribute::WriteOnly);A.removeAttr(Attribute::NoUndef);A.removeAttr(Attribute::NonNull);} }
    for(auto&F:M) for(auto&BB:F) for(auto&I:BB) if(auto*cb=dyn_cast<CallBase>(&I)){ if(isa<IntrinsicInst>(cb)) continue; cb->removeFnAttr(Attribute::Memory); for(unsigned i=0;i<cb->arg_size();i++){ cb->removeParamAttr(i,Attribute::ReadOnly); cb->removeParamAttr(i,Attribute::ReadNone); cb->removeParamAttr(i,Attribute::WriteOnly);cb->removeParamAttr(i,Attribute::NoUndef);cb->removeParamAttr(i,Attribute::NonNull);} }
    for(auto*F:todo) instrument(*F);
    // registration ctor
    Function*ctor=Function::Create(FunctionType::get(V,false),GlobalValue::InternalLinkage,"__sx_ctor",M);
    IRBuilder<> B(BasicBlock::Create(C,"e",ctor));
    std::vector<Constant*> ptrs,names; for(auto*F:fns){ ptrs.push_back(F); names.push_back(strConst(F->getName())); }
    auto*AT=ArrayType::get(P,fns.size());
    auto*gp=new GlobalVariable(M,AT,true,GlobalValue::InternalLinkage,ConstantArray::get(AT,ptrs),"__sx_fnptrs");
    auto*gn=new GlobalVariable(M,AT,true,GlobalValue::InternalLinkage,ConstantArray::get(AT,names),"__sx_fnnames");
    FunctionCallee reg=decl("__sx_register_all",I64,{P,P,I64});
    Value*base=B.CreateCall(reg,{gp,gn,B.getInt64(fns.size())});
    B.CreateStore(base,fnBase()); B.CreateRetVoid();
    appendToGlobalCtors(M,ctor,0);
    if(!FnListOut.empty()){ std::error_code ec; raw_fd_ostream os(FnListOut,ec); for(auto*F:fns) os<<demangle(F->getName().str())<<"\n"; }
  }
};

struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module&M, ModuleAnalysisManager&){ Inst i(M); i.run(); return PreservedAnalyses::none(); }
  static bool isRequired(){ return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"symx","1",[](PassBuilder&PB){ PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager&MPM, ArrayRef<PassBuilder::PipelineElement>){ if(n=="symx"){ MPM.addPass(SymxPass()); return true;} return false; }); }};
}
