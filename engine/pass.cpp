// LLVM pass: instruments IR for dynamic symbolic execution. Every SSA value gets a "shadow"
// (pointer to an expression node of the runtime, null = concrete); memory shadows live in the runtime.
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Demangle/Demangle.h"
#include <set>
#include <map>
using namespace llvm;

// functions whose library bodies are replaced by the models in models.cpp
static const char *overridden[] = {
  "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIxEERSoT_", "_ZNSo9_M_insertIyEERSoT_",
  "_ZNSo9_M_insertIbEERSoT_", "_ZNSo9_M_insertIdEERSoT_", "_ZNSo9_M_insertIeEERSoT_", "_ZNSo9_M_insertIPKvEERSoT_",
  "_ZNSi10_M_extractIlEERSiRT_", "_ZNSi10_M_extractImEERSiRT_", "_ZNSi10_M_extractIxEERSiRT_", "_ZNSi10_M_extractIyEERSiRT_",
  "_ZNSi10_M_extractIjEERSiRT_", "_ZNSi10_M_extractItEERSiRT_", "_ZNSi10_M_extractIdEERSiRT_", "_ZNSi10_M_extractIfEERSiRT_",
  "_ZNSi10_M_extractIbEERSiRT_", "_ZNSirsERi", "_ZNSirsERs",
  "_ZNSt7__cxx119to_stringEi", "_ZNSt7__cxx119to_stringEj", "_ZNSt7__cxx119to_stringEl", "_ZNSt7__cxx119to_stringEm",
  "_ZNSt7__cxx119to_stringEx", "_ZNSt7__cxx119to_stringEy", "_ZNSt7__cxx119to_stringEd", "_ZNSt7__cxx119to_stringEf",
  nullptr };

// external functions that the runtime models: calls go to __symw_<name>
static const char *wrapped[] = {
  "strlen","strcmp","strncmp","memcmp","bcmp","memchr","strchr","isalpha","isalnum","isdigit","isspace","isupper","islower","ispunct","isprint","isxdigit",
  "toupper","tolower","__isoc23_strtol","strtol","__isoc23_strtoll","strtoll","__isoc23_strtoul","strtoul","__isoc23_strtoull","strtoull","strtod","atoi","atol","atof",
  "__isoc23_strtod",
  "modf","floor","ceil","trunc","round","fmod","sqrt","fabs",
  "pow","sin","cos","tan","asin","acos","atan","atan2","exp","log","log10",
  "malloc","calloc","realloc","free","readline","rand","time","memcpy","memmove","memset",
  "vsnprintf","snprintf","strcpy","strdup",
  "_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei", "_ZNSt12__basic_fileIcE5closeEv",
  "_ZNSt12__basic_fileIcE6xsgetnEPcl", "_ZNSt12__basic_fileIcE6xsputnEPKcl", "_ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l",
  "_ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir", "_ZNSt12__basic_fileIcE9showmanycEv",
  "_ZSt11_Hash_bytesPKvmm", "_ZNSt6chrono3_V212system_clock3nowEv", "localtime",
  "localtime_r", "gmtime", "clock_gettime", "gettimeofday",
  nullptr };

namespace {
struct Sym {
  Module &M; LLVMContext &C; Type *P, *I64, *I32, *I8, *I1, *V; 
  GlobalVariable *Args, *Ret, *Token;
  FunctionCallee fBin,fCmp,fCast,fFbin,fFcmp,fFun,fSel,fBr,fSw,fLoad,fStore,fAddr,fGidx,fGfin,fMcpy,fMset,fPin,fAlloca,fOvf,fExt,fPtrCmpDummy,fCall,fBswap;
  Constant *Null;
  Sym(Module &M):M(M),C(M.getContext()){
    P=PointerType::getUnqual(C); I64=Type::getInt64Ty(C); I32=Type::getInt32Ty(C); I8=Type::getInt8Ty(C); I1=Type::getInt1Ty(C); V=Type::getVoidTy(C);
    Null=ConstantPointerNull::get(cast<PointerType>(P));
    Args=cast<GlobalVariable>(M.getOrInsertGlobal("__sym_args",ArrayType::get(P,64)));
    Ret=cast<GlobalVariable>(M.getOrInsertGlobal("__sym_ret",ArrayType::get(P,8)));
    Token=cast<GlobalVariable>(M.getOrInsertGlobal("__sym_token",P));
    auto F=[&](const char*n,Type*r,std::initializer_list<Type*> a){ return M.getOrInsertFunction(n,FunctionType::get(r,ArrayRef<Type*>(a),false)); };
    fBin=F("__sym_bin",P,{I32,I32,P,I64,P,I64,I32});
    fCmp=F("__sym_cmp",P,{I32,I32,P,I64,P,I64});
    fCast=F("__sym_cast",P,{I32,I32,I32,P});
    fFbin=F("__sym_fbin",P,{I32,I32,P,I64,P,I64});
    fFcmp=F("__sym_fcmp",P,{I32,I32,P,I64,P,I64});
    fFun=F("__sym_fun",P,{I32,I32,P});
    fSel=F("__sym_select",P,{P,I32,I32,I32,P,I64,P,I64});
    fBr=F("__sym_br",V,{P,I32,I32});
    fSw=F("__sym_switch",V,{P,I64,I32,I32,P,I32});
    fLoad=F("__sym_load",P,{P,I32,I32,I32});
    fStore=F("__sym_store",V,{P,I32,I32,P,I32});
    fAddr=F("__sym_addr",V,{P,P,I32});
    fGidx=F("__sym_gepidx",P,{P,P,I64,I32});
    fGfin=F("__sym_gepfin",P,{P,P});
    fMcpy=F("__sym_memcpy",V,{P,P,I64,P,P,P,I32});
    fMset=F("__sym_memset",V,{P,I32,I64,P,P,P,I32});
    fPin=F("__sym_pin",V,{P,I32});
    fAlloca=F("__sym_alloca",V,{P,I64});
    fOvf=F("__sym_ovf",P,{I32,I32,P,I64,P,I64});
  }
  bool ok(Type*T){ if(T->isPointerTy()||T->isDoubleTy()||T->isFloatTy()) return true; if(auto*IT=dyn_cast<IntegerType>(T)) return IT->getBitWidth()<=64; return false; }
  unsigned bits(Type*T){ if(T->isPointerTy()||T->isDoubleTy()) return 64; if(T->isFloatTy()) return 32; return T->getIntegerBitWidth(); }
  void leaves(Type*T,SmallVectorImpl<Type*>&o){ if(auto*S=dyn_cast<StructType>(T)){ for(auto*e:S->elements()) leaves(e,o);} else if(auto*A=dyn_cast<ArrayType>(T)){ for(unsigned i=0;i<A->getNumElements();i++) leaves(A->getElementType(),o);} else o.push_back(T); }
  unsigned nleaves(Type*T){ SmallVector<Type*,4> o; leaves(T,o); return o.size(); }
  // leaf offset of an index path
  std::pair<unsigned,Type*> leafOff(Type*T,ArrayRef<unsigned> idx){ unsigned off=0; for(unsigned i:idx){ if(auto*S=dyn_cast<StructType>(T)){ for(unsigned k=0;k<i;k++) off+=nleaves(S->getElementType(k)); T=S->getElementType(i);} else { auto*A=cast<ArrayType>(T); off+=i*nleaves(A->getElementType()); T=A->getElementType(); } } return {off,T}; }
  Constant *c32(int x){ return ConstantInt::get(I32,x);} Constant*c64(uint64_t x){return ConstantInt::get(I64,x);}
};

struct FnSym {
  Sym &S; Function &F; int fid; DenseMap<Value*,SmallVector<Value*,2>> sh;
  FnSym(Sym&S,Function&F,int fid):S(S),F(F),fid(fid){}
  Value *val64(IRBuilder<>&B,Value*v){ Type*T=v->getType(); if(T->isPointerTy()) return B.CreatePtrToInt(v,S.I64); if(T->isDoubleTy()) return B.CreateBitCast(v,S.I64); if(T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v,S.I32),S.I64); return B.CreateZExtOrTrunc(v,S.I64); }
  ArrayRef<Value*> get(Value*v){ auto it=sh.find(v); if(it!=sh.end()) return it->second; return {}; }
  Value *get1(Value*v){ auto a=get(v); return a.size()==1?a[0]:(Value*)S.Null; }
  bool isNull(Value*s){ return isa<ConstantPointerNull>(s); }
  void set1(Value*v,Value*s){ if(!isNull(s)) sh[v]={s}; }
  Value *slot(IRBuilder<>&B,GlobalVariable*G,unsigned i){ return B.CreateConstInBoundsGEP2_64(G->getValueType(),G,0,i); }

  void run(){
    if(F.isDeclaration()) return;
    // normal destinations of invokes need a private block for the return shadow
    SmallVector<InvokeInst*,8> inv; for(auto&BB:F) if(auto*I=dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(I);
    for(auto*I:inv){ BasicBlock*N=I->getNormalDest(); if(!N->getSinglePredecessor()||isa<PHINode>(N->front())){ 
        // split edge manually
        BasicBlock*NB=BasicBlock::Create(S.C,"symn",&F,N); BranchInst::Create(N,NB); I->setNormalDest(NB);
        for(PHINode&Ph:N->phis()){ int k=Ph.getBasicBlockIndex(I->getParent()); if(k>=0) Ph.setIncomingBlock(k,NB);} } }
    std::vector<BasicBlock*> order; for(auto*BB:ReversePostOrderTraversal<Function*>(&F)) order.push_back(BB);
    // entry: argument shadows
    BasicBlock &E=F.getEntryBlock(); IRBuilder<> B(&*E.getFirstInsertionPt());
    bool any=false; for(auto&A:F.args()) if(S.ok(A.getType())) any=true;
    // entry instruction list snapshot before insertion
    std::vector<std::vector<Instruction*>> lists; for(auto*BB:order){ std::vector<Instruction*> l; for(auto&I:*BB) l.push_back(&I); lists.push_back(std::move(l)); }
    if(any && F.getName()!="main"){
      Value*tok=B.CreateLoad(S.P,S.Token); Value*okv=B.CreateICmpEQ(tok,&F);
      unsigned i=0; for(auto&A:F.args()){ if(i<64&&S.ok(A.getType())){ Value*s=B.CreateSelect(okv,B.CreateLoad(S.P,slot(B,S.Args,i)),S.Null); sh[&A]={s}; } i++; }
      B.CreateStore(S.Null,S.Token);
    }
    // phis
    std::vector<PHINode*> ph; for(auto*BB:order) for(PHINode&q:BB->phis()) ph.push_back(&q);
    for(PHINode*pp:ph){ PHINode&Ph=*pp; BasicBlock*BB=Ph.getParent(); if(Ph.getType()->isAggregateType()){ unsigned n=S.nleaves(Ph.getType()); SmallVector<Value*,2> v; for(unsigned k=0;k<n;k++){ v.push_back(PHINode::Create(S.P,Ph.getNumIncomingValues(),"",&*BB->getFirstNonPHIIt())); } newPhis.push_back({&Ph,v}); sh[&Ph]=v; }
      else if(S.ok(Ph.getType())){ auto*np=PHINode::Create(S.P,Ph.getNumIncomingValues(),"",&*BB->getFirstNonPHIIt()); SmallVector<Value*,2> v{np}; newPhis.push_back({&Ph,v}); sh[&Ph]=v; } }
    for(auto&l:lists) for(auto*I:l) visit(I);
    for(auto&p:newPhis){ for(unsigned i=0;i<p.first->getNumIncomingValues();i++){ Value*iv=p.first->getIncomingValue(i); auto a=get(iv); for(unsigned k=0;k<p.second.size();k++) cast<PHINode>(p.second[k])->addIncoming(k<a.size()?a[k]:(Value*)S.Null,p.first->getIncomingBlock(i)); } }
  }
  std::vector<std::pair<PHINode*,SmallVector<Value*,2>>> newPhis;

  void pinIf(IRBuilder<>&B,Value*v){ for(Value*s:get(v)) if(!isNull(s)) B.CreateCall(S.fPin,{s,S.c32(fid)}); }
  void addrIf(IRBuilder<>&B,Value*p){ Value*s=get1(p); if(!isNull(s)) B.CreateCall(S.fAddr,{s,p,S.c32(fid)}); }

  void loadAgg(IRBuilder<>&B,Type*T,Value*p,SmallVectorImpl<Value*>&o){
    const DataLayout&DL=S.M.getDataLayout();
    if(auto*St=dyn_cast<StructType>(T)){ for(unsigned i=0;i<St->getNumElements();i++) loadAgg(B,St->getElementType(i),B.CreateConstInBoundsGEP2_32(T,p,0,i),o); }
    else if(auto*A=dyn_cast<ArrayType>(T)){ for(unsigned i=0;i<A->getNumElements();i++) loadAgg(B,A->getElementType(),B.CreateConstInBoundsGEP2_32(T,p,0,i),o); }
    else if(S.ok(T)) o.push_back(B.CreateCall(S.fLoad,{p,S.c32(DL.getTypeStoreSize(T)),S.c32(T->isFloatingPointTy()),S.c32(S.bits(T))}));
    else o.push_back(S.Null);
  }
  void storeAgg(IRBuilder<>&B,Type*T,Value*p,ArrayRef<Value*> v,unsigned&k){
    const DataLayout&DL=S.M.getDataLayout();
    if(auto*St=dyn_cast<StructType>(T)){ for(unsigned i=0;i<St->getNumElements();i++) storeAgg(B,St->getElementType(i),B.CreateConstInBoundsGEP2_32(T,p,0,i),v,k); }
    else if(auto*A=dyn_cast<ArrayType>(T)){ for(unsigned i=0;i<A->getNumElements();i++) storeAgg(B,A->getElementType(),B.CreateConstInBoundsGEP2_32(T,p,0,i),v,k); }
    else { Value*s=k<v.size()?v[k]:(Value*)S.Null; k++; B.CreateCall(S.fStore,{p,S.c32(DL.getTypeStoreSize(T)),S.c32(T->isFloatingPointTy()),s,S.c32(S.ok(T)?S.bits(T):64)}); }
  }

  void visit(Instruction*I){
    const DataLayout&DL=S.M.getDataLayout();
    if(isa<PHINode>(I)||isa<LandingPadInst>(I)) return;
    IRBuilder<> B(I); // before
    Instruction*after=I->isTerminator()?nullptr:I->getNextNode();
    auto AB=[&](){ return IRBuilder<>(after); };
    if(auto*A=dyn_cast<AllocaInst>(I)){ auto b=AB(); if(isa<ConstantInt>(A->getArraySize())){ b.CreateCall(S.fAlloca,{A,S.c64(DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue()*cast<ConstantInt>(A->getArraySize())->getZExtValue())}); } else { pinIf(B,A->getArraySize()); b.CreateCall(S.fAlloca,{A,b.CreateMul(b.CreateZExtOrTrunc(A->getArraySize(),S.I64),S.c64(DL.getTypeAllocSize(A->getAllocatedType())))}); } return; }
    if(auto*L=dyn_cast<LoadInst>(I)){ addrIf(B,L->getPointerOperand()); auto b=AB(); Type*T=L->getType();
      if(T->isAggregateType()){ SmallVector<Value*,2> o; loadAgg(b,T,L->getPointerOperand(),o); sh[L]=o; }
      else if(S.ok(T)) set1(L,b.CreateCall(S.fLoad,{L->getPointerOperand(),S.c32(DL.getTypeStoreSize(T)),S.c32(T->isFloatingPointTy()),S.c32(S.bits(T))})); return; }
    if(auto*St=dyn_cast<StoreInst>(I)){ addrIf(B,St->getPointerOperand()); Value*v=St->getValueOperand(); unsigned k=0; storeAgg(B,v->getType(),St->getPointerOperand(),get(v),k); return; }
    if(auto*BO=dyn_cast<BinaryOperator>(I)){ if(!S.ok(I->getType())){ pinIf(B,BO->getOperand(0)); pinIf(B,BO->getOperand(1)); return; }
      Value*a=get1(BO->getOperand(0)),*b=get1(BO->getOperand(1)); if(isNull(a)&&isNull(b)) return;
      Value*av=val64(B,BO->getOperand(0)),*bv=val64(B,BO->getOperand(1)); unsigned w=S.bits(I->getType());
      if(I->getType()->isFloatingPointTy()) set1(I,B.CreateCall(S.fFbin,{S.c32(BO->getOpcode()),S.c32(w),a,av,b,bv}));
      else set1(I,B.CreateCall(S.fBin,{S.c32(BO->getOpcode()),S.c32(w),a,av,b,bv,S.c32(fid)})); return; }
    if(auto*U=dyn_cast<UnaryOperator>(I)){ Value*a=get1(U->getOperand(0)); if(isNull(a)||!S.ok(I->getType())) return; set1(I,B.CreateCall(S.fFun,{S.c32(0),S.c32(S.bits(I->getType())),a})); return; }
    if(auto*Ci=dyn_cast<CmpInst>(I)){ Type*T=Ci->getOperand(0)->getType(); if(!S.ok(T)){ pinIf(B,Ci->getOperand(0)); pinIf(B,Ci->getOperand(1)); return; }
      Value*a=get1(Ci->getOperand(0)),*b=get1(Ci->getOperand(1)); if(isNull(a)&&isNull(b)) return;
      Value*av=val64(B,Ci->getOperand(0)),*bv=val64(B,Ci->getOperand(1));
      set1(I,B.CreateCall(T->isFloatingPointTy()?S.fFcmp:S.fCmp,{S.c32(Ci->getPredicate()),S.c32(S.bits(T)),a,av,b,bv})); return; }
    if(auto*Ca=dyn_cast<CastInst>(I)){ Value*a=get1(Ca->getOperand(0)); if(isNull(a)) return; if(!S.ok(Ca->getType())||!S.ok(Ca->getOperand(0)->getType())){ pinIf(B,Ca->getOperand(0)); return; }
      set1(I,B.CreateCall(S.fCast,{S.c32(Ca->getOpcode()),S.c32(S.bits(Ca->getSrcTy())),S.c32(S.bits(Ca->getDestTy())),a})); return; }
    if(auto*G=dyn_cast<GetElementPtrInst>(I)){
      Value*acc=get1(G->getPointerOperand()); bool any=!isNull(acc);
      for(auto GI=gep_type_begin(G),GE=gep_type_end(G);GI!=GE;++GI){ Value*ix=GI.getOperand(); if(GI.getStructTypeOrNull()||isa<Constant>(ix)) continue; Value*s=get1(ix); if(isNull(s)) continue;
        uint64_t sz=DL.getTypeAllocSize(GI.getIndexedType()); acc=B.CreateCall(S.fGidx,{acc,s,S.c64(sz),S.c32(S.bits(ix->getType()))}); any=true; }
      if(any){ auto b=AB(); set1(G,b.CreateCall(S.fGfin,{acc,G})); } return; }
    if(auto*Se=dyn_cast<SelectInst>(I)){ Value*c=get1(Se->getCondition()); Type*T=Se->getType();
      auto ta=get(Se->getTrueValue()),fa=get(Se->getFalseValue());
      if(T->isAggregateType()||!S.ok(T)){ pinIf(B,Se->getCondition()); unsigned n=S.nleaves(T); SmallVector<Value*,2> o; for(unsigned k=0;k<n;k++) o.push_back(B.CreateSelect(Se->getCondition(),k<ta.size()?ta[k]:(Value*)S.Null,k<fa.size()?fa[k]:(Value*)S.Null)); sh[Se]=o; return; }
      Value*a=get1(Se->getTrueValue()),*b=get1(Se->getFalseValue());
      if(isNull(c)&&isNull(a)&&isNull(b)) return;
      if(isNull(c)){ set1(I,B.CreateSelect(Se->getCondition(),a,b)); return; }
      set1(I,B.CreateCall(S.fSel,{c,B.CreateZExt(Se->getCondition(),S.I32),S.c32(T->isFloatingPointTy()),S.c32(S.bits(T)),a,val64(B,Se->getTrueValue()),b,val64(B,Se->getFalseValue())})); return; }
    if(auto*X=dyn_cast<ExtractValueInst>(I)){ auto a=get(X->getAggregateOperand()); if(a.empty()) return; auto lo=S.leafOff(X->getAggregateOperand()->getType(),X->getIndices()); unsigned n=S.nleaves(lo.second); SmallVector<Value*,2> o; for(unsigned k=0;k<n;k++) o.push_back(lo.first+k<a.size()?a[lo.first+k]:(Value*)S.Null); sh[X]=o; return; }
    if(auto*X=dyn_cast<InsertValueInst>(I)){ auto a=get(X->getAggregateOperand()); auto v=get(X->getInsertedValueOperand()); if(a.empty()&&v.empty()) return; SmallVector<Value*,2> o; unsigned n=S.nleaves(X->getType()); for(unsigned k=0;k<n;k++) o.push_back(k<a.size()?a[k]:(Value*)S.Null); auto lo=S.leafOff(X->getType(),X->getIndices()); unsigned m=S.nleaves(lo.second); for(unsigned k=0;k<m;k++) o[lo.first+k]=k<v.size()?v[k]:(Value*)S.Null; sh[X]=o; return; }
    if(auto*Fr=dyn_cast<FreezeInst>(I)){ auto a=get(Fr->getOperand(0)); if(!a.empty()) sh[Fr]=SmallVector<Value*,2>(a.begin(),a.end()); return; }
    if(auto*Br=dyn_cast<BranchInst>(I)){ if(Br->isConditional()){ Value*c=get1(Br->getCondition()); if(!isNull(c)) B.CreateCall(S.fBr,{c,B.CreateZExt(Br->getCondition(),S.I32),S.c32(fid)}); } return; }
    if(auto*Sw=dyn_cast<SwitchInst>(I)){ Value*c=get1(Sw->getCondition()); if(isNull(c)) return; std::vector<uint64_t> cs; for(auto&k:Sw->cases()) cs.push_back(k.getCaseValue()->getZExtValue());
      auto*G=new GlobalVariable(S.M,ArrayType::get(S.I64,cs.size()),true,GlobalValue::PrivateLinkage,ConstantDataArray::get(S.C,cs),"__symcases");
      B.CreateCall(S.fSw,{c,val64(B,Sw->getCondition()),S.c32(S.bits(Sw->getCondition()->getType())),S.c32(cs.size()),G,S.c32(fid)}); return; }
    if(auto*R=dyn_cast<ReturnInst>(I)){ Value*v=R->getReturnValue(); if(!v) return; auto a=get(v); unsigned n=v->getType()->isAggregateType()?S.nleaves(v->getType()):1; for(unsigned k=0;k<n&&k<8;k++) B.CreateStore(k<a.size()?a[k]:(Value*)S.Null,slot(B,S.Ret,k)); return; }
    if(isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)){ Value*p=I->getOperand(0); addrIf(B,p); for(auto&o:I->operands()) if(o.get()!=p) pinIf(B,o.get()); Type*T=I->getOperand(1)->getType(); auto b=AB(); b.CreateCall(S.fStore,{p,S.c32(DL.getTypeStoreSize(T)),S.c32(0),S.Null,S.c32(64)}); return; }
    if(auto*CB=dyn_cast<CallBase>(I)){ visitCall(CB); return; }
    if(isa<IndirectBrInst>(I)){ pinIf(B,I->getOperand(0)); return; }
    for(auto&o:I->operands()) pinIf(B,o.get());
  }

  void visitCall(CallBase*CB){
    IRBuilder<> B(CB); Instruction*after=CB->isTerminator()?nullptr:CB->getNextNode();
    if(CB->isInlineAsm()) { for(auto&a:CB->args()) pinIf(B,a.get()); return; }
    Function*Fn=CB->getCalledFunction();
    if(auto*II=dyn_cast<IntrinsicInst>(CB)){ intrinsic(II); return; }
    if(Fn&&Fn->getName().starts_with("__sym_")) return;
    bool wrappedFn=false;
    if(Fn&&Fn->isDeclaration()){ 
      static std::set<std::string> W; if(W.empty()) for(const char**p=wrapped;*p;p++) W.insert(*p);
      std::string n=Fn->getName().str();
      if(n.compare(0,7,"__symr_")==0||n.compare(0,7,"__symw_")==0) wrappedFn=true;
      else if(W.count(n)){ auto nf=S.M.getOrInsertFunction("__symw_"+n,Fn->getFunctionType()); CB->setCalledFunction(nf); Fn=cast<Function>(nf.getCallee()); wrappedFn=true; }
    }
    bool ext=Fn&&Fn->isDeclaration()&&!wrappedFn;
    // external but possibly defined in another instrumented module: cannot know here; pinning is wrong for those.
    // Only well-known library symbols are pinned: see runtime's list through __sym_extargs at link time (names not mangled with PSC etc.).
    unsigned i=0; bool any=false;
    for(auto&a:CB->args()){ if(i>=64) break; Value*s=get1(a.get()); if(!isNull(s)) any=true; i++; }
    if(any){ i=0; for(auto&a:CB->args()){ if(i>=64) break; B.CreateStore(get1(a.get()),slot(B,S.Args,i)); i++; } B.CreateStore(CB->getCalledOperand(),S.Token); }
    else B.CreateStore(S.Null,S.Token);
    (void)ext;
    if(!CB->isTerminator()||isa<InvokeInst>(CB)){ if(!Fn||true){ Value*s=get1(CB->getCalledOperand()); if(!isNull(s)) B.CreateCall(S.fAddr,{s,CB->getCalledOperand(),S.c32(fid)}); } }
    Type*T=CB->getType(); if(T->isVoidTy()) return;
    unsigned n=T->isAggregateType()?S.nleaves(T):(S.ok(T)?1:0); if(n>8) n=8; if(!n) return;
    for(unsigned k=0;k<n;k++) B.CreateStore(S.Null,slot(B,S.Ret,k));
    if(auto*CI=dyn_cast<CallInst>(CB)) if(CI->isMustTailCall()) return;
    IRBuilder<> A(S.C); if(auto*In=dyn_cast<InvokeInst>(CB)) A.SetInsertPoint(&*In->getNormalDest()->getFirstInsertionPt()); else A.SetInsertPoint(after);
    SmallVector<Value*,2> o; for(unsigned k=0;k<n;k++) o.push_back(A.CreateLoad(S.P,slot(A,S.Ret,k))); sh[CB]=o;
  }

  void intrinsic(IntrinsicInst*II){
    IRBuilder<> B(II); auto id=II->getIntrinsicID();
    auto w=[&]{return S.bits(II->getType());};
    auto a0=[&](int k){return get1(II->getArgOperand(k));};
    auto v0=[&](int k){return val64(B,II->getArgOperand(k));};
    switch(id){
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: B.CreateCall(S.fMcpy,{II->getArgOperand(0),II->getArgOperand(1),B.CreateZExtOrTrunc(II->getArgOperand(2),S.I64),a0(0),a0(1),a0(2),S.c32(fid)}); return;
      case Intrinsic::memset: case Intrinsic::memset_inline: B.CreateCall(S.fMset,{II->getArgOperand(0),B.CreateZExtOrTrunc(II->getArgOperand(1),S.I32),B.CreateZExtOrTrunc(II->getArgOperand(2),S.I64),a0(0),a0(1),a0(2),S.c32(fid)}); return;
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { if(!S.ok(II->getType())) break; Value*a=a0(0),*b=a0(1); if(isNull(a)&&isNull(b)) return; int k=id==Intrinsic::smax?100:id==Intrinsic::smin?101:id==Intrinsic::umax?102:103; set1(II,B.CreateCall(S.fBin,{S.c32(k),S.c32(w()),a,v0(0),b,v0(1),S.c32(fid)})); return; }
      case Intrinsic::uadd_sat: case Intrinsic::usub_sat: { if(!S.ok(II->getType())) break; Value*a=a0(0),*b=a0(1); if(isNull(a)&&isNull(b)) return; set1(II,B.CreateCall(S.fBin,{S.c32(id==Intrinsic::uadd_sat?105:106),S.c32(w()),a,v0(0),b,v0(1),S.c32(fid)})); return; }
      case Intrinsic::abs: { Value*a=a0(0); if(isNull(a)||!S.ok(II->getType())) break; set1(II,B.CreateCall(S.fBin,{S.c32(104),S.c32(w()),a,v0(0),S.Null,S.c64(0),S.c32(fid)})); return; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        Type*T=II->getArgOperand(0)->getType(); if(!S.ok(T)) break; Value*a=a0(0),*b=a0(1); if(isNull(a)&&isNull(b)) return; unsigned W=S.bits(T);
        int op=(id==Intrinsic::sadd_with_overflow||id==Intrinsic::uadd_with_overflow)?Instruction::Add:(id==Intrinsic::ssub_with_overflow||id==Intrinsic::usub_with_overflow)?Instruction::Sub:Instruction::Mul;
        bool sg=id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow;
        Value*r=B.CreateCall(S.fBin,{S.c32(op),S.c32(W),a,v0(0),b,v0(1),S.c32(fid)}); Value*o=B.CreateCall(S.fOvf,{S.c32(op+(sg?1000:0)),S.c32(W),a,v0(0),b,v0(1)}); sh[II]={r,o}; return; }
      case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::sqrt: case Intrinsic::roundeven: {
        Value*a=a0(0); if(isNull(a)||!S.ok(II->getType())) break; int k=id==Intrinsic::fabs?1:id==Intrinsic::floor?2:id==Intrinsic::ceil?3:id==Intrinsic::trunc?4:id==Intrinsic::round?5:id==Intrinsic::sqrt?7:6; set1(II,B.CreateCall(S.fFun,{S.c32(k),S.c32(w()),a})); return; }
      case Intrinsic::fmuladd: { Value*a=a0(0),*b=a0(1),*c=a0(2); if(!S.ok(II->getType())) break; if(isNull(a)&&isNull(b)&&isNull(c)) return; Value*m=B.CreateCall(S.fFbin,{S.c32(Instruction::FMul),S.c32(w()),a,v0(0),b,v0(1)}); Value*mv=val64(B,B.CreateFMul(II->getArgOperand(0),II->getArgOperand(1))); set1(II,B.CreateCall(S.fFbin,{S.c32(Instruction::FAdd),S.c32(w()),m,mv,c,v0(2)})); return; }
      case Intrinsic::expect: { auto a=get(II->getArgOperand(0)); if(!a.empty()) sh[II]=SmallVector<Value*,2>(a.begin(),a.end()); return; }
      case Intrinsic::launder_invariant_group: case Intrinsic::ptrmask: case Intrinsic::ssa_copy: { auto a=get(II->getArgOperand(0)); if(!a.empty()) sh[II]=SmallVector<Value*,2>(a.begin(),a.end()); return; }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::objectsize: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::is_constant: return;
      default: break;
    }
    for(auto&a:II->args()) if(!isa<MetadataAsValue>(a.get())) pinIf(B,a.get());
  }
};

struct Early : PassInfoMixin<Early> {
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
    if(M.getGlobalVariable("__sym_models_module",true)){ return PreservedAnalyses::none(); }
    for(const char**p=overridden;*p;p++) if(Function*F=M.getFunction(*p)) if(!F->isDeclaration()){ F->deleteBody(); F->setLinkage(GlobalValue::ExternalLinkage); F->setComdat(nullptr); }
    return PreservedAnalyses::none();
  }
  static bool isRequired(){return true;}
};
struct Late : PassInfoMixin<Late> {
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
    if(M.getGlobalVariable("__sym_runtime_module",true)) return PreservedAnalyses::all();
    Sym S(M); std::vector<Function*> fs; for(auto&F:M) if(!F.isDeclaration()&&!F.hasAvailableExternallyLinkage()&&!F.getName().starts_with("__sym")) fs.push_back(&F);
    // function table of this module for reporting
    std::vector<Constant*> names; IRBuilder<> B(M.getContext());
    auto*Base=new GlobalVariable(M,S.I32,false,GlobalValue::PrivateLinkage,ConstantInt::get(S.I32,0),"__symfbase");
    (void)Base; int k=0;
    static uint32_t h; 
    for(auto*F:fs){ std::string n=F->getName().str(); uint32_t x=2166136261u; for(char c:n) x=(x^(unsigned char)c)*16777619u; (void)h; int fid=(int)(x&0x7fffffff);
      names.push_back(ConstantStruct::getAnon({ConstantInt::get(S.I32,fid),ConstantExpr::getBitCast(B.CreateGlobalString(n,"__symfn",0,&M),S.P)})); FnSym(S,*F,fid).run(); k++; }
    if(!names.empty()){ auto*AT=ArrayType::get(names[0]->getType(),names.size()); auto*G=new GlobalVariable(M,AT,true,GlobalValue::PrivateLinkage,ConstantArray::get(AT,names),"__symftab");
      Function*Ct=Function::Create(FunctionType::get(S.V,false),GlobalValue::InternalLinkage,"__symctor",&M); IRBuilder<> CB(BasicBlock::Create(M.getContext(),"e",Ct)); CB.CreateCall(M.getOrInsertFunction("__sym_regfns",S.V,S.P,S.I32),{G,S.c32(names.size())}); CB.CreateRetVoid(); appendToGlobalCtors(M,Ct,0); }
    return PreservedAnalyses::none();
  }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"symcx","1",[](PassBuilder&PB){
    PB.registerPipelineStartEPCallback([](ModulePassManager&MPM,OptimizationLevel){ MPM.addPass(Early()); });
    PB.registerOptimizerLastEPCallback([](ModulePassManager&MPM,OptimizationLevel){ MPM.addPass(Late()); });
  }};
}
