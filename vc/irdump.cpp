// irdump: LLVM bitcode/IR -> JSON, for the contract VC generator.
// usage: irdump in.bc root1 root2 ...   (dumps everything reachable from the roots)
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/Support/JSON.h>
#include <map>
#include <set>
#include <deque>
#include <string>
using namespace llvm;
typedef json::Value J;
typedef json::Array A;
typedef json::Object O;

static Module *M; static const DataLayout *DL;
static std::map<Type*, int> tyid; static A types;
static std::set<const GlobalValue*> seen; static std::deque<const GlobalValue*> work;

static int ty(Type *t){
  auto it = tyid.find(t); if(it!=tyid.end()) return it->second;
  O o;
  if(t->isIntegerTy()){ o["k"]="int"; o["w"]=(int64_t)t->getIntegerBitWidth(); o["size"]=(int64_t)DL->getTypeAllocSize(t); }
  else if(t->isPointerTy()){ o["k"]="ptr"; o["size"]=8; }
  else if(t->isFloatTy()){ o["k"]="fp"; o["w"]=32; o["size"]=4; }
  else if(t->isDoubleTy()){ o["k"]="fp"; o["w"]=64; o["size"]=8; }
  else if(t->isX86_FP80Ty()){ o["k"]="fp"; o["w"]=80; o["size"]=16; }
  else if(t->isVoidTy()){ o["k"]="void"; o["size"]=0; }
  else if(auto *s=dyn_cast<StructType>(t)){
    o["k"]="struct"; 
    if(s->isOpaque()){ o["size"]=0; o["elems"]=A(); o["offs"]=A(); }
    else { auto *L=DL->getStructLayout(s); A e,f; for(unsigned i=0;i<s->getNumElements();i++){ e.push_back(ty(s->getElementType(i))); f.push_back((int64_t)(uint64_t)L->getElementOffset(i)); }
      o["elems"]=std::move(e); o["offs"]=std::move(f); o["size"]=(int64_t)(uint64_t)DL->getTypeAllocSize(t); if(s->hasName()) o["name"]=s->getName().str(); }
  } else if(auto *a=dyn_cast<ArrayType>(t)){ o["k"]="array"; o["elem"]=ty(a->getElementType()); o["n"]=(int64_t)a->getNumElements(); o["size"]=(int64_t)(uint64_t)DL->getTypeAllocSize(t);}
  else if(auto *v=dyn_cast<FixedVectorType>(t)){ o["k"]="vec"; o["elem"]=ty(v->getElementType()); o["n"]=(int64_t)v->getNumElements(); o["size"]=(int64_t)(uint64_t)DL->getTypeAllocSize(t);}
  else { o["k"]="other"; o["size"]=0; }
  int id=(int)types.size(); types.push_back(std::move(o)); tyid[t]=id; return id;
}
static void need(const GlobalValue *g){ if(seen.insert(g).second) work.push_back(g); }

static J apint(const APInt &v){ SmallString<40> s; v.toStringUnsigned(s); if(v.getBitWidth()<=32) return J((int64_t)v.getZExtValue()); return J(std::string(s.str())); }

static J cst(const Constant *c){
  A r; 
  if(auto *ci=dyn_cast<ConstantInt>(c)){ r=A({"i",(int64_t)ci->getBitWidth(),apint(ci->getValue())}); return r; }
  if(isa<ConstantPointerNull>(c)){ r=A({"n"}); return r; }
  if(isa<UndefValue>(c)||isa<PoisonValue>(c)){ r=A({"u",ty(c->getType())}); return r; }
  if(isa<ConstantAggregateZero>(c)){ r=A({"z",ty(c->getType())}); return r; }
  if(auto *f=dyn_cast<ConstantFP>(c)){ r=A({"f",(int64_t)c->getType()->getPrimitiveSizeInBits().getFixedValue(), apint(f->getValueAPF().bitcastToAPInt())}); return r; }
  if(auto *g=dyn_cast<GlobalValue>(c)){
    if(auto *al=dyn_cast<GlobalAlias>(g)) return cst(al->getAliasee());
    need(g); r=A({"g",g->getName().str(),0}); return r; }
  if(auto *d=dyn_cast<ConstantDataSequential>(c)){
    if(d->isString(8)||(d->getElementType()->isIntegerTy(8))){ std::string h; static const char*x="0123456789abcdef"; for(unsigned char ch: d->getRawDataValues()){h+=x[ch>>4];h+=x[ch&15];} r=A({"b",ty(c->getType()),h}); return r; }
    A e; for(unsigned i=0;i<d->getNumElements();i++) e.push_back(cst(d->getElementAsConstant(i))); r=A({"a",ty(c->getType())}); r.push_back(std::move(e)); return r; }
  if(isa<ConstantArray>(c)||isa<ConstantStruct>(c)||isa<ConstantVector>(c)){ A e; for(auto &o: c->operands()) e.push_back(cst(cast<Constant>(&o))); r=A({"a",ty(c->getType())}); r.push_back(std::move(e)); return r; }
  if(auto *ce=dyn_cast<ConstantExpr>(c)){
    if(auto *gep=dyn_cast<GEPOperator>(ce)){ APInt off(64,0); if(gep->accumulateConstantOffset(*DL,off)){ r=A({"ce","add",cst(cast<Constant>(gep->getPointerOperand())),(int64_t)off.getSExtValue()}); return r; } }
    if(ce->isCast()){ r=A({"ce",ce->getOpcodeName(),cst(ce->getOperand(0)),ty(ce->getType())}); return r; }
    A e; for(auto &o: ce->operands()) e.push_back(cst(cast<Constant>(&o)));
    r=A({"ce2",ce->getOpcodeName(),ty(ce->getType())}); r.push_back(std::move(e)); return r;
  }
  r=A({"u",ty(c->getType())}); return r;
}

static void dumpFn(const Function *F, A &out){
  O fo; fo["name"]=F->getName().str(); fo["dem"]=demangle(F->getName().str()); fo["ret"]=ty(F->getReturnType()); fo["va"]=F->isVarArg();
  A args; for(auto &a: F->args()){ O ao; ao["t"]=ty(a.getType()); if(a.hasByValAttr()) ao["byval"]=(int64_t)(uint64_t)DL->getTypeAllocSize(a.getParamByValType()); if(a.hasStructRetAttr()) ao["sret"]=true; args.push_back(std::move(ao)); }
  fo["args"]=std::move(args); fo["decl"]=F->isDeclaration();
  if(F->isDeclaration()){ out.push_back(std::move(fo)); return; }
  std::map<const Value*,int> reg; int n=0; for(auto &a: F->args()) reg[&a]=n++;
  std::map<const BasicBlock*,int> bbid; int b=0; for(auto &B:*F){ bbid[&B]=b++; for(auto &I:B) if(!I.getType()->isVoidTy()) reg[&I]=n++; }
  fo["nreg"]=n;
  auto op=[&](const Value *v)->J{ 
    if(auto *c=dyn_cast<Constant>(v)) return cst(c);
    if(isa<MetadataAsValue>(v)) return A{"md"};
    if(isa<InlineAsm>(v)) return A{"asm"};
    if(auto *bb=dyn_cast<BasicBlock>(v)) return A{"bb",bbid[bb]};
    return A{"r",reg[v]}; };
  A blocks;
  for(auto &B:*F){ A insts; 
    for(auto &I:B){
      if(isa<DbgInfoIntrinsic>(I)) continue;
      O o; o["op"]=I.getOpcodeName(); if(!I.getType()->isVoidTy()) o["id"]=reg[&I]; o["t"]=ty(I.getType());
      if(auto &dl=I.getDebugLoc()){ o["ln"]=(int64_t)dl.getLine(); if(auto *s=dyn_cast_or_null<DIScope>(dl.getScope())) o["fl"]=s->getFilename().str(); }
      if(auto *p=dyn_cast<PHINode>(&I)){ A in; for(unsigned i=0;i<p->getNumIncomingValues();i++) in.push_back(A{bbid[p->getIncomingBlock(i)],op(p->getIncomingValue(i))}); o["in"]=std::move(in); }
      else if(auto *g=dyn_cast<GetElementPtrInst>(&I)){
        unsigned bw=64; MapVector<Value*,APInt> var; APInt c(64,0);
        if(!cast<GEPOperator>(g)->collectOffset(*DL,bw,var,c)) { o["bad"]=true; }
        o["base"]=op(g->getPointerOperand()); o["off"]=c.getSExtValue(); A v; for(auto &kv:var) v.push_back(A{op(kv.first),(int64_t)kv.first->getType()->getIntegerBitWidth(),(int64_t)kv.second.getSExtValue()}); o["var"]=std::move(v);
      } else if(auto *sw=dyn_cast<SwitchInst>(&I)){ o["c"]=op(sw->getCondition()); o["w"]=(int64_t)sw->getCondition()->getType()->getIntegerBitWidth(); o["def"]=bbid[sw->getDefaultDest()]; A cs; for(auto &k: sw->cases()) cs.push_back(A{apint(k.getCaseValue()->getValue()),bbid[k.getCaseSuccessor()]}); o["cases"]=std::move(cs); }
      else if(auto *br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ o["c"]=op(br->getCondition()); o["bt"]=bbid[br->getSuccessor(0)]; o["bf"]=bbid[br->getSuccessor(1)]; } else o["b"]=bbid[br->getSuccessor(0)]; }
      else if(auto *cb=dyn_cast<CallBase>(&I)){
        A av; for(auto &a: cb->args()) av.push_back(op(a.get())); o["args"]=std::move(av); o["f"]=op(cb->getCalledOperand());
        A at; for(auto &a: cb->args()) at.push_back(a->getType()->isMetadataTy()? -1: ty(a->getType())); o["at"]=std::move(at);
        A bv; bool any=false; for(unsigned i=0;i<cb->arg_size();i++){ int64_t s=0; if(cb->isByValArgument(i)){ s=(int64_t)(uint64_t)DL->getTypeAllocSize(cb->getParamByValType(i)); any=true;} bv.push_back(s);} if(any) o["bv"]=std::move(bv);
        if(auto *iv=dyn_cast<InvokeInst>(&I)){ o["nd"]=bbid[iv->getNormalDest()]; o["ud"]=bbid[iv->getUnwindDest()]; }
      } else if(auto *lp=dyn_cast<LandingPadInst>(&I)){ A cl; for(unsigned i=0;i<lp->getNumClauses();i++) cl.push_back(A{lp->isCatch(i)?"catch":"filter",cst(lp->getClause(i))}); o["cl"]=std::move(cl); o["cleanup"]=lp->isCleanup(); }
      else {
        A ops; for(auto &u: I.operands()) ops.push_back(op(u.get())); o["ops"]=std::move(ops);
        if(auto *c=dyn_cast<CmpInst>(&I)){ o["p"]=CmpInst::getPredicateName(c->getPredicate()).str(); o["ot"]=ty(c->getOperand(0)->getType()); }
        if(auto *a=dyn_cast<AllocaInst>(&I)){ o["at"]=ty(a->getAllocatedType()); o["sz"]=(int64_t)(uint64_t)DL->getTypeAllocSize(a->getAllocatedType()); }
        if(auto *e=dyn_cast<ExtractValueInst>(&I)){ A ix; for(unsigned k: e->indices()) ix.push_back((int64_t)k); o["ix"]=std::move(ix);} 
        if(auto *e=dyn_cast<InsertValueInst>(&I)){ A ix; for(unsigned k: e->indices()) ix.push_back((int64_t)k); o["ix"]=std::move(ix);} 
        if(auto *c=dyn_cast<CastInst>(&I)) o["st"]=ty(c->getSrcTy());
        if(auto *s=dyn_cast<StoreInst>(&I)) o["vt"]=ty(s->getValueOperand()->getType());
        if(auto *rm=dyn_cast<AtomicRMWInst>(&I)) o["rm"]=AtomicRMWInst::getOperationName(rm->getOperation()).str();
        if(auto *bo=dyn_cast<OverflowingBinaryOperator>(&I)) o["nsw"]=bo->hasNoSignedWrap();
      }
      insts.push_back(std::move(o));
    }
    blocks.push_back(std::move(insts)); }
  fo["blocks"]=std::move(blocks); out.push_back(std::move(fo));
}

int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto mod=parseIRFile(argv[1],E,C); if(!mod){ E.print("irdump",errs()); return 2; }
  M=mod.get(); DL=&M->getDataLayout();
  for(int i=2;i<argc;i++){ auto *f=M->getNamedValue(argv[i]); if(!f){ errs()<<"irdump: no root "<<argv[i]<<"\n"; return 3; } need(f); }
  if(auto *ctors=M->getGlobalVariable("llvm.global_ctors")) need(ctors);
  A fns,gls;
  while(!work.empty()){ auto *g=work.front(); work.pop_front();
    if(auto *f=dyn_cast<Function>(g)) dumpFn(f,fns);
    else if(auto *v=dyn_cast<GlobalVariable>(g)){ O o; o["name"]=v->getName().str(); o["size"]=(int64_t)(v->getValueType()->isSized()?(uint64_t)DL->getTypeAllocSize(v->getValueType()):0); o["t"]=ty(v->getValueType()); o["const"]=v->isConstant(); if(v->hasInitializer()) o["init"]=cst(v->getInitializer()); gls.push_back(std::move(o)); }
  }
  O top; top["types"]=std::move(types); top["functions"]=std::move(fns); top["globals"]=std::move(gls);
  outs()<<J(std::move(top)); return 0; }
