#include <regex>
#include <set>
#include "llvm/IR/CFG.h"
#include "llvm/Bitcode/BitcodeWriter.h"
// irdump: mechanical translation of an LLVM-18 module to JSON for the VC generator.
// Nothing is dropped except: debug info, metadata, attributes other than the ones printed,
// fast-math flags, alignment, atomic orderings.
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
using namespace llvm;
static const DataLayout *DL;
static raw_ostream *O;
static std::string q(StringRef s){ std::string r="\""; for(unsigned char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c;} return r+"\""; }
static std::string ty(Type*t){
  if(t->isPointerTy()) return "ptr";
  if(t->isDoubleTy()) return "f64"; if(t->isFloatTy()) return "f32"; if(t->isX86_FP80Ty()) return "f80";
  if(t->isVoidTy()) return "void";
  if(t->isIntegerTy()) return "i"+std::to_string(t->getIntegerBitWidth());
  std::string s; 
  if(auto*st=dyn_cast<StructType>(t)){ if(st->isOpaque()) return "opaque"; s="{"; auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++){ if(i)s+=","; s+=std::to_string((uint64_t)sl->getElementOffset(i))+":"+ty(st->getElementType(i)); } return s+"}#"+std::to_string((uint64_t)sl->getSizeInBytes()); }
  if(auto*at=dyn_cast<ArrayType>(t)) return "["+std::to_string(at->getNumElements())+"x"+ty(at->getElementType())+"]";
  if(auto*vt=dyn_cast<FixedVectorType>(t)) return "<"+std::to_string(vt->getNumElements())+"x"+ty(vt->getElementType())+">";
  raw_string_ostream os(s); t->print(os); return s;
}
static std::map<const Value*,int> ids;
static std::string prefix;
static std::string gname(const GlobalValue*g){ std::string n=g->getName().str(); if(g->hasLocalLinkage()) n=prefix+"::"+n; return n; }
static std::string val(const Value*v);
static std::string cst(const Constant*c){
  if(auto*ci=dyn_cast<ConstantInt>(c)){ SmallString<32> s; ci->getValue().toStringUnsigned(s); return "[\"i\","+std::to_string(ci->getBitWidth())+","+std::string(s)+"]"; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ if(cf->getType()->isDoubleTy()||cf->getType()->isFloatTy()){ bool li; APFloat f=cf->getValueAPF(); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return "[\"f\",\""+ty(cf->getType())+"\","+std::to_string(f.bitcastToAPInt().getZExtValue())+"]"; } return "[\"u\",\"f80\"]"; }
  if(isa<ConstantPointerNull>(c)) return "[\"null\"]";
  if(isa<UndefValue>(c)) return "[\"u\","+q(ty(c->getType()))+"]";
  if(auto*ga=dyn_cast<GlobalAlias>(c)) return cst(ga->getAliasee());
  if(auto*g=dyn_cast<GlobalValue>(c)) return "[\"g\","+q(gname(g))+",0]";
  if(isa<ConstantAggregateZero>(c)) return "[\"z\","+q(ty(c->getType()))+"]";
  if(auto*ca=dyn_cast<ConstantAggregate>(c)){ std::string s="[\"agg\","+q(ty(c->getType()))+",["; for(unsigned i=0;i<ca->getNumOperands();i++){ if(i)s+=","; s+=cst(ca->getOperand(i)); } return s+"]]"; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ std::string s="[\"agg\","+q(ty(c->getType()))+",["; for(unsigned i=0;i<cd->getNumElements();i++){ if(i)s+=","; s+=cst(cd->getElementAsConstant(i)); } return s+"]]"; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    APInt off(64,0);
    const Value*b=c->stripAndAccumulateConstantOffsets(*DL,off,true);
    if(b!=c) if(auto*g=dyn_cast<GlobalValue>(b)){ if(auto*ga=dyn_cast<GlobalAlias>(g)) g=dyn_cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()); return "[\"g\","+q(gname(g))+","+std::to_string(off.getSExtValue())+"]"; }
    std::string s="[\"ce\","+q(ce->getOpcodeName())+","+q(ty(ce->getType()))+",["; for(unsigned i=0;i<ce->getNumOperands();i++){ if(i)s+=","; s+=cst(ce->getOperand(i)); } return s+"]]";
  }
  return "[\"u\","+q(ty(c->getType()))+"]";
}
static std::string val(const Value*v){
  if(auto*c=dyn_cast<Constant>(v)) return cst(c);
  if(isa<InlineAsm>(v)) return "[\"asm\"]";
  if(isa<MetadataAsValue>(v)) return "[\"md\"]";
  auto it=ids.find(v); int id=it==ids.end()?-1:it->second;
  return "[\"r\","+std::to_string(id)+"]";
}
static void bb(std::string&s,const BasicBlock*b){ s+=std::to_string(ids[b]); }
// marks small libstdc++ functions (never repository code) alwaysinline, so that iterators live in registers
static int prep(const char*in,const char*outp){
  LLVMContext C; SMDiagnostic e; auto M=parseIRFile(in,e,C); if(!M){ e.print("irdump",errs()); return 1; }
  std::regex ex("basic_string|basic_.*stream|basic_ios|SaIc|char_traits|(pool|mt)_alloc.*allocate|__throw|locale|ios_base|exception|_Rb_tree_(insert|increment|decrement|rebalance)|8_Rb_tree|3mapI|8functionI");
  for(auto&F: *M){
    if(F.isDeclaration()||F.isVarArg()) continue;
    StringRef n=F.getName();
    if(!(n.starts_with("_ZSt")||n.starts_with("_ZNSt")||n.starts_with("_ZNKSt")||n.starts_with("_ZN9__gnu_cxx")||n.starts_with("_ZNK9__gnu_cxx"))) continue;
    if(std::regex_search(n.str(),ex)) continue;
    unsigned cnt=0; bool bad=false; std::set<const BasicBlock*> seen;
    for(auto&b: F){ seen.insert(&b); for(auto&i: b){ cnt++; if(auto*c=dyn_cast<CallBase>(&i)) if(c->getCalledFunction()==&F) bad=true; if(isa<AllocaInst>(i)) continue; }
      for(auto*s: successors(&b)) if(seen.count(s)) bad=true; }
    if(bad||cnt>60) continue;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::AlwaysInline);
  }
  std::error_code ec; raw_fd_ostream os(outp,ec); WriteBitcodeToFile(*M,os); return 0;
}
int main(int argc,char**argv){
  if(argc==4 && std::string(argv[1])=="--prep") return prep(argv[2],argv[3]);
  if(argc<3){ errs()<<"usage: irdump in.bc prefix > out.json\n"; return 2; }
  LLVMContext C; SMDiagnostic e; auto M=parseIRFile(argv[1],e,C); if(!M){ e.print("irdump",errs()); return 1; }
  prefix=argv[2]; DL=&M->getDataLayout(); raw_ostream&o=outs(); O=&o;
  o<<"{\"globals\":{"; bool first=true;
  for(auto&g: M->globals()){ if(!first)o<<",\n"; first=false;
    Type*t=g.getValueType(); uint64_t sz=t->isSized()?DL->getTypeAllocSize(t).getFixedValue():0;
    o<<q(gname(&g))<<":{\"size\":"<<sz<<",\"type\":"<<q(ty(t))<<",\"const\":"<<(g.isConstant()?1:0)<<",\"linkage\":"<<(int)g.getLinkage();
    if(g.hasInitializer()) o<<",\"init\":"<<cst(g.getInitializer());
    o<<"}"; }
  o<<"},\n\"aliases\":{"; first=true;
  for(auto&a: M->aliases()){ if(!first)o<<",\n"; first=false; o<<q(gname(&a))<<":"<<cst(a.getAliasee()); }
  o<<"},\n\"functions\":{"; first=true;
  for(auto&F: *M){
    if(F.isDeclaration()) continue;
    if(!first)o<<",\n"; first=false;
    ids.clear(); int n=0; 
    o<<q(gname(&F))<<":{\"ret\":"<<q(ty(F.getReturnType()))<<",\"linkage\":"<<(int)F.getLinkage()<<",\"params\":[";
    bool f2=true; for(auto&a: F.args()){ ids[&a]=n++; if(!f2)o<<","; f2=false; o<<"["<<ids[&a]<<","<<q(ty(a.getType()))<<","<<(a.hasByValAttr()? DL->getTypeAllocSize(a.getParamByValType()).getFixedValue():0)<<","<<q(a.getName())<<"]"; }
    int nb=0; for(auto&b: F){ ids[&b]=nb++; for(auto&i: b) ids[&i]=n++; }
    o<<"],\"vararg\":"<<(F.isVarArg()?1:0)<<",\"blocks\":["; f2=true;
    for(auto&b: F){ if(!f2)o<<",\n"; f2=false; o<<"["; bool f3=true;
      for(auto&I: b){ if(isa<DbgInfoIntrinsic>(I)) continue; 
        std::string s; std::string id=std::to_string(ids[&I]);
        if(auto*p=dyn_cast<PHINode>(&I)){ s="[\"phi\","+id+","+q(ty(p->getType()))+",["; for(unsigned i=0;i<p->getNumIncomingValues();i++){ if(i)s+=","; s+="["; bb(s,p->getIncomingBlock(i)); s+=","+val(p->getIncomingValue(i))+"]"; } s+="]]"; }
        else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){
          int64_t off=0; std::string v; bool ok=true;
          for(auto it=gep_type_begin(g);it!=gep_type_end(g);++it){ Value*op=it.getOperand();
            if(auto*st=it.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); }
            else { uint64_t sz=DL->getTypeAllocSize(it.getIndexedType()).getFixedValue(); if(auto*ci=dyn_cast<ConstantInt>(op)) off+=ci->getSExtValue()*(int64_t)sz; else { if(!v.empty())v+=","; v+="["+val(op)+","+std::to_string(sz)+"]"; } } }
          s="[\"gep\","+id+","+val(g->getPointerOperand())+","+std::to_string(off)+",["+v+"]]"; }
        else if(auto*a=dyn_cast<AllocaInst>(&I)) s="[\"alloca\","+id+","+std::to_string((uint64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue())+","+val(a->getArraySize())+"]";
        else if(auto*l=dyn_cast<LoadInst>(&I)) s="[\"load\","+id+","+q(ty(l->getType()))+","+val(l->getPointerOperand())+"]";
        else if(auto*l=dyn_cast<StoreInst>(&I)) s="[\"store\","+id+","+q(ty(l->getValueOperand()->getType()))+","+val(l->getValueOperand())+","+val(l->getPointerOperand())+"]";
        else if(auto*c=dyn_cast<CallBase>(&I)){
          s=std::string("[\"")+(isa<InvokeInst>(c)?"invoke":"call")+"\","+id+","+q(ty(c->getType()))+",";
          Value*cv=c->getCalledOperand()->stripPointerCasts(); s+=val(cv)+",["; for(unsigned i=0;i<c->arg_size();i++){ if(i)s+=","; s+=val(c->getArgOperand(i)); } s+="],[";
          for(unsigned i=0;i<c->arg_size();i++){ if(i)s+=","; s+=q(ty(c->getArgOperand(i)->getType())); } s+="]";
          if(auto*iv=dyn_cast<InvokeInst>(c)){ s+=","; bb(s,iv->getNormalDest()); s+=","; bb(s,iv->getUnwindDest()); }
          s+="]"; }
        else if(auto*c=dyn_cast<CmpInst>(&I)) s="[\"cmp\","+id+","+q(CmpInst::getPredicateName(c->getPredicate()))+","+q(ty(c->getOperand(0)->getType()))+","+val(c->getOperand(0))+","+val(c->getOperand(1))+"]";
        else if(auto*b=dyn_cast<BinaryOperator>(&I)){ int fl=0; if(isa<OverflowingBinaryOperator>(b)){ if(b->hasNoSignedWrap())fl|=1; if(b->hasNoUnsignedWrap())fl|=2; } if(isa<PossiblyExactOperator>(b)&&b->isExact())fl|=4; s="[\"bin\","+id+","+q(b->getOpcodeName())+","+q(ty(b->getType()))+","+val(b->getOperand(0))+","+val(b->getOperand(1))+","+std::to_string(fl)+"]"; }
        else if(auto*c=dyn_cast<CastInst>(&I)) s="[\"cast\","+id+","+q(c->getOpcodeName())+","+q(ty(c->getSrcTy()))+","+q(ty(c->getDestTy()))+","+val(c->getOperand(0))+"]";
        else if(auto*c=dyn_cast<SelectInst>(&I)) s="[\"select\","+id+","+q(ty(c->getType()))+","+val(c->getCondition())+","+val(c->getTrueValue())+","+val(c->getFalseValue())+"]";
        else if(auto*c=dyn_cast<BranchInst>(&I)){ if(c->isConditional()){ s="[\"cbr\","+val(c->getCondition())+","; bb(s,c->getSuccessor(0)); s+=","; bb(s,c->getSuccessor(1)); s+="]"; } else { s="[\"br\","; bb(s,c->getSuccessor(0)); s+="]"; } }
        else if(auto*c=dyn_cast<SwitchInst>(&I)){ s="[\"switch\","+val(c->getCondition())+","; bb(s,c->getDefaultDest()); s+=",["; bool f=true; for(auto&k: c->cases()){ if(!f)s+=","; f=false; s+="["+val(k.getCaseValue())+","; bb(s,k.getCaseSuccessor()); s+="]"; } s+="]]"; }
        else if(auto*c=dyn_cast<ReturnInst>(&I)) s="[\"ret\","+(c->getReturnValue()?val(c->getReturnValue()):std::string("null"))+","+q(c->getReturnValue()?ty(c->getReturnValue()->getType()):std::string("void"))+"]";
        else if(isa<UnreachableInst>(I)) s="[\"unreachable\"]";
        else if(isa<ResumeInst>(I)) s="[\"resume\","+val(I.getOperand(0))+"]";
        else if(auto*l=dyn_cast<LandingPadInst>(&I)){ s="[\"landingpad\","+id+","+(l->isCleanup()?"1":"0")+",["; for(unsigned i=0;i<l->getNumClauses();i++){ if(i)s+=","; s+=std::string("[")+(l->isCatch(i)?"1":"0")+","+cst(l->getClause(i))+"]"; } s+="]]"; }
        else if(auto*x=dyn_cast<ExtractValueInst>(&I)){ s="[\"extractvalue\","+id+","+val(x->getAggregateOperand())+",["; for(unsigned i=0;i<x->getNumIndices();i++){ if(i)s+=","; s+=std::to_string(x->getIndices()[i]); } s+="]]"; }
        else if(auto*x=dyn_cast<InsertValueInst>(&I)){ s="[\"insertvalue\","+id+","+q(ty(x->getType()))+","+val(x->getAggregateOperand())+","+val(x->getInsertedValueOperand())+",["; for(unsigned i=0;i<x->getNumIndices();i++){ if(i)s+=","; s+=std::to_string(x->getIndices()[i]); } s+="]]"; }
        else if(auto*x=dyn_cast<FreezeInst>(&I)) s="[\"freeze\","+id+","+val(x->getOperand(0))+"]";
        else if(I.getOpcode()==Instruction::FNeg) s="[\"fneg\","+id+","+q(ty(I.getType()))+","+val(I.getOperand(0))+"]";
        else if(auto*x=dyn_cast<AtomicRMWInst>(&I)) s="[\"atomicrmw\","+id+","+q(AtomicRMWInst::getOperationName(x->getOperation()))+","+q(ty(x->getType()))+","+val(x->getPointerOperand())+","+val(x->getValOperand())+"]";
        else if(auto*x=dyn_cast<AtomicCmpXchgInst>(&I)) s="[\"cmpxchg\","+id+","+q(ty(x->getCompareOperand()->getType()))+","+val(x->getPointerOperand())+","+val(x->getCompareOperand())+","+val(x->getNewValOperand())+"]";
        else if(isa<FenceInst>(I)) continue;
        else if(I.getOpcode()==Instruction::ExtractElement||I.getOpcode()==Instruction::InsertElement||I.getOpcode()==Instruction::ShuffleVector){ s=std::string("[\"")+I.getOpcodeName()+"\","+id+","+q(ty(I.getType())); for(auto&op: I.operands()) s+=","+val(op); if(auto*sv=dyn_cast<ShuffleVectorInst>(&I)){ s+=",["; bool f=true; for(int m: sv->getShuffleMask()){ if(!f)s+=","; f=false; s+=std::to_string(m);} s+="]"; } s+="]"; }
        else s=std::string("[\"unsup\",")+id+","+q(I.getOpcodeName())+"]";
        if(!f3)o<<",\n"; f3=false; o<<s;
      }
      o<<"]"; }
    o<<"]}"; }
  o<<"},\n\"decls\":["; first=true;
  for(auto&F: *M) if(F.isDeclaration()){ if(!first)o<<","; first=false; o<<q(gname(&F)); }
  o<<"]}\n"; return 0;
}
