// irdump: read an LLVM bitcode module (clang 18) and write a JSON rendering that the
// Python verifier reads.  Purely mechanical: no transformation of the code.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <functional>
#include <map>
#include <set>
using namespace llvm;
static const DataLayout* DL; static raw_ostream* O;
static std::map<Type*,int> tyid; static std::vector<Type*> tys;
static std::string esc(StringRef s){ std::string r="\""; for(unsigned char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;} else r+=c;} return r+"\""; }
static int T(Type*t){ auto it=tyid.find(t); if(it!=tyid.end()) return it->second; int k=tys.size(); tyid[t]=k; tys.push_back(t);
  if(auto*s=dyn_cast<StructType>(t)) for(auto*e:s->elements()) T(e);
  if(auto*a=dyn_cast<ArrayType>(t)) T(a->getElementType());
  if(auto*a=dyn_cast<FixedVectorType>(t)) T(a->getElementType());
  return k; }
static std::string constant(Constant*c);
static std::string gepParts(const GEPOperator*g, std::function<std::string(Value*)> val){
  // ["gep", base, constoff, [[idx,scale]...]]
  
  std::string r="["; 
  // do by hand to stay total
  int64_t off=0; std::string dyn; bool first=true;
  for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*ix=it.getOperand();
    if(auto*st=it.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
    int64_t sc=DL->getTypeAllocSize(it.getIndexedType());
    if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*sc;
    else { if(!first) dyn+=","; first=false; dyn+="["+val(ix)+","+std::to_string(sc)+","+std::to_string(ix->getType()->getIntegerBitWidth())+"]"; } }
  return "[\"gep\","+val(const_cast<Value*>(g->getPointerOperand()))+","+std::to_string(off)+",["+dyn+"]]";
}
static std::string constant(Constant*c){
  if(auto*ci=dyn_cast<ConstantInt>(c)){ SmallString<40> s; ci->getValue().toStringUnsigned(s); return "[\"c\","+std::string(s)+","+std::to_string(ci->getBitWidth())+"]"; }
  if(isa<ConstantPointerNull>(c)) return "[\"c\",0,64]";
  if(isa<UndefValue>(c)||isa<PoisonValue>(c)) return "[\"undef\","+std::to_string(T(c->getType()))+"]";
  if(auto*g=dyn_cast<GlobalAlias>(c)) return constant(const_cast<Constant*>(cast<Constant>(g->getAliasee())));
  if(auto*g=dyn_cast<GlobalValue>(c)) return "[\"g\","+esc(g->getName())+"]";
  if(isa<ConstantAggregateZero>(c)) return "[\"zero\","+std::to_string(T(c->getType()))+"]";
  if(auto*cf=dyn_cast<ConstantFP>(c)){ SmallString<40> s; cf->getValueAPF().bitcastToAPInt().toStringUnsigned(s); return "[\"fp\","+std::string(s)+"]"; }
  if(isa<ConstantTokenNone>(c)) return "[\"token\"]";
  if(auto*ca=dyn_cast<ConstantAggregate>(c)){ std::string r="[\"agg\","+std::to_string(T(c->getType()))+",["; for(unsigned i=0;i<ca->getNumOperands();i++){ if(i)r+=","; r+=constant(ca->getOperand(i)); } return r+"]]"; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ std::string r="[\"agg\","+std::to_string(T(c->getType()))+",["; for(unsigned i=0;i<cd->getNumElements();i++){ if(i)r+=","; r+=constant(cd->getElementAsConstant(i)); } return r+"]]"; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(auto*g=dyn_cast<GEPOperator>(ce)) return gepParts(g,[](Value*v){return constant(cast<Constant>(v));});
    std::string r="[\"ce\",\""+std::string(ce->getOpcodeName())+"\","+std::to_string(T(ce->getType()))+",["; for(unsigned i=0;i<ce->getNumOperands();i++){ if(i)r+=","; r+=constant(ce->getOperand(i)); } return r+"]]"; }
  if(auto*d=dyn_cast<DSOLocalEquivalent>(c)) return constant(d->getGlobalValue());
  if(auto*d=dyn_cast<NoCFIValue>(c)) return constant(d->getGlobalValue());
  return "[\"unk\"]";
}
static std::map<const Value*,int> ids;
static std::string V(Value*v){
  if(auto*c=dyn_cast<Constant>(v)) return constant(c);
  if(isa<MetadataAsValue>(v)) return "[\"md\"]";
  if(isa<InlineAsm>(v)) return "[\"asm\","+esc(cast<InlineAsm>(v)->getAsmString())+"]";
  if(isa<BasicBlock>(v)) return "[\"bb\","+std::to_string(ids[v])+"]";
  auto it=ids.find(v); if(it==ids.end()) return "[\"unk\"]"; return "[\"v\","+std::to_string(it->second)+"]";
}
static const char* ord(AtomicOrdering o){ switch(o){case AtomicOrdering::NotAtomic:return "na";case AtomicOrdering::Unordered:return "unordered";case AtomicOrdering::Monotonic:return "relaxed";case AtomicOrdering::Acquire:return "acquire";case AtomicOrdering::Release:return "release";case AtomicOrdering::AcquireRelease:return "acq_rel";case AtomicOrdering::SequentiallyConsistent:return "seq_cst";} return "?"; }
static std::string diTypeName(const DIType*t,int depth=0){ if(!t) return "void"; if(depth>6) return "...";
  if(auto*d=dyn_cast<DIDerivedType>(t)){ switch(d->getTag()){ case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType(),depth+1)+"*"; case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType(),depth+1)+"&"; case dwarf::DW_TAG_const_type: return "const "+diTypeName(d->getBaseType(),depth+1); case dwarf::DW_TAG_typedef: return d->getName().str()+"="+diTypeName(d->getBaseType(),depth+1); default: return d->getName().str(); } }
  std::string s=t->getName().str(); const DIScope*sc=t->getScope(); while(sc&&!isa<DIFile>(sc)&&!isa<DICompileUnit>(sc)){ if(!sc->getName().empty()) s=sc->getName().str()+"::"+s; sc=sc->getScope(); } return s; }
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic e; auto M=parseIRFile(argv[1],e,C); if(!M){ e.print("irdump",errs()); return 2; }
  std::error_code ec; raw_fd_ostream out(argc>2?argv[2]:"-",ec); O=&out; DL=&M->getDataLayout();
  out<<"{\"globals\":[";
  bool f0=true;
  for(auto&g:M->globals()){ if(!f0) out<<",\n"; f0=false; Type*vt=g.getValueType();
    out<<"{\"n\":"<<esc(g.getName())<<",\"sz\":"<<(vt->isSized()?(uint64_t)DL->getTypeAllocSize(vt).getFixedValue():0)<<",\"al\":"<<(g.getAlign()?g.getAlign()->value():DL->getABITypeAlign(vt).value())<<",\"c\":"<<(g.isConstant()?1:0)<<",\"tls\":"<<(g.isThreadLocal()?1:0)<<",\"ty\":"<<T(vt)<<",\"init\":"<<(g.hasInitializer()?constant(g.getInitializer()):std::string("null"))<<"}"; }
  out<<"],\n\"functions\":[\n";
  f0=true;
  for(auto&F:*M){ if(!f0) out<<",\n"; f0=false; ids.clear(); int k=0; std::string args="[";
    for(auto&a:F.args()){ if(k) args+=","; ids[&a]=k++; args+=std::to_string(T(a.getType())); }
    args+="]"; std::string attrs="["; for(auto&a:F.args()){ if(attrs.size()>1) attrs+=","; attrs+= a.hasStructRetAttr()?"\"sret\"": a.hasByValAttr()?("\"byval"+std::to_string((uint64_t)DL->getTypeAllocSize(a.getParamByValType()))+"\""):"\"\""; } attrs+="]";
    std::string dfile; int dline=0; if(auto*sp=F.getSubprogram()){ dfile=(sp->getDirectory()+"/"+sp->getFilename()).str(); if(sp->getFilename().starts_with("/")) dfile=sp->getFilename().str(); dline=sp->getLine(); }
    out<<"{\"n\":"<<esc(F.getName())<<",\"d\":"<<esc(demangle(F.getName().str()))<<",\"args\":"<<args<<",\"attrs\":"<<attrs<<",\"ret\":"<<T(F.getReturnType())<<",\"va\":"<<(F.isVarArg()?1:0)<<",\"file\":"<<esc(dfile)<<",\"line\":"<<dline<<",\"noret\":"<<(F.doesNotReturn()?1:0)<<",\"nounwind\":"<<(F.doesNotThrow()?1:0);
    if(!F.isDeclaration()){
      int b=0; for(auto&B:F){ ids[&B]=b++; for(auto&I:B) ids[&I]=k++; }
      out<<",\"blocks\":[";
      bool fb=true;
      for(auto&B:F){ if(!fb) out<<",\n"; fb=false; out<<"["; bool fi=true;
        for(auto&I:B){
          if(isa<DbgInfoIntrinsic>(I)) continue;
          if(!fi) out<<",\n "; fi=false;
          out<<"{\"o\":\""<<I.getOpcodeName()<<"\",\"id\":"<<ids[&I]<<",\"ty\":"<<T(I.getType());
          if(auto&dl=I.getDebugLoc()) { out<<",\"ln\":"<<dl.getLine(); if(auto*sc=dl->getScope()) out<<",\"fl\":"<<esc(sc->getFilename()); }
          auto ops=[&](){ out<<",\"a\":["; for(unsigned i=0;i<I.getNumOperands();i++){ if(i) out<<","; out<<V(I.getOperand(i)); } out<<"]"; };
          if(auto*x=dyn_cast<GetElementPtrInst>(&I)) out<<",\"gep\":"<<gepParts(cast<GEPOperator>(x),[](Value*v){return V(v);});
          else if(auto*x=dyn_cast<LoadInst>(&I)){ ops(); out<<",\"sz\":"<<DL->getTypeStoreSize(x->getType())<<",\"ord\":\""<<ord(x->getOrdering())<<"\""; }
          else if(auto*x=dyn_cast<StoreInst>(&I)){ ops(); out<<",\"vt\":"<<T(x->getValueOperand()->getType())<<",\"sz\":"<<DL->getTypeStoreSize(x->getValueOperand()->getType())<<",\"ord\":\""<<ord(x->getOrdering())<<"\""; }
          else if(auto*x=dyn_cast<AtomicRMWInst>(&I)){ ops(); out<<",\"rmw\":\""<<AtomicRMWInst::getOperationName(x->getOperation()).str()<<"\",\"ord\":\""<<ord(x->getOrdering())<<"\",\"sz\":"<<DL->getTypeStoreSize(x->getType()); }
          else if(auto*x=dyn_cast<AtomicCmpXchgInst>(&I)){ ops(); out<<",\"weak\":"<<(x->isWeak()?1:0)<<",\"ord\":\""<<ord(x->getSuccessOrdering())<<"\",\"ford\":\""<<ord(x->getFailureOrdering())<<"\",\"sz\":"<<DL->getTypeStoreSize(x->getNewValOperand()->getType())<<",\"vt\":"<<T(x->getNewValOperand()->getType()); }
          else if(auto*x=dyn_cast<FenceInst>(&I)) out<<",\"ord\":\""<<ord(x->getOrdering())<<"\"";
          else if(auto*x=dyn_cast<AllocaInst>(&I)){ out<<",\"sz\":"<<DL->getTypeAllocSize(x->getAllocatedType())<<",\"n\":"<<V(x->getArraySize())<<",\"al\":"<<x->getAlign().value(); }
          else if(auto*x=dyn_cast<PHINode>(&I)){ out<<",\"in\":["; for(unsigned i=0;i<x->getNumIncomingValues();i++){ if(i) out<<","; out<<"["<<ids[x->getIncomingBlock(i)]<<","<<V(x->getIncomingValue(i))<<"]"; } out<<"]"; }
          else if(auto*x=dyn_cast<CmpInst>(&I)){ ops(); out<<",\"p\":\""<<CmpInst::getPredicateName(x->getPredicate()).str()<<"\",\"vt\":"<<T(x->getOperand(0)->getType()); }
          else if(auto*x=dyn_cast<BranchInst>(&I)){ if(x->isConditional()) out<<",\"c\":"<<V(x->getCondition())<<",\"t\":"<<ids[x->getSuccessor(0)]<<",\"f\":"<<ids[x->getSuccessor(1)]; else out<<",\"t\":"<<ids[x->getSuccessor(0)]; }
          else if(auto*x=dyn_cast<SwitchInst>(&I)){ out<<",\"c\":"<<V(x->getCondition())<<",\"w\":"<<x->getCondition()->getType()->getIntegerBitWidth()<<",\"def\":"<<ids[x->getDefaultDest()]<<",\"cs\":["; bool fc=true; for(auto&cs:x->cases()){ if(!fc) out<<","; fc=false; out<<"["<<cs.getCaseValue()->getZExtValue()<<","<<ids[cs.getCaseSuccessor()]<<"]"; } out<<"]"; }
          else if(auto*x=dyn_cast<ExtractValueInst>(&I)){ ops(); out<<",\"ix\":["; for(unsigned i=0;i<x->getNumIndices();i++){ if(i) out<<","; out<<x->getIndices()[i]; } out<<"]"; }
          else if(auto*x=dyn_cast<InsertValueInst>(&I)){ ops(); out<<",\"ix\":["; for(unsigned i=0;i<x->getNumIndices();i++){ if(i) out<<","; out<<x->getIndices()[i]; } out<<"]"; }
          else if(auto*x=dyn_cast<LandingPadInst>(&I)){ out<<",\"cleanup\":"<<(x->isCleanup()?1:0)<<",\"cl\":["; for(unsigned i=0;i<x->getNumClauses();i++){ if(i) out<<","; out<<"[\""<<(x->isCatch(i)?"catch":"filter")<<"\","<<constant(x->getClause(i))<<"]"; } out<<"]"; }
          else if(auto*x=dyn_cast<CallBase>(&I)){
            out<<",\"f\":"<<V(x->getCalledOperand())<<",\"a\":["; for(unsigned i=0;i<x->arg_size();i++){ if(i) out<<","; out<<V(x->getArgOperand(i)); } out<<"],\"at\":["; for(unsigned i=0;i<x->arg_size();i++){ if(i) out<<","; out<<(x->getArgOperand(i)->getType()->isMetadataTy()?-1:T(x->getArgOperand(i)->getType())); } out<<"]";
            bool anyb=false; std::string bv="["; for(unsigned i=0;i<x->arg_size();i++){ if(i) bv+=","; if(x->isByValArgument(i)){ anyb=true; bv+=std::to_string((uint64_t)DL->getTypeAllocSize(x->getParamByValType(i))); } else bv+="0"; } bv+="]"; if(anyb) out<<",\"bv\":"<<bv;
            if(auto*iv=dyn_cast<InvokeInst>(x)) out<<",\"nd\":"<<ids[iv->getNormalDest()]<<",\"ud\":"<<ids[iv->getUnwindDest()];
            if(auto*ci=dyn_cast<CallInst>(x)) if(ci->isMustTailCall()) out<<",\"mt\":1";
          }
          else { ops(); if(I.getNumOperands()) out<<",\"vt\":"<<T(I.getOperand(0)->getType()); if(auto*ov=dyn_cast<OverflowingBinaryOperator>(&I)) out<<",\"nsw\":"<<ov->hasNoSignedWrap()<<",\"nuw\":"<<ov->hasNoUnsignedWrap(); }
          out<<"}"; }
        out<<"]"; }
      out<<"]"; }
    out<<"}"; }
  out<<"],\n\"types\":[";
  for(size_t i=0;i<tys.size();i++){ if(i) out<<",\n"; Type*t=tys[i];
    if(t->isIntegerTy()) out<<"{\"k\":\"i\",\"w\":"<<t->getIntegerBitWidth()<<",\"sz\":"<<DL->getTypeStoreSize(t)<<"}";
    else if(t->isPointerTy()) out<<"{\"k\":\"p\",\"w\":64,\"sz\":8}";
    else if(t->isVoidTy()) out<<"{\"k\":\"v\"}";
    else if(auto*s=dyn_cast<StructType>(t)){ out<<"{\"k\":\"s\",\"n\":"<<esc(s->hasName()?s->getName():"")<<",\"e\":["; for(unsigned j=0;j<s->getNumElements();j++){ if(j) out<<","; out<<T(s->getElementType(j)); } out<<"]"; if(s->isSized()){ out<<",\"of\":["; auto*L=DL->getStructLayout(s); for(unsigned j=0;j<s->getNumElements();j++){ if(j) out<<","; out<<(uint64_t)L->getElementOffset(j).getFixedValue(); } out<<"],\"sz\":"<<DL->getTypeAllocSize(s); } out<<"}"; }
    else if(auto*a=dyn_cast<ArrayType>(t)) out<<"{\"k\":\"a\",\"e\":"<<T(a->getElementType())<<",\"n\":"<<a->getNumElements()<<",\"sz\":"<<DL->getTypeAllocSize(a)<<",\"es\":"<<DL->getTypeAllocSize(a->getElementType())<<"}";
    else if(auto*a=dyn_cast<FixedVectorType>(t)) out<<"{\"k\":\"vec\",\"e\":"<<T(a->getElementType())<<",\"n\":"<<a->getNumElements()<<",\"sz\":"<<DL->getTypeStoreSize(a)<<"}";
    else if(t->isFloatTy()) out<<"{\"k\":\"f\",\"w\":32,\"sz\":4}"; else if(t->isDoubleTy()) out<<"{\"k\":\"f\",\"w\":64,\"sz\":8}";
    else { std::string s; raw_string_ostream ss(s); t->print(ss); out<<"{\"k\":\"o\",\"s\":"<<esc(ss.str())<<"}"; } }
  out<<"],\n\"di\":{";
  DebugInfoFinder F; F.processModule(*M); f0=true; std::set<std::string> seen;
  for(auto*t:F.types()){ auto*c=dyn_cast<DICompositeType>(t); if(!c||c->isForwardDecl()) continue; if(c->getTag()!=dwarf::DW_TAG_class_type&&c->getTag()!=dwarf::DW_TAG_structure_type&&c->getTag()!=dwarf::DW_TAG_union_type) continue;
    std::string n=diTypeName(c); if(n.find("macoro")==std::string::npos && n.find("vp")==std::string::npos && n.find("stop_")==std::string::npos) continue; if(!seen.insert(n).second) continue;
    if(!f0) out<<",\n"; f0=false; out<<esc(n)<<":{\"sz\":"<<c->getSizeInBits()/8<<",\"m\":["; bool fm=true;
    for(auto*el:c->getElements()){ auto*d=dyn_cast<DIDerivedType>(el); if(!d) continue; if(d->getTag()==dwarf::DW_TAG_member&&!d->isStaticMember()){ if(!fm) out<<","; fm=false; out<<"["<<esc(d->getName())<<","<<d->getOffsetInBits()/8<<","<<esc(diTypeName(d->getBaseType()))<<","<<d->getSizeInBits()/8<<"]"; } else if(d->getTag()==dwarf::DW_TAG_inheritance){ if(!fm) out<<","; fm=false; out<<"[\"<base>\","<<d->getOffsetInBits()/8<<","<<esc(diTypeName(d->getBaseType()))<<",0]"; } }
    out<<"]}"; }
  out<<"}}\n"; out.flush(); return 0; }
