// irdump: links LLVM bitcode modules, normalises them (annotates field
// accesses from debug info, inlines every non-boundary function, promotes
// memory to SSA) and writes the result as JSON for the Python checkers.
// usage: irdump OUT.json KEEPFILE in1.bc in2.bc ...
//   KEEPFILE: names of functions that form analysis boundaries (one per
//   line).  Lines "-name" force inlining of name, the line "**" keeps everything, "*" keeps all
//   functions with external linkage.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/ADT/SCCIterator.h"
#include <fstream>
#include <set>
#include <map>
using namespace llvm;

static std::map<std::string, const DICompositeType*> Comp;
static std::string baseName(StringRef n){
  for (const char *p : {"struct.","union.","class."}) if (n.starts_with(p)) { n = n.drop_front(strlen(p)); break; }
  std::string s = n.str();
  size_t d = s.rfind('.');
  if (d != std::string::npos && d+1 < s.size() && s.find_first_not_of("0123456789", d+1) == std::string::npos) s = s.substr(0,d);
  return s;
}
static const DIType* strip(const DIType *t){
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      unsigned tag = d->getTag();
      if (tag==dwarf::DW_TAG_typedef||tag==dwarf::DW_TAG_const_type||tag==dwarf::DW_TAG_volatile_type||tag==dwarf::DW_TAG_member) { t = d->getBaseType(); continue; }
    }
    break;
  }
  return t;
}
static std::string fieldAt(const DICompositeType *c, uint64_t bitoff, const DICompositeType **sub){
  *sub = nullptr;
  if (!c) return "";
  for (auto *e : c->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(e);
    if (!m || m->getTag()!=dwarf::DW_TAG_member) continue;
    if (m->getOffsetInBits()==bitoff) {
      const DIType *bt = strip(m->getBaseType());
      // arrays: element type
      if (auto *ct = dyn_cast_or_null<DICompositeType>(bt)) {
        if (ct->getTag()==dwarf::DW_TAG_array_type) { bt = strip(ct->getBaseType()); }
      }
      *sub = dyn_cast_or_null<DICompositeType>(bt);
      return m->getName().str();
    }
  }
  return "";
}
// textual field path of a GEP, e.g. "db_memsegment_header.locks.tail"
static std::string gepPath(const GEPOperator *g, const DataLayout &DL){
  std::string path;
  const DICompositeType *c = nullptr; bool inside=false;
  Type *t = g->getSourceElementType();
  unsigned n=0;
  for (auto it = g->idx_begin(); it != g->idx_end(); ++it, ++n) {
    if (n==0) {
      continue;
    }
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *ci = dyn_cast<ConstantInt>(*it);
      unsigned idx = ci ? ci->getZExtValue() : 0;
      if (!inside || !c) {
        std::string nm = st->hasName()? baseName(st->getName()) : "anon";
        auto f = Comp.find(nm);
        c = f==Comp.end()? nullptr : f->second;
        if (!inside) path = nm;
      }
      const DICompositeType *sub=nullptr;
      std::string fn = c? fieldAt(c, DL.getStructLayout(st)->getElementOffset(idx)*8, &sub) : "";
      if (fn.empty()) fn = std::to_string(idx);
      path += "." + fn;
      c = sub; inside = true;
      t = st->getElementType(idx);
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      if (!inside) { path = "array"; inside=true; }
      path += "[]";
      t = at->getElementType();
    } else break;
  }
  return path;
}
static std::string ptrPath(const Value *p, const DataLayout &DL){
  // pointer operand: follow GEP chain while it names fields
  std::string res;
  for (int i=0;i<8;i++) {
    auto *g = dyn_cast<GEPOperator>(p);
    if (!g) break;
    std::string s = gepPath(g, DL);
    if (s.empty()) break;
    if (res.empty()) res = s;
    else {
      size_t d = res.find_first_of(".[");
      res = s + (d==std::string::npos? "" : res.substr(d));
    }
    p = g->getPointerOperand();
  }
  return res;
}

static std::string md(const Instruction *I, const char *n){ auto *m=I->getMetadata(n); return m? cast<MDString>(m->getOperand(0))->getString().str() : ""; }
// B: path found after normalisation, M: path written before it (zero-offset steps may be missing from B)
static std::string mergePath(const std::string &B, const std::string &M){
  if (M.empty() || B==M) return B;
  if (B.empty()) return M;
  auto root=[](const std::string &x){ return x.substr(0,x.find_first_of(".[")); };
  if (root(B)==root(M)) return M.size()>=B.size()? M : B;
  size_t ld=B.rfind('.'); std::string b=ld==std::string::npos? B : B.substr(ld+1);
  while (b.size()>2 && b.substr(b.size()-2)=="[]") b=b.substr(0,b.size()-2);
  for (size_t e=M.size(), p; (p=M.rfind('.',e))!=std::string::npos; e=p-1) {
    std::string c=M.substr(p+1); c=c.substr(0,c.find_first_of(".["));
    if (c==b && ld!=std::string::npos) { std::string r=B.substr(0,ld+1)+M.substr(p+1); return r.size()>=B.size()? r : B; }
    if (p==0) break;
  }
  size_t d=M.find('.');
  return d==std::string::npos? B : B+M.substr(d);
}
// path of a pointer after inlining and promotion: local pointer variables and
// parameters that point into a structure are seen through
static std::string fullPath(const Value *p, const DataLayout &DL, int depth=0){
  if (depth>12) return "";
  if (auto *g=dyn_cast<GetElementPtrInst>(p)) {
    std::string own=md(g,"own"), base=fullPath(g->getPointerOperand(),DL,depth+1);
    if (own.empty()) return (base.size()>2 && base.substr(base.size()-2)=="[]" && !g->getSourceElementType()->isIntegerTy(8)) ? base : "";
    if (base.empty()) return own;
    size_t d=own.find_first_of(".[");
    return mergePath(base+(d==std::string::npos? "" : own.substr(d)), md(g,"fld"));
  }
  if (auto *g=dyn_cast<GEPOperator>(p)) return ptrPath(g,DL);
  if (auto *f=dyn_cast<PHINode>(p)) {
    std::string r;
    for (auto &v:f->incoming_values()) { std::string s=fullPath(v,DL,depth+4); if (s.empty() || (!r.empty() && s!=r)) return ""; r=s; }
    return r;
  }
  return "";
}

struct Dumper {
  Module &M; const DataLayout &DL; raw_ostream &os; json::OStream J;
  std::map<const Value*,int> id;
  Dumper(Module&m, raw_ostream&o):M(m),DL(m.getDataLayout()),os(o),J(o){}
  void op(const Value *v, int depth=0){
    if (auto *c = dyn_cast<ConstantInt>(v)) {
      J.array([&]{ J.value("c");
        if (c->getBitWidth()==1) J.value((int64_t)c->getZExtValue()); else if (c->getBitWidth()<=64) J.value(c->getSExtValue()); else J.value(0);
        J.value((int64_t)c->getBitWidth()); });
    } else if (isa<ConstantPointerNull>(v)) { J.array([&]{J.value("c");J.value(0);J.value(64);J.value("null");}); }
    else if (auto *f = dyn_cast<Function>(v)) { J.array([&]{J.value("f");J.value(f->getName());}); }
    else if (auto *g = dyn_cast<GlobalVariable>(v)) {
      if (g->hasInitializer()) if (auto *cd = dyn_cast<ConstantDataArray>(g->getInitializer())) if (cd->isString() && g->isConstant() && g->hasPrivateLinkage()) {
        std::string s = cd->getAsString().str();
        if (!s.empty() && s.back()==0) s.pop_back();
        J.array([&]{J.value("s");J.value(json::fixUTF8(s));J.value((int64_t)cd->getNumElements());}); return; }
      if (g->hasInitializer() && g->hasPrivateLinkage() && g->isConstant() && isa<ConstantAggregateZero>(g->getInitializer())) {
        J.array([&]{J.value("s");J.value("");J.value(1);}); return; }
      J.array([&]{J.value("g");J.value(g->getName());J.value((int64_t)DL.getTypeAllocSize(g->getValueType()));});
    }
    else if (isa<UndefValue>(v)) { J.array([&]{J.value("u");}); }
    else if (auto *cf = dyn_cast<ConstantFP>(v)) { SmallString<32> s; cf->getValueAPF().toString(s); J.array([&]{J.value("fp");J.value(s.str());}); }
    else if (auto *ce = dyn_cast<ConstantExpr>(v)) {
      J.array([&]{J.value("ce");J.value(ce->getOpcodeName());
        if (auto *g = dyn_cast<GEPOperator>(ce)) J.value(ptrPath(g,DL)); else J.value("");
        for (auto &o : ce->operands()) op(o, depth+1);});
    }
    else { auto it=id.find(v); if (it!=id.end()) J.value((int64_t)it->second); else J.array([&]{J.value("x");}); }
  }
  std::string ty(Type *t){ std::string s; raw_string_ostream o(s); 
    if (auto *st=dyn_cast<StructType>(t)) { if (st->hasName()) { return "%"+baseName(st->getName()); } }
    t->print(o); return o.str(); }
  void loc(const Instruction &I){
    const DILocation *l = I.getDebugLoc().get();
    if (!l) return;
    J.attributeBegin("l");
    J.arrayBegin();
    // innermost first
    for (const DILocation *x=l; x; x=x->getInlinedAt()) {
      J.value(x->getScope()->getSubprogram()? x->getScope()->getSubprogram()->getName():"");
      J.value(x->getFilename()); J.value((int64_t)x->getLine());
    }
    J.arrayEnd(); J.attributeEnd();
  }
  void fn(Function &F){
    id.clear(); int n=0;
    for (auto &a:F.args()) id[&a]=n++;
    std::map<const BasicBlock*,int> bid; int b=0;
    for (auto &B:F){ bid[&B]=b++; for (auto &I:B) id[&I]=n++; }
    std::map<int,std::string> names;
    for (auto &B:F) for (auto &I:B) if (auto *d=dyn_cast<DbgVariableIntrinsic>(&I)) {
      for (auto *v : d->location_ops()) { auto it=id.find(v); if (it!=id.end() && !names.count(it->second)) names[it->second]=d->getVariable()->getName().str(); }
    }
    J.object([&]{
      J.attribute("name",F.getName());
      J.attribute("internal",F.hasLocalLinkage());
      J.attribute("addrtaken",F.hasAddressTaken());
      auto *sp=F.getSubprogram();
      J.attribute("srcname", sp? sp->getName():F.getName());
      J.attribute("file", sp? sp->getFilename():"");
      J.attribute("line", (int64_t)(sp? sp->getLine():0));
      J.attribute("ret", ty(F.getReturnType()));
      J.attribute("vararg", F.isVarArg());
      J.attributeArray("args",[&]{ for (auto &a:F.args()) J.array([&]{ auto it=names.find(id[&a]); J.value(it==names.end()? a.getName().str():it->second); J.value(ty(a.getType())); }); });
      J.attributeArray("blocks",[&]{
        for (auto &B:F) J.array([&]{
          for (auto &I:B) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            if (auto *ii=dyn_cast<IntrinsicInst>(&I)) if (ii->isLifetimeStartOrEnd() || ii->getIntrinsicID()==Intrinsic::assume) continue;
            J.object([&]{
              J.attribute("i",(int64_t)id[&I]);
              J.attribute("o",I.getOpcodeName());
              J.attribute("t",ty(I.getType()));
              auto nm=names.find(id[&I]); if (nm!=names.end()) J.attribute("n",nm->second);
              loc(I);
              if (auto *m=I.getMetadata("fld")) J.attribute("fld", cast<MDString>(m->getOperand(0))->getString());
              if (auto *phi=dyn_cast<PHINode>(&I)) {
                J.attributeArray("a",[&]{ for (unsigned k=0;k<phi->getNumIncomingValues();k++) op(phi->getIncomingValue(k)); });
                J.attributeArray("p",[&]{ for (unsigned k=0;k<phi->getNumIncomingValues();k++) J.value((int64_t)bid[phi->getIncomingBlock(k)]); });
                return;
              }
              if (auto *cb=dyn_cast<CallBase>(&I)) {
                J.attributeBegin("f"); 
                if (cb->isInlineAsm()) J.array([&]{J.value("asm"); J.value(cast<InlineAsm>(cb->getCalledOperand())->getAsmString());});
                else op(cb->getCalledOperand()->stripPointerCasts());
                J.attributeEnd();
                J.attributeArray("a",[&]{ for (auto &a:cb->args()) op(a); });
                J.attributeArray("at",[&]{ for (auto &a:cb->args()) J.value(ty(a->getType())); });
                return;
              }
              if (auto *c=dyn_cast<ICmpInst>(&I)) { J.attribute("pred",CmpInst::getPredicateName(c->getPredicate())); }
              if (auto *c=dyn_cast<FCmpInst>(&I)) { J.attribute("pred",CmpInst::getPredicateName(c->getPredicate())); }
              if (auto *br=dyn_cast<BranchInst>(&I)) {
                J.attributeArray("a",[&]{ if (br->isConditional()) op(br->getCondition()); });
                J.attributeArray("s",[&]{ for (unsigned k=0;k<br->getNumSuccessors();k++) J.value((int64_t)bid[br->getSuccessor(k)]); });
                return;
              }
              if (auto *sw=dyn_cast<SwitchInst>(&I)) {
                J.attributeArray("a",[&]{ op(sw->getCondition()); });
                J.attribute("def",(int64_t)bid[sw->getDefaultDest()]);
                J.attributeArray("cases",[&]{ for (auto &c:sw->cases()) J.array([&]{ J.value(c.getCaseValue()->getSExtValue()); J.value((int64_t)bid[c.getCaseSuccessor()]); }); });
                return;
              }
              if (auto *g=dyn_cast<GetElementPtrInst>(&I)) {
                J.attribute("st",ty(g->getSourceElementType()));
                APInt off(64,0);
                MapVector<Value*,APInt> vo;
                if (g->collectOffset(DL,64,vo,off)) {
                  J.attribute("off",off.getSExtValue());
                  J.attributeArray("vo",[&]{ for (auto &kv:vo) J.array([&]{ op(kv.first); J.value(kv.second.getSExtValue()); }); });
                }
                J.attribute("inb", g->isInBounds());
                J.attributeArray("dims",[&]{ // array bounds met on the way
                  Type *t=g->getSourceElementType(); unsigned k=0;
                  for (auto it=g->idx_begin(); it!=g->idx_end(); ++it,++k) {
                    if (k==0) continue;
                    if (auto *st=dyn_cast<StructType>(t)) t=st->getElementType(cast<ConstantInt>(*it)->getZExtValue());
                    else if (auto *at=dyn_cast<ArrayType>(t)) { J.array([&]{ op(*it); J.value((int64_t)at->getNumElements()); }); t=at->getElementType(); }
                    else break;
                  }
                });
              }
              if (auto *a=dyn_cast<AllocaInst>(&I)) { J.attribute("size",(int64_t)DL.getTypeAllocSize(a->getAllocatedType())); J.attribute("at",ty(a->getAllocatedType())); }
              if (auto *l=dyn_cast<LoadInst>(&I)) { if (l->isVolatile()) J.attribute("vol",true); }
              if (auto *l=dyn_cast<StoreInst>(&I)) { if (l->isVolatile()) J.attribute("vol",true); J.attribute("vt",ty(l->getValueOperand()->getType())); }
              if (auto *x=dyn_cast<AtomicRMWInst>(&I)) { J.attribute("rmw",AtomicRMWInst::getOperationName(x->getOperation())); }
              if (auto *e=dyn_cast<ExtractValueInst>(&I)) { J.attribute("idx",(int64_t)e->getIndices()[0]); }
              J.attributeArray("a",[&]{ for (auto &o:I.operands()) if (!isa<BasicBlock>(o)) op(o); });
            });
          }
        });
      });
    });
  }
};

int main(int argc,char**argv){
  if (argc<4) return 2;
  LLVMContext C; SMDiagnostic err;
  std::set<std::string> keep, force; bool star=false, all=false;
  { std::ifstream f(argv[2]); std::string l; while (std::getline(f,l)) { if (l.empty()) continue; if (l=="*") star=true; else if (l=="**") all=true; else if (l[0]=='-') force.insert(l.substr(1)); else keep.insert(l); } }
  std::unique_ptr<Module> M;
  for (int i=3;i<argc;i++) {
    auto m=parseIRFile(argv[i],err,C);
    if (!m) { err.print("irdump",errs()); return 2; }
    Comp.clear();
  const DataLayout &DL=m->getDataLayout();
  DebugInfoFinder D; D.processModule(*m);
  for (auto *t:D.types()) {
    if (auto *c=dyn_cast<DICompositeType>(t)) { if (!c->getName().empty() && !c->isForwardDecl()) Comp.emplace(c->getName().str(),c); }
    else if (auto *d=dyn_cast<DIDerivedType>(t)) if (d->getTag()==dwarf::DW_TAG_typedef) {
      if (auto *c=dyn_cast_or_null<DICompositeType>(strip(d))) if (!c->isForwardDecl()) Comp.emplace(d->getName().str(),c);
    }
  }
  // annotate field accesses
  for (auto &F:*m) for (auto &I:instructions(F)) {
    const Value *p=nullptr;
    if (auto *l=dyn_cast<LoadInst>(&I)) p=l->getPointerOperand();
    else if (auto *s=dyn_cast<StoreInst>(&I)) p=s->getPointerOperand();
    else if (auto *x=dyn_cast<AtomicCmpXchgInst>(&I)) p=x->getPointerOperand();
    else if (auto *x=dyn_cast<AtomicRMWInst>(&I)) p=x->getPointerOperand();
    else if (auto *g=dyn_cast<GetElementPtrInst>(&I)) p=g;
    if (!p) continue;
    std::string s=ptrPath(p,DL);
    if (!s.empty()) I.setMetadata("fld",MDNode::get(C,MDString::get(C,s)));
    if (auto *g=dyn_cast<GetElementPtrInst>(&I)) { s=gepPath(cast<GEPOperator>(g),DL); if (!s.empty()) I.setMetadata("own",MDNode::get(C,MDString::get(C,s))); }
  }
    if (!M) M=std::move(m);
    else if (Linker::linkModules(*M,std::move(m))) { errs()<<"link failed "<<argv[i]<<"\n"; return 2; }
  }
  const DataLayout &DL=M->getDataLayout();
  // recursion
  std::set<Function*> rec;
  { CallGraph CG(*M);
    for (auto it=scc_begin(&CG); !it.isAtEnd(); ++it) {
      bool loop = it.hasCycle();
      if (loop) for (auto *n:*it) if (n->getFunction()) rec.insert(n->getFunction());
    } }
  for (auto &F:*M) {
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::AlwaysInline);
    for (auto &B:F) for (auto &I:B) if (auto *cb=dyn_cast<CallBase>(&I)) cb->removeFnAttr(Attribute::NoInline);
    if (F.isDeclaration() || F.isVarArg() || rec.count(&F)) continue;
    std::string n=F.getName().str();
    bool k = keep.count(n) || all || (star && !F.hasLocalLinkage());
    if (F.getName()=="main") k=true;
    if (force.count(n)) k=false;
    if (!k) { F.addFnAttr(Attribute::AlwaysInline); F.setLinkage(GlobalValue::InternalLinkage); }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  ModulePassManager MPM;
  MPM.addPass(AlwaysInlinerPass(false));
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(PromotePass());
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(*M,MAM);
  // arithmetic on constants that inlining has brought together
  for (auto &F:*M) for (bool again=true; again;) {
    again=false;
    for (auto &B:F) for (auto it=B.begin(); it!=B.end();) {
      Instruction &I=*it++;
      if (!isa<CastInst>(I) && !isa<BinaryOperator>(I)) continue;
      if (!I.getType()->isIntegerTy()) continue;
      bool k=true; for (auto &o:I.operands()) if (!isa<ConstantInt>(o)) k=false;
      if (!k) continue;
      if (Constant *c=ConstantFoldInstruction(&I,DL)) if (isa<ConstantInt>(c)) { I.replaceAllUsesWith(c); I.eraseFromParent(); again=true; }
    }
  }
  // name the accesses again, now that local pointers and parameters are resolved
  { std::vector<std::pair<Instruction*,std::string>> upd;
    for (auto &F:*M) for (auto &I:instructions(F)) {
      const Value *p=nullptr;
      if (auto *l=dyn_cast<LoadInst>(&I)) p=l->getPointerOperand();
      else if (auto *s=dyn_cast<StoreInst>(&I)) p=s->getPointerOperand();
      else if (auto *x=dyn_cast<AtomicCmpXchgInst>(&I)) p=x->getPointerOperand();
      else if (auto *x=dyn_cast<AtomicRMWInst>(&I)) p=x->getPointerOperand();
      else if (auto *g=dyn_cast<GetElementPtrInst>(&I)) p=g;
      if (!p) continue;
      std::string s=fullPath(p,DL);
      if (!s.empty()) s=mergePath(s,md(&I,"fld"));
      if (!s.empty() && s!=md(&I,"fld")) upd.push_back({&I,s});
    }
    for (auto &u:upd) u.first->setMetadata("fld",MDNode::get(C,MDString::get(C,u.second)));
  }
  if (verifyModule(*M,&errs())) return 2;
  std::error_code ec; raw_fd_ostream os(argv[1],ec);
  if (ec) { errs()<<ec.message()<<"\n"; return 2; }
  Dumper d(*M,os);
  d.J.object([&]{
    d.J.attributeArray("functions",[&]{ for (auto &F:*M) if (!F.isDeclaration()) d.fn(F); });
    d.J.attributeArray("globals",[&]{ for (auto &g:M->globals()) if (!g.hasPrivateLinkage()) d.J.array([&]{ d.J.value(g.getName()); d.J.value((int64_t)DL.getTypeAllocSize(g.getValueType())); d.J.value(g.isConstant());
       d.J.arrayBegin(); if (g.hasInitializer()) { std::vector<const Constant*> st{g.getInitializer()}; std::set<const Constant*> seen; while(!st.empty()){auto*c=st.back();st.pop_back(); if(!seen.insert(c).second)continue; if(auto*f=dyn_cast<Function>(c)) d.J.value(f->getName()); else for (auto &o:c->operands()) if (auto*cc=dyn_cast<Constant>(o)) st.push_back(cc);} } d.J.arrayEnd(); }); });
    d.J.attributeObject("structs",[&]{ for (auto *st:M->getIdentifiedStructTypes()) if (st->isSized()) { d.J.attribute(baseName(st->getName()),(int64_t)DL.getTypeAllocSize(st)); } });
  });
  return 0;
}
