// irdump: reads an LLVM bitcode/IR module and prints it as JSON with all
// layout-dependent information (GEP offsets, type sizes, vtable contents)
// already lowered, so that the analysis needs no knowledge of the data layout.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
#include <map>
using namespace llvm;
using json::Object; using json::Array;
static const DataLayout *DL;
static std::map<const Value*, int> ids;
static int nextId;
static int idOf(const Value *v) {
  auto it = ids.find(v);
  if (it != ids.end()) return it->second;
  return ids[v] = nextId++;
}
static std::string tstr(Type *t) {
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isPointerTy()) return "ptr";
  if (t->isDoubleTy()) return "double";
  if (t->isFloatTy()) return "float";
  if (t->isVoidTy()) return "void";
  if (t->isStructTy()) return "struct";
  if (t->isArrayTy()) return "array";
  if (t->isVectorTy()) return "vector";
  return "other";
}
static json::Value val(const Value *v);
static std::string apstr(const APInt &a) { SmallString<40> s; a.toStringUnsigned(s); return std::string(s); }
static bool constPtr(const Constant *c, std::string &g, int64_t &off) {
  off = 0;
  while (true) {
    if (auto *gv = dyn_cast<GlobalValue>(c)) { g = gv->getName().str(); return true; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        APInt o(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, o)) return false;
        off += o.getSExtValue(); c = ce->getOperand(0); continue;
      }
      if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) { c = ce->getOperand(0); continue; }
    }
    return false;
  }
}
static json::Value val(const Value *v) {
  if (auto *ci = dyn_cast<ConstantInt>(v))
    return Object{{"k","int"},{"v",apstr(ci->getValue())},{"w",(int64_t)ci->getBitWidth()}};
  if (isa<ConstantPointerNull>(v)) return Object{{"k","null"}};
  if (isa<UndefValue>(v)) return Object{{"k","undef"},{"t",tstr(v->getType())}};
  if (auto *cf = dyn_cast<ConstantFP>(v)) {
    if (v->getType()->isDoubleTy()) return Object{{"k","fp"},{"v",cf->getValueAPF().convertToDouble()}};
    return Object{{"k","fp"},{"v",0.0}};
  }
  if (isa<ConstantAggregateZero>(v)) return Object{{"k","zero"},{"t",tstr(v->getType())},{"size",(int64_t)DL->getTypeAllocSize(v->getType())}};
  if (auto *c = dyn_cast<Constant>(v)) {
    std::string g; int64_t off;
    if (v->getType()->isPointerTy() && constPtr(c, g, off)) return Object{{"k","glob"},{"g",g},{"off",off}};
    if (isa<ConstantStruct>(v) || isa<ConstantArray>(v)) {
      Array a; for (unsigned i=0;i<c->getNumOperands();++i) a.push_back(val(c->getOperand(i)));
      return Object{{"k","agg"},{"e",std::move(a)}};
    }
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
      if (ce->getOpcode()==Instruction::IntToPtr || ce->getOpcode()==Instruction::PtrToInt)
        return Object{{"k","cast"},{"e",val(ce->getOperand(0))}};
    }
    return Object{{"k","const?"}};
  }
  return Object{{"k","v"},{"id",idOf(v)}};
}
static void flatten(const Constant *c, int64_t off, Array &out) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
    out.push_back(Array{off,(int64_t)DL->getTypeAllocSize(t),Object{{"k","zero"}}}); return;
  }
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    int64_t es = DL->getTypeAllocSize(cds->getElementType());
    if (cds->getElementType()->isIntegerTy()) {
      Array b; for (unsigned i=0;i<cds->getNumElements();++i) b.push_back(apstr(cds->getElementAsAPInt(i)));
      out.push_back(Array{off,es,Object{{"k","seq"},{"e",std::move(b)}}});
    }
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i=0;i<c->getNumOperands();++i) flatten(cast<Constant>(c->getOperand(i)), off+(int64_t)sl->getElementOffset(i), out);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    int64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i=0;i<c->getNumOperands();++i) flatten(cast<Constant>(c->getOperand(i)), off+es*i, out);
    return;
  }
  out.push_back(Array{off,(int64_t)DL->getTypeStoreSize(t),val(c)});
}
static const char *ord(AtomicOrdering o) {
  switch (o) {
    case AtomicOrdering::NotAtomic: return "na"; case AtomicOrdering::Unordered: return "unordered";
    case AtomicOrdering::Monotonic: return "relaxed"; case AtomicOrdering::Acquire: return "acquire";
    case AtomicOrdering::Release: return "release"; case AtomicOrdering::AcquireRelease: return "acq_rel";
    case AtomicOrdering::SequentiallyConsistent: return "seq_cst";
  }
  return "?";
}
int main(int argc, char **argv) {
  if (argc < 2) { errs() << "usage: irdump file\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  Object root; Object globs, funcs;
  for (auto &g : M->globals()) {
    Object o; o["const"] = g.isConstant(); o["size"] = (int64_t)(g.getValueType()->isSized()?DL->getTypeAllocSize(g.getValueType()):0);
    o["dem"] = demangle(g.getName());
    o["def"] = g.hasInitializer();
    if (g.hasInitializer()) { Array a; flatten(g.getInitializer(), 0, a); o["init"] = std::move(a); }
    globs[g.getName()] = std::move(o);
  }
  for (auto &a : M->aliases()) {
    std::string g; int64_t off;
    if (constPtr(a.getAliasee(), g, off)) { Object o; o["alias"] = g; globs[a.getName()] = std::move(o); }
  }
  for (auto &F : M->functions()) {
    Object fo; fo["dem"] = demangle(F.getName()); fo["decl"] = F.isDeclaration();
    fo["nounwind"] = F.doesNotThrow(); fo["noreturn"] = F.doesNotReturn();
    fo["ret"] = tstr(F.getReturnType()); fo["internal"] = F.hasInternalLinkage();
    fo["vararg"] = F.isVarArg();
    if (auto *sp = F.getSubprogram()) { fo["file"] = (sp->getDirectory().empty()||sp->getFilename().starts_with("/")?sp->getFilename().str():(sp->getDirectory()+"/"+sp->getFilename()).str()); fo["line"] = (int64_t)sp->getLine(); fo["name"]=sp->getName().str(); }
    ids.clear(); nextId = 0;
    Array args;
    for (auto &A : F.args()) {
      Object ao{{"id",idOf(&A)},{"t",tstr(A.getType())},{"name",A.getName()}};
      if (A.hasStructRetAttr()) ao["sret"] = true;
      if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
      if (A.hasAttribute(Attribute::ZExt)) ao["ext"]="z";
      if (A.hasAttribute(Attribute::SExt)) ao["ext"]="s";
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    if (!F.isDeclaration()) {
      std::map<const BasicBlock*, int> bid; int n=0;
      for (auto &B : F) bid[&B] = n++;
      Array blocks;
      for (auto &B : F) {
        Array ins;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
            auto id = ii->getIntrinsicID();
            if (id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::experimental_noalias_scope_decl) continue;
          }
          Object o; o["op"] = I.getOpcodeName();
          if (!I.getType()->isVoidTy()) { o["id"] = idOf(&I); o["t"] = tstr(I.getType()); }
          if (I.getType()->isIntegerTy()) o["w"] = (int64_t)I.getType()->getIntegerBitWidth();
          if (auto &dl = I.getDebugLoc()) { o["ln"] = (int64_t)dl.getLine();
            auto *sc = cast<DIScope>(dl.getScope()); std::string f = sc->getFilename().str(); if (!f.empty() && f[0] != '/') f = sc->getDirectory().str() + "/" + f; o["fi"] = f; }
          if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            int64_t coff=0; Array vars;
            for (auto it=gep_type_begin(g), e=gep_type_end(g); it!=e; ++it) {
              Value *ix = it.getOperand();
              if (StructType *st = it.getStructTypeOrNull()) { coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
              int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(ix)) coff += ci->getSExtValue()*sc;
              else vars.push_back(Array{val(ix), sc, (int64_t)ix->getType()->getIntegerBitWidth()});
            }
            o["base"] = val(g->getPointerOperand()); o["coff"] = coff; o["vars"] = std::move(vars);
            o["inb"] = g->isInBounds();
          } else if (auto *l = dyn_cast<LoadInst>(&I)) {
            o["p"] = val(l->getPointerOperand()); o["size"] = (int64_t)DL->getTypeStoreSize(l->getType()); o["ord"] = ord(l->getOrdering()); o["vol"]=l->isVolatile();
          } else if (auto *s = dyn_cast<StoreInst>(&I)) {
            o["p"] = val(s->getPointerOperand()); o["v"] = val(s->getValueOperand()); o["vt"]=tstr(s->getValueOperand()->getType());
            o["size"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()); o["ord"] = ord(s->getOrdering()); o["vol"]=s->isVolatile();
          } else if (auto *a = dyn_cast<AllocaInst>(&I)) {
            o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()); o["at"] = tstr(a->getAllocatedType());
            if (auto *st = dyn_cast<StructType>(a->getAllocatedType())) if (st->hasName()) o["sn"] = st->getName();
            o["n"] = val(a->getArraySize()); o["name"] = a->getName();
          } else if (auto *c = dyn_cast<CmpInst>(&I)) {
            o["pred"] = CmpInst::getPredicateName(c->getPredicate()); o["a"] = val(c->getOperand(0)); o["b"] = val(c->getOperand(1)); o["ct"] = tstr(c->getOperand(0)->getType());
          } else if (auto *b = dyn_cast<BranchInst>(&I)) {
            if (b->isConditional()) { o["c"] = val(b->getCondition()); o["T"] = bid[b->getSuccessor(0)]; o["F"] = bid[b->getSuccessor(1)]; }
            else o["T"] = bid[b->getSuccessor(0)];
          } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
            o["c"] = val(s->getCondition()); o["def"] = bid[s->getDefaultDest()]; Array cs;
            for (auto &cc : s->cases()) cs.push_back(Array{apstr(cc.getCaseValue()->getValue()), bid[cc.getCaseSuccessor()]});
            o["cases"] = std::move(cs); o["cw"]=(int64_t)s->getCondition()->getType()->getIntegerBitWidth();
          } else if (auto *p = dyn_cast<PHINode>(&I)) {
            Array in; for (unsigned i=0;i<p->getNumIncomingValues();++i) in.push_back(Array{bid[p->getIncomingBlock(i)], val(p->getIncomingValue(i))});
            o["in"] = std::move(in);
          } else if (auto *cb = dyn_cast<CallBase>(&I)) {
            if (cb->isInlineAsm()) o["asm"] = true;
            const Value *cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
            if (auto *f = dyn_cast<Function>(cv)) o["fn"] = f->getName(); else o["fp"] = val(cv);
            Array as; for (auto &x : cb->args()) { if (x->getType()->isMetadataTy()) continue; as.push_back(val(x)); } o["args"] = std::move(as);
            o["nt"] = cb->doesNotThrow();
            if (auto *inv = dyn_cast<InvokeInst>(cb)) { o["norm"] = bid[inv->getNormalDest()]; o["unw"] = bid[inv->getUnwindDest()]; }
          } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
            if (r->getReturnValue()) o["v"] = val(r->getReturnValue());
          } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
            o["cleanup"] = lp->isCleanup(); Array cl;
            for (unsigned i=0;i<lp->getNumClauses();++i) cl.push_back(Array{lp->isCatch(i)?"catch":"filter", val(lp->getClause(i))});
            o["clauses"] = std::move(cl);
          } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            Array ix; for (auto x : ev->indices()) ix.push_back((int64_t)x); o["a"] = val(ev->getAggregateOperand()); o["ix"] = std::move(ix);
          } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
            Array ix; for (auto x : iv->indices()) ix.push_back((int64_t)x); o["a"] = val(iv->getAggregateOperand()); o["b"] = val(iv->getInsertedValueOperand()); o["ix"] = std::move(ix);
          } else if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) {
            o["p"] = val(rmw->getPointerOperand()); o["v"] = val(rmw->getValOperand()); o["rop"] = AtomicRMWInst::getOperationName(rmw->getOperation()); o["ord"] = ord(rmw->getOrdering());
            o["size"] = (int64_t)DL->getTypeStoreSize(rmw->getType());
          } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
            o["p"] = val(cx->getPointerOperand()); o["a"] = val(cx->getCompareOperand()); o["b"] = val(cx->getNewValOperand()); o["ord"] = ord(cx->getSuccessOrdering()); o["size"]=(int64_t)DL->getTypeStoreSize(cx->getNewValOperand()->getType());
          } else if (auto *fe = dyn_cast<FenceInst>(&I)) { o["ord"] = ord(fe->getOrdering());
          } else {
            Array as; for (auto &x : I.operands()) if (!isa<BasicBlock>(x)) as.push_back(val(x)); o["a"] = std::move(as);
            if (I.getNumOperands() && I.getOperand(0)->getType()->isIntegerTy()) o["sw"] = (int64_t)I.getOperand(0)->getType()->getIntegerBitWidth();
            if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nuw"]=ob->hasNoUnsignedWrap(); o["nsw"]=ob->hasNoSignedWrap(); }
            if (I.getNumOperands()) o["st"] = tstr(I.getOperand(0)->getType());
          }
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["blocks"] = std::move(blocks);
    }
    funcs[F.getName()] = std::move(fo);
  }
  root["globals"] = std::move(globs); root["functions"] = std::move(funcs);
  outs() << json::Value(std::move(root)) << "\n";
}
