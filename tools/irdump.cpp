// Dumps the part of an LLVM module reachable from its C-named (extern "C") functions as JSON, for /verif/engine.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/IR/CFG.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/MapVector.h>
#include <map>
#include <set>
#include <vector>
#include <string>
using namespace llvm;

static const DataLayout* DL;
static raw_ostream* O;
static std::map<std::pair<std::string, unsigned>, int> locs;
static std::vector<std::pair<std::string, unsigned>> locv;
static std::set<const GlobalValue*> seen;
static std::vector<const GlobalValue*> work;

static void ref(const GlobalValue* g) { if (seen.insert(g).second) work.push_back(g); }

static std::string esc(StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void ty(Type* t) {
  if (t->isVoidTy()) *O << "\"v\"";
  else if (t->isIntegerTy()) *O << "\"i" << t->getIntegerBitWidth() << "\"";
  else if (t->isPointerTy()) *O << "\"p\"";
  else if (t->isFloatingPointTy()) *O << "\"f" << t->getPrimitiveSizeInBits() << "\"";
  else if (auto* s = dyn_cast<StructType>(t)) {
    *O << "[\"s\",";
    if (s->isSized()) {
      auto* L = DL->getStructLayout(s);
      *O << L->getSizeInBytes() << ",[";
      for (unsigned i = 0; i < s->getNumElements(); ++i) {
        if (i) *O << ",";
        *O << "[" << L->getElementOffset(i) << ",";
        ty(s->getElementType(i));
        *O << "]";
      }
      *O << "]]";
    } else *O << "0,[]]";
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    *O << "[\"a\"," << es * a->getNumElements() << "," << a->getNumElements() << "," << es << ",";
    ty(a->getElementType());
    *O << "]";
  } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeAllocSize(v->getElementType());
    *O << "[\"a\"," << es * v->getNumElements() << "," << v->getNumElements() << "," << es << ",";
    ty(v->getElementType());
    *O << "]";
  } else *O << "\"x\"";
}
static std::map<const Value*, int>* ids;
static std::map<const BasicBlock*, int>* bbs;
static void opnd(const Value* v);
static void cst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s;
    ci->getValue().toStringUnsigned(s);
    *O << "[\"c\"," << ci->getBitWidth() << "," << s << "]";
  } else if (isa<ConstantPointerNull>(c)) *O << "[\"n\"]";
  else if (isa<UndefValue>(c)) *O << "[\"u\"]";
  else if (auto* f = dyn_cast<Function>(c)) { ref(f); *O << "[\"f\"," << esc(f->getName()) << "]"; }
  else if (auto* g = dyn_cast<GlobalVariable>(c)) { ref(g); *O << "[\"g\"," << esc(g->getName()) << ",0]"; }
  else if (auto* a = dyn_cast<GlobalAlias>(c)) { cst(a->getAliasee()); }
  else if (auto* fp = dyn_cast<ConstantFP>(c)) { *O << "[\"fl\",\""; SmallString<32> s; fp->getValueAPF().toString(s); *O << s << "\"]"; }
  else if (isa<ConstantAggregateZero>(c)) { *O << "[\"z\","; ty(c->getType()); *O << "]"; }
  else if (isa<ConstantTokenNone>(c)) *O << "[\"tok\"]";
  else if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
    *O << "[\"agg\",[";
    for (unsigned i = 0; i < ds->getNumElements(); ++i) { if (i) *O << ","; cst(ds->getElementAsConstant(i)); }
    *O << "]]";
  } else if (isa<ConstantAggregate>(c)) {
    *O << "[\"agg\",[";
    for (unsigned i = 0; i < c->getNumOperands(); ++i) { if (i) *O << ","; cst(cast<Constant>(c->getOperand(i))); }
    *O << "]]";
  } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        *O << "[\"off\","; cst(cast<Constant>(gep->getPointerOperand())); *O << "," << off.getSExtValue() << "]";
        return;
      }
    }
    *O << "[\"ce\"," << esc(ce->getOpcodeName());
    for (auto& op : ce->operands()) { *O << ","; cst(cast<Constant>(op)); }
    *O << "]";
  } else *O << "[\"?\"]";
}
static void opnd(const Value* v) {
  auto it = ids->find(v);
  if (it != ids->end()) { *O << it->second; return; }
  if (auto* c = dyn_cast<Constant>(v)) { cst(c); return; }
  if (isa<MetadataAsValue>(v)) { *O << "[\"md\"]"; return; }
  if (auto* b = dyn_cast<BasicBlock>(v)) { *O << "[\"bb\"," << (*bbs)[b] << "]"; return; }
  *O << "[\"?\"]";
}
static int loc(const Instruction& I) {
  auto d = I.getDebugLoc();
  if (!d) return -1;
  std::string f;
  if (auto* s = dyn_cast<DIScope>(d.getScope())) f = s->getFilename().str();
  auto k = std::make_pair(f, d.getLine());
  auto it = locs.find(k);
  if (it != locs.end()) return it->second;
  int n = locv.size(); locv.push_back(k); locs[k] = n; return n;
}
static const char* ord(AtomicOrdering o) {
  switch (o) {
    case AtomicOrdering::NotAtomic: return "";
    case AtomicOrdering::Unordered: return "unordered";
    case AtomicOrdering::Monotonic: return "relaxed";
    case AtomicOrdering::Acquire: return "acquire";
    case AtomicOrdering::Release: return "release";
    case AtomicOrdering::AcquireRelease: return "acq_rel";
    case AtomicOrdering::SequentiallyConsistent: return "seq_cst";
  }
  return "";
}
static void fn(const Function& F) {
  std::map<const Value*, int> id; std::map<const BasicBlock*, int> bb;
  ids = &id; bbs = &bb;
  int n = 0;
  *O << "{\"name\":" << esc(F.getName()) << ",\"dem\":" << esc(demangle(F.getName().str())) << ",\"ret\":";
  ty(F.getReturnType());
  *O << ",\"noreturn\":" << (F.doesNotReturn() ? 1 : 0) << ",\"nounwind\":" << (F.doesNotThrow() ? 1 : 0)
     << ",\"presplit\":" << (F.isPresplitCoroutine() ? 1 : 0) << ",\"vararg\":" << (F.isVarArg()?1:0);
  if (auto* sp = F.getSubprogram())
    *O << ",\"file\":" << esc(sp->getFilename()) << ",\"line\":" << sp->getLine();
  *O << ",\"args\":[";
  bool first = true;
  for (auto& a : F.args()) {
    id[&a] = n++;
    if (!first) *O << ","; first = false;
    *O << "["; ty(a.getType());
    *O << "," << (a.hasByValAttr() ? (long)DL->getTypeAllocSize(a.getParamByValType()) : 0) << ","
       << (a.hasStructRetAttr() ? (long)DL->getTypeAllocSize(a.getParamStructRetType()) : 0) << "," << (a.hasNonNullAttr() || a.getDereferenceableBytes() ? 1 : 0) << ","<< esc(a.getName()) << "," << a.getDereferenceableBytes() << "]";
  }
  *O << "]";
  if (F.isDeclaration()) { *O << "}\n"; return; }
  int b = 0;
  for (auto& B : F) { bb[&B] = b++; for (auto& I : B) id[&I] = n++; }
  *O << ",\"nval\":" << n << ",\"blocks\":[";
  bool fb = true;
  for (auto& B : F) {
    if (!fb) *O << ",\n"; fb = false;
    *O << "[";
    bool fi = true;
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        auto k = II->getIntrinsicID();
        if (k == Intrinsic::experimental_noalias_scope_decl) continue;
      }
      if (!fi) *O << ",\n "; fi = false;
      *O << "["; 
      auto head = [&](const char* op) { *O << "\"" << op << "\"," << loc(I) << "," << id[&I] << ","; ty(I.getType()); };
      if (auto* x = dyn_cast<AllocaInst>(&I)) {
        head("alloca");
        auto sz = x->getAllocationSize(*DL);
        *O << "," << (sz ? (long)sz->getFixedValue() : -1) << "," << x->getAlign().value() << "," << esc(x->getName());
        if (!sz) { *O << "," << DL->getTypeAllocSize(x->getAllocatedType()) << ","; opnd(x->getArraySize()); }
      } else if (auto* x = dyn_cast<LoadInst>(&I)) {
        head("load"); *O << ","; opnd(x->getPointerOperand());
        *O << "," << DL->getTypeStoreSize(I.getType()) << ",\"" << ord(x->getOrdering()) << "\"";
      } else if (auto* x = dyn_cast<StoreInst>(&I)) {
        head("store"); *O << ","; opnd(x->getValueOperand()); *O << ","; opnd(x->getPointerOperand());
        *O << "," << DL->getTypeStoreSize(x->getValueOperand()->getType()) << ",\"" << ord(x->getOrdering()) << "\","; ty(x->getValueOperand()->getType());
      } else if (auto* x = dyn_cast<AtomicRMWInst>(&I)) {
        head("rmw"); *O << ",\"" << AtomicRMWInst::getOperationName(x->getOperation()).str() << "\","; opnd(x->getPointerOperand()); *O << ","; opnd(x->getValOperand());
        *O << "," << DL->getTypeStoreSize(I.getType()) << ",\"" << ord(x->getOrdering()) << "\"";
      } else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) {
        head("cas"); *O << ","; opnd(x->getPointerOperand()); *O << ","; opnd(x->getCompareOperand()); *O << ","; opnd(x->getNewValOperand());
        *O << "," << DL->getTypeStoreSize(x->getNewValOperand()->getType()) << ",\"" << ord(x->getSuccessOrdering()) << "\",\"" << ord(x->getFailureOrdering()) << "\"," << (x->isWeak() ? 1 : 0) << ","; ty(x->getNewValOperand()->getType());
      } else if (auto* x = dyn_cast<FenceInst>(&I)) {
        head("fence"); *O << ",\"" << ord(x->getOrdering()) << "\"";
      } else if (auto* x = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value*, APInt> var; APInt off(64, 0);
        if (x->collectOffset(*DL, 64, var, off)) {
          head("gep"); *O << ","; opnd(x->getPointerOperand()); *O << "," << off.getSExtValue() << ",[";
          bool f = true;
          for (auto& [v, s] : var) { if (!f) *O << ","; f = false; *O << "["; opnd(v); *O << "," << s.getSExtValue() << "," << v->getType()->getIntegerBitWidth() << "]"; }
          *O << "]";
        } else { head("unk"); *O << ",\"gep\""; }
      } else if (auto* x = dyn_cast<CallBase>(&I)) {
        head("call"); *O << ",";
        if (x->isInlineAsm()) *O << "[\"asm\"]"; else opnd(x->getCalledOperand()->stripPointerCastsAndAliases());
        *O << ",[";
        for (unsigned i = 0; i < x->arg_size(); ++i) { if (i) *O << ","; opnd(x->getArgOperand(i)); }
        *O << "],";
        if (auto* iv = dyn_cast<InvokeInst>(&I)) *O << "[" << bb[iv->getNormalDest()] << "," << bb[iv->getUnwindDest()] << "]"; else *O << "null";
        *O << "," << (x->doesNotThrow() ? 1 : 0);
        *O << ",[";
        for (unsigned i = 0; i < x->arg_size(); ++i) { if (i) *O << ","; *O << (x->isByValArgument(i) ? (long)DL->getTypeAllocSize(x->getParamByValType(i)) : 0); }
        *O << "]";
      } else if (auto* x = dyn_cast<BranchInst>(&I)) {
        head("br");
        if (x->isConditional()) { *O << ","; opnd(x->getCondition()); *O << "," << bb[x->getSuccessor(0)] << "," << bb[x->getSuccessor(1)]; }
        else *O << ",null," << bb[x->getSuccessor(0)];
      } else if (auto* x = dyn_cast<SwitchInst>(&I)) {
        head("switch"); *O << ","; opnd(x->getCondition()); *O << "," << bb[x->getDefaultDest()] << ",[";
        bool f = true;
        for (auto& c : x->cases()) { if (!f) *O << ","; f = false; *O << "["; cst(c.getCaseValue()); *O << "," << bb[c.getCaseSuccessor()] << "]"; }
        *O << "]";
      } else if (auto* x = dyn_cast<ReturnInst>(&I)) {
        head("ret"); *O << ","; if (x->getReturnValue()) opnd(x->getReturnValue()); else *O << "null";
      } else if (auto* x = dyn_cast<PHINode>(&I)) {
        head("phi"); *O << ",[";
        for (unsigned i = 0; i < x->getNumIncomingValues(); ++i) { if (i) *O << ","; *O << "[" << bb[x->getIncomingBlock(i)] << ","; opnd(x->getIncomingValue(i)); *O << "]"; }
        *O << "]";
      } else if (auto* x = dyn_cast<CmpInst>(&I)) {
        head(isa<ICmpInst>(x) ? "icmp" : "fcmp"); *O << ",\"" << CmpInst::getPredicateName(x->getPredicate()).str() << "\","; opnd(x->getOperand(0)); *O << ","; opnd(x->getOperand(1)); *O << ","; ty(x->getOperand(0)->getType());
      } else if (auto* x = dyn_cast<BinaryOperator>(&I)) {
        head("bin"); *O << ",\"" << x->getOpcodeName() << "\","; opnd(x->getOperand(0)); *O << ","; opnd(x->getOperand(1));
        bool nsw = false, nuw = false;
        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(x)) { nsw = ob->hasNoSignedWrap(); nuw = ob->hasNoUnsignedWrap(); }
        *O << "," << nsw << "," << nuw;
      } else if (auto* x = dyn_cast<CastInst>(&I)) {
        head("cast"); *O << ",\"" << x->getOpcodeName() << "\","; opnd(x->getOperand(0)); *O << ","; ty(x->getSrcTy());
      } else if (auto* x = dyn_cast<SelectInst>(&I)) {
        head("select"); *O << ","; opnd(x->getCondition()); *O << ","; opnd(x->getTrueValue()); *O << ","; opnd(x->getFalseValue());
      } else if (auto* x = dyn_cast<ExtractValueInst>(&I)) {
        head("extract"); *O << ","; opnd(x->getAggregateOperand()); *O << ",["; bool f = true;
        for (auto i : x->indices()) { if (!f) *O << ","; f = false; *O << i; } *O << "]";
      } else if (auto* x = dyn_cast<InsertValueInst>(&I)) {
        head("insert"); *O << ","; opnd(x->getAggregateOperand()); *O << ","; opnd(x->getInsertedValueOperand()); *O << ",["; bool f = true;
        for (auto i : x->indices()) { if (!f) *O << ","; f = false; *O << i; } *O << "]";
      } else if (auto* x = dyn_cast<LandingPadInst>(&I)) {
        head("lpad"); *O << "," << (x->isCleanup() ? 1 : 0) << ",[";
        for (unsigned i = 0; i < x->getNumClauses(); ++i) { if (i) *O << ","; *O << "[" << (x->isCatch(i) ? 1 : 0) << ","; cst(x->getClause(i)); *O << "]"; }
        *O << "]";
      } else if (auto* x = dyn_cast<ResumeInst>(&I)) { head("eresume"); *O << ","; opnd(x->getValue()); }
      else if (isa<UnreachableInst>(&I)) head("unreachable");
      else if (auto* x = dyn_cast<FreezeInst>(&I)) { head("cast"); *O << ",\"freeze\","; opnd(x->getOperand(0)); *O << ","; ty(x->getOperand(0)->getType()); }
      else if (auto* x = dyn_cast<UnaryOperator>(&I)) { head("unk"); *O << ",\"" << x->getOpcodeName() << "\""; }
      else { head("unk"); *O << ",\"" << I.getOpcodeName() << "\""; }
      *O << "]";
    }
    *O << "]";
  }
  *O << "]}\n";
}
static void promote(Function& F) {
  if (F.isPresplitCoroutine() || F.isDeclaration()) return;
  for (;;) {
    std::vector<AllocaInst*> v;
    for (auto& I : F.getEntryBlock())
      if (auto* a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) v.push_back(a);
    if (v.empty()) break;
    DominatorTree DT(F);
    PromoteMemToReg(v, DT);
  }
}
int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 1; }
  std::error_code ec;
  raw_fd_ostream out(argv[2], ec);
  if (ec) return 1;
  O = &out; DL = &M->getDataLayout();
  for (auto& F : *M) { if (!F.isDeclaration()) EliminateUnreachableBlocks(F); promote(F); }
  for (auto& F : *M) if (!F.isDeclaration() && !F.getName().starts_with("_Z") && !F.getName().starts_with("__clang") && !F.hasLocalLinkage()) ref(&F);
  *O << "{\"functions\":[";
  // functions and globals interleave in the worklist; globals are buffered
  std::string gbuf; raw_string_ostream gs(gbuf);
  bool ff = true, gf = true;
  static std::map<const Value*, int> noids; static std::map<const BasicBlock*, int> nobbs;
  for (size_t i = 0; i < work.size(); ++i) {
    auto* g = work[i];
    if (auto* F = dyn_cast<Function>(g)) { O = &out; if (!ff) *O << ","; ff = false; fn(*F); }
    else if (auto* V = dyn_cast<GlobalVariable>(g)) {
      O = &gs; ids = &noids; bbs = &nobbs;
      if (!gf) *O << ","; gf = false;
      *O << "{\"name\":" << esc(V->getName()) << ",\"dem\":" << esc(demangle(V->getName().str())) << ",\"size\":" << (V->getValueType()->isSized() ? (long)DL->getTypeAllocSize(V->getValueType()) : 0)
         << ",\"const\":" << (V->isConstant() ? 1 : 0) << ",\"tls\":" << (V->isThreadLocal() ? 1 : 0) << ",\"ty\":";
      ty(V->getValueType());
      *O << ",\"init\":";
      if (V->hasInitializer()) cst(V->getInitializer()); else *O << "null";
      *O << "}\n";
    }
  }
  O = &out;
  *O << "],\"globals\":[" << gs.str() << "],\"locs\":[";
  for (size_t i = 0; i < locv.size(); ++i) { if (i) *O << ","; *O << "[" << esc(locv[i].first) << "," << locv[i].second << "]"; }
  *O << "]}\n";
  return 0;
}
