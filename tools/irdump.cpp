// irdump: loads LLVM bitcode, normalises it with a fixed pass pipeline and
// writes a JSON description of every kept function (blocks, instructions,
// operands, byte-offset GEPs, debug locations, loops, scalar evolutions) and of
// the record layouts found in the debug info.  It decides nothing.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <set>
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::list<std::string> Roots("root", cl::desc("regex on demangled name: roots to keep"));
static cl::list<std::string> Inl("inl", cl::desc("regex on demangled name: inline although it matches keep"));
static cl::list<std::string> Keep("keep", cl::desc("regex on demangled name: never inline"));
static cl::list<std::string> Dump("dump", cl::desc("regex on demangled name: functions to dump"));
static cl::opt<std::string> Passes("pp", cl::init(""), cl::desc("pass pipeline"));
static cl::opt<bool> DoInline("do-inline", cl::init(false));
static cl::opt<bool> CloneRoots("clone-roots", cl::init(false), cl::desc("roots are also inlined in each other"));
static cl::opt<bool> NoAliasArgs("noalias-args", cl::init(false));
static cl::opt<std::string> EmitLL("emit-ll", cl::init(""));

static bool matchAny(const cl::list<std::string> &L, StringRef s) {
  for (const auto &r : L)
    if (Regex(r).match(s)) return true;
  return false;
}
// qualified name without return type and parameters
static std::string qualName(StringRef mangled) {
  ItaniumPartialDemangler D;
  std::string m = mangled.str();
  if (D.partialDemangle(m.c_str())) return m;
  if (!D.isFunction()) return demangle(m);
  std::string r;
  if (char *c = D.getFunctionDeclContextName(nullptr, nullptr)) {
    r = c;
    free(c);
  }
  if (char *c = D.getFunctionBaseName(nullptr, nullptr)) {
    r += (r.empty() ? "" : "::") + std::string(c);
    free(c);
  }
  return r;
}
static std::string diQual(const DICompositeType *T) {
  std::string n = T->getName().str();
  if (n.empty()) {
    // closure types: named by the function they are defined in
    std::string fn;
    for (DIScope *S = T->getScope(); S; S = S->getScope())
      if (auto *SP = dyn_cast<DISubprogram>(S)) {
        fn = SP->getLinkageName().str();
        break;
      }
    return fn.empty() ? "" : "closure{" + fn + ":" + std::to_string(T->getLine()) + "}";
  }
  for (DIScope *S = T->getScope(); S; S = S->getScope())
    if (isa<DINamespace>(S) || isa<DICompositeType>(S)) n = S->getName().str() + "::" + n;
  return n;
}
static std::string diTypeName(const DIType *bt) {
  std::string tn;
  while (auto *dd = dyn_cast_or_null<DIDerivedType>(bt)) {
    if (dd->getTag() == dwarf::DW_TAG_pointer_type) tn = "*" + tn;
    else if (dd->getTag() == dwarf::DW_TAG_reference_type || dd->getTag() == dwarf::DW_TAG_rvalue_reference_type) tn = "&" + tn;
    bt = dd->getBaseType();
  }
  if (auto *cc = dyn_cast_or_null<DICompositeType>(bt)) return diQual(cc) + tn;
  if (bt) return bt->getName().str() + tn;
  return tn;
}
static std::string tyStr(Type *T) {
  std::string s;
  raw_string_ostream o(s);
  T->print(o);
  return o.str();
}

struct FnDumper {
  json::OStream &J;
  Function &F;
  const DataLayout &DL;
  ScalarEvolution *SE;
  LoopInfo *LI;
  DenseMap<const Value *, int> ids;
  DenseMap<const BasicBlock *, int> bids;
  DenseMap<const Loop *, int> lids;
  std::vector<const Loop *> loops;
  MapVector<const SCEV *, int> scevs;
  int next = 0;
  FnDumper(json::OStream &J, Function &F, ScalarEvolution *SE, LoopInfo *LI)
      : J(J), F(F), DL(F.getParent()->getDataLayout()), SE(SE), LI(LI) {}

  void constant(const Value *V) {
    J.objectBegin();
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      J.attribute("k", "int");
      J.attribute("t", tyStr(C->getType()));
      SmallString<40> s;
      C->getValue().toStringUnsigned(s);
      J.attribute("v", s.str());
    } else if (auto *C = dyn_cast<ConstantFP>(V)) {
      J.attribute("k", "fp");
      J.attribute("t", tyStr(C->getType()));
      SmallString<40> s;
      C->getValueAPF().toString(s, 25);
      J.attribute("v", s.str());
    } else if (isa<ConstantPointerNull>(V)) {
      J.attribute("k", "null");
    } else if (isa<UndefValue>(V)) {
      J.attribute("k", "undef");
      J.attribute("t", tyStr(V->getType()));
    } else if (auto *G = dyn_cast<Function>(V)) {
      J.attribute("k", "fn");
      J.attribute("n", G->getName());
    } else if (auto *G = dyn_cast<GlobalAlias>(V)) {
      J.attribute("k", "fn");
      J.attribute("n", G->getAliaseeObject() ? G->getAliaseeObject()->getName() : G->getName());
    } else if (auto *G = dyn_cast<GlobalVariable>(V)) {
      J.attribute("k", "glob");
      J.attribute("n", G->getName());
    } else if (isa<ConstantAggregateZero>(V)) {
      J.attribute("k", "zero");
      J.attribute("t", tyStr(V->getType()));
    } else if (auto *C = dyn_cast<ConstantExpr>(V)) {
      APInt off(64, 0);
      const Value *B = C;
      if (C->getType()->isPointerTy())
        B = C->stripAndAccumulateConstantOffsets(DL, off, true);
      if (B != C) {
        J.attribute("k", "gepc");
        J.attribute("off", off.getSExtValue());
        J.attributeBegin("b");
        constant(B);
        J.attributeEnd();
      } else {
        J.attribute("k", "cexpr");
        std::string s;
        raw_string_ostream o(s);
        V->print(o);
        J.attribute("v", o.str());
      }
    } else {
      J.attribute("k", "other");
      std::string s;
      raw_string_ostream o(s);
      V->printAsOperand(o);
      J.attribute("v", o.str());
    }
    J.objectEnd();
  }
  void operand(const Value *V) {
    if (auto *B = dyn_cast<BasicBlock>(V)) {
      J.objectBegin();
      J.attribute("k", "bb");
      J.attribute("v", bids[B]);
      J.objectEnd();
    } else if (ids.count(V)) {
      J.value(ids[V]);
    } else if (isa<MetadataAsValue>(V)) {
      J.objectBegin();
      J.attribute("k", "md");
      J.objectEnd();
    } else
      constant(V);
  }
  int scev(const SCEV *S) {
    auto it = scevs.find(S);
    if (it != scevs.end()) return it->second;
    // post-order so that indices of operands are known
    for (const SCEV *op : S->operands()) scev(op);
    it = scevs.find(S);
    if (it != scevs.end()) return it->second;
    int id = scevs.size();
    scevs.insert({S, id});
    return id;
  }
  void dumpScev(const SCEV *S) {
    J.objectBegin();
    auto ops = [&](ArrayRef<const SCEV *> L) {
      J.attributeBegin("o");
      J.arrayBegin();
      for (auto *s : L) J.value(scevs.find(s)->second);
      J.arrayEnd();
      J.attributeEnd();
    };
    if (!isa<SCEVCouldNotCompute>(S)) J.attribute("t", tyStr(S->getType()));
    switch (S->getSCEVType()) {
      case scConstant: {
        J.attribute("k", "c");
        SmallString<40> s;
        cast<SCEVConstant>(S)->getAPInt().toStringSigned(s);
        J.attribute("v", s.str());
        break;
      }
      case scUnknown:
        J.attribute("k", "u");
        J.attributeBegin("v");
        operand(cast<SCEVUnknown>(S)->getValue());
        J.attributeEnd();
        break;
      case scAddExpr: J.attribute("k", "+"); ops(S->operands()); break;
      case scMulExpr: J.attribute("k", "*"); ops(S->operands()); break;
      case scUDivExpr: J.attribute("k", "/u"); ops(S->operands()); break;
      case scAddRecExpr:
        J.attribute("k", "rec");
        J.attribute("loop", lids[cast<SCEVAddRecExpr>(S)->getLoop()]);
        J.attribute("nuw", cast<SCEVAddRecExpr>(S)->hasNoUnsignedWrap());
        ops(S->operands());
        break;
      case scTruncate: J.attribute("k", "trunc"); ops(S->operands()); break;
      case scZeroExtend: J.attribute("k", "zext"); ops(S->operands()); break;
      case scSignExtend: J.attribute("k", "sext"); ops(S->operands()); break;
      case scPtrToInt: J.attribute("k", "p2i"); ops(S->operands()); break;
      case scUMaxExpr: J.attribute("k", "umax"); ops(S->operands()); break;
      case scSMaxExpr: J.attribute("k", "smax"); ops(S->operands()); break;
      case scUMinExpr: J.attribute("k", "umin"); ops(S->operands()); break;
      case scSMinExpr: J.attribute("k", "smin"); ops(S->operands()); break;
      case scSequentialUMinExpr: J.attribute("k", "umin_seq"); ops(S->operands()); break;
      case scCouldNotCompute: J.attribute("k", "?"); break;
      default: J.attribute("k", "other"); ops(S->operands()); break;
    }
    J.objectEnd();
  }
  void loc(const Instruction &I) {
    const DILocation *L = I.getDebugLoc().get();
    if (!L) return;
    J.attributeBegin("d");
    J.arrayBegin();
    // innermost first: [line, file, function linkage/display name]
    for (; L; L = L->getInlinedAt()) {
      J.arrayBegin();
      J.value((int64_t)L->getLine());
      J.value(L->getFilename());
      auto *SP = L->getScope()->getSubprogram();
      J.value(SP ? (SP->getLinkageName().empty() ? SP->getName() : SP->getLinkageName()) : StringRef(""));
      J.arrayEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
  }
  void run() {
    for (auto &A : F.args()) ids[&A] = next++;
    int b = 0;
    for (auto &BB : F) bids[&BB] = b++;
    for (auto &I : instructions(F)) ids[&I] = next++;
    if (LI) {
      for (auto *L : LI->getLoopsInPreorder()) {
        lids[L] = loops.size();
        loops.push_back(L);
      }
    }
    J.objectBegin();
    J.attribute("name", F.getName());
    StringRef nm = F.getName();
    bool isRoot = nm.consume_front("root.");
    J.attribute("root", isRoot);
    J.attribute("dem", demangle(nm.str()));
    J.attribute("qn", qualName(nm));
    J.attribute("ret", tyStr(F.getReturnType()));
    if (auto *SP = F.getSubprogram()) {
      J.attribute("file", SP->getFilename());
      J.attribute("line", (int64_t)SP->getLine());
      // parameter names by position
      std::map<unsigned, std::string> pn;
      for (auto *N : SP->getRetainedNodes())
        if (auto *V = dyn_cast<DILocalVariable>(N))
          if (V->getArg()) pn[V->getArg()] = V->getName().str();
      J.attributeBegin("ptypes");
      J.arrayBegin();
      if (auto *ST = SP->getType())
        for (auto T : ST->getTypeArray()) J.value(T ? diTypeName(T) : std::string("void"));
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("params");
      J.objectBegin();
      for (auto &[k, v] : pn) J.attribute(std::to_string(k), v);
      J.objectEnd();
      J.attributeEnd();
    }
    J.attribute("linkage", F.hasLocalLinkage() ? "internal" : F.hasLinkOnceODRLinkage() ? "linkonce" : "external");
    J.attributeBegin("args");
    J.arrayBegin();
    for (auto &A : F.args()) {
      J.objectBegin();
      J.attribute("id", ids[&A]);
      J.attribute("t", tyStr(A.getType()));
      J.attribute("sret", A.hasStructRetAttr());
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    // variable names (dbg.value/dbg.declare)
    J.attributeBegin("vars");
    J.arrayBegin();
    for (auto &I : instructions(F))
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
        Value *V = D->getVariableLocationOp(0);
        if (V && ids.count(V)) {
          J.arrayBegin();
          J.value(ids[V]);
          J.value(D->getVariable()->getName());
          J.value((int64_t)D->getVariable()->getArg());
          J.value(isa<DbgDeclareInst>(D));
          J.value(D->getDebugLoc()->getInlinedAt() != nullptr);
          J.arrayEnd();
        }
      }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("blocks");
    J.arrayBegin();
    for (auto &BB : F) {
      J.objectBegin();
      J.attribute("id", bids[&BB]);
      if (LI && LI->getLoopFor(&BB)) J.attribute("loop", lids[LI->getLoopFor(&BB)]);
      J.attributeBegin("succ");
      J.arrayBegin();
      for (auto *S : successors(&BB)) J.value(bids[S]);
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("insts");
      J.arrayBegin();
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        J.objectBegin();
        J.attribute("id", ids[&I]);
        J.attribute("op", I.getOpcodeName());
        J.attribute("t", tyStr(I.getType()));
        if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
        if (auto *C = dyn_cast<ICmpInst>(&I))
          if (auto *IT = dyn_cast<IntegerType>(C->getOperand(0)->getType())) J.attribute("w", (int64_t)IT->getBitWidth());
        if (auto *A = dyn_cast<AllocaInst>(&I)) {
          J.attribute("at", tyStr(A->getAllocatedType()));
          J.attribute("size", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
        }
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          J.attribute("size", (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue());
          J.attribute("vol", L->isVolatile());
          if (L->isAtomic()) J.attribute("atomic", true);
        }
        if (auto *L = dyn_cast<StoreInst>(&I)) J.attribute("size", (int64_t)DL.getTypeStoreSize(L->getValueOperand()->getType()).getFixedValue());
        if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) {
          if (O->hasNoUnsignedWrap()) J.attribute("nuw", true);
          if (O->hasNoSignedWrap()) J.attribute("nsw", true);
        }
        if (auto *A = dyn_cast<AtomicRMWInst>(&I)) J.attribute("rmw", AtomicRMWInst::getOperationName(A->getOperation()));
        if (auto *G = dyn_cast<GEPOperator>(&I)) {
          MapVector<Value *, APInt> var;
          APInt c(64, 0);
          if (G->collectOffset(DL, 64, var, c)) {
            J.attribute("off", c.getSExtValue());
            J.attributeBegin("var");
            J.arrayBegin();
            for (auto &[v, s] : var) {
              J.arrayBegin();
              operand(v);
              J.value(s.getSExtValue());
              J.arrayEnd();
            }
            J.arrayEnd();
            J.attributeEnd();
          }
          J.attribute("st", tyStr(G->getSourceElementType()));
          if (auto *ST = dyn_cast<StructType>(G->getSourceElementType()))
            if (G->getNumIndices() >= 2)
              if (auto *CI = dyn_cast<ConstantInt>(G->getOperand(2))) {
                J.attribute("sname", ST->hasName() ? ST->getName() : StringRef(""));
                J.attribute("sfield", (int64_t)CI->getZExtValue());
                J.attribute("sfoff", (int64_t)DL.getStructLayout(ST)->getElementOffset(CI->getZExtValue()));
              }
        }
        if (auto *P = dyn_cast<PHINode>(&I)) {
          J.attributeBegin("in");
          J.arrayBegin();
          for (unsigned i = 0; i != P->getNumIncomingValues(); ++i) {
            J.arrayBegin();
            operand(P->getIncomingValue(i));
            J.value(bids[P->getIncomingBlock(i)]);
            J.arrayEnd();
          }
          J.arrayEnd();
          J.attributeEnd();
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          Value *cv = C->getCalledOperand()->stripPointerCasts();
          if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = const_cast<GlobalObject *>(GA->getAliaseeObject());
          if (auto *Fn = dyn_cast_or_null<Function>(cv)) {
            J.attribute("callee", Fn->getName());
            J.attribute("cdem", demangle(Fn->getName().str()));
            J.attribute("cq", qualName(Fn->getName()));
            if (Fn->isIntrinsic()) J.attribute("intr", true);
            if (Fn->isDeclaration()) J.attribute("decl", true);
          } else {
            J.attributeBegin("cv");
            operand(C->getCalledOperand());
            J.attributeEnd();
          }
          if (C->doesNotThrow()) J.attribute("nounwind", true);
          if (C->doesNotReturn()) J.attribute("noreturn", true);
          J.attributeBegin("args");
          J.arrayBegin();
          for (auto &A : C->args()) operand(A.get());
          J.arrayEnd();
          J.attributeEnd();
          if (auto *II = dyn_cast<InvokeInst>(&I)) {
            J.attribute("normal", bids[II->getNormalDest()]);
            J.attribute("unwind", bids[II->getUnwindDest()]);
          }
        } else if (auto *L = dyn_cast<LandingPadInst>(&I)) {
          J.attribute("cleanup", L->isCleanup());
          J.attribute("clauses", (int64_t)L->getNumClauses());
          J.attributeBegin("cl");
          J.arrayBegin();
          for (unsigned i = 0; i != L->getNumClauses(); ++i) {
            operand(L->getClause(i));
          }
          J.arrayEnd();
          J.attributeEnd();
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          J.attributeBegin("cond");
          operand(S->getCondition());
          J.attributeEnd();
          J.attribute("w", (int64_t)S->getCondition()->getType()->getIntegerBitWidth());
          J.attribute("default", bids[S->getDefaultDest()]);
          J.attributeBegin("cases");
          J.arrayBegin();
          for (auto &c : S->cases()) {
            J.arrayBegin();
            J.value(c.getCaseValue()->getSExtValue());
            J.value(bids[c.getCaseSuccessor()]);
            J.arrayEnd();
          }
          J.arrayEnd();
          J.attributeEnd();
        } else {
          J.attributeBegin("ops");
          J.arrayBegin();
          for (auto &O : I.operands()) operand(O.get());
          J.arrayEnd();
          J.attributeEnd();
          if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
            J.attributeBegin("idx");
            J.arrayBegin();
            for (unsigned i : EV->indices()) J.value((int64_t)i);
            J.arrayEnd();
            J.attributeEnd();
          }
          if (auto *EV = dyn_cast<InsertValueInst>(&I)) {
            J.attributeBegin("idx");
            J.arrayBegin();
            for (unsigned i : EV->indices()) J.value((int64_t)i);
            J.arrayEnd();
            J.attributeEnd();
          }
          if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
            J.attributeBegin("mask");
            J.arrayBegin();
            for (int i : SV->getShuffleMask()) J.value((int64_t)i);
            J.arrayEnd();
            J.attributeEnd();
          }
        }
        if (SE && SE->isSCEVable(I.getType()) && !I.getType()->isVoidTy())
          J.attribute("scev", scev(SE->getSCEV(&I)));
        loc(I);
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("loops");
    J.arrayBegin();
    for (auto *L : loops) {
      J.objectBegin();
      J.attribute("header", bids[L->getHeader()]);
      if (L->getParentLoop()) J.attribute("parent", lids[L->getParentLoop()]);
      if (L->getLoopLatch()) J.attribute("latch", bids[L->getLoopLatch()]);
      if (L->getLoopPreheader()) J.attribute("preheader", bids[L->getLoopPreheader()]);
      J.attributeBegin("blocks");
      J.arrayBegin();
      for (auto *B : L->blocks()) J.value(bids[B]);
      J.arrayEnd();
      J.attributeEnd();
      SmallVector<BasicBlock *, 4> ex;
      L->getExitingBlocks(ex);
      J.attributeBegin("exiting");
      J.arrayBegin();
      for (auto *B : ex) {
        J.arrayBegin();
        J.value(bids[B]);
        if (SE) {
          auto *S = SE->getExitCount(L, B);
          if (isa<SCEVCouldNotCompute>(S)) J.value(nullptr);
          else J.value(scev(S));
        }
        J.arrayEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      if (SE) {
        auto *S = SE->getBackedgeTakenCount(L);
        if (!isa<SCEVCouldNotCompute>(S)) J.attribute("btc", scev(S));
      }
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("scevs");
    J.arrayBegin();
    for (size_t i = 0; i != scevs.size(); ++i) dumpScev((scevs.begin() + i)->first);
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }
};

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx;
  SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto &in : Inputs) {
    auto m = parseIRFile(in, Err, Ctx);
    if (!m) {
      Err.print("irdump", errs());
      return 3;
    }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) return 3;
  }
  // constructors and destructors are often aliases of each other
  {
    std::vector<GlobalAlias *> as;
    for (GlobalAlias &A : M->aliases()) as.push_back(&A);
    for (GlobalAlias *A : as)
      if (isa<Function>(A->getAliasee())) {
        A->replaceAllUsesWith(A->getAliasee());
        A->eraseFromParent();
      }
  }
  std::vector<Function *> cloneOf;
  // normalise attributes
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    if (DoInline) {
      std::string d = qualName(F.getName());
      bool keep = matchAny(Keep, d) && !matchAny(Inl, d), root = matchAny(Roots, d);
      if (root && CloneRoots) {
        cloneOf.push_back(&F);
        root = false;
      }
      if (keep || root) F.addFnAttr(Attribute::NoInline);
      else F.addFnAttr(Attribute::AlwaysInline);
      if (root) {
        F.setLinkage(GlobalValue::ExternalLinkage);
        F.setComdat(nullptr);
        if (NoAliasArgs)
          for (auto &A : F.args())
            if (A.getType()->isPointerTy()) A.addAttr(Attribute::NoAlias);
      } else if (!F.hasLocalLinkage()) {
        // everything else is only interesting through the roots
        F.setLinkage(GlobalValue::InternalLinkage);
        F.setComdat(nullptr);
      }
    }
  }
    for (Function *F : cloneOf) {
    ValueToValueMapTy vm;
    Function *C = CloneFunction(F, vm);
    C->setName("root." + F->getName().str());
    C->removeFnAttr(Attribute::AlwaysInline);
    C->addFnAttr(Attribute::NoInline);
    C->setLinkage(GlobalValue::ExternalLinkage);
    C->setComdat(nullptr);
    if (NoAliasArgs)
      for (auto &A : C->args())
        if (A.getType()->isPointerTy()) A.addAttr(Attribute::NoAlias);
  }
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  if (!Passes.empty()) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, Passes)) {
      errs() << toString(std::move(E)) << "\n";
      return 3;
    }
    MPM.run(*M, MAM);
  }
  if (!EmitLL.empty()) {
    std::error_code ec;
    raw_fd_ostream o(EmitLL, ec);
    M->print(o, nullptr);
  }
  std::error_code ec;
  raw_fd_ostream OS(Out, ec);
  json::OStream J(OS);
  J.objectBegin();
  // record layouts
  J.attributeBegin("records");
  J.objectBegin();
  DebugInfoFinder Fd;
  Fd.processModule(*M);
  std::set<std::string> done;
  for (DIType *T : Fd.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->isForwardDecl()) continue;
    if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type) continue;
    std::string q = diQual(C);
    if (q.empty() || !done.insert(q).second) continue;
    J.attributeBegin(q);
    J.objectBegin();
    J.attribute("size", (int64_t)(C->getSizeInBits() / 8));
    J.attributeBegin("m");
    J.arrayBegin();
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) {
        if (D->isStaticMember()) continue;
        if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
        J.arrayBegin();
        J.value(D->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : D->getName());
        J.value((int64_t)(D->getOffsetInBits() / 8));
        J.value((int64_t)(D->getSizeInBits() / 8));
        std::string tn = diTypeName(D->getBaseType());
        J.value(tn);
        J.arrayEnd();
      }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    J.attributeEnd();
  }
  J.objectEnd();
  J.attributeEnd();
  // enums
  J.attributeBegin("enums");
  J.objectBegin();
  done.clear();
  for (DIType *T : Fd.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getTag() != dwarf::DW_TAG_enumeration_type || C->getName().empty()) continue;
    std::string q = diQual(C);
    if (!done.insert(q).second) continue;
    J.attributeBegin(q);
    J.objectBegin();
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast_or_null<DIEnumerator>(E)) J.attribute(D->getName(), D->getValue().getSExtValue());
    J.objectEnd();
    J.attributeEnd();
  }
  J.objectEnd();
  J.attributeEnd();
  // globals: strings, vtables
  J.attributeBegin("globals");
  J.objectBegin();
  for (auto &G : M->globals()) {
    if (!G.hasInitializer()) continue;
    if (auto *D = dyn_cast<ConstantDataArray>(G.getInitializer()))
      if (D->isString()) {
        J.attributeBegin(G.getName());
        J.objectBegin();
        StringRef s = D->getAsString();
        J.attribute("str", json::fixUTF8(s.ends_with(StringRef("\0", 1)) ? s.drop_back() : s));
        J.objectEnd();
        J.attributeEnd();
        continue;
      }
    if (auto *CI = dyn_cast<ConstantInt>(G.getInitializer())) {
      J.attributeBegin(G.getName());
      J.objectBegin();
      SmallString<20> s;
      CI->getValue().toStringSigned(s);
      J.attribute("int", s.str());
      J.attribute("const", G.isConstant());
      J.objectEnd();
      J.attributeEnd();
      continue;
    }
    if (G.getName().starts_with("_ZTV")) {
      J.attributeBegin(G.getName());
      J.objectBegin();
      J.attribute("dem", demangle(G.getName().str()));
      J.attributeBegin("vt");
      J.arrayBegin();
      if (auto *S = dyn_cast<ConstantStruct>(G.getInitializer()))
        for (unsigned a = 0; a != S->getNumOperands(); ++a) {
          J.arrayBegin();
          if (auto *A = dyn_cast<ConstantArray>(S->getOperand(a)))
            for (auto &O : A->operands()) {
              auto *v = O->stripPointerCasts();
              if (auto *Fn = dyn_cast<Function>(v)) J.value(Fn->getName());
              else if (auto *GA = dyn_cast<GlobalAlias>(v)) J.value(GA->getAliaseeObject()->getName());
              else J.value(nullptr);
            }
          J.arrayEnd();
        }
      J.arrayEnd();
      J.attributeEnd();
      SmallVector<MDNode *, 4> ts;
      G.getMetadata(LLVMContext::MD_type, ts);
      J.attributeBegin("types");
      J.arrayBegin();
      for (auto *t : ts) {
        J.arrayBegin();
        if (auto *o = mdconst::dyn_extract<ConstantInt>(t->getOperand(0))) J.value(o->getSExtValue());
        if (auto *s = dyn_cast<MDString>(t->getOperand(1))) J.value(s->getString());
        else J.value(nullptr);
        J.arrayEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
      J.attributeEnd();
    }
  }
  J.objectEnd();
  J.attributeEnd();
  J.attributeBegin("functions");
  J.arrayBegin();
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    StringRef nm = F.getName();
    bool isClone = nm.consume_front("root.");
    if (CloneRoots && !isClone) continue;
    if (!Dump.empty() && !matchAny(Dump, qualName(nm))) continue;
    auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    FnDumper(J, F, &SE, &LI).run();
  }
  J.arrayEnd();
  J.attributeEnd();
  J.objectEnd();
  return 0;
}
