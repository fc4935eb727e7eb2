// Structural analyses over LLVM IR.
//   irck arrays  FILE.bc SPEC   array functions: index coverage and element function
//   irck forward FILE.bc SPEC   wrappers that must forward to one function
//   irck effects FILE.bc        memory and call effects of every defined function
//   irck vector  FILE.bc        widest vector store/load per function
//   irck versions FILE.bc PREFIX  one module per version of the multi-versioned functions
//   irck ufunc FILE.bc SPEC     loops of NumPy functions: name|inputs|outputs|element size
//   irck module FILE.bc INIT    what a module initialisation registers
//   irck ifconv  FILE.bc        what keeps an element loop from becoming straight-line lane code
// One JSON object per line on stdout.
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/VectorUtils.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/FunctionComparator.h"
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace llvm;

static std::string dem(StringRef n) {
  std::string d = demangle(n.str());
  return d;
}
static std::string esc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return "\"" + r + "\"";
}
static std::string loc(const Instruction *I) {
  if (const DILocation *L = I->getDebugLoc()) {
    std::string f = L->getFilename().str();
    size_t p = f.rfind('/');
    return (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(L->getLine());
  }
  return "?";
}
static std::string floc(const Function *F) {
  if (const DISubprogram *S = F->getSubprogram()) {
    std::string f = S->getFilename().str();
    size_t p = f.rfind('/');
    return (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(S->getLine());
  }
  return "?";
}

struct Analyses {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  Analyses() {
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  }
  void run(Module &M, const char *pipe) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, pipe)) { errs() << "bad pipeline " << pipe << "\n"; exit(3); }
    MPM.run(M, MAM);
  }
};

// Everything is inlined except the opaque functions, whose bodies are dropped.
static void normalise(Module &M, const std::set<std::string> &opaque, Analyses &A) {
  for (Function &F : M) {
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    std::string d = dem(F.getName());
    if (opaque.count(d)) {
      if (!F.isDeclaration()) F.deleteBody();
      F.setLinkage(GlobalValue::ExternalLinkage);
      F.setComdat(nullptr);
      F.addFnAttr(Attribute::NoInline);
      F.addFnAttr(Attribute::NoUnwind);
      F.addFnAttr(Attribute::WillReturn);
      if (!F.getReturnType()->isVoidTy()) F.setDoesNotAccessMemory();
      F.setSubprogram(nullptr);
    } else if (!F.isDeclaration())
      F.addFnAttr(Attribute::AlwaysInline);
  }
  for (int i = 0; i < 3; i++)
    A.run(M, "always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)");
  A.run(M, "function(loop-simplify,lcssa,loop-mssa(loop-rotate),instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(loop-unroll-full),sroa,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)");
}

// ---------------------------------------------------------------------------
// closed-form evaluation of scalar-evolution expressions for a given size
struct Unknown { std::string why; };
struct Eval {
  ScalarEvolution &SE; LoopInfo &LI; Argument *size; APInt n;
  std::map<const Value *, APInt> env;          // phi values on the walked path
  std::function<bool(const Value *, APInt &)> known;   // values fixed by the caller of the analysis
  APInt scev(const SCEV *S) {
    unsigned w = SE.getTypeSizeInBits(S->getType());
    switch (S->getSCEVType()) {
    case scConstant: return cast<SCEVConstant>(S)->getAPInt();
    case scUnknown: return value(cast<SCEVUnknown>(S)->getValue());
    case scZeroExtend: return scev(cast<SCEVCastExpr>(S)->getOperand()).zext(w);
    case scSignExtend: return scev(cast<SCEVCastExpr>(S)->getOperand()).sext(w);
    case scTruncate: return scev(cast<SCEVCastExpr>(S)->getOperand()).trunc(w);
    case scPtrToInt: return scev(cast<SCEVCastExpr>(S)->getOperand()).zextOrTrunc(w);
    case scAddExpr: { APInt r(w, 0); for (auto *o : cast<SCEVAddExpr>(S)->operands()) r += scev(o); return r; }
    case scMulExpr: { APInt r(w, 1); for (auto *o : cast<SCEVMulExpr>(S)->operands()) r *= scev(o); return r; }
    case scUDivExpr: { APInt b = scev(cast<SCEVUDivExpr>(S)->getRHS()); if (b == 0) throw Unknown{"division by zero"}; return scev(cast<SCEVUDivExpr>(S)->getLHS()).udiv(b); }
    case scUMaxExpr: case scUMinExpr: case scSMaxExpr: case scSMinExpr: case scSequentialUMinExpr: {
      auto *N = cast<SCEVNAryExpr>(S);
      APInt r = scev(N->getOperand(0));
      for (unsigned i = 1; i < N->getNumOperands(); i++) {
        APInt o = scev(N->getOperand(i));
        switch (S->getSCEVType()) {
        case scUMaxExpr: if (o.ugt(r)) r = o; break;
        case scSMaxExpr: if (o.sgt(r)) r = o; break;
        case scSMinExpr: if (o.slt(r)) r = o; break;
        default: if (o.ult(r)) r = o;
        }
      }
      return r;
    }
    default: throw Unknown{"no closed form"};
    }
  }
  APInt value(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->getValue();
    if (V == size) return n;
    if (auto *A = dyn_cast<Argument>(V))        // separate objects; differences within one of them do not depend on the place
      if (A->getType()->isPointerTy()) return APInt(64, (uint64_t)(A->getArgNo() + 1) << 44);
    auto it = env.find(V);
    if (it != env.end()) return it->second;
    APInt fixed;
    if (known && known(V, fixed)) return fixed;
    auto *I = dyn_cast<Instruction>(V);
    if (!I) throw Unknown{"unknown value"};
    if (Loop *L = LI.getLoopFor(I->getParent())) {
      const SCEV *S = SE.getSCEVAtScope(const_cast<Instruction *>(I), L->getParentLoop());
      if (isa<SCEVUnknown>(S) || isa<SCEVCouldNotCompute>(S)) throw Unknown{"loop value without closed form"};
      return scev(S);
    }
    if (I->getType()->isIntegerTy()) {
      if (auto *B = dyn_cast<BinaryOperator>(I)) {
        APInt a = value(B->getOperand(0)), b = value(B->getOperand(1));
        switch (B->getOpcode()) {
        case Instruction::Add: return a + b;
        case Instruction::Sub: return a - b;
        case Instruction::Mul: return a * b;
        case Instruction::And: return a & b;
        case Instruction::Or: return a | b;
        case Instruction::Xor: return a ^ b;
        case Instruction::Shl: return a.shl(b);
        case Instruction::LShr: return a.lshr(b);
        case Instruction::AShr: return a.ashr(b);
        case Instruction::UDiv: if (b == 0) break; return a.udiv(b);
        case Instruction::URem: if (b == 0) break; return a.urem(b);
        case Instruction::SDiv: if (b == 0) break; return a.sdiv(b);
        case Instruction::SRem: if (b == 0) break; return a.srem(b);
        default: break;
        }
        throw Unknown{"integer operation"};
      }
      if (auto *C = dyn_cast<ICmpInst>(I)) {
        if (!C->getOperand(0)->getType()->isIntegerTy()) {
          const SCEV *a = SE.getSCEV(C->getOperand(0)), *b = SE.getSCEV(C->getOperand(1));
          const SCEV *d = SE.getMinusSCEV(a, b);
          if (isa<SCEVCouldNotCompute>(d)) throw Unknown{"pointer comparison"};
          APInt x = scev(d), z(x.getBitWidth(), 0);
          auto P = C->getPredicate();
          return APInt(1, ICmpInst::compare(x, z, ICmpInst::isEquality(P) ? P : ICmpInst::getSignedPredicate(P)));
        }
        return APInt(1, ICmpInst::compare(value(C->getOperand(0)), value(C->getOperand(1)), C->getPredicate()));
      }
      if (isa<ZExtInst>(I)) return value(I->getOperand(0)).zext(I->getType()->getIntegerBitWidth());
      if (isa<SExtInst>(I)) return value(I->getOperand(0)).sext(I->getType()->getIntegerBitWidth());
      if (isa<TruncInst>(I)) return value(I->getOperand(0)).trunc(I->getType()->getIntegerBitWidth());
      if (auto *S = dyn_cast<SelectInst>(I)) return value(S->getCondition()) == 1 ? value(S->getTrueValue()) : value(S->getFalseValue());
      if (isa<FreezeInst>(I)) return value(I->getOperand(0));
      if (auto *II = dyn_cast<IntrinsicInst>(I)) {
        if (II->arg_size() == 2) {
          APInt a = value(II->getArgOperand(0)), b = value(II->getArgOperand(1));
          switch (II->getIntrinsicID()) {
          case Intrinsic::umin: return a.ult(b) ? a : b;
          case Intrinsic::umax: return a.ugt(b) ? a : b;
          case Intrinsic::smin: return a.slt(b) ? a : b;
          case Intrinsic::smax: return a.sgt(b) ? a : b;
          case Intrinsic::usub_sat: return a.usub_sat(b);
          default: break;
          }
        }
      }
    }
    throw Unknown{"value without closed form"};
  }
};

struct Spec { std::string name, target; std::vector<int> in, out; int size; unsigned esz; };
struct Access { Value *base; APInt start; int64_t step; APInt count; };

static Value *stripBase(Value *V) { return getUnderlyingObject(V, 0); }

struct ArrayCheck {
  Function &F; Spec &sp; ScalarEvolution &SE; LoopInfo &LI; DominatorTree &DT;
  std::string bad, where;
  bool fail(const std::string &w, const Instruction *I) { if (bad.empty()) { bad = w; where = I ? loc(I) : floc(&F); if (where == "?") where = floc(&F); } return false; }

  // byte offset of pointer P relative to its base argument: start and step for loop L
  void offset(Value *P, Loop *L, Eval &E, Value *&base, APInt &start, APInt &step) {
    const SCEV *S = SE.getSCEV(P);
    const SCEV *B = SE.getPointerBase(S);
    auto *U = dyn_cast<SCEVUnknown>(B);
    if (!U) throw Unknown{"pointer without base"};
    base = U->getValue();
    if (auto *Phi = dyn_cast<PHINode>(base)) {   // pointer merged after a loop: resolve along the path
      (void)Phi; throw Unknown{"merged pointer"};
    }
    const SCEV *O = SE.getMinusSCEV(S, B);
    if (isa<SCEVCouldNotCompute>(O)) throw Unknown{"pointer offset"};
    if (auto *AR = dyn_cast<SCEVAddRecExpr>(O)) {
      if (AR->getLoop() != L || !AR->isAffine()) throw Unknown{"pointer step"};
      start = E.scev(AR->getStart()); step = E.scev(AR->getStepRecurrence(SE));
    } else { start = E.scev(O); step = APInt(start.getBitWidth(), 0); }
  }
  int argIndex(Value *B) { for (unsigned i = 0; i < F.arg_size(); i++) if (F.getArg(i) == B) return i; return -1; }

  // Describes one store (or by-reference call) and checks value provenance.
  struct Cover { int out; APInt start, step, count; const Instruction *I; };

  bool valueIsElement(Value *V, Value *storePtr, Loop *L, Eval &E, const Instruction *I) {
    auto *C = dyn_cast<CallInst>(V);
    if (!C || !C->getCalledFunction()) return fail("the stored value is not the result of " + sp.target, I);
    std::string d = dem(C->getCalledFunction()->getName());
    if (d != sp.target) return fail("the stored value comes from " + d + " instead of " + sp.target, C);
    if (C->arg_size() != sp.in.size()) return fail("wrong number of arguments", C);
    Value *sb; APInt ss, st;
    offset(storePtr, L, E, sb, ss, st);
    for (unsigned k = 0; k < sp.in.size(); k++)
      if (!argIsElement(C->getArgOperand(k), k, ss, st, L, E, C)) return false;
    return true;
  }
  bool argIsElement(Value *V, unsigned k, APInt ss, APInt st, Loop *L, Eval &E, const Instruction *C) {
    auto *Ld = dyn_cast<LoadInst>(V);
    if (!Ld) return fail("argument " + std::to_string(k + 1) + " of the element function is not an input element", C);
    Value *b; APInt s, t;
    offset(Ld->getPointerOperand(), L, E, b, s, t);
    if (argIndex(b) != sp.in[k]) return fail("argument " + std::to_string(k + 1) + " of the element function is read from the wrong array", Ld);
    if (s != ss || t != st) return fail("input element index differs from output element index", Ld);
    return true;
  }

  // an exit test against the size made on a zero-extended, narrower induction variable
  const Instruction *narrowCounter(Loop *L) {
    SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex);
    for (BasicBlock *B : ex)
      if (auto *Br = dyn_cast<BranchInst>(B->getTerminator()))
        if (Br->isConditional())
          if (auto *C = dyn_cast<ICmpInst>(Br->getCondition()))
            for (Value *O : C->operands())
              if (auto *Z = dyn_cast<CastInst>(O))
                if (isa<ZExtInst>(Z) || isa<SExtInst>(Z))
                  if (auto *AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(Z->getOperand(0))))
                    if (AR->getLoop() == L) return C;
    for (PHINode &P : L->getHeader()->phis())
      if (P.getType()->isIntegerTy() && P.getType()->getIntegerBitWidth() < F.getArg(sp.size)->getType()->getIntegerBitWidth())
        return &P;
    return nullptr;
  }

  bool run(APInt n) {
    Eval E{SE, LI, F.getArg(sp.size), n, {}, {}};
    std::vector<Cover> cov;
    BasicBlock *BB = &F.getEntryBlock(), *prev = nullptr;
    int guard = 0;
    auto visit = [&](BasicBlock *B, Loop *L, APInt count) -> bool {
      for (Instruction &I : *B) {
        if (auto *S = dyn_cast<StoreInst>(&I)) {
          Value *b; APInt s, t;
          offset(S->getPointerOperand(), L, E, b, s, t);
          int ai = argIndex(b);
          int o = -1;
          for (unsigned k = 0; k < sp.out.size(); k++) if (sp.out[k] == ai) o = k;
          if (o < 0) return fail("stores to memory other than the output array", &I);
          if (!valueIsElement(S->getValueOperand(), S->getPointerOperand(), L, E, &I)) return false;
          cov.push_back({o, s, t, count, &I});
        } else if (auto *C = dyn_cast<CallInst>(&I)) {
          if (isa<DbgInfoIntrinsic>(C) || I.isLifetimeStartOrEnd()) continue;
          Function *G = C->getCalledFunction();
          if (!G) return fail("indirect call", &I);
          std::string d = dem(G->getName());
          if (d == sp.target && C->getType()->isVoidTy()) {   // results by reference
            if (C->arg_size() != sp.in.size() + sp.out.size()) return fail("wrong number of arguments", C);
            APInt s0, t0;
            for (unsigned k = 0; k < sp.out.size(); k++) {
              Value *b; APInt s, t;
              offset(C->getArgOperand(sp.in.size() + k), L, E, b, s, t);
              if (argIndex(b) != sp.out[k]) return fail("result " + std::to_string(k + 1) + " goes to the wrong array", C);
              cov.push_back({(int)k, s, t, count, &I});
              if (k == 0) { s0 = s; t0 = t; }
            }
            for (unsigned k = 0; k < sp.in.size(); k++)
              if (!argIsElement(C->getArgOperand(k), k, s0, t0, L, E, C)) return false;
            continue;
          }
          if (d == sp.target || C->doesNotAccessMemory() || G->isIntrinsic()) {
            if (G->isIntrinsic() && (isa<MemIntrinsic>(C))) return fail("block memory operation", &I);
            continue;
          }
          return fail("calls " + d, &I);
        } else if (auto *Ld = dyn_cast<LoadInst>(&I)) {
          Value *b; APInt s, t;
          offset(Ld->getPointerOperand(), L, E, b, s, t);
          int ai = argIndex(b);
          bool ok = false;
          for (int k : sp.in) ok |= k == ai;
          if (!ok) return fail("reads memory other than the input arrays", &I);
          if (!count.isZero()) {
            APInt last = s + t * (count.zextOrTrunc(64) - 1);
            APInt lim = n.zext(64) * sp.esz;
            if (n.getBitWidth() == 64 ? false : (s.uge(lim) || last.uge(lim))) return fail("reads past the end of an input array", &I);
          }
        } else if (I.mayWriteToMemory()) return fail("other memory effect", &I);
      }
      return true;
    };
    while (BB) {
      if (++guard > 400) throw Unknown{"path too long"};
      Loop *L = LI.getLoopFor(BB);
      if (L) {
        if (L->getHeader() != BB || !L->getSubLoops().empty() || L->getParentLoop()) throw Unknown{"loop structure"};
        // values entering the header phis
        const SCEV *BT = SE.getBackedgeTakenCount(L);
        if (isa<SCEVCouldNotCompute>(BT)) {
          if (const Instruction *I = narrowCounter(L)) return fail("the loop counter is narrower than the array size and wraps before reaching it", I);
          throw Unknown{"trip count"};
        }
        BasicBlock *latch = L->getLoopLatch();
        BasicBlock *exiting = L->getExitingBlock();
        if (!latch || exiting != latch) throw Unknown{"loop exit"};
        APInt count = E.scev(BT).zextOrTrunc(64) + 1;
        for (PHINode &P : L->getHeader()->phis()) {      // a signed counter stays within its type
          if (!P.getType()->isIntegerTy() || P.getBasicBlockIndex(latch) < 0) continue;
          auto *Inc = dyn_cast<BinaryOperator>(P.getIncomingValueForBlock(latch));
          auto *AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(&P));
          if (!Inc || Inc->getOpcode() != Instruction::Add || !Inc->hasNoSignedWrap() || !AR || AR->getLoop() != L || !AR->isAffine()) continue;
          unsigned w = P.getType()->getIntegerBitWidth();
          APInt end = E.scev(AR->getStart()).sext(128 + w).trunc(128) + E.scev(AR->getStepRecurrence(SE)).sext(128 + w).trunc(128) * count.zext(128);
          if (!end.isSignedIntN(w)) return fail("the signed loop counter overflows", Inc);
        }
        for (BasicBlock *B : L->blocks()) {
          bool has = false;
          for (Instruction &I : *B) has |= I.mayWriteToMemory() || isa<LoadInst>(I);
          if (!has) continue;
          if (!DT.dominates(B, latch)) {
            for (Instruction &I : *B) if (isa<StoreInst>(I)) return fail("an element is written only under a condition", &I);
            throw Unknown{"conditional access in a loop"};
          }
          if (!visit(B, L, count)) return false;
        }
        BasicBlock *ex = L->getExitBlock();
        if (!ex) throw Unknown{"loop exit"};
        prev = latch; BB = ex;
      } else {
        if (!visit(BB, nullptr, APInt(64, 1))) return false;
      }
      // next block
      if (!LI.getLoopFor(BB)) {
        // phis along the path
        std::map<const Value *, APInt> upd;
        if (prev)
          for (PHINode &P : BB->phis()) {
            if (!P.getType()->isIntegerTy()) continue;
            try { upd.insert({&P, E.value(P.getIncomingValueForBlock(prev))}); } catch (Unknown &) {}
          }
        for (auto &u : upd) { E.env.erase(u.first); E.env.insert(u); }
        if (L) { if (!visit(BB, nullptr, APInt(64, 1))) return false; }
        Instruction *T = BB->getTerminator();
        prev = BB;
        if (isa<ReturnInst>(T)) break;
        if (auto *Br = dyn_cast<BranchInst>(T)) {
          if (Br->isUnconditional()) BB = Br->getSuccessor(0);
          else BB = Br->getSuccessor(E.value(Br->getCondition()) == 1 ? 0 : 1);
        } else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
          APInt v = E.value(Sw->getCondition());
          BasicBlock *next = Sw->getDefaultDest();
          for (auto &c : Sw->cases()) if (c.getCaseValue()->getValue() == v) next = c.getCaseSuccessor();
          BB = next;
        } else throw Unknown{"terminator"};
        // phis of the next block when it is plain
        if (!LI.getLoopFor(BB)) {
          std::map<const Value *, APInt> up2;
          for (PHINode &P : BB->phis()) {
            if (!P.getType()->isIntegerTy()) continue;
            try { up2.insert({&P, E.value(P.getIncomingValueForBlock(prev))}); } catch (Unknown &) {}
          }
          for (auto &u : up2) { E.env.erase(u.first); E.env.insert(u); }
        }
      }
    }
    // coverage: for every output the progressions tile [0, n)
    uint64_t N = n.getBitWidth() == 64 ? (n.isNegative() ? 0 : n.getZExtValue()) : n.getZExtValue();
    for (unsigned o = 0; o < sp.out.size(); o++) {
      std::vector<std::array<uint64_t, 3>> pr;   // first, step, count (element units)
      uint64_t total = 0;
      for (auto &c : cov) {
        if (c.out != (int)o || c.count.isZero()) continue;
        int64_t s = c.start.sextOrTrunc(64).getSExtValue(), t = c.step.sextOrTrunc(64).getSExtValue();
        uint64_t cnt = c.count.getZExtValue();
        if (s % (int64_t)sp.esz || t % (int64_t)sp.esz) return fail("output index not aligned to an element", c.I);
        s /= (int64_t)sp.esz; t /= (int64_t)sp.esz;
        if (t == 0 && cnt > 1) return fail("every iteration writes the same element", c.I);
        __int128 last = (__int128)s + (__int128)t * (__int128)(cnt - 1);
        if (t < 0) { __int128 a = last; last = s; s = (int64_t)a; t = -t; }
        if (s < 0 || last >= (__int128)N)
          return fail("writes element " + std::to_string(s < 0 ? s : (int64_t)last) + " of an array of size " + std::to_string(N), c.I);
        total += cnt;
        pr.push_back({(uint64_t)s, (uint64_t)(t ? t : 1), cnt});
      }
      if (total != N) return fail("writes " + std::to_string(total) + " elements of an array of size " + std::to_string(N), nullptr);
      // disjointness
      for (unsigned a = 0; a < pr.size(); a++)
        for (unsigned b = a + 1; b < pr.size(); b++) {
          uint64_t a0 = pr[a][0], a1 = a0 + pr[a][1] * (pr[a][2] - 1), b0 = pr[b][0], b1 = b0 + pr[b][1] * (pr[b][2] - 1);
          if (a1 < b0 || b1 < a0) continue;
          uint64_t x = pr[a][1], y = pr[b][1];
          while (y) { uint64_t r = x % y; x = y; y = r; }
          if ((a0 > b0 ? a0 - b0 : b0 - a0) % x) continue;
          return fail("an element is written twice and another one not at all (size " + std::to_string(N) + ")", nullptr);
        }
    }
    return true;
  }
};

static std::vector<Spec> readSpec(const char *p) {
  std::vector<Spec> r;
  std::ifstream f(p);
  std::string line;
  while (std::getline(f, line)) {     // name|target|size|in,in|out,out|esz
    std::vector<std::string> c; std::string t; std::stringstream ss(line);
    while (std::getline(ss, t, '|')) c.push_back(t);
    if (c.size() < 6) continue;
    Spec s; s.name = c[0]; s.target = c[1]; s.size = atoi(c[2].c_str());
    auto li = [](const std::string &x) { std::vector<int> v; std::stringstream q(x); std::string u; while (std::getline(q, u, ',')) v.push_back(atoi(u.c_str())); return v; };
    s.in = li(c[3]); s.out = li(c[4]); s.esz = atoi(c[5].c_str());
    r.push_back(s);
  }
  return r;
}

static Function *find(Module &M, const std::string &d) {
  for (Function &F : M) if (dem(F.getName()) == d) return &F;
  return nullptr;
}

static void arrays(Module &M, const char *spec) {
  auto specs = readSpec(spec);
  std::set<std::string> opaque;
  for (auto &s : specs) opaque.insert(s.target);
  Analyses A;
  normalise(M, opaque, A);
  for (auto &s : specs) {
    Function *F = find(M, s.name);
    std::string st = "ok", why, where; unsigned sizes = 0, acc = 0;
    if (!F || F->isDeclaration()) { st = "missing"; }
    else {
      auto &SE = A.FAM.getResult<ScalarEvolutionAnalysis>(*F);
      auto &LI = A.FAM.getResult<LoopAnalysis>(*F);
      auto &DT = A.FAM.getResult<DominatorTreeAnalysis>(*F);
      unsigned w = F->getArg(s.size)->getType()->getIntegerBitWidth();
      std::vector<uint64_t> ns;
      for (uint64_t i = 0; i <= 1030; i++) ns.push_back(i);
      for (int b : {11, 12, 15, 16, 17, 20, 23, 24, 25, 30, 31, 32})
        for (int d = -9; d <= 9; d++) ns.push_back((1ull << b) + d);
      for (uint64_t v : {1000000007ull, 3000000019ull, 4000000007ull, 0xfffffff0ull}) ns.push_back(v);
      for (auto &I : instructions(*F)) acc += isa<StoreInst>(I) || isa<LoadInst>(I);
      for (uint64_t v : ns) {
        if (w == 32 && v > 0xffffffffull) continue;
        ArrayCheck C{*F, s, SE, LI, DT};
        try {
          sizes++;
          if (!C.run(APInt(w, v))) { st = "bad"; why = C.bad + " (size " + std::to_string(v) + ")"; where = C.where; break; }
        } catch (Unknown &u) { st = "unknown"; why = u.why; where = floc(F); break; }
      }
      if (st == "ok" && w == 64)
        for (int64_t v : {-1ll, -5ll}) {
          ArrayCheck C{*F, s, SE, LI, DT};
          try { if (!C.run(APInt(w, v, true))) { st = "bad"; why = C.bad + " (negative size)"; where = C.where; break; } } catch (Unknown &u) {}
        }
    }
    printf("{\"fn\":%s,\"target\":%s,\"status\":\"%s\",\"why\":%s,\"where\":%s,\"sizes\":%u,\"accesses\":%u}\n", esc(s.name).c_str(), esc(s.target).c_str(), st.c_str(), esc(why).c_str(), esc(where).c_str(), sizes, acc);
  }
}

// Both functions fully inlined and normalised by the same pipeline must be identical.
static void same(Module &M, const char *spec) {
  std::ifstream f(spec); std::string line;
  std::vector<std::pair<std::string, std::string>> ps;
  while (std::getline(f, line)) { size_t p = line.find('|'); if (p != std::string::npos) ps.push_back({line.substr(0, p), line.substr(p + 1)}); }
  Analyses A;
  normalise(M, {}, A);
  A.run(M, "function(reassociate,gvn,instcombine<no-verify-fixpoint>,reassociate,simplifycfg,adce)");
  for (Function &F : M) { F.setSubprogram(nullptr); for (auto &I : instructions(F)) { I.setDebugLoc(DebugLoc()); if (auto *C = dyn_cast<CallBase>(&I)) C->setAttributes(AttributeList()); } }
  GlobalNumberState GN;
  for (auto &p : ps) {
    Function *a = find(M, p.first), *b = find(M, p.second);
    bool eq = false;
    if (a && b && !a->isDeclaration() && !b->isDeclaration()) {
      for (Function *x : {a, b}) { x->setAttributes(AttributeList()); x->setLinkage(GlobalValue::ExternalLinkage); x->setComdat(nullptr); x->setUnnamedAddr(GlobalValue::UnnamedAddr::None); }
      eq = FunctionComparator(a, b, &GN).compare() == 0;
    }
    printf("{\"fn\":%s,\"ref\":%s,\"same\":%s}\n", esc(p.first).c_str(), esc(p.second).c_str(), eq ? "true" : "false");
  }
}

static void forward(Module &M, const char *spec) {
  std::ifstream f(spec); std::string line;
  std::vector<std::pair<std::string, std::string>> ps;
  std::set<std::string> opaque;
  while (std::getline(f, line)) { size_t p = line.find('|'); if (p != std::string::npos) { ps.push_back({line.substr(0, p), line.substr(p + 1)}); opaque.insert(line.substr(p + 1)); } }
  Analyses A;
  normalise(M, opaque, A);
  for (auto &p : ps) {
    Function *F = find(M, p.first);
    std::string why, where;
    if (!F || F->isDeclaration()) why = "not defined";
    else {
      where = floc(F);
      unsigned calls = 0;
      for (auto &I : instructions(*F)) {
        if (auto *C = dyn_cast<CallInst>(&I)) {
          if (isa<DbgInfoIntrinsic>(C) || I.isLifetimeStartOrEnd()) continue;
          std::string d = C->getCalledFunction() ? dem(C->getCalledFunction()->getName()) : "?";
          if (d == p.second) {
            calls++;
            for (unsigned k = 0; k < C->arg_size(); k++)
              if (k >= F->arg_size() || C->getArgOperand(k) != F->getArg(k)) why = "argument " + std::to_string(k + 1) + " of " + d + " is not argument " + std::to_string(k + 1) + " of the wrapper";
            if (C->arg_size() != F->arg_size()) why = "argument count differs";
          } else if (!C->doesNotAccessMemory() || calls == 0) { why = "calls " + d; where = loc(&I); }
        } else if (I.mayWriteToMemory() || isa<LoadInst>(I)) { why = "accesses memory"; where = loc(&I); }
        if (auto *R = dyn_cast<ReturnInst>(&I)) {
          if (!F->getReturnType()->isVoidTy()) {
            auto *C = dyn_cast_or_null<CallInst>(R->getReturnValue());
            if (!C || !C->getCalledFunction() || dem(C->getCalledFunction()->getName()) != p.second) { if (why.empty()) why = "does not return the result of " + p.second; }
          }
        }
      }
      if (why.empty() && calls == 0) why = "never calls " + p.second;
    }
    printf("{\"fn\":%s,\"target\":%s,\"status\":\"%s\",\"why\":%s,\"where\":%s}\n", esc(p.first).c_str(), esc(p.second).c_str(), why.empty() ? "ok" : "bad", esc(why).c_str(), esc(where).c_str());
  }
}

// does this use hand the address itself to someone else
static bool escapes(const Instruction *I, const Value *V, int depth) {
  if (depth > 8) return true;
  if (isa<LoadInst>(I) || isa<ICmpInst>(I)) return false;
  if (auto *S = dyn_cast<StoreInst>(I)) return S->getValueOperand() == V;
  if (auto *C = dyn_cast<CallBase>(I)) return !isa<DbgInfoIntrinsic>(C) && !isa<MemTransferInst>(C);
  if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) {
    for (const User *U : I->users())
      if (auto *J = dyn_cast<Instruction>(U)) if (escapes(J, I, depth + 1)) return true;
    return false;
  }
  return true;
}

static void effects(Module &M) {
  for (Function &F : M) {
    if (F.isDeclaration()) continue;
    std::vector<std::string> ev;
    auto add = [&](const char *k, const std::string &what, const Instruction *I) { ev.push_back(std::string("[") + esc(k) + "," + esc(what) + "," + esc(I ? loc(I) : floc(&F)) + "]"); };
    unsigned ninst = 0;
    for (auto &I : instructions(F)) {
      ninst++;
      // taking part in memory
      auto classify = [&](Value *P, bool store) {
        Value *B = stripBase(P);
        if (auto *G = dyn_cast<GlobalVariable>(B)) {
          if (store) add("store-global", dem(G->getName()), &I);
          else if (!G->isConstant()) add("load-global", dem(G->getName()), &I);
        } else if (auto *C = dyn_cast<CallBase>(B)) {
          if (C->getIntrinsicID() == Intrinsic::threadlocal_address) add(store ? "store-global" : "load-global", "thread-local", &I);
          else if (store) add("store-indirect", C->getCalledFunction() ? dem(C->getCalledFunction()->getName()) : "?", &I);
        } else if (isa<Argument>(B)) { if (store) add("store-arg", std::to_string(cast<Argument>(B)->getArgNo()), &I); }
        else if (!isa<AllocaInst>(B) && store) {
          // pointer loaded from a local slot or merged: attribute to arguments when it is one
          add("store-other", "", &I);
        }
      };
      if (auto *S = dyn_cast<StoreInst>(&I)) { classify(S->getPointerOperand(), true); if (S->isVolatile() || S->isAtomic()) add("volatile", "", &I); }
      else if (auto *L = dyn_cast<LoadInst>(&I)) { classify(L->getPointerOperand(), false); if (L->isVolatile() || L->isAtomic()) add("volatile", "", &I); }
      else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<FenceInst>(I)) add("atomic", "", &I);
      else if (auto *C = dyn_cast<CallBase>(&I)) {
        if (C->isInlineAsm()) add("asm", "", &I);
        else if (Function *G = C->getCalledFunction()) {
          if (G->isIntrinsic()) {
            if (auto *MI = dyn_cast<MemIntrinsic>(C)) { classify(MI->getRawDest(), true); if (auto *MT = dyn_cast<MemTransferInst>(C)) classify(MT->getRawSource(), false); }
            else if (G->getIntrinsicID() == Intrinsic::readcyclecounter) add("extern", "readcyclecounter", &I);
          } else add(G->isDeclaration() ? "extern" : "call", dem(G->getName()), &I);
        } else add("indirect", "", &I);
      }
      for (Use &U : I.operands())   // address of a function or mutable global escaping
        if (auto *G = dyn_cast<GlobalVariable>(U->stripPointerCasts()))
          if (!G->isConstant() && escapes(&I, G, 0)) add("global-address", dem(G->getName()), &I);
    }
    printf("{\"fn\":%s,\"where\":%s,\"inst\":%u,\"linkage\":%d,\"effects\":[", esc(dem(F.getName())).c_str(), esc(floc(&F)).c_str(), ninst, (int)F.getLinkage());
    for (size_t i = 0; i < ev.size(); i++) printf("%s%s", i ? "," : "", ev[i].c_str());
    printf("]}\n");
  }
  for (GlobalVariable &G : M.globals())
    printf("{\"global\":%s,\"constant\":%s,\"declaration\":%s,\"local\":%s}\n", esc(dem(G.getName())).c_str(), G.isConstant() ? "true" : "false", G.isDeclaration() ? "true" : "false", G.hasLocalLinkage() ? "true" : "false");
}

static void vectorw(Module &M) {
  for (Function &F : M) {
    if (F.isDeclaration()) continue;
    unsigned w = 0, fp = 0; std::string calls;
    for (auto &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I)) if (auto *V = dyn_cast<FixedVectorType>(S->getValueOperand()->getType())) if (V->getElementType()->isFloatingPointTy()) w = std::max(w, V->getNumElements());
      if (auto *V = dyn_cast<FixedVectorType>(I.getType())) if (V->getElementType()->isFloatingPointTy() && V->getNumElements() > 1) fp++;
      if (auto *C = dyn_cast<CallInst>(&I)) if (C->getCalledFunction() && !C->getCalledFunction()->isIntrinsic()) calls = dem(C->getCalledFunction()->getName());
    }
    printf("{\"fn\":%s,\"where\":%s,\"width\":%u,\"vector_ops\":%u,\"call\":%s}\n", esc(dem(F.getName())).c_str(), esc(floc(&F)).c_str(), w, fp, esc(calls).c_str());
  }
}

// Element loops (functions loop_*): after inlining and unrolling, is every
// iteration an acyclic computation of out[i] from in[i], free of calls,
// carried values and effects?  Such a body can be turned into selects.
static void ifconv(Module &M) {
  static const std::set<std::string> lane = {"fabs", "sqrt", "floor", "ceil", "trunc", "rint", "nearbyint", "round", "copysign", "fmin", "fmax", "fma"};
  Analyses A;
  for (Function &F : M)
    if (!F.isDeclaration() && !F.hasFnAttribute(Attribute::NoInline)) F.addFnAttr(Attribute::AlwaysInline);
  for (int i = 0; i < 3; i++)
    A.run(M, "always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)");
  A.run(M, "function(loop-simplify,lcssa,loop-mssa(loop-rotate),instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(loop-unroll-full),sroa,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)");
  for (Function &F : M) {
    if (F.isDeclaration() || dem(F.getName()).rfind("loop_", 0) != 0) continue;
    auto &LI = A.FAM.getResult<LoopAnalysis>(F);
    auto &SE = A.FAM.getResult<ScalarEvolutionAnalysis>(F);
    std::string why, where; unsigned ninst = 0, nblk = 0;
    auto bad = [&](const std::string &w, const Instruction *I) { if (why.empty()) { why = w; where = I ? loc(I) : floc(&F); } };
    auto firstloc = [](const BasicBlock *B) -> const Instruction * { for (auto &I : *B) if (I.getDebugLoc() && I.getDebugLoc().getLine()) return &I; return B->getTerminator(); };
    Loop *L = nullptr; unsigned nl = 0;
    for (Loop *X : LI.getLoopsInPreorder()) { nl++; if (!X->getParentLoop() && !L) L = X; }
    if (!L) bad("no element loop", nullptr);
    else {
      for (Loop *X : LI.getLoopsInPreorder()) if (X != L && !SE.getSmallConstantTripCount(X)) bad("loop whose number of iterations depends on the element", firstloc(X->getHeader()));
      if (!L->getExitingBlock()) bad("the element loop can be left in several places", firstloc(L->getHeader()));
      for (PHINode &P : L->getHeader()->phis()) {
        auto *AR = SE.isSCEVable(P.getType()) ? dyn_cast<SCEVAddRecExpr>(SE.getSCEV(&P)) : nullptr;
        if (!AR) bad("value carried from one element to the next", &P);
      }
      for (BasicBlock *B : L->blocks()) {
        nblk++;
        for (Instruction &I : *B) {
          ninst++;
          Type *T = I.getType()->getScalarType();
          if (T->isX86_FP80Ty() || T->isFP128Ty() || (T->isIntegerTy() && T->getIntegerBitWidth() > 64)) bad("arithmetic wider than any SIMD lane", &I);
          if (auto *C = dyn_cast<CallBase>(&I)) {
            Function *G = C->getCalledFunction();
            if (C->isInlineAsm()) bad("inline assembly", &I);
            else if (!G) bad("indirect call", &I);
            else if (G->isIntrinsic()) {
              auto id = G->getIntrinsicID();
              if (!(isTriviallyVectorizable(id) || isa<DbgInfoIntrinsic>(C) || C->isLifetimeStartOrEnd() || id == Intrinsic::assume || id == Intrinsic::is_fpclass || id == Intrinsic::experimental_noalias_scope_decl || isa<MemIntrinsic>(C))) bad("call of " + dem(G->getName()), &I);
            } else {
              std::string n = dem(G->getName()), b = n;
              if (b.size() > 1 && b.back() == 'f') b.pop_back();
              if (!lane.count(n) && !lane.count(b)) bad("call of " + n, &I);
            }
          }
          if (I.isAtomic() || I.isVolatile()) bad("volatile or atomic access", &I);
          Value *P = nullptr; bool st = false;
          if (auto *S = dyn_cast<StoreInst>(&I)) { P = S->getPointerOperand(); st = true; }
          else if (auto *Q = dyn_cast<LoadInst>(&I)) P = Q->getPointerOperand();
          if (P) {
            Value *Bs = stripBase(P);
            if (auto *G = dyn_cast<GlobalVariable>(Bs)) { if (st || !G->isConstant()) bad("access to the mutable object " + dem(G->getName()), &I); }
            else if (isa<Argument>(Bs)) {
              auto *AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(P));
              if (!AR || !AR->isAffine() || AR->getLoop() != L) bad("memory access not at the current element", &I);
            } else if (!isa<AllocaInst>(Bs)) bad("access through a computed address", &I);
          }
        }
      }
    }
    printf("{\"fn\":%s,\"why\":%s,\"where\":%s,\"instructions\":%u,\"blocks\":%u}\n", esc(dem(F.getName())).c_str(), esc(why).c_str(), esc(where).c_str(), ninst, nblk);
  }
}

// the constant string a function returns
static void text(Module &M, const std::string &name) {
  Analyses A;
  normalise(M, {}, A);
  Function *F = find(M, name);
  std::string t, where; bool known = false;
  if (F && !F->isDeclaration()) {
    where = floc(F);
    unsigned rets = 0;
    for (auto &I : instructions(*F))
      if (auto *R = dyn_cast<ReturnInst>(&I)) {
        StringRef S;
        rets++;
        known = R->getReturnValue() && getConstantStringInfo(R->getReturnValue(), S);
        t = S.str();
      }
    if (rets != 1) known = false;
  }
  printf("{\"fn\":%s,\"known\":%s,\"text\":%s,\"where\":%s}\n", esc(name).c_str(), known ? "true" : "false", esc(t).c_str(), esc(where).c_str());
}

// ---------------------------------------------------------------------------
// Loops of NumPy functions. The function they are given works on arrays without gaps; a
// call with m elements therefore does elements i..i+m-1 only where every step is the element size.
struct UfuncCheck {
  Function &F; unsigned nin, nout; uint64_t esz; ScalarEvolution &SE; LoopInfo &LI; DominatorTree &DT;
  std::vector<int64_t> steps;
  std::string bad, where;
  bool fail(const std::string &w, const Instruction *I) { if (bad.empty()) { bad = w; where = I ? loc(I) : floc(&F); } return false; }
  // index of the element of table argument `arg` that V loads, -1 otherwise
  int slot(const Value *V, unsigned arg) {
    auto *L = dyn_cast<LoadInst>(V);
    if (!L) return -1;
    APInt off(64, 0);
    const Value *B = L->getPointerOperand()->stripAndAccumulateConstantOffsets(F.getParent()->getDataLayout(), off, true);
    if (B != F.getArg(arg) || off.isNegative() || off.getZExtValue() % 8) return -1;
    return off.getZExtValue() / 8;
  }
  struct Cov { int64_t first, step; uint64_t count, each; };
  bool call(CallInst *C, Loop *L, uint64_t count, Eval &E, uint64_t n, std::vector<Cov> &cov) {
    if (C->arg_size() != nin + nout + 1) return fail("the function is called with " + std::to_string(C->arg_size()) + " arguments", C);
    const SCEV *MS = SE.getSCEV(C->getArgOperand(nin + nout));
    if (L && !SE.isLoopInvariant(MS, L)) throw Unknown{"number of elements varies"};
    int64_t m = E.scev(MS).getSExtValue();
    if (m <= 0 || count == 0) return true;
    int64_t first = 0, step = 0;
    for (int k = (int)(nin + nout) - 1; k >= 0; k--) {
      const SCEV *S = SE.getSCEV(C->getArgOperand(k)), *B = SE.getPointerBase(S);
      auto *U = dyn_cast<SCEVUnknown>(B);
      if (!U) throw Unknown{"pointer without base"};
      if (slot(U->getValue(), 0) != k) return fail("argument " + std::to_string(k + 1) + " of the function is not array number " + std::to_string(k + 1), C);
      const SCEV *O = SE.getMinusSCEV(S, B);
      int64_t s, t = 0;
      if (auto *AR = dyn_cast<SCEVAddRecExpr>(O)) {
        if (AR->getLoop() != L || !AR->isAffine()) throw Unknown{"pointer step"};
        s = E.scev(AR->getStart()).getSExtValue(); t = E.scev(AR->getStepRecurrence(SE)).getSExtValue();
      } else s = E.scev(O).getSExtValue();
      if (k == (int)(nin + nout) - 1) {
        if (s % steps[k] || t % steps[k]) return fail("an output is not at a multiple of its step", C);
        first = s / steps[k]; step = t / steps[k];
        if (m > 1 && steps[k] != (int64_t)esz && n > 1) return fail("an array with gaps is handed over as if it had none", C);
      } else {
        if (s != first * steps[k] || (count > 1 && t != step * steps[k])) return fail("array " + std::to_string(k + 1) + " is not advanced by its own step", C);
        if (m > 1 && steps[k] != (int64_t)esz && n > 1) return fail("an array with gaps is handed over as if it had none", C);
      }
    }
    if (count > 1 && step == 0) return fail("every pass does the same element", C);
    cov.push_back({first, step, count, (uint64_t)m});
    return true;
  }
  bool run(uint64_t n) {
    Eval E{SE, LI, nullptr, APInt(64, n), {}, {}};
    E.known = [&](const Value *V, APInt &r) {
      int k;
      if ((k = slot(V, 2)) >= 0 && k < (int)steps.size()) { r = APInt(64, steps[k], true); return true; }
      if ((k = slot(V, 1)) == 0) { r = APInt(64, n); return true; }
      if ((k = slot(V, 0)) >= 0) { r = APInt(64, (uint64_t)(k + 8) << 48); return true; }
      return false;
    };
    std::vector<Cov> cov;
    BasicBlock *BB = &F.getEntryBlock(), *prev = nullptr;
    int guard = 0;
    auto visit = [&](BasicBlock *B, Loop *L, uint64_t count) -> bool {
      for (Instruction &I : *B) {
        if (auto *C = dyn_cast<CallInst>(&I)) {
          if (isa<DbgInfoIntrinsic>(C) || I.isLifetimeStartOrEnd()) continue;
          if (C->getCalledOperand() == F.getArg(3)) { if (!call(C, L, count, E, n, cov)) return false; }
          else if (!C->doesNotAccessMemory()) return fail("calls something else than the function it is given", &I);
        } else if (auto *Ld = dyn_cast<LoadInst>(&I)) {
          if (slot(Ld, 0) < 0 && slot(Ld, 1) != 0 && (slot(Ld, 2) < 0 || slot(Ld, 2) >= (int)steps.size())) return fail("reads memory outside the tables it is given", &I);
        } else if (I.mayWriteToMemory()) return fail("writes memory itself", &I);
      }
      return true;
    };
    auto enter = [&](BasicBlock *B, BasicBlock *from) {
      if (LI.getLoopFor(B)) return;
      std::map<const Value *, APInt> upd;
      for (PHINode &P : B->phis()) {
        if (!P.getType()->isIntegerTy()) continue;
        try { upd.insert({&P, E.value(P.getIncomingValueForBlock(from))}); } catch (Unknown &) {}
      }
      for (auto &u : upd) { E.env.erase(u.first); E.env.insert(u); }
    };
    while (BB) {
      if (++guard > 300) throw Unknown{"path too long"};
      if (Loop *L = LI.getLoopFor(BB)) {
        if (L->getHeader() != BB || !L->getSubLoops().empty() || L->getParentLoop()) throw Unknown{"loop structure"};
        const SCEV *BT = SE.getBackedgeTakenCount(L);
        BasicBlock *latch = L->getLoopLatch();
        if (isa<SCEVCouldNotCompute>(BT) || !latch || L->getExitingBlock() != latch || !L->getExitBlock()) {
          for (PHINode &P : BB->phis()) if (P.getType()->isIntegerTy() && P.getType()->getIntegerBitWidth() < 64) return fail("the loop counter is narrower than the number of elements", &P);
          throw Unknown{"trip count"};
        }
        uint64_t count = E.scev(BT).getZExtValue() + 1;
        for (PHINode &P : L->getHeader()->phis()) {
          if (!P.getType()->isIntegerTy()) continue;
          auto *Inc = dyn_cast<BinaryOperator>(P.getIncomingValueForBlock(latch));
          auto *AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(&P));
          if (!Inc || Inc->getOpcode() != Instruction::Add || !Inc->hasNoSignedWrap() || !AR || AR->getLoop() != L || !AR->isAffine()) continue;
          unsigned w = P.getType()->getIntegerBitWidth();
          APInt end = E.scev(AR->getStart()).sext(128 + w).trunc(128) + E.scev(AR->getStepRecurrence(SE)).sext(128 + w).trunc(128) * APInt(128, count);
          if (!end.isSignedIntN(w)) return fail("the loop counter overflows", Inc);
        }
        for (BasicBlock *B : L->blocks()) {
          bool has = false;
          for (Instruction &I : *B) has |= isa<CallInst>(I) && !isa<DbgInfoIntrinsic>(I) || I.mayWriteToMemory();
          if (has && !DT.dominates(B, latch)) throw Unknown{"conditional call in a loop"};
          if (!visit(B, L, count)) return false;
        }
        prev = latch; BB = L->getExitBlock();
        enter(BB, prev);
        continue;
      }
      if (!visit(BB, nullptr, 1)) return false;
      Instruction *T = BB->getTerminator();
      prev = BB;
      if (isa<ReturnInst>(T)) break;
      if (auto *Br = dyn_cast<BranchInst>(T)) BB = Br->isUnconditional() || E.value(Br->getCondition()) == 1 ? Br->getSuccessor(0) : Br->getSuccessor(1);
      else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
        APInt v = E.value(Sw->getCondition());
        BB = Sw->getDefaultDest();
        for (auto &c : Sw->cases()) if (c.getCaseValue()->getValue() == v) BB = c.getCaseSuccessor();
      } else throw Unknown{"terminator"};
      enter(BB, prev);
    }
    __int128 total = 0;
    for (auto &c : cov) {
      total += (__int128)c.count * c.each;
      __int128 a = c.first, b = (__int128)c.first + (__int128)c.step * (c.count - 1);
      if (a > b) std::swap(a, b);
      if (a < 0 || b + c.each > n) return fail("goes beyond the last element", nullptr);
      if (c.count > 1 && (uint64_t)std::llabs(c.step) < c.each) return fail("does an element twice", nullptr);
    }
    if (total != n) return fail("does " + std::to_string((uint64_t)total) + " elements of " + std::to_string(n), nullptr);
    for (unsigned i = 0; i < cov.size(); i++)
      for (unsigned j = i + 1; j < cov.size(); j++) {
        auto lo = [](const Cov &c) { return std::min<__int128>(c.first, (__int128)c.first + (__int128)c.step * (c.count - 1)); };
        auto hi = [](const Cov &c) { return std::max<__int128>(c.first, (__int128)c.first + (__int128)c.step * (c.count - 1)) + c.each - 1; };
        if (hi(cov[i]) < lo(cov[j]) || hi(cov[j]) < lo(cov[i])) continue;
        uint64_t x = std::llabs(cov[i].step), y = std::llabs(cov[j].step), d = std::llabs(cov[i].first - cov[j].first);
        while (y) { uint64_t r = x % y; x = y; y = r; }
        if (cov[i].each > 1 || cov[j].each > 1 || !x) throw Unknown{"overlapping calls"};
        if (d % x == 0) return fail("does an element twice", nullptr);
      }
    return true;
  }
};

static void ufunc(Module &M, const char *spec) {
  // the function given does not touch the tables of the loop
  for (Function &F : M)
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallInst>(&I))
        if (!C->getCalledFunction()) {
          C->addFnAttr(Attribute::getWithMemoryEffects(M.getContext(), MemoryEffects::inaccessibleMemOnly()));
          C->addFnAttr(Attribute::NoUnwind); C->addFnAttr(Attribute::WillReturn);
        }
  Analyses A;
  normalise(M, {}, A);
  A.run(M, "function(early-cse<memssa>,loop-mssa(licm),early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,loop-simplify,lcssa)");
  std::ifstream f(spec); std::string line;
  while (std::getline(f, line)) {
    std::vector<std::string> c; std::string t; std::stringstream ss(line);
    while (std::getline(ss, t, '|')) c.push_back(t);
    if (c.size() < 4) continue;
    unsigned nin = atoi(c[1].c_str()), nout = atoi(c[2].c_str()); int64_t esz = atoi(c[3].c_str());
    Function *F = find(M, c[0]);
    std::string st = "ok", why, where; unsigned cases = 0;
    if (!F || F->isDeclaration() || F->arg_size() != 4) st = "missing";
    else {
      where = floc(F);
      auto &SE = A.FAM.getResult<ScalarEvolutionAnalysis>(*F);
      auto &LI = A.FAM.getResult<LoopAnalysis>(*F);
      auto &DT = A.FAM.getResult<DominatorTreeAnalysis>(*F);
      const int64_t kinds[] = {esz, 2 * esz, -esz, 5 * esz, 0};
      unsigned total = 1;
      for (unsigned k = 0; k < nin + nout; k++) total *= 5;
      for (unsigned code = 0; code < total && st == "ok"; code++) {
        std::vector<int64_t> steps; bool skip = false;
        for (unsigned k = 0, x = code; k < nin + nout; k++, x /= 5) { steps.push_back(kinds[x % 5]); if (k >= nin && !(kinds[x % 5])) skip = true; }
        if (skip) continue;
        for (uint64_t n : {0ull, 1ull, 2ull, 3ull, 4ull, 5ull, 7ull, 8ull, 9ull, 15ull, 16ull, 17ull, 31ull, 33ull, 64ull, 127ull, 1000ull, 65536ull, 65537ull, 2147483648ull, 4294967296ull, 4294967301ull}) {
          UfuncCheck C{*F, nin, nout, (uint64_t)esz, SE, LI, DT, steps};
          cases++;
          std::string at = " (" + std::to_string(n) + " elements, steps";
          for (auto s : steps) at += " " + std::to_string(s);
          try { if (!C.run(n)) { st = "bad"; why = C.bad + at + ")"; where = C.where; break; } }
          catch (Unknown &u) { st = "unknown"; why = u.why; break; }
        }
      }
    }
    printf("{\"fn\":%s,\"status\":\"%s\",\"why\":%s,\"where\":%s,\"cases\":%u}\n", esc(c[0]).c_str(), st.c_str(), esc(why).c_str(), esc(where).c_str(), cases);
  }
}

// What a module initialisation registers: one line per call of the recording functions of the stub headers.
static void module(Module &M, const std::string &init) {
  Analyses A;
  for (Function &F : M)
    if (!F.isDeclaration() && dem(F.getName()) != init && F.getLinkage() == GlobalValue::ExternalLinkage) F.setLinkage(GlobalValue::InternalLinkage);
  for (GlobalVariable &G : M.globals()) if (G.hasInitializer()) { G.setLinkage(GlobalValue::InternalLinkage); }
  for (int i = 0; i < 3; i++) {
    normalise(M, {}, A);
    if (Function *F = find(M, init))
      if (!F->isDeclaration())
        for (Loop *L : A.FAM.getResult<LoopAnalysis>(*F).getLoopsInPreorder()) addStringMetadataToLoop(L, "llvm.loop.unroll.full");
    A.run(M, "globalopt,function(loop-simplify,lcssa,loop(loop-unroll-full),sroa,early-cse,gvn,instcombine<no-verify-fixpoint>,simplifycfg)");
  }
  Function *F = find(M, init);
  if (!F || F->isDeclaration()) { printf("{\"what\":\"missing\"}\n"); return; }
  const DataLayout &DL = M.getDataLayout();
  auto text = [&](Value *V) { StringRef S; return getConstantStringInfo(V, S) ? esc(S.str()) : std::string("null"); };
  // the tables are kept by reference: what counts is what they hold in the end
  std::map<std::pair<const Value *, int64_t>, Value *> written;
  unsigned elsewhere = 0;
  for (auto &I : instructions(*F)) {
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      APInt off(64, 0);
      const Value *B = S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
      if (isa<GlobalVariable>(B)) written[{B, off.getSExtValue()}] = S->getValueOperand();
      else if (!isa<AllocaInst>(B)) elsewhere++;
    } else if (isa<MemIntrinsic>(I)) elsewhere++;
  }
  auto entry = [&](Value *V, uint64_t i, Type *T) -> Constant * {   // i-th element of the table V points to
    APInt off(64, 0);
    auto *G = dyn_cast<GlobalVariable>(V->stripAndAccumulateConstantOffsets(DL, off, true));
    if (!G || !G->hasInitializer()) return nullptr;
    auto w = written.find({G, off.getSExtValue() + (int64_t)(i * DL.getTypeStoreSize(T).getFixedValue())});
    if (w != written.end()) return w->second->getType() == T ? dyn_cast<Constant>(w->second) : nullptr;
    return ConstantFoldLoadFromConst(G->getInitializer(), T, off + APInt(64, i * DL.getTypeStoreSize(T).getFixedValue()), DL);
  };
  auto outside = [&](Value *V, uint64_t i, Type *T) {   // the table V points to ends before its i-th element
    APInt off(64, 0);
    auto *G = dyn_cast<GlobalVariable>(V->stripAndAccumulateConstantOffsets(DL, off, true));
    int64_t sz = DL.getTypeStoreSize(T).getFixedValue(), at = off.getSExtValue() + (int64_t)i * sz;
    return G && G->hasInitializer() && (at < 0 || at + sz > (int64_t)DL.getTypeAllocSize(G->getValueType()).getFixedValue());
  };
  Type *PT = PointerType::getUnqual(M.getContext()), *CT = Type::getInt8Ty(M.getContext());
  printf("{\"what\":\"init\",\"blocks\":%zu,\"other_stores\":%u,\"where\":%s}\n", F->size(), elsewhere, esc(floc(F)).c_str());
  std::map<const Value *, int> made;
  for (auto &I : instructions(*F)) {
    auto *C = dyn_cast<CallInst>(&I);
    if (!C || !C->getCalledFunction()) continue;
    std::string n = C->getCalledFunction()->getName().str();
    if (n == "PyUFunc_FromFuncAndData" || n == "PyUFunc_FromFuncAndDataAndSignature") {
      made[C] = made.size();
      auto num = [&](unsigned k) { auto *K = dyn_cast<ConstantInt>(C->getArgOperand(k)); return K ? (long)K->getSExtValue() : -1L; };
      long nt = num(3), nin = num(4), nout = num(5);
      printf("{\"what\":\"ufunc\",\"id\":%d,\"types\":%ld,\"nin\":%ld,\"nout\":%ld,\"name\":%s,\"where\":%s,\"rows\":[", made[C], nt, nin, nout, text(C->getArgOperand(7)).c_str(), esc(loc(C)).c_str());
      for (long r = 0; r < nt && r < 8; r++) {
        auto *L = entry(C->getArgOperand(0), r, PT), *D = entry(C->getArgOperand(1), r, PT);
        bool past = outside(C->getArgOperand(0), r, PT) || outside(C->getArgOperand(1), r, PT);
        for (long k = 0; k < nin + nout; k++) past |= outside(C->getArgOperand(2), r * (nin + nout) + k, CT);
        bool empty = (L && L->isNullValue()) || (D && D->isNullValue());
        printf("%s{\"past\":%d,\"empty\":%d,\"loop\":%s,\"data\":%s,\"kinds\":[", r ? "," : "", past, empty, L && isa<Function>(L) ? esc(L->getName().str()).c_str() : "null", D && isa<Function>(D) ? esc(D->getName().str()).c_str() : "null");
        for (long k = 0; k < nin + nout; k++) {
          auto *T = dyn_cast_or_null<ConstantInt>(entry(C->getArgOperand(2), r * (nin + nout) + k, CT));
          printf("%s%ld", k ? "," : "", T ? (long)T->getSExtValue() : -1L);
        }
        printf("]}");
      }
      printf("]}\n");
    } else if (n == "vp_register")
      printf("{\"what\":\"set\",\"id\":%d,\"name\":%s,\"place\":%s,\"where\":%s}\n", made.count(C->getArgOperand(2)) ? made[C->getArgOperand(2)] : -1, text(C->getArgOperand(1)).c_str(),
             isa<CallInst>(C->getArgOperand(0)) && cast<CallInst>(C->getArgOperand(0))->getCalledFunction() ? esc(cast<CallInst>(C->getArgOperand(0))->getCalledFunction()->getName().str()).c_str() : "null", esc(loc(C)).c_str());
    else if (n == "vp_module") printf("{\"what\":\"module\",\"name\":%s}\n", text(C->getArgOperand(0)).c_str());
    else if (n == "vp_release" || n == "vp_retain") printf("{\"what\":\"%s\",\"id\":%d}\n", n.c_str() + 3, made.count(C->getArgOperand(0)) ? made[C->getArgOperand(0)] : -1);
  }
  for (auto &I : instructions(*F))
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      Value *V = R->getReturnValue();
      auto *C = V ? dyn_cast<CallInst>(V) : nullptr;
      printf("{\"what\":\"return\",\"value\":%s}\n", !V ? "\"void\"" : C && C->getCalledFunction() ? esc(C->getCalledFunction()->getName().str()).c_str() : "null");
    }
}

// Multi-versioned functions: writes one module per version, in which every dispatcher
// is replaced by the function of that version.
static void versions(Module &M, const std::string &prefix) {
  std::map<std::string, std::map<std::string, std::string>> by;   // version -> dispatcher -> function
  std::set<std::string> all;
  for (GlobalIFunc &G : M.ifuncs()) {
    Function *R = G.getResolverFunction();
    if (!R || R->isDeclaration()) { errs() << "no resolver of " << G.getName() << "\n"; exit(3); }
    std::string base = R->getName().str();
    base = base.substr(0, base.rfind(".resolver"));
    all.insert(G.getName().str());
    for (auto &I : instructions(*R))
      for (Value *O : I.operands())
        if (auto *F = dyn_cast<Function>(O)) {
          if (isa<CallInst>(I) && cast<CallInst>(I).getCalledFunction() == F) continue;
          std::string n = F->getName().str(), v = n == base ? "default" : n.compare(0, base.size() + 1, base + ".") ? n : n.substr(base.size() + 1);
          by[v][G.getName().str()] = n;
        }
  }
  for (auto &v : by) {
    auto N = CloneModule(M);
    std::vector<GlobalIFunc *> gs;
    for (GlobalIFunc &G : N->ifuncs()) gs.push_back(&G);
    unsigned here = 0; std::string lack;
    for (GlobalIFunc *G : gs) {
      auto it = v.second.find(G->getName().str());
      if (it == v.second.end()) { lack = dem(G->getName()); continue; }
      here++;
      G->replaceAllUsesWith(N->getFunction(it->second));
      G->eraseFromParent();
    }
    for (Function &F : *N) for (const char *a : {"target-cpu", "target-features", "tune-cpu"}) F.removeFnAttr(a);
    std::string out = prefix + "." + v.first + ".bc";
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    WriteBitcodeToFile(*N, os);
    printf("{\"version\":%s,\"file\":%s,\"functions\":%u,\"dispatchers\":%zu,\"lacks\":%s}\n", esc(v.first).c_str(), esc(out).c_str(), here, all.size(), esc(lack).c_str());
  }
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  LLVMContext C; SMDiagnostic D;
  auto M = parseIRFile(argv[2], D, C);
  if (!M) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
  std::string m = argv[1];
  if (m == "arrays") arrays(*M, argv[3]);
  else if (m == "forward") forward(*M, argv[3]);
  else if (m == "same") same(*M, argv[3]);
  else if (m == "effects") effects(*M);
  else if (m == "vector") vectorw(*M);
  else if (m == "ifconv") ifconv(*M);
  else if (m == "versions") versions(*M, argv[3]);
  else if (m == "text") text(*M, argv[3]);
  else if (m == "ufunc") ufunc(*M, argv[3]);
  else if (m == "module") module(*M, argv[3]);
  else return 3;
  return 0;
}
