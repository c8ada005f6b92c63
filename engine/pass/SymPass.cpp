// LLVM pass plugin: shadow-expression instrumentation of the code under test.
//
// Every SSA integer / floating value gets a parallel "shadow" value: a pointer to a
// symbolic expression node owned by the runtime (null = concrete).  Shadows of memory
// live in the runtime's byte-granular shadow map.  Branches, switches, symbolic
// addresses and sizes report to the runtime, which builds the path condition.
//
// The pass never changes what the program computes: all inserted code only feeds the
// runtime, so an instrumented run is a real run of the real code on concrete inputs.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Support/AtomicOrdering.h"
#include <cstdlib>
#include <set>
#include <string>
using namespace llvm;

namespace {

bool gRace = false;   // SYM_RACE=1: report every load/store to the race detector too

// functions of the program that are never instrumented (serialisation back ends)
bool skipFunction(StringRef n) {
  if (n.starts_with("__sym_")) return true;
  if (n.starts_with("asan.") || n.starts_with("__asan") || n.starts_with("__sanitizer")) return true;
  // nlohmann serializer (dump): output rendering is third-party code
  if (n.contains("nlohmann") && n.contains("6detail10serializer")) return true;
  if (n.contains("nlohmann") && n.contains("output_adapter")) return true;
  return false;
}

// libc functions with instrumented models in the runtime's "model" module
const char *kModels[][2] = {
  {"strtol", "__symm_strtol"}, {"strtoll", "__symm_strtoll"}, {"strtoul", "__symm_strtoul"},
  {"strtoull", "__symm_strtoull"}, {"__isoc23_strtol", "__symm_strtol"}, {"__isoc23_strtoll", "__symm_strtoll"},
  {"__isoc23_strtoul", "__symm_strtoul"}, {"__isoc23_strtoull", "__symm_strtoull"},
  {"memcmp", "__symm_memcmp"}, {"bcmp", "__symm_memcmp"}, {"strcmp", "__symm_strcmp"}, {"memchr", "__symm_memchr"}, {"strlen", "__symm_strlen"},
};

struct Inst {
  Module &M; LLVMContext &C;
  PointerType *P; IntegerType *I64, *I32, *I8; Type *V;
  FunctionCallee fArg, fEntered, fByval, fSetArg, fSetByval, fCall, fCallDone, fRet, fSetRet, fClrRet;
  FunctionCallee fLoad, fStore, fMemcpy, fMemset, fClear, fBin, fCmp, fCast, fSelect, fDecide, fBranch, fSwitch, fConc;
  FunctionCallee fBoolOp, fFBin, fFCmp, fFCast, fMinMax, fUn, fRaceL, fRaceS, fRaceRange, fRaceAtomic;

  Inst(Module &m) : M(m), C(m.getContext()) {
    P = PointerType::getUnqual(C); I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I8 = Type::getInt8Ty(C); V = Type::getVoidTy(C);
    auto F = [&](const char *n, Type *r, std::vector<Type *> a) { return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); };
    fArg = F("__sym_arg", P, {P, I32, I64});        // callee, index, concrete value -> shadow
    fEntered = F("__sym_entered", V, {P});
    fByval = F("__sym_byval", V, {P, I32, P, I64});
    fSetArg = F("__sym_setarg", V, {I32, P, I64});
    fSetByval = F("__sym_setargp", V, {I32, P});
    fCall = F("__sym_call", V, {P, I32});
    fCallDone = F("__sym_calldone", V, {P});
    fRet = F("__sym_ret", P, {I32, I64});
    fSetRet = F("__sym_setret", V, {I32, P});
    fClrRet = F("__sym_clrret", V, {I32});
    fLoad = F("__sym_load", P, {P, I32, I64});
    fStore = F("__sym_store", V, {P, I32, P});
    fMemcpy = F("__sym_memcpy", V, {P, P, I64});
    fMemset = F("__sym_memset", V, {P, P, I64});
    fClear = F("__sym_clear", V, {P, I64});
    fBin = F("__sym_bin", P, {I32, I32, P, P, I64, I64});
    fCmp = F("__sym_cmp", P, {I32, I32, P, P, I64, I64});
    fCast = F("__sym_cast", P, {I32, I32, I32, P, I64});
    fSelect = F("__sym_select", P, {I32, P, P, P, I64, I64, I64});
    fDecide = F("__sym_decide", V, {P, I64});
    fBranch = F("__sym_branch", V, {I32, P, I64});
    fSwitch = F("__sym_switch", V, {I32, P, I64, I64});
    fConc = F("__sym_concretize", V, {P, I64});
    fFBin = F("__sym_fbin", P, {I32, I32, P, P, I64, I64});
    fFCmp = F("__sym_fcmp", P, {I32, I32, P, P, I64, I64});
    fFCast = F("__sym_fcast", P, {I32, I32, I32, P, I64});
    fMinMax = F("__sym_minmax", P, {I32, I32, P, P, I64, I64});
    fUn = F("__sym_un", P, {I32, I32, P, I64});
    fRaceL = F("__sym_race_load", V, {P, I32});
    fRaceS = F("__sym_race_store", V, {P, I32});
    fRaceRange = F("__sym_race_range", V, {P, I64, I32});
    fRaceAtomic = F("__sym_race_atomic", V, {P, I32, I32, I32});  // address, size, 0 load 1 store 2 add/sub 3 other 4 load without a switch, 1 acquire | 2 release
  }

  static bool leafTracked(Type *T) {
    if (auto *IT = dyn_cast<IntegerType>(T)) return IT->getBitWidth() <= 64;
    return T->isFloatTy() || T->isDoubleTy();
  }
  // a union of a pointer and a number is copied through pointer-typed loads and stores
  static bool memTracked(Type *T) { return leafTracked(T) || (T->isPointerTy() && T->getPointerAddressSpace() == 0); }
  // flatten aggregate into leaf types
  static void flat(Type *T, SmallVectorImpl<Type *> &out) {
    if (auto *S = dyn_cast<StructType>(T)) { for (Type *e : S->elements()) flat(e, out); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { for (uint64_t i = 0; i < A->getNumElements() && out.size() < 20; i++) flat(A->getElementType(), out); return; }
    out.push_back(T);
  }
  static bool tracked(Type *T) {
    if (T->isVoidTy() || T->isTokenTy() || T->isLabelTy() || T->isMetadataTy()) return false;
    SmallVector<Type *, 4> l; flat(T, l);
    if (l.size() > 8) return false;
    for (auto *t : l) if (memTracked(t)) return true;
    return false;
  }

  using Sh = SmallVector<Value *, 2>;
  DenseMap<Value *, Sh> S;
  Constant *nul() { return ConstantPointerNull::get(P); }
  Sh shadow(Value *v) {
    auto it = S.find(v);
    if (it != S.end()) return it->second;
    SmallVector<Type *, 4> l; flat(v->getType(), l);
    return Sh(l.size(), nul());
  }
  static bool isNull(Value *v) { return isa<ConstantPointerNull>(v); }
  static bool allNull(const Sh &s) { for (auto *v : s) if (!isNull(v)) return false; return true; }

  Value *toI64(IRBuilder<> &B, Value *v) {
    Type *T = v->getType();
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    if (T->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (T->isIntegerTy()) { if (T->getIntegerBitWidth() == 64) return v; if (T->getIntegerBitWidth() > 64) return B.CreateTrunc(v, I64); return B.CreateSExt(v, I64); }
    if (T->isPointerTy()) return B.CreatePtrToInt(v, I64);
    return ConstantInt::get(I64, 0);
  }
  static int width(Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isFloatTy()) return 132; // 100 + 32: float
    if (T->isDoubleTy()) return 164;
    if (T->isPointerTy()) return 64;
    return 0;
  }
  Value *c32(int v) { return ConstantInt::get(I32, v); }
  Value *c64(uint64_t v) { return ConstantInt::get(I64, v); }
  uint64_t tsize(Type *T) { return M.getDataLayout().getTypeStoreSize(T); }

  // load/store of (possibly) tracked types
  void run(Function &F) {
    S.clear();
    const DataLayout &DL = M.getDataLayout();
    // collect blocks/instructions first
    ReversePostOrderTraversal<Function *> RPO(&F);
    std::vector<BasicBlock *> order(RPO.begin(), RPO.end());
    std::vector<std::pair<PHINode *, Sh>> phis;
    std::vector<std::vector<Instruction *>> orig;
    for (BasicBlock *BB : order) { orig.emplace_back(); for (Instruction &I : *BB) orig.back().push_back(&I); }
    // entry: argument shadows
    {
      BasicBlock &E = F.getEntryBlock();
      Instruction *ip = &*E.getFirstInsertionPt();
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      bool any = false; int slot = 0;
      for (Argument &A : F.args()) {
        if (A.hasByValAttr()) {
          Type *T = A.getParamByValType();
          B.CreateCall(fByval, {&F, c32(slot), &A, c64(DL.getTypeAllocSize(T))}); slot++; any = true; continue;
        }
        if (!leafTracked(A.getType())) continue;
        if (slot >= 30) break;
        Value *s = B.CreateCall(fArg, {&F, c32(slot), toI64(B, &A)});
        S[&A] = Sh{s}; slot++; any = true;
      }
      if (any) B.CreateCall(fEntered, {&F});
      for (Instruction &I : E) if (auto *AI = dyn_cast<AllocaInst>(&I)) {
        if (!isa<ConstantInt>(AI->getArraySize())) continue;
        if (ip->getParent() != &E) continue;
        // only allocas that dominate ip
        if (!AI->comesBefore(ip)) continue;
        B.CreateCall(fClear, {AI, c64(DL.getTypeAllocSize(AI->getAllocatedType()) * cast<ConstantInt>(AI->getArraySize())->getZExtValue())});
      }
    }
    for (auto &is : orig) {
      for (Instruction *I : is) {
        if (auto *CI = dyn_cast<CallBase>(I)) if (auto *cf = CI->getCalledFunction()) if (cf->getName().starts_with("__sym_")) {
          if (!isUser(cf->getName())) continue;
        }
        visit(I, phis, DL);
      }
    }
    for (auto &p : phis) {
      PHINode *N = p.first;
      for (unsigned k = 0; k < p.second.size(); k++) {
        auto *sp = dyn_cast<PHINode>(p.second[k]); if (!sp) continue;
        for (unsigned i = 0; i < N->getNumIncomingValues(); i++) {
          Sh in = shadow(N->getIncomingValue(i));
          sp->addIncoming(in[k], N->getIncomingBlock(i));
        }
      }
    }
  }
  // the race detector's view of one instruction
  static bool priv(Value *p) { Value *o = getUnderlyingObject(p); if (isa<AllocaInst>(o)) return true; auto *G = dyn_cast<GlobalVariable>(o); return G && G->isConstant(); }
  static int ord(AtomicOrdering o) { return (isAcquireOrStronger(o) ? 1 : 0) | (isReleaseOrStronger(o) ? 2 : 0); }
  // loads whose moment does not matter: the guard of a function-local static (its initialisation is a lock of its own) and
  // the shared_ptr's test whether both reference counts are one
  static bool still(LoadInst *L) {
    if (auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts())) if (G->getName().starts_with("_ZGV")) return true;
    for (auto *U : L->users()) if (auto *C = dyn_cast<ICmpInst>(U)) if (auto *K = dyn_cast<ConstantInt>(C->getOperand(1))) if (L->getType()->isIntegerTy(64) && K->getValue() == 4294967297ull) return true;
    return false;
  }
  void race(Instruction *I) {
    IRBuilder<> B(I);
    auto at = [&](Value *p, Type *T, int kind, AtomicOrdering o) { B.CreateCall(fRaceAtomic, {p, c32(tsize(T)), c32(kind), c32(ord(o))}); };
    if (auto *L = dyn_cast<LoadInst>(I)) { if (L->isAtomic()) at(L->getPointerOperand(), L->getType(), still(L) ? 4 : 0, L->getOrdering()); else if (!priv(L->getPointerOperand())) B.CreateCall(fRaceL, {L->getPointerOperand(), c32(tsize(L->getType()))}); }
    else if (auto *S = dyn_cast<StoreInst>(I)) { Type *T = S->getValueOperand()->getType(); if (S->isAtomic()) at(S->getPointerOperand(), T, 1, S->getOrdering()); else if (!priv(S->getPointerOperand())) B.CreateCall(fRaceS, {S->getPointerOperand(), c32(tsize(T))}); }
    else if (auto *A = dyn_cast<AtomicRMWInst>(I)) at(A->getPointerOperand(), A->getValOperand()->getType(), A->getOperation() == AtomicRMWInst::Add || A->getOperation() == AtomicRMWInst::Sub ? 2 : 3, A->getOrdering());
    else if (auto *A = dyn_cast<AtomicCmpXchgInst>(I)) at(A->getPointerOperand(), A->getCompareOperand()->getType(), 3, A->getSuccessOrdering());
    else if (auto *MI = dyn_cast<AnyMemTransferInst>(I)) { Value *len = B.CreateZExtOrTrunc(MI->getLength(), I64); if (!priv(MI->getRawSource())) B.CreateCall(fRaceRange, {MI->getRawSource(), len, c32(0)}); if (!priv(MI->getRawDest())) B.CreateCall(fRaceRange, {MI->getRawDest(), len, c32(1)}); }
    else if (auto *MI = dyn_cast<AnyMemSetInst>(I)) { if (!priv(MI->getRawDest())) B.CreateCall(fRaceRange, {MI->getRawDest(), B.CreateZExtOrTrunc(MI->getLength(), I64), c32(1)}); }
    else if (auto *CB = dyn_cast<CallBase>(I)) if (auto *cf = CB->getCalledFunction()) if (CB->arg_size() == 3 && (cf->getName() == "memcpy" || cf->getName() == "memmove")) { B.CreateCall(fRaceRange, {CB->getArgOperand(1), CB->getArgOperand(2), c32(0)}); B.CreateCall(fRaceRange, {CB->getArgOperand(0), CB->getArgOperand(2), c32(1)}); }
  }
  void runRace(Function &F) { std::vector<Instruction *> v; for (auto &I : instructions(F)) v.push_back(&I); for (auto *I : v) race(I); }
  // a symbolic value used as an address is split on its values
  void addr(Value *p, Instruction *at) { auto it = S.find(p); if (it == S.end() || isNull(it->second[0])) return; IRBuilder<> B(at); B.CreateCall(fConc, {it->second[0], B.CreatePtrToInt(p, I64)}); }
  static bool isUser(StringRef n) { return n.starts_with("__sym_api"); }

  void visit(Instruction *I, std::vector<std::pair<PHINode *, Sh>> &phis, const DataLayout &DL) {
    if (gRace) race(I);
    if (auto *N = dyn_cast<PHINode>(I)) {
      if (!tracked(N->getType())) return;
      SmallVector<Type *, 4> l; flat(N->getType(), l);
      Sh s;
      for (auto *t : l) {
        if (memTracked(t)) { PHINode *sp = PHINode::Create(P, N->getNumIncomingValues(), "", N); s.push_back(sp); }
        else s.push_back(nul());
      }
      S[N] = s; phis.push_back({N, s});
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      IRBuilder<> B(L->getNextNode());
      addr(L->getPointerOperand(), L);
      if (memTracked(L->getType())) {
        S[L] = Sh{B.CreateCall(fLoad, {L->getPointerOperand(), c32(width(L->getType())), toI64(B, L)})};
      }
      return;
    }
    if (auto *St = dyn_cast<StoreInst>(I)) {
      IRBuilder<> B(St);
      Value *v = St->getValueOperand();
      addr(St->getPointerOperand(), St);
      if (memTracked(v->getType())) {
        Sh s = shadow(v);
        B.CreateCall(fStore, {St->getPointerOperand(), c32(width(v->getType())), s[0]});
      } else {
        B.CreateCall(fClear, {St->getPointerOperand(), c64(tsize(v->getType()))});
      }
      return;
    }
    if (auto *A = dyn_cast<AtomicRMWInst>(I)) { IRBuilder<> B(A); B.CreateCall(fClear, {A->getPointerOperand(), c64(tsize(A->getValOperand()->getType()))}); return; }
    if (auto *A = dyn_cast<AtomicCmpXchgInst>(I)) { IRBuilder<> B(A); B.CreateCall(fClear, {A->getPointerOperand(), c64(tsize(A->getCompareOperand()->getType()))}); return; }
    if (auto *O = dyn_cast<BinaryOperator>(I)) {
      if (!leafTracked(O->getType())) return;
      Sh a = shadow(O->getOperand(0)), b = shadow(O->getOperand(1));
      if (allNull(a) && allNull(b)) return;
      IRBuilder<> B(O->getNextNode());
      bool fp = O->getType()->isFloatingPointTy();
      S[O] = Sh{B.CreateCall(fp ? fFBin : fBin, {c32(O->getOpcode()), c32(width(O->getType())), a[0], b[0], toI64(B, O->getOperand(0)), toI64(B, O->getOperand(1))})};
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(I)) { // fneg
      if (!leafTracked(U->getType())) return;
      Sh a = shadow(U->getOperand(0)); if (allNull(a)) return;
      IRBuilder<> B(U->getNextNode());
      S[U] = Sh{B.CreateCall(fUn, {c32(1000), c32(width(U->getType())), a[0], toI64(B, U->getOperand(0))})};
      return;
    }
    if (auto *Cm = dyn_cast<ICmpInst>(I)) {
      if (!memTracked(Cm->getOperand(0)->getType())) return;
      Sh a = shadow(Cm->getOperand(0)), b = shadow(Cm->getOperand(1));
      if (allNull(a) && allNull(b)) return;
      IRBuilder<> B(Cm->getNextNode());
      S[Cm] = Sh{B.CreateCall(fCmp, {c32(Cm->getPredicate()), c32(width(Cm->getOperand(0)->getType())), a[0], b[0], toI64(B, Cm->getOperand(0)), toI64(B, Cm->getOperand(1))})};
      return;
    }
    if (auto *Cm = dyn_cast<FCmpInst>(I)) {
      if (!leafTracked(Cm->getOperand(0)->getType())) return;
      Sh a = shadow(Cm->getOperand(0)), b = shadow(Cm->getOperand(1));
      if (allNull(a) && allNull(b)) return;
      IRBuilder<> B(Cm->getNextNode());
      S[Cm] = Sh{B.CreateCall(fFCmp, {c32(Cm->getPredicate()), c32(width(Cm->getOperand(0)->getType())), a[0], b[0], toI64(B, Cm->getOperand(0)), toI64(B, Cm->getOperand(1))})};
      return;
    }
    if (auto *Ca = dyn_cast<CastInst>(I)) {
      Type *T = Ca->getType(), *Sx = Ca->getOperand(0)->getType();
      if (!memTracked(Sx)) return;
      Sh a = shadow(Ca->getOperand(0)); if (allNull(a)) return;
      IRBuilder<> B(Ca->getNextNode());
      if ((isa<PtrToIntInst>(Ca) && T->isIntegerTy(64)) || (isa<IntToPtrInst>(Ca) && Sx->isIntegerTy(64))) { S[Ca] = a; return; }
      if (!leafTracked(T)) { // inttoptr, wide ints, vectors
        B.CreateCall(fConc, {a[0], toI64(B, Ca->getOperand(0))}); return;
      }
      bool fp = T->isFloatingPointTy() || Sx->isFloatingPointTy();
      S[Ca] = Sh{B.CreateCall(fp ? fFCast : fCast, {c32(Ca->getOpcode()), c32(width(Sx)), c32(width(T)), a[0], toI64(B, Ca->getOperand(0))})};
      return;
    }
    if (auto *Se = dyn_cast<SelectInst>(I)) {
      if (Se->getCondition()->getType()->isVectorTy()) return;
      Sh c = shadow(Se->getCondition());
      Sh a = shadow(Se->getTrueValue()), b = shadow(Se->getFalseValue());
      bool condSym = !isNull(c[0]);
      Type *T = Se->getType();
      if (!condSym && allNull(a) && allNull(b)) return;
      IRBuilder<> B(Se->getNextNode());
      if (memTracked(T)) {
        S[Se] = Sh{B.CreateCall(fSelect, {c32(width(T)), c[0], a[0], b[0], B.CreateZExt(Se->getCondition(), I64), toI64(B, Se->getTrueValue()), toI64(B, Se->getFalseValue())})};
      } else {
        if (condSym) B.CreateCall(fDecide, {c[0], B.CreateZExt(Se->getCondition(), I64)});
        Sh r;
        for (unsigned k = 0; k < a.size(); k++) r.push_back((isNull(a[k]) && isNull(b[k])) ? (Value *)nul() : B.CreateSelect(Se->getCondition(), a[k], b[k]));
        if (!allNull(r)) S[Se] = r;
      }
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      addr(G->getPointerOperand(), G);
      for (auto &ix : G->indices()) {
        if (!leafTracked(ix->getType())) continue;
        Sh s = shadow(ix); if (isNull(s[0])) continue;
        IRBuilder<> B(G); B.CreateCall(fConc, {s[0], toI64(B, ix)});
      }
      return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(I)) {
      Sh s = shadow(E->getAggregateOperand());
      if (allNull(s)) return;
      unsigned off = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
      SmallVector<Type *, 4> l; flat(E->getType(), l);
      Sh r; for (unsigned k = 0; k < l.size(); k++) r.push_back(off + k < s.size() ? s[off + k] : nul());
      if (!allNull(r)) S[E] = r;
      return;
    }
    if (auto *E = dyn_cast<InsertValueInst>(I)) {
      if (!tracked(E->getType())) return;
      Sh s = shadow(E->getAggregateOperand()), v = shadow(E->getInsertedValueOperand());
      unsigned off = leafIndex(E->getType(), E->getIndices());
      for (unsigned k = 0; k < v.size() && off + k < s.size(); k++) s[off + k] = v[k];
      if (!allNull(s)) S[E] = s;
      return;
    }
    if (auto *F = dyn_cast<FreezeInst>(I)) { Sh s = shadow(F->getOperand(0)); if (!allNull(s)) S[F] = s; return; }
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (!Br->isConditional()) return;
      Sh s = shadow(Br->getCondition()); if (isNull(s[0])) return;
      IRBuilder<> B(Br);
      B.CreateCall(fBranch, {c32(nextSite()), s[0], B.CreateZExt(Br->getCondition(), I64)});
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(I)) {
      if (!leafTracked(Sw->getCondition()->getType())) return;
      Sh s = shadow(Sw->getCondition()); if (isNull(s[0])) return;
      IRBuilder<> B(Sw);
      Value *v = toI64(B, Sw->getCondition());
      for (auto &cs : Sw->cases())
        B.CreateCall(fSwitch, {c32(nextSite()), s[0], v, ConstantInt::get(I64, cs.getCaseValue()->getSExtValue(), true)});
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      Value *v = R->getReturnValue(); if (!v || !tracked(v->getType())) return;
      Sh s = shadow(v);
      IRBuilder<> B(R);
      int slot = 0; SmallVector<Type *, 4> l; flat(v->getType(), l);
      for (unsigned k = 0; k < s.size(); k++) if (memTracked(l[k])) { if (!isNull(s[k])) B.CreateCall(fSetRet, {c32(slot), s[k]}); else B.CreateCall(fSetRet, {c32(slot), nul()}); slot++; }
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) { call(CB); return; }
  }
  unsigned site = 0; unsigned base = 0; FILE *sites = nullptr; std::string curFn;
  int nextSite() { int r = (int)((base + site++) & 0x7fffffff); if (sites) fprintf(sites, "%d %s\n", r, curFn.c_str()); return r; }
  static unsigned leafIndex(Type *T, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *St = dyn_cast<StructType>(T)) {
        for (unsigned k = 0; k < i; k++) { SmallVector<Type *, 4> l; flat(St->getElementType(k), l); off += l.size(); }
        T = St->getElementType(i);
      } else if (auto *A = dyn_cast<ArrayType>(T)) {
        SmallVector<Type *, 4> l; flat(A->getElementType(), l); off += i * l.size(); T = A->getElementType();
      }
    }
    return off;
  }

  void call(CallBase *CB) {
    if (CB->isInlineAsm()) return;
    if (auto *MI = dyn_cast<AnyMemTransferInst>(CB)) {
      IRBuilder<> B(MI);
      Sh n = shadow(MI->getLength()); if (!isNull(n[0])) B.CreateCall(fConc, {n[0], toI64(B, MI->getLength())});
      Value *len = B.CreateZExtOrTrunc(MI->getLength(), I64);
      B.CreateCall(fMemcpy, {MI->getRawDest(), MI->getRawSource(), len});
      return;
    }
    if (auto *MI = dyn_cast<AnyMemSetInst>(CB)) {
      IRBuilder<> B(MI);
      Sh n = shadow(MI->getLength()); if (!isNull(n[0])) B.CreateCall(fConc, {n[0], toI64(B, MI->getLength())});
      Sh v = shadow(MI->getValue());
      Value *len = B.CreateZExtOrTrunc(MI->getLength(), I64);
      B.CreateCall(fMemset, {MI->getRawDest(), v[0], len});
      return;
    }
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      Intrinsic::ID id = II->getIntrinsicID();
      switch (id) {
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::usub_sat: {
        if (!leafTracked(II->getType())) return;
        Sh a = shadow(II->getArgOperand(0)), b = shadow(II->getArgOperand(1));
        if (allNull(a) && allNull(b)) return;
        IRBuilder<> B(II->getNextNode());
        int k = id == Intrinsic::smax ? 0 : id == Intrinsic::smin ? 1 : id == Intrinsic::umax ? 2 : id == Intrinsic::umin ? 3 : 4;
        S[II] = Sh{B.CreateCall(fMinMax, {c32(k), c32(width(II->getType())), a[0], b[0], toI64(B, II->getArgOperand(0)), toI64(B, II->getArgOperand(1))})};
        return;
      }
      case Intrinsic::abs: case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::fabs: {
        if (!leafTracked(II->getType())) return;
        Sh a = shadow(II->getArgOperand(0)); if (allNull(a)) return;
        IRBuilder<> B(II->getNextNode());
        int k = id == Intrinsic::abs ? 0 : id == Intrinsic::ceil ? 1001 : id == Intrinsic::floor ? 1002 : id == Intrinsic::trunc ? 1003 : 1004;
        S[II] = Sh{B.CreateCall(fUn, {c32(k), c32(width(II->getType())), a[0], toI64(B, II->getArgOperand(0))})};
        return;
      }
      case Intrinsic::expect: { Sh a = shadow(II->getArgOperand(0)); if (!allNull(a)) S[II] = a; return; }
      case Intrinsic::fmuladd: {
        if (!leafTracked(II->getType())) return;
        Sh a = shadow(II->getArgOperand(0)), b = shadow(II->getArgOperand(1)), c = shadow(II->getArgOperand(2));
        if (allNull(a) && allNull(b) && allNull(c)) return;
        IRBuilder<> B(II->getNextNode());
        Value *mul = B.CreateFMul(II->getArgOperand(0), II->getArgOperand(1));
        Value *m = B.CreateCall(fFBin, {c32(Instruction::FMul), c32(width(II->getType())), a[0], b[0], toI64(B, II->getArgOperand(0)), toI64(B, II->getArgOperand(1))});
        S[II] = Sh{B.CreateCall(fFBin, {c32(Instruction::FAdd), c32(width(II->getType())), m, c[0], toI64(B, mul), toI64(B, II->getArgOperand(2))})};
        return;
      }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::is_constant: case Intrinsic::objectsize:
      case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::eh_typeid_for: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap:
        return;
      default: {
        // overflow intrinsics, ctlz, fshl, ... : concretise symbolic operands
        for (auto &a : II->args()) {
          if (!leafTracked(a->getType())) continue;
          Sh s = shadow(a); if (isNull(s[0])) continue;
          IRBuilder<> B(II); B.CreateCall(fConc, {s[0], toI64(B, a)});
        }
        return;
      }
      }
    }
    Function *cf = CB->getCalledFunction();
    // model substitution
    if (cf && cf->isDeclaration()) {
      for (auto &m : kModels) if (cf->getName() == m[0]) {
        if (!M.getName().contains("models")) {
          FunctionCallee nf = M.getOrInsertFunction(m[1], cf->getFunctionType());
          CB->setCalledFunction(nf); cf = dyn_cast<Function>(nf.getCallee());
        }
        break;
      }
      if (cf && (cf->getName() == "memcpy" || cf->getName() == "memmove") && CB->arg_size() == 3) {
        IRBuilder<> B(CB); B.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)}); return;
      }
    }
    IRBuilder<> B(CB);
    int slot = 0; bool any = false;
    for (unsigned i = 0; i < CB->arg_size(); i++) {
      Value *a = CB->getArgOperand(i);
      if (CB->isByValArgument(i)) { B.CreateCall(fSetByval, {c32(slot), a}); slot++; any = true; continue; }
      if (!leafTracked(a->getType())) continue;
      if (slot >= 30) break;
      slot++;
    }
    int nslots = slot; slot = 0;
    bool symArg = any;
    for (unsigned i = 0; i < CB->arg_size() && !symArg; i++) {
      Value *a = CB->getArgOperand(i);
      if (leafTracked(a->getType()) && !isNull(shadow(a)[0])) symArg = true;
    }
    if (symArg) {
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        Value *a = CB->getArgOperand(i);
        if (CB->isByValArgument(i)) { slot++; continue; }
        if (!leafTracked(a->getType())) continue;
        if (slot >= 30) break;
        B.CreateCall(fSetArg, {c32(slot), shadow(a)[0], toI64(B, a)});
        slot++;
      }
      B.CreateCall(fCall, {CB->getCalledOperand(), c32(nslots)});
    }
    bool retT = tracked(CB->getType());
    SmallVector<Type *, 4> l; int nret = 0;
    if (retT) { flat(CB->getType(), l); for (auto *t : l) if (memTracked(t)) nret++; B.CreateCall(fClrRet, {c32(nret)}); }
    if (!symArg && !retT) return;
    if (CB->isMustTailCall()) return;
    Instruction *ip;
    if (auto *Inv = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *nd = Inv->getNormalDest();
      if (!nd->getSinglePredecessor()) nd = SplitEdge(Inv->getParent(), nd);
      ip = &*nd->getFirstInsertionPt();
      // SplitEdge keeps phis valid; phi shadows are filled at the end from the (updated) phi's incoming blocks
    } else ip = CB->getNextNode();
    IRBuilder<> A(ip);
    if (symArg) A.CreateCall(fCallDone, {CB->getCalledOperand()});
    if (retT) {
      Sh r; int k = 0;
      for (unsigned i = 0; i < l.size(); i++) {
        if (!memTracked(l[i])) { r.push_back(nul()); continue; }
        Value *cv = CB;
        if (CB->getType()->isAggregateType()) { SmallVector<unsigned, 4> path; leafPath(CB->getType(), i, path); cv = A.CreateExtractValue(CB, path); }
        r.push_back(A.CreateCall(fRet, {c32(k), toI64(A, cv)})); k++;
      }
      S[CB] = r;
    }
  }
  static bool leafPath(Type *T, unsigned leaf, SmallVectorImpl<unsigned> &path) {
    if (auto *St = dyn_cast<StructType>(T)) {
      for (unsigned k = 0; k < St->getNumElements(); k++) {
        SmallVector<Type *, 4> l; flat(St->getElementType(k), l);
        if (leaf < l.size()) { path.push_back(k); return leafPath(St->getElementType(k), leaf, path); }
        leaf -= l.size();
      }
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      SmallVector<Type *, 4> l; flat(A->getElementType(), l);
      unsigned k = leaf / l.size(); path.push_back(k); return leafPath(A->getElementType(), leaf % l.size(), path);
    }
    return true;
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    // the program's own variables go to one section, so that a harness can put them back to their state at start-up
    auto on = [](const char *n) { const char *v = getenv(n); return v && *v == '1'; };
    if (on("SYM_SECTIONS") || on("SYM_SECTIONS_ONLY"))
      for (GlobalVariable &G : M.globals())
        if (!G.isConstant() && G.hasInitializer() && !G.isThreadLocal() && !G.hasSection() && !G.hasAvailableExternallyLinkage() && !G.getName().starts_with("llvm.")) G.setSection("vt_repo_data");
    gRace = on("SYM_RACE");
    if (getenv("SYM_SECTIONS_ONLY") && *getenv("SYM_SECTIONS_ONLY") != '0') {  // native replay: only what the race detector sees
      if (gRace) { Inst X(M); std::vector<Function *> fs; for (Function &F : M) if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && !skipFunction(F.getName())) fs.push_back(&F); for (Function *F : fs) { F->removeFnAttr(Attribute::Memory); X.runRace(*F); } }
      return PreservedAnalyses::none();
    }
    Inst X(M);
    X.base = (unsigned)std::hash<std::string>{}(M.getName().str()) & 0x7fff0000u;
    if (const char *sf = getenv("SYM_SITES")) X.sites = fopen(sf, "w");
    std::vector<Function *> fs;
    for (Function &F : M) if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage()) fs.push_back(&F);
    for (Function *F : fs) {
      if (skipFunction(F->getName())) continue;
      if (F->hasFnAttribute(Attribute::Naked)) continue;
      // the inserted runtime calls invalidate memory(...) attributes on the function
      F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::Speculatable);
      F->removeFnAttr(Attribute::WillReturn);
      X.curFn = F->getName().str(); if (X.sites) fprintf(X.sites, "F %s\n", X.curFn.c_str());
      X.run(*F);
    }
    if (X.sites) fclose(X.sites);
    // call sites may also carry memory() attributes
    for (Function &F : M) {
      if (F.isDeclaration()) { continue; }
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB)) {
        CB->removeFnAttr(Attribute::Memory);
        if (auto *T = CB->getCalledFunction()) if (T->isDeclaration() && !T->isIntrinsic() && !T->getName().starts_with("__sym_")) { T->removeFnAttr(Attribute::Memory); }
      }
    }
    if (getenv("SYM_VERIFY") && verifyModule(M, &errs())) report_fatal_error("instrumented module is broken");
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerEarlyEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "sympass") { MPM.addPass(SymPass()); return true; } return false; });
          }};
}
