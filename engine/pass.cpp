// sympass: LLVM 18 pass plugin that threads symbolic shadow expressions through every
// instruction of a module.  For each SSA value v a parallel SSA value s(v) of pointer type is
// computed (null = concrete).  Semantics of every opcode lives in runtime.cpp; this file only
// decides which runtime call mirrors which instruction.
#include "llvm/IR/CFG.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <cstdlib>
#include <map>
#include <set>
#include <vector>

using namespace llvm;

namespace {

enum Kind { KInt = 0,
            KF32 = 1,
            KF64 = 2,
            KPtr = 3,
            KBool = 4,
            KNone = 9 };

struct Instrumenter {
  Module           &M;
  LLVMContext      &C;
  const DataLayout &DL;
  PointerType      *P;
  Type             *I64, *I32, *I1, *Dbl, *Void;
  GlobalVariable   *gCallee, *gArgs, *gRets, *gAddr;
  static constexpr unsigned NARGS = 96, NRETS = 16;

  FunctionCallee fBin, fFBin, fICmp, fFCmp, fCast, fLoad, fStore, fClear, fBranch, fSelect, fConcAddr, fMemcpy, fMemset,
      fPost, fLost, fFUn, fIntr2, fByval, fLoadIte, fNeg, fGep, fFUn3, fOvf;

  explicit Instrumenter(Module &m)
      : M(m), C(m.getContext()), DL(m.getDataLayout())
  {
    P    = PointerType::get(C, 0);
    I64  = Type::getInt64Ty(C);
    I32  = Type::getInt32Ty(C);
    I1   = Type::getInt1Ty(C);
    Dbl  = Type::getDoubleTy(C);
    Void = Type::getVoidTy(C);
    auto gv = [&](const char *n, Type *t) {
      auto *g = M.getGlobalVariable(n);
      if (!g)
        g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
      return g;
    };
    gCallee = gv("__sym_callee", P);
    gAddr   = gv("__sym_addr", I64);
    gArgs   = gv("__sym_args", ArrayType::get(P, NARGS));
    gRets   = gv("__sym_rets", ArrayType::get(P, NRETS));
    AttributeList al;
    al         = al.addFnAttribute(C, Attribute::NoUnwind);
    fBin       = M.getOrInsertFunction("__sym_bin", al, P, I32, P, P, I64, I64, I32);
    fFBin      = M.getOrInsertFunction("__sym_fbin", al, P, I32, P, P, Dbl, Dbl, I32);
    fICmp      = M.getOrInsertFunction("__sym_icmp", al, P, I32, P, P, I64, I64, I32);
    fFCmp      = M.getOrInsertFunction("__sym_fcmp", al, P, I32, P, P, Dbl, Dbl, I32);
    fCast      = M.getOrInsertFunction("__sym_cast", al, P, I32, P, I32, I32, I32, I32);
    fLoad      = M.getOrInsertFunction("__sym_load", al, P, P, I32, I32, I32, P);
    fLoadIte   = M.getOrInsertFunction("__sym_load_ite", al, P, P, P, I32, I32, I32, P);
    fStore     = M.getOrInsertFunction("__sym_store", al, Void, P, P, I32);
    fClear     = M.getOrInsertFunction("__sym_clear", al, Void, P, I64);
    fBranch    = M.getOrInsertFunction("__sym_branch", al, I1, I1, P, P);
    fSelect    = M.getOrInsertFunction("__sym_select", al, P, I1, P, P, P, I64, I64, I32, I32);
    fConcAddr  = M.getOrInsertFunction("__sym_conc", al, I64, P, I64, P);
    fMemcpy    = M.getOrInsertFunction("__sym_memcpy_shadow", al, Void, P, P, I64);
    fMemset    = M.getOrInsertFunction("__sym_memset_shadow", al, Void, P, P, I64);
    fPost      = M.getOrInsertFunction("__sym_post_call", al, Void, P, P, I32);
    fLost      = M.getOrInsertFunction("__sym_lost", al, Void, P, I32, P);
    fFUn       = M.getOrInsertFunction("__sym_fun", al, P, I32, P, Dbl, I32);
    fIntr2     = M.getOrInsertFunction("__sym_intr2", al, P, I32, P, P, I64, I64, I32);
    fByval     = M.getOrInsertFunction("__sym_byval", al, Void, P, P, I64);
    fFUn3      = M.getOrInsertFunction("__sym_fma", al, P, P, P, P, Dbl, Dbl, Dbl);
    fOvf       = M.getOrInsertFunction("__sym_ovf", al, P, I32, P, P, I64, I64, I32);
  }

  // ---- per function state
  Function                 *F;
  std::map<Value *, Value *> S;
  Value                    *site;
  Value                    *entered; // i1: entered from instrumented code
  std::vector<PHINode *>    phis;

  Kind kindOf(Type *t)
  {
    if (t->isPointerTy())
      return KPtr;
    if (t->isIntegerTy(1))
      return KBool;
    if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64)
      return KInt;
    if (t->isFloatTy())
      return KF32;
    if (t->isDoubleTy())
      return KF64;
    return KNone;
  }
  bool scalar(Type *t) { return kindOf(t) != KNone; }
  unsigned width(Type *t)
  {
    if (t->isPointerTy())
      return 64;
    if (t->isIntegerTy())
      return t->getIntegerBitWidth();
    if (t->isFloatTy())
      return 32;
    return 64;
  }
  // shadow type of T or nullptr when untracked
  Type *shadowTy(Type *t)
  {
    if (scalar(t))
      return P;
    if (auto *st = dyn_cast<StructType>(t)) {
      std::vector<Type *> v;
      for (auto *e : st->elements()) {
        auto *x = shadowTy(e);
        v.push_back(x ? x : P);
      }
      return StructType::get(C, v);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      if (at->getNumElements() > 64)
        return nullptr;
      auto *x = shadowTy(at->getElementType());
      return ArrayType::get(x ? x : P, at->getNumElements());
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      if (!scalar(vt->getElementType()) || vt->getNumElements() > 64)
        return nullptr;
      return ArrayType::get(P, vt->getNumElements());
    }
    return nullptr;
  }
  Value *nul(Type *t)
  {
    auto *st = shadowTy(t);
    return st ? Constant::getNullValue(st) : nullptr;
  }
  Value *sh(Value *v)
  {
    auto it = S.find(v);
    if (it != S.end())
      return it->second;
    return nul(v->getType());
  }
  bool isNull(Value *s)
  {
    if (!s)
      return true;
    auto *c = dyn_cast<Constant>(s);
    return c && c->isNullValue();
  }
  Value *u64(IRBuilder<> &B, Value *v)
  {
    Type *t = v->getType();
    if (t->isPointerTy())
      return B.CreatePtrToInt(v, I64);
    if (t->isIntegerTy())
      return B.CreateZExtOrTrunc(v, I64);
    if (t->isDoubleTy())
      return B.CreateBitCast(v, I64);
    if (t->isFloatTy())
      return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    return ConstantInt::get(I64, 0);
  }
  Value *dbl(IRBuilder<> &B, Value *v)
  {
    if (v->getType()->isFloatTy())
      return B.CreateFPExt(v, Dbl);
    return v;
  }
  Value *c32(unsigned x) { return ConstantInt::get(I32, x); }
  Value *c64(uint64_t x) { return ConstantInt::get(I64, x); }

  // flatten a first class type into scalars: (indices, type, byte offset)
  struct Leaf {
    std::vector<unsigned> idx;
    Type                 *ty;
    uint64_t              off;
  };
  void flatten(Type *t, std::vector<unsigned> idx, uint64_t off, std::vector<Leaf> &out)
  {
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) {
        auto j = idx;
        j.push_back(i);
        flatten(st->getElementType(i), j, off + sl->getElementOffset(i), out);
      }
      return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      for (unsigned i = 0; i < at->getNumElements(); ++i) {
        auto j = idx;
        j.push_back(i);
        flatten(at->getElementType(), j, off + i * DL.getTypeAllocSize(at->getElementType()), out);
      }
      return;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      for (unsigned i = 0; i < vt->getNumElements(); ++i) {
        auto j = idx;
        j.push_back(i);
        flatten(vt->getElementType(), j, off + i * DL.getTypeStoreSize(vt->getElementType()), out);
      }
      return;
    }
    out.push_back({idx, t, off});
  }
  std::vector<Leaf> leaves(Type *t)
  {
    std::vector<Leaf> r;
    if (shadowTy(t))
      flatten(t, {}, 0, r);
    return r;
  }
  Value *getLeaf(IRBuilder<> &B, Value *s, const Leaf &l) { return l.idx.empty() ? s : B.CreateExtractValue(s, l.idx); }

  Value *argSlot(unsigned i) { return ConstantExpr::getInBoundsGetElementPtr(gArgs->getValueType(), gArgs, ArrayRef<Constant *>{ConstantInt::get(I64, 0), ConstantInt::get(I64, i)}); }
  Value *retSlot(unsigned i) { return ConstantExpr::getInBoundsGetElementPtr(gRets->getValueType(), gRets, ArrayRef<Constant *>{ConstantInt::get(I64, 0), ConstantInt::get(I64, i)}); }

  void lost(IRBuilder<> &B, Value *v, unsigned code)
  {
    Value *s = sh(v);
    if (isNull(s))
      return;
    for (auto &l : leaves(v->getType())) {
      Value *x = getLeaf(B, s, l);
      B.CreateCall(fLost, {x, c32(code), site});
    }
  }

  // the instruction goes on with the concretised value, which may differ from the natively computed one
  // (a native comparison of rounded doubles need not agree with the exact one)
  Value *concPtr(IRBuilder<> &B, Value *ptr, Instruction *user = nullptr, unsigned op = 0)
  {
    Value *s = sh(ptr);
    if (isNull(s))
      return ptr;
    Value *r = B.CreateIntToPtr(B.CreateCall(fConcAddr, {s, B.CreatePtrToInt(ptr, I64), site}), ptr->getType());
    if (user)
      user->setOperand(op, r);
    return r;
  }
  Value *concInt(IRBuilder<> &B, Value *v, Instruction *user = nullptr, unsigned op = 0)
  {
    Value *s = sh(v);
    if (isNull(s))
      return v;
    Value *c = B.CreateCall(fConcAddr, {s, u64(B, v), site});
    Value *r = v->getType()->isPointerTy() ? B.CreateIntToPtr(c, v->getType()) : v->getType()->isIntegerTy() ? B.CreateZExtOrTrunc(c, v->getType()) : v;
    if (user)
      user->setOperand(op, r);
    return r;
  }

  Value *loadShadow(IRBuilder<> &B, Value *ptr, Type *t, uint64_t off, Value *ps)
  {
    unsigned bytes = (unsigned) DL.getTypeStoreSize(t).getFixedValue();
    Value   *a     = off ? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), ptr, off) : ptr;
    if (!isNull(ps) && off == 0)
      return B.CreateCall(fLoadIte, {a, ps, c32(bytes), c32(kindOf(t)), c32(width(t)), site});
    return B.CreateCall(fLoad, {a, c32(bytes), c32(kindOf(t)), c32(width(t)), site});
  }

  void run(Function &f)
  {
    F = &f;
    S.clear();
    phis.clear();
    // collect original instructions first
    std::vector<Instruction *> insts;
    // make sure entry block has no predecessors & split invoke normal edges
    {
      std::vector<InvokeInst *> invs;
      for (auto &I : instructions(f))
        if (auto *iv = dyn_cast<InvokeInst>(&I))
          invs.push_back(iv);
      for (auto *iv : invs) {
        BasicBlock *nd = iv->getNormalDest();
        if (!nd->getSinglePredecessor() || isa<PHINode>(nd->front())) {
          BasicBlock *nb = BasicBlock::Create(C, "symnorm", &f, nd);
          BranchInst::Create(nd, nb);
          for (auto &phi : nd->phis()) {
            for (unsigned i = 0; i < phi.getNumIncomingValues(); ++i)
              if (phi.getIncomingBlock(i) == iv->getParent())
                phi.setIncomingBlock(i, nb);
          }
          iv->setNormalDest(nb);
        }
      }
    }
    // process blocks in an order where defs dominate uses (RPO over the CFG)
    DominatorTree             DT(f);
    std::vector<BasicBlock *> order;
    {
      ReversePostOrderTraversal<Function *> rpo(&f);
      for (auto *b : rpo)
        order.push_back(b);
    }
    for (auto *b : order)
      for (auto &I : *b)
        insts.push_back(&I);

    // site string
    {
      std::string nm   = f.getName().str();
      auto       *data = ConstantDataArray::getString(C, nm);
      auto       *g    = new GlobalVariable(M, data->getType(), true, GlobalValue::PrivateLinkage, data, "__sym_site");
      site             = g;
    }
    // entry
    {
      IRBuilder<> B(&*f.getEntryBlock().getFirstInsertionPt());
      // skip static allocas to keep them grouped
      BasicBlock::iterator it = f.getEntryBlock().getFirstInsertionPt();
      while (isa<AllocaInst>(&*it))
        ++it;
      B.SetInsertPoint(&*it);
      bool any = false;
      for (auto &a : f.args())
        if (shadowTy(a.getType()))
          any = true;
      if (any) {
        Value *cal = B.CreateLoad(P, gCallee);
        entered    = B.CreateICmpEQ(cal, &f);
        unsigned slot = 0;
        for (auto &a : f.args()) {
          auto ls = leaves(a.getType());
          if (a.hasByValAttr()) {
            if (slot < NARGS) {
              Value   *src = B.CreateSelect(entered, B.CreateLoad(P, argSlot(slot)), Constant::getNullValue(P));
              uint64_t n   = DL.getTypeAllocSize(a.getParamByValType());
              B.CreateCall(fByval, {&a, src, c64(n)});
            }
            slot++;
            continue;
          }
          if (ls.empty())
            continue;
          if (slot + ls.size() > NARGS)
            break;
          if (a.use_empty()) {
            slot += ls.size();
            continue;
          }
          if (ls.size() == 1 && ls[0].idx.empty()) {
            S[&a] = B.CreateSelect(entered, B.CreateLoad(P, argSlot(slot)), Constant::getNullValue(P));
            slot++;
          } else {
            Value *agg = nul(a.getType());
            for (auto &l : ls) {
              Value *x = B.CreateSelect(entered, B.CreateLoad(P, argSlot(slot)), Constant::getNullValue(P));
              agg      = B.CreateInsertValue(agg, x, l.idx);
              slot++;
            }
            S[&a] = agg;
          }
        }
        B.CreateStore(Constant::getNullValue(P), gCallee);
      } else {
        // still remember whether we came from instrumented code (for returns)
        Value *cal = B.CreateLoad(P, gCallee);
        entered    = B.CreateICmpEQ(cal, &f);
        B.CreateStore(Constant::getNullValue(P), gCallee);
      }
    }
    // phis first (placeholders)
    for (auto *I : insts)
      if (auto *phi = dyn_cast<PHINode>(I)) {
        auto *st = shadowTy(phi->getType());
        if (!st)
          continue;
        auto *sp = PHINode::Create(st, phi->getNumIncomingValues(), "", phi);
        S[phi]   = sp;
        phis.push_back(phi);
      }
    for (auto *I : insts)
      visit(I);
    for (auto *phi : phis) {
      auto *sp = cast<PHINode>(S[phi]);
      for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i) {
        Value *v = sh(phi->getIncomingValue(i));
        sp->addIncoming(v, phi->getIncomingBlock(i));
      }
    }
    // simplify: phis with only null/self operands -> null (fixpoint)
    bool changed = true;
    while (changed) {
      changed = false;
      for (auto *&phi : phis) {
        if (!phi)
          continue;
        auto *sp  = cast<PHINode>(S[phi]);
        bool  all = true;
        for (auto &op : sp->incoming_values())
          if (op != sp && !isNull(op))
            all = false;
        if (all) {
          auto *n = Constant::getNullValue(sp->getType());
          sp->replaceAllUsesWith(n);
          sp->eraseFromParent();
          S[phi]  = n;
          phi     = nullptr;
          changed = true;
        }
      }
    }
  }

  Instruction *after(Instruction *I)
  {
    if (auto *iv = dyn_cast<InvokeInst>(I))
      return &*iv->getNormalDest()->getFirstInsertionPt();
    return I->getNextNode();
  }

  void visit(Instruction *I)
  {
    if (isa<PHINode>(I))
      return;
    Type *T = I->getType();
    if (auto *bo = dyn_cast<BinaryOperator>(I)) {
      Value *a = bo->getOperand(0), *b = bo->getOperand(1);
      Value *sa = sh(a), *sb = sh(b);
      if (isNull(sa) && isNull(sb))
        return;
      IRBuilder<> B(I->getNextNode());
      if (T->isVectorTy()) {
        auto *vt = dyn_cast<FixedVectorType>(T);
        if (!vt || !shadowTy(T))
          return lost2(B, a, b, 1);
        Value *agg = nul(T);
        for (unsigned i = 0; i < vt->getNumElements(); ++i) {
          Value *ea = B.CreateExtractElement(a, i), *eb = B.CreateExtractElement(b, i);
          Value *xa = B.CreateExtractValue(sa, i), *xb = B.CreateExtractValue(sb, i);
          agg       = B.CreateInsertValue(agg, binop(B, bo->getOpcode(), ea, eb, xa, xb), i);
        }
        S[I] = agg;
        return;
      }
      if (!scalar(T))
        return lost2(B, a, b, 1);
      S[I] = binop(B, bo->getOpcode(), a, b, sa, sb);
      return;
    }
    if (auto *u = dyn_cast<UnaryOperator>(I)) { // fneg
      Value *a = u->getOperand(0), *sa = sh(a);
      if (isNull(sa))
        return;
      IRBuilder<> B(I->getNextNode());
      if (!scalar(T)) {
        lost(B, a, 2);
        return;
      }
      S[I] = B.CreateCall(fFUn, {c32(0), sa, dbl(B, a), c32(width(T))});
      return;
    }
    if (auto *c = dyn_cast<ICmpInst>(I)) {
      Value *a = c->getOperand(0), *b = c->getOperand(1), *sa = sh(a), *sb = sh(b);
      if (isNull(sa) && isNull(sb))
        return;
      IRBuilder<> B(I->getNextNode());
      if (!scalar(a->getType()))
        return lost2(B, a, b, 3);
      S[I] = B.CreateCall(fICmp, {c32(c->getPredicate()), sa, sb, u64(B, a), u64(B, b), c32(width(a->getType()))});
      return;
    }
    if (auto *c = dyn_cast<FCmpInst>(I)) {
      Value *a = c->getOperand(0), *b = c->getOperand(1), *sa = sh(a), *sb = sh(b);
      if (isNull(sa) && isNull(sb))
        return;
      IRBuilder<> B(I->getNextNode());
      if (!scalar(a->getType()))
        return lost2(B, a, b, 4);
      S[I] = B.CreateCall(fFCmp, {c32(c->getPredicate()), sa, sb, dbl(B, a), dbl(B, b), c32(width(a->getType()))});
      return;
    }
    if (auto *c = dyn_cast<CastInst>(I)) {
      Value *a = c->getOperand(0), *sa = sh(a);
      if (isNull(sa))
        return;
      IRBuilder<> B(I->getNextNode());
      if (!scalar(T) || !scalar(a->getType())) {
        lost(B, a, 5);
        return;
      }
      unsigned op = c->getOpcode();
      S[I]        = B.CreateCall(fCast, {c32(op), sa, c32(kindOf(a->getType())), c32(width(a->getType())), c32(kindOf(T)), c32(width(T))});
      return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
      bool any = false;
      for (auto &op : g->operands())
        if (!isNull(sh(op)))
          any = true;
      if (!any || T->isVectorTy())
        return;
      IRBuilder<> B(I->getNextNode());
      // address = base + sum idx*size
      Value *base = g->getPointerOperand();
      Value *acc = sh(base), *accC = B.CreatePtrToInt(base, I64);
      unsigned                 bw = 64;
      MapVector<Value *, APInt> var;
      APInt                    off(64, 0);
      if (!g->collectOffset(DL, bw, var, off)) {
        for (auto &op : g->operands())
          lost(B, op, 6);
        return;
      }
      for (auto &kv : var) {
        Value *ix = kv.first, *sx = sh(ix);
        Value *cx = B.CreateSExtOrTrunc(ix, I64);
        if (!isNull(sx)) {
          unsigned w = width(ix->getType());
          if (w < 64)
            sx = B.CreateCall(fCast, {c32(Instruction::SExt), sx, c32(kindOf(ix->getType())), c32(w), c32(KInt), c32(64)});
        }
        Value *sc = ConstantInt::get(I64, kv.second);
        Value *ms = isNull(sx) ? (Value *) Constant::getNullValue(P) : (Value *) B.CreateCall(fBin, {c32(Instruction::Mul), sx, Constant::getNullValue(P), cx, sc, c32(64)});
        Value *mc = B.CreateMul(cx, sc);
        if (!(isNull(acc) && isNull(ms)))
          acc = B.CreateCall(fBin, {c32(Instruction::Add), acc, ms, accC, mc, c32(64)});
        accC = B.CreateAdd(accC, mc);
      }
      if (off != 0) {
        Value *oc = ConstantInt::get(I64, off);
        if (!isNull(acc))
          acc = B.CreateCall(fBin, {c32(Instruction::Add), acc, Constant::getNullValue(P), accC, oc, c32(64)});
      }
      S[I] = acc;
      return;
    }
    if (auto *l = dyn_cast<LoadInst>(I)) {
      Value *p = l->getPointerOperand(), *ps = sh(p);
      auto  *st = shadowTy(T);
      // shadow is computed before the load so that address concretisation happens first
      IRBuilder<> B(I);
      if (!st) {
        concPtr(B, p, l, 0);
        return;
      }
      auto ls = leaves(T);
      if (ls.size() == 1 && ls[0].idx.empty()) {
        S[I] = loadShadow(B, p, T, 0, ps);
        if (!isNull(ps))
          l->setOperand(0, B.CreateIntToPtr(B.CreateLoad(I64, gAddr), p->getType()));
        return;
      }
      p = concPtr(B, p, l, 0);
      Value *agg = nul(T);
      for (auto &x : ls) {
        if (!scalar(x.ty))
          continue;
        agg = B.CreateInsertValue(agg, loadShadow(B, p, x.ty, x.off, Constant::getNullValue(P)), x.idx);
      }
      S[I] = agg;
      return;
    }
    if (auto *st = dyn_cast<StoreInst>(I)) {
      IRBuilder<> B(I->getNextNode());
      Value      *p = st->getPointerOperand(), *v = st->getValueOperand();
      {
        IRBuilder<> B0(I);
        p = concPtr(B0, p, st, 1);
      }
      Value   *sv    = sh(v);
      uint64_t bytes = DL.getTypeStoreSize(v->getType());
      if (isNull(sv)) {
        B.CreateCall(fClear, {p, c64(bytes)});
        return;
      }
      auto ls = leaves(v->getType());
      if (ls.size() == 1 && ls[0].idx.empty()) {
        B.CreateCall(fStore, {p, sv, c32(bytes)});
        return;
      }
      for (auto &x : ls) {
        Value *a = x.off ? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), p, x.off) : p;
        B.CreateCall(fStore, {a, B.CreateExtractValue(sv, x.idx), c32(DL.getTypeStoreSize(x.ty))});
      }
      return;
    }
    if (auto *al = dyn_cast<AllocaInst>(I)) {
      Instruction *n = I->getNextNode();
      while (isa<AllocaInst>(n))
        n = n->getNextNode();
      IRBuilder<> B(n);
      Value      *sz = c64(DL.getTypeAllocSize(al->getAllocatedType()));
      if (al->isArrayAllocation()) {
        (void) concInt(B, al->getArraySize());
        sz = B.CreateMul(sz, B.CreateZExtOrTrunc(al->getArraySize(), I64));
      }
      B.CreateCall(fClear, {al, sz});
      return;
    }
    if (auto *b = dyn_cast<BranchInst>(I)) {
      if (!b->isConditional())
        return;
      Value *s = sh(b->getCondition());
      if (isNull(s))
        return;
      IRBuilder<> B(I);
      b->setCondition(B.CreateCall(fBranch, {b->getCondition(), s, site}));
      return;
    }
    if (auto *sw = dyn_cast<SwitchInst>(I)) { // LowerSwitch leaves none in reachable code, keep it safe
      IRBuilder<> B(I);
      concInt(B, sw->getCondition(), sw, 0);
      return;
    }
    if (auto *se = dyn_cast<SelectInst>(I)) {
      Value *c = se->getCondition(), *a = se->getTrueValue(), *b = se->getFalseValue();
      Value *sc = sh(c), *sa = sh(a), *sb = sh(b);
      auto  *st = shadowTy(T);
      if (!st)
        return;
      if (c->getType()->isVectorTy()) {
        if (isNull(sc) && isNull(sa) && isNull(sb))
          return;
        IRBuilder<> B(I->getNextNode());
        lost(B, c, 7);
        lost2(B, a, b, 7);
        return;
      }
      if (isNull(sc)) {
        if (isNull(sa) && isNull(sb))
          return;
        IRBuilder<> B(I->getNextNode());
        S[I] = B.CreateSelect(c, sa, sb);
        return;
      }
      IRBuilder<> B(I->getNextNode());
      if (!scalar(T)) {
        lost(B, c, 7);
        S[I] = B.CreateSelect(c, sa, sb);
        return;
      }
      S[I] = B.CreateCall(fSelect, {c, sc, sa, sb, u64(B, a), u64(B, b), c32(kindOf(T)), c32(width(T))});
      return;
    }
    if (auto *e = dyn_cast<ExtractValueInst>(I)) {
      Value *s = sh(e->getAggregateOperand());
      if (isNull(s))
        return;
      IRBuilder<> B(I->getNextNode());
      S[I] = B.CreateExtractValue(s, e->getIndices());
      return;
    }
    if (auto *e = dyn_cast<InsertValueInst>(I)) {
      Value *s = sh(e->getAggregateOperand()), *v = sh(e->getInsertedValueOperand());
      if (!s || (isNull(s) && isNull(v)))
        return;
      IRBuilder<> B(I->getNextNode());
      S[I] = B.CreateInsertValue(s, v, e->getIndices());
      return;
    }
    if (auto *e = dyn_cast<ExtractElementInst>(I)) {
      Value *s = sh(e->getVectorOperand());
      if (isNull(s))
        return;
      IRBuilder<> B(I->getNextNode());
      if (auto *ci = dyn_cast<ConstantInt>(e->getIndexOperand()))
        S[I] = B.CreateExtractValue(s, (unsigned) ci->getZExtValue());
      else
        lost(B, e->getVectorOperand(), 8);
      return;
    }
    if (auto *e = dyn_cast<InsertElementInst>(I)) {
      Value *s = sh(e->getOperand(0)), *v = sh(e->getOperand(1));
      if (!s || (isNull(s) && isNull(v)))
        return;
      IRBuilder<> B(I->getNextNode());
      if (auto *ci = dyn_cast<ConstantInt>(e->getOperand(2)))
        S[I] = B.CreateInsertValue(s, v, (unsigned) ci->getZExtValue());
      else
        lost2(B, e->getOperand(0), e->getOperand(1), 8);
      return;
    }
    if (auto *e = dyn_cast<ShuffleVectorInst>(I)) {
      Value *a = sh(e->getOperand(0)), *b = sh(e->getOperand(1));
      if (!shadowTy(T) || (isNull(a) && isNull(b)))
        return;
      IRBuilder<> B(I->getNextNode());
      Value      *agg = nul(T);
      unsigned    n0  = cast<FixedVectorType>(e->getOperand(0)->getType())->getNumElements();
      auto        m   = e->getShuffleMask();
      for (unsigned i = 0; i < m.size(); ++i) {
        if (m[i] < 0)
          continue;
        Value *x = (unsigned) m[i] < n0 ? B.CreateExtractValue(a, (unsigned) m[i]) : B.CreateExtractValue(b, (unsigned) m[i] - n0);
        agg      = B.CreateInsertValue(agg, x, i);
      }
      S[I] = agg;
      return;
    }
    if (auto *fr = dyn_cast<FreezeInst>(I)) {
      Value *s = sh(fr->getOperand(0));
      if (!isNull(s))
        S[I] = s;
      return;
    }
    if (auto *x = dyn_cast<AtomicCmpXchgInst>(I)) {
      IRBuilder<> B(I->getNextNode());
      B.CreateCall(fClear, {x->getPointerOperand(), c64(DL.getTypeStoreSize(x->getNewValOperand()->getType()))});
      return;
    }
    if (auto *x = dyn_cast<AtomicRMWInst>(I)) {
      IRBuilder<> B(I->getNextNode());
      B.CreateCall(fClear, {x->getPointerOperand(), c64(DL.getTypeStoreSize(x->getValOperand()->getType()))});
      return;
    }
    if (auto *r = dyn_cast<ReturnInst>(I)) {
      Value *v = r->getReturnValue();
      if (!v)
        return;
      // musttail: nothing may be inserted between call and ret
      if (I->getParent()->getTerminatingMustTailCall())
        return;
      auto  ls = leaves(v->getType());
      if (ls.empty() || ls.size() > NRETS)
        return;
      Value      *s = sh(v);
      IRBuilder<> B(I);
      for (unsigned i = 0; i < ls.size(); ++i) {
        Value *x = getLeaf(B, s, ls[i]);
        if (!isNull(x))
          x = B.CreateSelect(entered, x, Constant::getNullValue(P));
        B.CreateStore(x, retSlot(i));
      }
      return;
    }
    if (auto *cb = dyn_cast<CallBase>(I))
      return visitCall(cb);
  }

  void lost2(IRBuilder<> &B, Value *a, Value *b, unsigned code)
  {
    lost(B, a, code);
    lost(B, b, code);
  }

  Value *binop(IRBuilder<> &B, unsigned op, Value *a, Value *b, Value *sa, Value *sb)
  {
    Type *t = a->getType();
    if (t->isFloatingPointTy())
      return B.CreateCall(fFBin, {c32(op), sa, sb, dbl(B, a), dbl(B, b), c32(width(t))});
    return B.CreateCall(fBin, {c32(op), sa, sb, u64(B, a), u64(B, b), c32(width(t))});
  }

  bool visitIntrinsic(IntrinsicInst *II)
  {
    IRBuilder<> B(II->getNextNode() ? II->getNextNode() : II);
    Type       *T = II->getType();
    auto        A = [&](unsigned i) { return II->getArgOperand(i); };
    switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
    case Intrinsic::memcpy_inline: {
      IRBuilder<> B0(II);
      concPtr(B0, A(0), II, 0);
      concPtr(B0, A(1), II, 1);
      concInt(B0, A(2), II, 2);
      B0.CreateCall(fMemcpy, {A(0), A(1), B0.CreateZExtOrTrunc(A(2), I64)});
      return true;
    }
    case Intrinsic::memset: {
      IRBuilder<> B0(II);
      concPtr(B0, A(0), II, 0);
      concInt(B0, A(2), II, 2);
      B0.CreateCall(fMemset, {A(0), sh(A(1)), B0.CreateZExtOrTrunc(A(2), I64)});
      return true;
    }
    case Intrinsic::lifetime_start: {
      auto *ci = dyn_cast<ConstantInt>(A(0));
      if (ci && ci->getSExtValue() > 0)
        B.CreateCall(fClear, {A(1), c64(ci->getZExtValue())});
      return true;
    }
    case Intrinsic::fabs:
    case Intrinsic::sqrt:
    case Intrinsic::floor:
    case Intrinsic::ceil:
    case Intrinsic::trunc:
    case Intrinsic::rint:
    case Intrinsic::nearbyint:
    case Intrinsic::round:
    case Intrinsic::roundeven:
    case Intrinsic::exp:
    case Intrinsic::log:
    case Intrinsic::sin:
    case Intrinsic::cos: {
      if (isNull(sh(A(0))))
        return true;
      if (!scalar(T)) {
        lost(B, A(0), 9);
        return true;
      }
      unsigned code = 0;
      switch (II->getIntrinsicID()) {
      case Intrinsic::fabs: code = 1; break;
      case Intrinsic::sqrt: code = 2; break;
      case Intrinsic::floor: code = 3; break;
      case Intrinsic::ceil: code = 4; break;
      case Intrinsic::trunc: code = 5; break;
      case Intrinsic::rint:
      case Intrinsic::nearbyint:
      case Intrinsic::roundeven: code = 6; break;
      case Intrinsic::round: code = 7; break;
      case Intrinsic::exp: code = 8; break;
      case Intrinsic::log: code = 9; break;
      case Intrinsic::sin: code = 10; break;
      case Intrinsic::cos: code = 11; break;
      default: break;
      }
      S[II] = B.CreateCall(fFUn, {c32(code), sh(A(0)), dbl(B, A(0)), c32(width(T))});
      return true;
    }
    case Intrinsic::minnum:
    case Intrinsic::maxnum:
    case Intrinsic::pow:
    case Intrinsic::copysign: {
      if (isNull(sh(A(0))) && isNull(sh(A(1))))
        return true;
      if (!scalar(T)) {
        lost2(B, A(0), A(1), 10);
        return true;
      }
      unsigned code = II->getIntrinsicID() == Intrinsic::minnum ? 101 : II->getIntrinsicID() == Intrinsic::maxnum ? 102 : II->getIntrinsicID() == Intrinsic::pow ? 103 : 104;
      S[II]         = B.CreateCall(fFBin, {c32(code), sh(A(0)), sh(A(1)), dbl(B, A(0)), dbl(B, A(1)), c32(width(T))});
      return true;
    }
    case Intrinsic::powi: {
      if (isNull(sh(A(0))) && isNull(sh(A(1))))
        return true;
      {
        IRBuilder<> B0(II);
        concInt(B0, A(1), II, 1);
      }
      S[II] = B.CreateCall(fFBin, {c32(103), sh(A(0)), Constant::getNullValue(P), dbl(B, A(0)), B.CreateSIToFP(A(1), Dbl), c32(width(T))});
      return true;
    }
    case Intrinsic::fma:
    case Intrinsic::fmuladd: {
      if (isNull(sh(A(0))) && isNull(sh(A(1))) && isNull(sh(A(2))))
        return true;
      S[II] = B.CreateCall(fFUn3, {sh(A(0)), sh(A(1)), sh(A(2)), dbl(B, A(0)), dbl(B, A(1)), dbl(B, A(2))});
      return true;
    }
    case Intrinsic::umin:
    case Intrinsic::umax:
    case Intrinsic::smin:
    case Intrinsic::smax:
    case Intrinsic::usub_sat:
    case Intrinsic::uadd_sat: {
      if (isNull(sh(A(0))) && isNull(sh(A(1))))
        return true;
      if (!scalar(T)) {
        lost2(B, A(0), A(1), 11);
        return true;
      }
      unsigned code = 0;
      switch (II->getIntrinsicID()) {
      case Intrinsic::umin: code = 0; break;
      case Intrinsic::umax: code = 1; break;
      case Intrinsic::smin: code = 2; break;
      case Intrinsic::smax: code = 3; break;
      case Intrinsic::usub_sat: code = 4; break;
      case Intrinsic::uadd_sat: code = 5; break;
      default: break;
      }
      S[II] = B.CreateCall(fIntr2, {c32(code), sh(A(0)), sh(A(1)), u64(B, A(0)), u64(B, A(1)), c32(width(T))});
      return true;
    }
    case Intrinsic::abs: {
      if (isNull(sh(A(0))))
        return true;
      if (!scalar(T)) {
        lost(B, A(0), 11);
        return true;
      }
      S[II] = B.CreateCall(fIntr2, {c32(6), sh(A(0)), Constant::getNullValue(P), u64(B, A(0)), c64(0), c32(width(T))});
      return true;
    }
    case Intrinsic::is_fpclass: {
      if (isNull(sh(A(0))))
        return true;
      auto *ci = cast<ConstantInt>(A(1));
      S[II]    = B.CreateCall(fFCmp, {c32(100), sh(A(0)), Constant::getNullValue(P), dbl(B, A(0)), ConstantFP::get(Dbl, (double) ci->getZExtValue()), c32(width(A(0)->getType()))});
      return true;
    }
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::umul_with_overflow: {
      Value *sa = sh(A(0)), *sb = sh(A(1));
      if (isNull(sa) && isNull(sb))
        return true;
      unsigned w = width(A(0)->getType());
      unsigned op = 0, code = 0;
      switch (II->getIntrinsicID()) {
      case Intrinsic::sadd_with_overflow: op = Instruction::Add; code = 0; break;
      case Intrinsic::uadd_with_overflow: op = Instruction::Add; code = 1; break;
      case Intrinsic::ssub_with_overflow: op = Instruction::Sub; code = 2; break;
      case Intrinsic::usub_with_overflow: op = Instruction::Sub; code = 3; break;
      case Intrinsic::smul_with_overflow: op = Instruction::Mul; code = 4; break;
      case Intrinsic::umul_with_overflow: op = Instruction::Mul; code = 5; break;
      default: break;
      }
      Value *r  = B.CreateCall(fBin, {c32(op), sa, sb, u64(B, A(0)), u64(B, A(1)), c32(w)});
      Value *o  = B.CreateCall(fOvf, {c32(code), sa, sb, u64(B, A(0)), u64(B, A(1)), c32(w)});
      Value *ag = nul(T);
      ag        = B.CreateInsertValue(ag, r, 0u);
      ag        = B.CreateInsertValue(ag, o, 1u);
      S[II]     = ag;
      return true;
    }
    case Intrinsic::expect:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ptrmask: {
      Value *s = sh(A(0));
      if (!isNull(s))
        S[II] = s;
      return true;
    }
    case Intrinsic::lifetime_end:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::assume:
    case Intrinsic::eh_typeid_for:
    case Intrinsic::stacksave:
    case Intrinsic::stackrestore:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::vastart:
    case Intrinsic::vaend:
    case Intrinsic::vacopy:
    case Intrinsic::trap:
    case Intrinsic::prefetch:
    case Intrinsic::objectsize:
    case Intrinsic::is_constant:
    case Intrinsic::donothing:
      return true;
    default: {
      for (auto &op : II->args())
        lost(B, op, 1000 + (unsigned) II->getIntrinsicID());
      return true;
    }
    }
  }

  void visitCall(CallBase *cb)
  {
    if (auto *II = dyn_cast<IntrinsicInst>(cb)) {
      visitIntrinsic(II);
      return;
    }
    if (cb->isInlineAsm())
      return;
    Value *cal = cb->getCalledOperand();
    Type  *T   = cb->getType();
    if (auto *fn = cb->getCalledFunction()) {
      StringRef n = fn->getName();
      if (n.starts_with("__sym_ret_"))
        n = n.drop_front(0);
      // functions of the C library that never see symbolic data by value and never call back
      if (n.starts_with("__cxa_") || n == "__gxx_personality_v0" || n == "_Unwind_Resume" || n == "__clang_call_terminate")
        return;
      // libm
      static const std::map<std::string, unsigned> un = {{"sqrt", 2}, {"fabs", 1}, {"floor", 3}, {"ceil", 4}, {"trunc", 5}, {"rint", 6}, {"nearbyint", 6}, {"round", 7}, {"exp", 8}, {"log", 9}, {"sin", 10}, {"cos", 11}, {"acos", 12}, {"asin", 13}, {"atan", 14}, {"tan", 15}, {"cbrt", 16}, {"log10", 17}, {"exp2", 18}, {"log2", 19}, {"tanh", 20}};
      static const std::map<std::string, unsigned> bi = {{"fmin", 101}, {"fmax", 102}, {"pow", 103}, {"fmod", (unsigned) Instruction::FRem}, {"hypot", 105}, {"atan2", 106}};
      auto iu = un.find(n.str());
      if (iu != un.end() && T->isDoubleTy() && cb->arg_size() == 1) {
        Value *a = cb->getArgOperand(0);
        if (isNull(sh(a)))
          return;
        IRBuilder<> B(after(cb));
        S[cb] = B.CreateCall(fFUn, {c32(iu->second), sh(a), a, c32(64)});
        return;
      }
      auto ib = bi.find(n.str());
      if (ib != bi.end() && T->isDoubleTy() && cb->arg_size() == 2) {
        Value *a = cb->getArgOperand(0), *b = cb->getArgOperand(1);
        if (isNull(sh(a)) && isNull(sh(b)))
          return;
        IRBuilder<> B(after(cb));
        S[cb] = B.CreateCall(fFBin, {c32(ib->second), sh(a), sh(b), a, b, c32(64)});
        return;
      }
      static const std::map<std::string, std::string> alloc = {{"malloc", "__sym_malloc"}, {"calloc", "__sym_calloc"}, {"realloc", "__sym_realloc"}, {"free", "__sym_free"}, {"aligned_alloc", "__sym_aligned_alloc"}, {"posix_memalign", "__sym_posix_memalign"}};
      auto ia = alloc.find(n.str());
      if (ia != alloc.end()) {
        IRBuilder<> B0(cb);
        for (unsigned i = 0; i < cb->arg_size(); ++i)
          concInt(B0, cb->getArgOperand(i), cb, i);
        cb->setCalledFunction(M.getOrInsertFunction(ia->second, fn->getFunctionType()));
        return;
      }
      if (n.starts_with("_Znwm") || n.starts_with("_Znam")) {
        IRBuilder<> B0(cb);
        for (unsigned i = 0; i < cb->arg_size(); ++i)
          if (!cb->getArgOperand(i)->getType()->isPointerTy())
            concInt(B0, cb->getArgOperand(i), cb, i);
        return;
      }
      if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv"))
        return;
      static const std::map<std::string, std::string> mem = {{"memcmp", "__symlib_memcmp"}, {"bcmp", "__symlib_memcmp"}, {"strlen", "__symlib_strlen"}, {"strcmp", "__symlib_strcmp"}, {"memchr", "__symlib_memchr"}, {"strchr", "__symlib_strchr"}};
      auto im = mem.find(n.str());
      if (im != mem.end() && !F->getName().starts_with("__symlib_"))
        cb->setCalledFunction(M.getOrInsertFunction(im->second, fn->getFunctionType()));
      if (n == "memset" || n == "bzero") {
        IRBuilder<> B0(cb);
        concPtr(B0, cb->getArgOperand(0), cb, 0);
        concInt(B0, cb->getArgOperand(n == "memset" ? 2 : 1), cb, n == "memset" ? 2 : 1);
        Value *v = n == "memset" ? sh(cb->getArgOperand(1)) : (Value *) Constant::getNullValue(P);
        B0.CreateCall(fMemset, {cb->getArgOperand(0), v, cb->getArgOperand(n == "memset" ? 2 : 1)});
        return;
      }
      if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") {
        IRBuilder<> B0(cb);
        for (unsigned i = 0; i < 2; ++i)
          concPtr(B0, cb->getArgOperand(i), cb, i);
        concInt(B0, cb->getArgOperand(2), cb, 2);
        B0.CreateCall(fMemcpy, {cb->getArgOperand(0), cb->getArgOperand(1), cb->getArgOperand(2)});
        return;
      }
    }
    cal     = cb->getCalledOperand();
    bool mt = cb->isMustTailCall();
    {
      IRBuilder<> B(cb);
      unsigned    slot = 0;
      for (unsigned i = 0; i < cb->arg_size(); ++i) {
        Value *a = cb->getArgOperand(i);
        if (cb->isByValArgument(i)) {
          if (slot < NARGS)
            B.CreateStore(a, argSlot(slot));
          slot++;
          continue;
        }
        auto ls = leaves(a->getType());
        if (ls.empty())
          continue;
        if (slot + ls.size() > NARGS)
          break;
        Value *s = sh(a);
        for (auto &l : ls) {
          B.CreateStore(getLeaf(B, s, l), argSlot(slot));
          slot++;
        }
      }
      // concretise the called pointer
      if (!isNull(sh(cal))) {
        cal = concPtr(B, cal);
        cb->setCalledOperand(cal);
      }
      B.CreateStore(cal, gCallee);
      auto rl = leaves(T);
      if (!rl.empty() && rl.size() <= NRETS && !mt)
        for (unsigned i = 0; i < rl.size(); ++i)
          B.CreateStore(Constant::getNullValue(P), retSlot(i));
      if (mt)
        return;
    }
    {
      Instruction *ip = after(cb);
      if (!ip)
        return;
      IRBuilder<> B(ip);
      unsigned mask = 0, slot = 0; // slots which carry byval sources are not expressions
      for (unsigned i = 0; i < cb->arg_size(); ++i) {
        if (cb->isByValArgument(i)) {
          if (slot < 32)
            mask |= 1u << slot;
          slot++;
          continue;
        }
        slot += leaves(cb->getArgOperand(i)->getType()).size();
      }
      bool anySym = false;
      for (auto &a : cb->args())
        if (!isNull(sh(a)))
          anySym = true;
      if (anySym) // only then a native callee could have swallowed an expression
        B.CreateCall(fPost, {cal, site, c32(mask || slot > NARGS ? 0u : slot)});
      auto rl = leaves(T);
      if (!rl.empty() && rl.size() <= NRETS && !cb->use_empty()) {
        if (rl.size() == 1 && rl[0].idx.empty())
          S[cb] = B.CreateLoad(P, retSlot(0));
        else {
          Value *agg = nul(T);
          for (unsigned i = 0; i < rl.size(); ++i)
            agg = B.CreateInsertValue(agg, B.CreateLoad(P, retSlot(i)), rl[i].idx);
          S[cb] = agg;
        }
      }
    }
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
  {
    Instrumenter               in(M);
    std::vector<Function *>    fs;
    for (auto &f : M) {
      if (f.isDeclaration() || f.getName().starts_with("__sym_") || f.hasFnAttribute(Attribute::Naked))
        continue;
      if (f.hasAvailableExternallyLinkage())
        continue;
      if (f.hasFnAttribute("nosym"))
        continue;
      fs.push_back(&f);
    }
    for (auto *f : fs) {
      // shared libraries (the solver itself among them) must not bind to instrumented template instantiations
      if (f->hasLinkOnceLinkage() || f->hasWeakLinkage())
        f->setVisibility(GlobalValue::HiddenVisibility);
      // functions are changed in a way that invalidates inferred memory attributes
      f->removeFnAttr(Attribute::Memory);
      f->removeFnAttr(Attribute::NoSync);
      f->removeFnAttr(Attribute::NoFree);
      f->removeFnAttr(Attribute::Speculatable);
      f->removeFnAttr(Attribute::WillReturn);
      f->removeFnAttr(Attribute::NoRecurse);
      for (auto &I : instructions(*f))
        if (auto *cb = dyn_cast<CallBase>(&I)) {
          if (isa<IntrinsicInst>(cb))
            continue;
          cb->removeFnAttr(Attribute::Memory);
          cb->removeFnAttr(Attribute::NoSync);
          if (auto *ci = dyn_cast<CallInst>(cb))
            if (ci->getTailCallKind() == CallInst::TCK_Tail)
              ci->setTailCallKind(CallInst::TCK_None);
        }
    }
    for (auto &f : M)
      if (f.isDeclaration() && !f.isIntrinsic())
        f.removeFnAttr(Attribute::Memory);
    for (auto *f : fs)
      in.run(*f);
    return PreservedAnalyses::none();
  }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION, "sympass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
              FunctionPassManager FPM;
              FPM.addPass(LowerSwitchPass());
              ScalarizerPassOptions so;
              so.ScalarizeLoadStore = true;
              so.ScalarizeVariableInsertExtract = true;
              FPM.addPass(ScalarizerPass(so));
              MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
              MPM.addPass(SymPass());
            });
          }};
}
