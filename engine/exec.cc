#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <algorithm>
using namespace llvm;

static std::string instStr(const Instruction* I) { std::string s; raw_string_ostream o(s); I->print(o); return s; }
static std::string demang(const std::string& n) { return llvm::demangle(n); }

Exec::Exec(Module& m) : M(m), DL(m.getDataLayout()) { t0 = std::chrono::steady_clock::now(); registerNatives(*this); }

unsigned Exec::width(Type* T) {
  if (T->isPointerTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isX86_FP80Ty()) return 80;
  return 0;
}

void Exec::leaves(Type* T, uint64_t off, std::vector<uint16_t>& w, std::vector<uint32_t>& o) {
  if (T->isVoidTy()) return;
  if (auto* ST = dyn_cast<StructType>(T)) {
    const StructLayout* SL = DL.getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) leaves(ST->getElementType(i), off + SL->getElementOffset(i), w, o);
  } else if (auto* AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL.getTypeAllocSize(AT->getElementType());
    for (uint64_t i = 0; i < AT->getNumElements(); i++) leaves(AT->getElementType(), off + i * es, w, o);
  } else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
    uint64_t es = DL.getTypeStoreSize(VT->getElementType());
    for (unsigned i = 0; i < VT->getNumElements(); i++) leaves(VT->getElementType(), off + i * es, w, o);
  } else {
    w.push_back(width(T)); o.push_back(off);
  }
}

static u128 apToU(const APInt& a) {
  u128 v = a.getRawData()[0];
  if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
  return v;
}

uint64_t Exec::constInt(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return (uint64_t)apToU(ci->getValue());
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constInt(ga->getAliasee());
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) { errs() << "no address for " << gv->getName() << "\n"; abort(); }
    return it->second;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) return (uint64_t)apToU(cf->getValueAPF().bitcastToAPInt());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!g->accumulateConstantOffset(DL, off)) break;
        return constInt(cast<Constant>(g->getPointerOperand())) + off.getZExtValue();
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return constInt(ce->getOperand(0)) & (uint64_t)maskw(width(ce->getType()));
      case Instruction::Trunc: return constInt(ce->getOperand(0)) & (uint64_t)maskw(width(ce->getType()));
      case Instruction::Add: return (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & (uint64_t)maskw(width(ce->getType()));
      case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & (uint64_t)maskw(width(ce->getType()));
      case Instruction::Xor: return constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1));
      case Instruction::Mul: return (constInt(ce->getOperand(0)) * constInt(ce->getOperand(1))) & (uint64_t)maskw(width(ce->getType()));
      case Instruction::ICmp: {
        uint64_t a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
          case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b;
          case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGE: return a >= b;
          default: break;
        }
      }
      default: break;
    }
  }
  std::string t; raw_string_ostream o(t); c->print(o);
  errs() << "unsupported constant: " << t << "\n";
  abort();
}

void Exec::constLeaves(const Constant* c, std::vector<Val>& out) {
  Type* T = c->getType();
  if (T->isAggregateType() || T->isVectorTy()) {
    std::vector<uint16_t> w; std::vector<uint32_t> o;
    leaves(T, 0, w, o);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
      for (uint16_t x : w) out.push_back(x > 64 ? Val::of(mkConst(0, x)) : Val(0));
      return;
    }
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out);
    return;
  }
  unsigned w = width(T);
  if (w > 64) {
    u128 v = 0;
    if (auto* ci = dyn_cast<ConstantInt>(c)) v = apToU(ci->getValue());
    else if (auto* cf = dyn_cast<ConstantFP>(c)) v = apToU(cf->getValueAPF().bitcastToAPInt());
    out.push_back(Val::of(mkConst(v, w)));
  } else out.push_back(Val(constInt(c)));
}

void Exec::writeInit(Obj* o, uint64_t off, const Constant* c) {
  Type* T = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    memcpy(&o->data[off], raw.data(), raw.size());
    return;
  }
  if (auto* ST = dyn_cast<StructType>(T)) {
    const StructLayout* SL = DL.getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) writeInit(o, off + SL->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto* AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL.getTypeAllocSize(AT->getElementType());
    for (unsigned i = 0; i < AT->getNumElements(); i++) writeInit(o, off + i * es, c->getAggregateElement(i));
    return;
  }
  std::vector<Val> v; constLeaves(c, v);
  unsigned n = DL.getTypeStoreSize(T);
  u128 x = v[0].e ? v[0].e->val : v[0].c;
  for (unsigned i = 0; i < n && i < 16; i++) o->data[off + i] = (uint8_t)(x >> (8 * i));
}

void Exec::initGlobals(State& s) {
  unsigned fi = 0;
  for (Function& F : M) { gaddr[&F] = FN_BASE + ((uint64_t)fi << 4); fi++; FnInfo* f = new FnInfo; f->F = &F; f->name = F.getName().str(); fns[&F] = f; fnByIdx.push_back(f); }
  for (GlobalVariable& G : M.globals()) {
    uint64_t sz = G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()) : 8;
    if (!G.hasInitializer() && sz < 256) sz = 256;
    Obj* o = s.mem.alloc(G.isConstant() && G.hasInitializer() ? OK_CONST : OK_GLOBAL, sz ? sz : 1, true);
    o->what = G.getName().data();
    if (o->kind == OK_GLOBAL && sz >= 8 && (!G.hasAttribute("bss-section") || G.getName().contains("8iqxmlrpc") || G.getName().contains("5iqnet"))) roots.push_back(o->id);
    gaddr[&G] = objBase(o->id);
    std::string n = G.getName().str();
    if (n == "_ZTVN10__cxxabiv117__class_type_infoE") vtClass = objBase(o->id) + 16;
    if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") vtSi = objBase(o->id) + 16;
    if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVmi = objBase(o->id) + 16;
  }
  for (GlobalVariable& G : M.globals())
    if (G.hasInitializer() && G.getName() != "llvm.global_ctors" && G.getName() != "llvm.used" && G.getName() != "llvm.compiler.used" && G.getName() != "llvm.global_dtors") {
      Obj* o = s.mem.getw((gaddr[&G]) >> ADDR_SHIFT);
      writeInit(o, 0, G.getInitializer());
    }
  for (GlobalVariable& G : M.globals()) if (G.isThreadLocal()) tlsImage.emplace(gaddr[&G] >> ADDR_SHIFT, *s.mem.get(gaddr[&G] >> ADDR_SHIFT));
  if (GlobalVariable* gc = M.getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, Function*>> l;
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (unsigned i = 0; i < ca->getNumOperands(); i++) {
        auto* cs = cast<ConstantStruct>(ca->getOperand(i));
        if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          l.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
      }
    std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : l) ctors.push_back(p.second);
  }
}

// operator-new blocks reachable from the library's static data: kept on purpose, not leaked
int64_t Exec::heldByStatics(State& s) {
  int64_t n = 0;
  std::set<uint64_t> seen;
  std::vector<uint64_t> work(roots);
  while (!work.empty()) {
    const Obj* o = s.mem.get(work.back()); work.pop_back();
    if (!o) continue;
    for (uint32_t i = 0; i + 8 <= o->size; i += 8) {
      uint64_t p; memcpy(&p, &o->data[i], 8);
      if (!p || p >= FN_BASE || (!o->cls.empty() && (o->cls[i] | o->cls[i + 1] | o->cls[i + 4] | o->cls[i + 7]))) continue;
      const Obj* q = s.mem.get(p >> ADDR_SHIFT);
      if (!q || (q->kind != OK_NEW && q->kind != OK_NEWARR && q->kind != OK_MALLOC) || (p & ((1ull << ADDR_SHIFT) - 1)) < OBJ_OFF || !seen.insert(q->id).second) continue;
      if (q->kind != OK_MALLOC) n++;
      work.push_back(q->id);
    }
  }
  return n;
}

FnInfo* Exec::info(Function* F) { FnInfo* f = fns[F]; if (!f->decoded && !F->isDeclaration()) decode(f); return f; }

// ------------------------------------------------------------------ decode
// bit 1: sequentially consistent, a scheduling point (reference counts use weaker orders); bits 2 and 3: acquires, releases
static unsigned atomicKind(const Instruction& I) {
  if (!I.isAtomic()) return 0;
  AtomicOrdering o = AtomicOrdering::Monotonic;
  if (auto* l = dyn_cast<LoadInst>(&I)) o = l->getOrdering();
  else if (auto* t = dyn_cast<StoreInst>(&I)) o = t->getOrdering();
  else if (auto* r = dyn_cast<AtomicRMWInst>(&I)) o = r->getOrdering();
  else if (auto* c = dyn_cast<AtomicCmpXchgInst>(&I)) o = c->getSuccessOrdering();
  return (o == AtomicOrdering::SequentiallyConsistent ? 3 : 1) | (!isa<StoreInst>(I) && isAcquireOrStronger(o) ? 4 : 0) | (!isa<LoadInst>(I) && isReleaseOrStronger(o) ? 8 : 0);
}
void Exec::decode(FnInfo* fi) {
  fi->decoded = true;
  Function& F = *fi->F;
  fi->dname = demang(fi->name);
  if (auto* sp = F.getSubprogram()) {
    std::string f = sp->getFilename().str();
    if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
    fi->file = f;
  }
  std::unordered_map<const Value*, int32_t> slot;
  unsigned n = 0;
  auto nleaf = [&](Type* T) { std::vector<uint16_t> w; std::vector<uint32_t> o; leaves(T, 0, w, o); return (unsigned)w.size(); };
  for (Argument& A : F.args()) { slot[&A] = n; unsigned k = nleaf(A.getType()); fi->argSlot.push_back(n); fi->argN.push_back(k); n += k; }
  for (BasicBlock& B : F) for (Instruction& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += nleaf(I.getType()); }
  fi->nslots = n;
  // block pcs: phis take no code
  std::unordered_map<const BasicBlock*, uint32_t> bpc;
  uint32_t pc = 0;
  for (BasicBlock& B : F) {
    bpc[&B] = pc;
    for (Instruction& I : B) { if (isa<PHINode>(I)) continue; if (isa<DbgInfoIntrinsic>(I)) continue; pc++; }
  }
  auto leafOps = [&](const Value* V, std::vector<Opnd>& out) {
    std::vector<uint16_t> w; std::vector<uint32_t> o;
    if (V->getType()->isMetadataTy() || V->getType()->isLabelTy()) { out.push_back(Opnd()); return; }
    leaves(V->getType(), 0, w, o);
    if (auto* c = dyn_cast<Constant>(V)) {
      std::vector<Val> v; constLeaves(c, v);
      for (size_t i = 0; i < w.size(); i++) { Opnd p; p.w = w[i]; p.k = v[i]; out.push_back(p); }
    } else if (isa<InlineAsm>(V)) { out.push_back(Opnd()); }
    else {
      int32_t b = slot[V];
      for (size_t i = 0; i < w.size(); i++) { Opnd p; p.w = w[i]; p.slot = b + i; out.push_back(p); }
    }
  };
  auto op1 = [&](const Value* V) { std::vector<Opnd> o; leafOps(V, o); if (o.empty()) o.push_back(Opnd()); return o[0]; };
  auto mkEdge = [&](BasicBlock* from, BasicBlock* to) {
    Edge e; e.pc = bpc[to];
    for (PHINode& P : to->phis()) {
      std::vector<Opnd> o; leafOps(P.getIncomingValueForBlock(from), o);
      int32_t d = slot[&P];
      for (size_t i = 0; i < o.size(); i++) e.mv.push_back({d + (int32_t)i, o[i]});
    }
    return e;
  };
  for (BasicBlock& B : F) for (Instruction& I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    fi->code.emplace_back();
    Inst& in = fi->code.back();
    in.I = &I;
    if (!I.getType()->isVoidTy()) { in.dst = slot[&I]; in.nd = nleaf(I.getType()); in.w = width(I.getType()); }
    switch (I.getOpcode()) {
      case Instruction::Ret: in.op = I_RET; if (I.getNumOperands()) leafOps(I.getOperand(0), in.ops); break;
      case Instruction::Br: {
        auto& br = cast<BranchInst>(I);
        if (br.isConditional()) { in.op = I_CBR; in.ops.push_back(op1(br.getCondition())); in.edges.push_back(mkEdge(&B, br.getSuccessor(0))); in.edges.push_back(mkEdge(&B, br.getSuccessor(1))); }
        else { in.op = I_BR; in.edges.push_back(mkEdge(&B, br.getSuccessor(0))); }
        break;
      }
      case Instruction::Switch: {
        auto& sw = cast<SwitchInst>(I);
        in.op = I_SWITCH; in.ops.push_back(op1(sw.getCondition()));
        in.edges.push_back(mkEdge(&B, sw.getDefaultDest()));
        for (auto& c : sw.cases()) { in.cases.push_back(c.getCaseValue()->getZExtValue()); in.edges.push_back(mkEdge(&B, c.getCaseSuccessor())); }
        break;
      }
      case Instruction::Unreachable: in.op = I_UNREACH; break;
      case Instruction::Resume: in.op = I_RESUME; leafOps(I.getOperand(0), in.ops); break;
      case Instruction::FNeg: in.op = I_FNEG; in.ops.push_back(op1(I.getOperand(0))); break;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
      case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        in.op = I_BIN;
        static const std::map<unsigned, Op> mp = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
        in.sub = mp.at(I.getOpcode());
        leafOps(I.getOperand(0), in.ops); in.imm = in.ops.size(); leafOps(I.getOperand(1), in.ops);
        if (in.nd >= 1) in.w = in.ops[0].w;
        break;
      }
      case Instruction::ICmp: in.op = I_ICMP; in.sub = cast<ICmpInst>(I).getPredicate(); leafOps(I.getOperand(0), in.ops); in.imm = in.ops.size(); leafOps(I.getOperand(1), in.ops); in.w2 = in.ops[0].w; break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        in.op = I_FBIN; in.sub = I.getOpcode(); in.ops.push_back(op1(I.getOperand(0))); in.ops.push_back(op1(I.getOperand(1))); break;
      case Instruction::FCmp: in.op = I_FCMP; in.sub = cast<FCmpInst>(I).getPredicate(); in.ops.push_back(op1(I.getOperand(0))); in.ops.push_back(op1(I.getOperand(1))); in.w2 = in.ops[0].w; break;
      case Instruction::Alloca: {
        auto& A = cast<AllocaInst>(I);
        in.op = I_ALLOCA; in.size = DL.getTypeAllocSize(A.getAllocatedType()); in.ops.push_back(op1(A.getArraySize())); break;
      }
      case Instruction::Load: in.op = I_LOAD; in.sub = atomicKind(I); in.ops.push_back(op1(I.getOperand(0))); leaves(I.getType(), 0, in.lw, in.loff); break;
      case Instruction::Store: in.op = I_STORE; in.sub = atomicKind(I); in.ops.push_back(op1(I.getOperand(1))); leafOps(I.getOperand(0), in.ops); leaves(I.getOperand(0)->getType(), 0, in.lw, in.loff); break;
      case Instruction::GetElementPtr: {
        in.op = I_GEP;
        if (I.getType()->isVectorTy()) { in.op = I_BAD; break; }
        in.ops.push_back(op1(I.getOperand(0)));
        uint64_t off = 0;
        for (auto it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it) {
          Value* idx = it.getOperand();
          if (StructType* ST = it.getStructTypeOrNull()) off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          else {
            uint64_t es = DL.getTypeAllocSize(it.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(idx)) off += (uint64_t)(ci->getSExtValue() * (int64_t)es);
            else { in.gep.push_back({(int32_t)in.ops.size(), es}); in.ops.push_back(op1(idx)); }
          }
        }
        in.imm = off;
        break;
      }
      case Instruction::Trunc: in.op = I_TRUNC; leafOps(I.getOperand(0), in.ops); break;
      case Instruction::ZExt: in.op = I_ZEXT; leafOps(I.getOperand(0), in.ops); break;
      case Instruction::SExt: in.op = I_SEXT; leafOps(I.getOperand(0), in.ops); break;
      case Instruction::PtrToInt: in.op = in.w < 64 ? I_TRUNC : I_COPY; if (in.w > 64) in.op = I_ZEXT; leafOps(I.getOperand(0), in.ops); break;
      case Instruction::IntToPtr: leafOps(I.getOperand(0), in.ops); in.op = in.ops[0].w < 64 ? I_ZEXT : in.ops[0].w > 64 ? I_TRUNC : I_COPY; break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: leafOps(I.getOperand(0), in.ops); in.op = in.ops.size() == in.nd ? I_COPY : I_BAD;
        break;
      case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
        in.op = I_FPCAST; in.sub = I.getOpcode(); in.ops.push_back(op1(I.getOperand(0))); in.w2 = in.ops[0].w; break;
      case Instruction::Select: {
        in.op = I_SELECT;
        if (I.getOperand(0)->getType()->isVectorTy()) { in.op = I_BAD; break; }
        in.ops.push_back(op1(I.getOperand(0))); leafOps(I.getOperand(1), in.ops); leafOps(I.getOperand(2), in.ops); leaves(I.getType(), 0, in.lw, in.loff);
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto& CB = cast<CallBase>(I);
        in.op = isa<InvokeInst>(I) ? I_INVOKE : I_CALL;
        if (CB.isInlineAsm()) { in.op = I.getType()->isVoidTy() ? I_NOP : I_BAD; break; }
        Value* cv = CB.getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        in.callee = dyn_cast<Function>(cv);
        in.ops.push_back(op1(CB.getCalledOperand()));
        for (unsigned i = 0; i < CB.arg_size(); i++) {
          size_t before = in.ops.size();
          leafOps(CB.getArgOperand(i), in.ops);
          for (size_t k = before; k < in.ops.size(); k++)
            in.byval.push_back(CB.isByValArgument(i) ? DL.getTypeAllocSize(CB.getParamByValType(i)) : 0);
        }
        if (in.callee) {
          if (in.callee->isIntrinsic()) {
            auto id = in.callee->getIntrinsicID();
            switch (id) {
              case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
              case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::stackrestore:
              case Intrinsic::sideeffect:
                if (in.op == I_CALL && in.nd == 0) in.op = I_NOP;
                break;
              default: break;
            }
          }
          in.nat = in.op == I_NOP ? nullptr : findNative(in.callee->getName().str());
          if (!in.nat && !in.callee->isDeclaration()) in.cfn = fns[in.callee];
        }
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { in.edges.push_back(mkEdge(&B, inv->getNormalDest())); in.edges.push_back(mkEdge(&B, inv->getUnwindDest())); }
        break;
      }
      case Instruction::ExtractValue: {
        in.op = I_EXTRACTV;
        auto& ev = cast<ExtractValueInst>(I);
        Type* T = ev.getAggregateOperand()->getType(); unsigned idx = 0;
        for (unsigned k : ev.indices()) {
          if (auto* ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < k; j++) idx += nleaf(ST->getElementType(j)); T = ST->getElementType(k); }
          else { T = cast<ArrayType>(T)->getElementType(); idx += k * nleaf(T); }
        }
        std::vector<Opnd> o; leafOps(ev.getAggregateOperand(), o);
        for (unsigned k = 0; k < in.nd; k++) in.ops.push_back(o[idx + k]);
        in.op = I_COPY;
        break;
      }
      case Instruction::InsertValue: {
        auto& iv = cast<InsertValueInst>(I);
        Type* T = iv.getAggregateOperand()->getType(); unsigned idx = 0;
        for (unsigned k : iv.indices()) {
          if (auto* ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < k; j++) idx += nleaf(ST->getElementType(j)); T = ST->getElementType(k); }
          else { T = cast<ArrayType>(T)->getElementType(); idx += k * nleaf(T); }
        }
        leafOps(iv.getAggregateOperand(), in.ops);
        std::vector<Opnd> o; leafOps(iv.getInsertedValueOperand(), o);
        for (size_t k = 0; k < o.size(); k++) in.ops[idx + k] = o[k];
        in.op = I_COPY;
        break;
      }
      case Instruction::LandingPad: {
        auto& lp = cast<LandingPadInst>(I);
        in.op = I_LPAD; in.cleanup = lp.isCleanup();
        for (unsigned i = 0; i < lp.getNumClauses(); i++) {
          LpClause c; c.isFilter = lp.isFilter(i);
          Constant* k = lp.getClause(i);
          if (c.isFilter) { auto* AT = cast<ArrayType>(k->getType()); for (unsigned j = 0; j < AT->getNumElements(); j++) c.ti.push_back(constInt(k->getAggregateElement(j))); }
          else c.ti.push_back(constInt(k));
          in.clauses.push_back(c);
        }
        break;
      }
      case Instruction::Fence: in.op = I_NOP; break;
      case Instruction::AtomicRMW: { auto& a = cast<AtomicRMWInst>(I); in.op = I_RMW; in.imm = atomicKind(I); in.sub = a.getOperation(); in.ops.push_back(op1(a.getPointerOperand())); in.ops.push_back(op1(a.getValOperand())); break; }
      case Instruction::AtomicCmpXchg: { auto& a = cast<AtomicCmpXchgInst>(I); in.op = I_CMPXCHG; in.imm = atomicKind(I); in.ops.push_back(op1(a.getPointerOperand())); in.ops.push_back(op1(a.getCompareOperand())); in.ops.push_back(op1(a.getNewValOperand())); in.w = width(a.getCompareOperand()->getType()); break; }
      case Instruction::ExtractElement: {
        leafOps(I.getOperand(0), in.ops);
        auto* ci = dyn_cast<ConstantInt>(I.getOperand(1));
        if (!ci) { in.op = I_BAD; break; }
        Opnd o = in.ops[ci->getZExtValue()]; in.ops.assign(1, o); in.op = I_COPY; break;
      }
      case Instruction::InsertElement: {
        leafOps(I.getOperand(0), in.ops);
        auto* ci = dyn_cast<ConstantInt>(I.getOperand(2));
        if (!ci) { in.op = I_BAD; break; }
        in.ops[ci->getZExtValue()] = op1(I.getOperand(1)); in.op = I_COPY; break;
      }
      case Instruction::ShuffleVector: {
        auto& sv = cast<ShuffleVectorInst>(I);
        std::vector<Opnd> a; leafOps(I.getOperand(0), a); leafOps(I.getOperand(1), a);
        for (int k : sv.getShuffleMask()) { Opnd z; z.w = a[0].w; in.ops.push_back(k < 0 ? z : a[k]); }
        in.op = I_COPY; break;
      }
      default: in.op = I_BAD; break;
    }
  }
}

// ------------------------------------------------------------------ reporting
std::string Exec::loc(const Inst& in) {
  if (in.I && in.I->getDebugLoc()) {
    auto* l = in.I->getDebugLoc().get();
    return l->getFilename().str() + ":" + std::to_string(l->getLine());
  }
  return "?";
}
std::vector<std::string> Exec::backtrace(State& s) {
  std::vector<std::string> r;
  auto& st = s.t().st;
  for (size_t i = st.size(); i-- > 0 && r.size() < 30;) {
    Frame& f = st[i];
    const Instruction* I = f.pc < f.fn->code.size() ? f.fn->code[f.pc].I : nullptr;
    bool any = false;
    if (I && I->getDebugLoc())
      for (const DILocation* l = I->getDebugLoc().get(); l; l = l->getInlinedAt()) {
        auto* sp = l->getScope()->getSubprogram();
        std::string n = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())) : f.fn->dname;
        r.push_back(n + " @ " + l->getFilename().str() + ":" + std::to_string(l->getLine()));
        any = true;
      }
    if (!any) r.push_back(f.fn->dname + " @ ?");
  }
  return r;
}
std::string Exec::repoLoc(State& s) {          // innermost source position inside the repository
  auto& st = s.t().st;
  for (size_t i = st.size(); i-- > 0;) {
    const Instruction* I = st[i].pc < st[i].fn->code.size() ? st[i].fn->code[st[i].pc].I : nullptr;
    if (I && I->getDebugLoc())
      for (const DILocation* l = I->getDebugLoc().get(); l; l = l->getInlinedAt())
        if (l->getFilename().str().compare(0, repoPrefix.size(), repoPrefix) == 0) return l->getFilename().str() + ":" + std::to_string(l->getLine());
  }
  return "";
}
void Exec::collectCoverage(std::set<std::string>& fns, std::set<std::string>& lines) {
  for (auto* fi : fnByIdx) for (auto& in : fi->code) if (in.seen && in.I && in.I->getDebugLoc())
    for (const DILocation* l = in.I->getDebugLoc().get(); l; l = l->getInlinedAt()) {
      std::string f = l->getFilename().str();
      if (f.compare(0, repoPrefix.size(), repoPrefix)) continue;
      auto* sp = l->getScope()->getSubprogram();
      if (!sp || sp->getLinkageName().starts_with("_GLOBAL__") || sp->getName().starts_with("__cxx_global")) continue;
      fns.insert(sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()));
      if (l->getLine()) lines.insert(f + ":" + std::to_string(l->getLine()));
    }
}
void Exec::assignOf(State& s, const Assign& m, std::vector<std::pair<std::string, std::string>>& out) {
  std::map<std::string, std::vector<uint8_t>> mp;
  for (auto& c : s.counters) {
    // names used on this path: "name" -> number of bytes
    if (c.first.compare(0, 2, "b:") == 0) mp[c.first.substr(2)].resize(c.second, 0);
  }
  for (size_t i = 0; i < g_vars.size(); i++) {
    auto it = mp.find(g_vars[i].name);
    if (it == mp.end()) continue;
    if (g_vars[i].idx < it->second.size()) it->second[g_vars[i].idx] = i < m.v.size() ? m.v[i] : 0;
  }
  for (auto& p : mp) { std::string h; char b[4]; for (uint8_t x : p.second) { snprintf(b, 4, "%02x", x); h += b; } out.push_back({p.first, h}); }
}
void Exec::report(State& s, const std::string& kind, const std::string& msg, const Assign& m) {
  std::string l = repoLoc(s);
  if (l.empty() && !s.t().st.empty()) l = loc(s.f().fn->code[s.f().pc]);
  std::string key = kind + "|" + msg + "|" + l;
  if (violKeys.count(key)) return;
  violKeys.insert(key);
  Violation v; v.kind = kind; v.msg = msg; v.loc = l;
  if (!s.t().st.empty()) v.stack = backtrace(s);
  v.sched = s.schedTrace;
  assignOf(s, m, v.assign);
  viol.push_back(v);
}
void Exec::error(State& s, const std::string& kind, const std::string& msg) {
  report(s, kind, msg, s.model);
  pathsErr++;
  throw PathStop();
}
void Exec::kill(State& s, const char* why) {
  incomplete[why]++;
  pathsUnknown++;
  throw PathStop();
}

// ------------------------------------------------------------------ path condition
static Dom fullDom() { Dom d; d.set(); return d; }

EP Exec::simp(State& s, EP c) {
  if (c->isConst()) return c;
  std::vector<const Dom*> d(s.doms.size());
  bool any = false;
  for (uint32_t v : c->vs->v) if (v < s.doms.size() && s.doms[v]) { d[v] = s.doms[v].get(); any = true; }
  return any ? substConsts(c, d) : c;
}

static void disjuncts(EP c, std::vector<EP>& out) {
  if (c->w == 1 && c->op == E_OR) { disjuncts(c->a, out); disjuncts(c->b, out); }
  else if (c->w == 1 && c->op == E_XOR && c->b->isConst() && c->b->val && c->a->op == E_AND) { disjuncts(mkNot(c->a->a), out); disjuncts(mkNot(c->a->b), out); }
  else out.push_back(c);
}

SatR Exec::query(State& s, EP c, PartialModel* m) {
  if (c->vs->v.size() > 2) {           // alternatives are independent questions about fewer variables
    std::vector<EP> alt;
    disjuncts(c, alt);
    if (alt.size() > 1) {
      SatR all = R_UNSAT;
      for (EP a : alt) {
        a = simp(s, a);
        if (a->isConst() && !a->val) continue;
        if (a->isConst()) { if (m) m->clear(); return R_SAT; }
        SatR r = query(s, a, m);
        if (r == R_SAT) return r;
        if (r == R_UNKNOWN) all = r;
      }
      return all;
    }
  }
  // slice constraints relevant to c
  static std::vector<uint8_t> in;
  in.assign(g_vars.size(), 0);
  std::vector<EP> cs{c};
  for (uint32_t v : c->vs->v) in[v] = 1;
  std::vector<uint8_t> used(s.cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) {
      bool hit = false;
      for (uint32_t v : s.cons[i]->vs->v) if (in[v]) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(s.cons[i]); for (uint32_t v : s.cons[i]->vs->v) if (!in[v]) { in[v] = 1; ch = true; } }
    }
  }
  return solver.check(cs, m);
}

static void applyModel(State& s, const PartialModel& pm) {
  for (auto& p : pm) { if (s.model.v.size() <= p.first) s.model.v.resize(p.first + 1, 0); s.model.v[p.first] = p.second; }
  s.model.stamp = newStamp();
}

// Is c always true / always false / both under the path condition?  When both,
// 'other' holds a model for the direction not satisfied by the current model.
Exec::Dec Exec::decide(State& s, EP c, PartialModel* other) {
  if (c->isConst()) return c->val ? D_TRUE : D_FALSE;
  g_ss.branch_queries++;
  if (!s.cons.empty()) {
    for (size_t i = s.cons.size(), k = 0; i-- > 0 && k < 4; k++) {
      if (s.cons[i] == c) return D_TRUE;
      if (s.cons[i] == mkNot(c)) return D_FALSE;
    }
  }
  bool cur = evalExpr(c, s.model) != 0;
  EP want = cur ? mkNot(c) : c;
  if (c->vs->v.size() == 1) {
    uint32_t v = c->vs->v[0];
    const Dom& ts = truthSet(want);
    Dom d = v < s.doms.size() && s.doms[v] ? (*s.doms[v] & ts) : ts;
    bool look = (g_ss.fast_decided < 200 || g_ss.fast_decided % 64 == 0) && solver.canConfirm();
    if (look) {
      std::vector<EP> cs{want};
      for (EP k : s.cons) if (k->vs->v.size() == 1 && k->vs->v[0] == v) cs.push_back(k);
      SatR r = solver.confirm(cs);
      if (r != R_UNKNOWN && (r == R_UNSAT) != d.none()) kill(s, "internal: solver and byte domain disagree");
    }
    if (d.none()) { g_ss.fast_decided++; return cur ? D_TRUE : D_FALSE; }
    bool ent = v < s.entangled.size() && s.entangled[v];
    if (!ent) { g_ss.fast_decided++; other->clear(); other->push_back({v, (uint8_t)d._Find_first()}); return D_BOTH; }
  }
  SatR r = query(s, want, other);
  if (r == R_UNSAT) return cur ? D_TRUE : D_FALSE;
  if (r == R_SAT) return D_BOTH;
  kill(s, "solver returned unknown");
  return D_NONE;
}

bool Exec::addCons(State& s, EP c, const PartialModel* pm) {
  if (c->isConst()) return c->val;
  if (c->op == E_AND && c->w == 1) { if (!addCons(s, c->a, nullptr)) return false; if (!addCons(s, c->b, nullptr)) return false; }
  else {
    if (c->vs->v.size() == 1) {
      uint32_t v = c->vs->v[0];
      if (s.doms.size() <= v) s.doms.resize(v + 1);
      const Dom& ts = truthSet(c);
      Dom d = s.doms[v] ? (*s.doms[v] & ts) : ts;
      if (s.doms[v] && d == *s.doms[v]) { if (pm) applyModel(s, *pm); return true; }
      s.doms[v] = std::make_shared<Dom>(d);
      s.cons.push_back(c);
    } else {
      for (uint32_t v : c->vs->v) { if (s.entangled.size() <= v) s.entangled.resize(v + 1, 0); s.entangled[v] = 1; }
      s.cons.push_back(c);
    }
  }
  if (pm) applyModel(s, *pm);
  return true;
}

State* Exec::forkState(State& s) {
  State* n = new State(s);
  totalForks++;
  n->forks++; s.forks++;
  if (work.size() > maxWork) { delete n; kill(s, "worklist limit"); }
  work.push_back(n);
  return n;
}

bool Exec::branch(State& s, EP c) {
  c = simp(s, c);
  if (c->isConst()) return c->val;
  if (c->uninit) error(s, "uninit", "branch depends on an uninitialised value");
  PartialModel o;
  switch (decide(s, c, &o)) {
    case D_TRUE: return true;
    case D_FALSE: return false;
    default: break;
  }
  bool cur = evalExpr(c, s.model) != 0;
  State* n = forkState(s);
  addCons(*n, cur ? mkNot(c) : c, &o);
  addCons(s, cur ? c : mkNot(c), nullptr);
  return cur;
}

// Resolve conditions on the arithmetic spine of e by forking on them.
EP Exec::resolveSpine(State& s, EP e) {
  if (e->isConst()) return e;
  switch (e->op) {
    case E_ITE: return resolveSpine(s, branch(s, e->a) ? e->b : e->c);
    case E_ZEXT: if (e->a->w == 1) return mkConst(branch(s, e->a) ? 1 : 0, e->w); return mkZext(resolveSpine(s, e->a), e->w);
    case E_SEXT: if (e->a->w == 1) return branch(s, e->a) ? mkConst(maskw(e->w), e->w) : mkConst(0, e->w); return mkSext(resolveSpine(s, e->a), e->w);
    case E_ADD: case E_SUB: case E_MUL: { EP a = resolveSpine(s, e->a); return mkBin(e->op, a, resolveSpine(s, e->b)); }
    case E_SHL: return mkBin(e->op, resolveSpine(s, e->a), e->b);
    case E_EXTRACT: return mkExtract(resolveSpine(s, e->a), (unsigned)e->val, e->w);
    default: return e;
  }
}

// Fork over all feasible values of v; in this state v becomes concrete.
bool Exec::concretize(State& s, Val& v, unsigned w) {
  if (!v.e) return true;
  EP e = simp(s, v.e);
  if (e->isConst()) { v = Val((uint64_t)e->val); return true; }
  if (e->uninit) error(s, "uninit", "address, size or call target depends on an uninitialised value");
  // split on conditions first: fewer, more meaningful cases
  e = simp(s, resolveSpine(s, e));
  if (e->isConst()) { v = Val((uint64_t)e->val); return true; }
  uint64_t k = (uint64_t)evalExpr(e, s.model);
  branch(s, mkEq(e, mkConst(k, e->w)));   // current model satisfies it
  v = Val(k);
  return true;
}

// ------------------------------------------------------------------ memory
static std::string hexs(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

void Exec::raceCheck(State& s, Obj* o, uint64_t off, uint32_t n, bool write) {
  if (o->shadow.empty()) o->shadow.resize(o->size);
  Thread& t = s.t();
  uint32_t me = s.cur;
  if (t.vc.size() < s.th.size()) t.vc.resize(s.th.size(), 0);
  for (uint32_t i = 0; i < n; i++) {
    ShadowCell& c = o->shadow[off + i];
    auto hb = [&](uint32_t tid, uint32_t clk) { return tid == me || (tid < t.vc.size() && t.vc[tid] >= clk); };
    if (c.wclk && !hb(c.wtid, c.wclk)) error(s, "data-race", std::string("unsynchronised ") + (write ? "write" : "read") + " of memory written by another thread");
    if (write) {
      for (auto& r : c.rd) if (!hb(r.first, r.second)) error(s, "data-race", "unsynchronised write to memory read by another thread");
      c.rd.clear(); c.wtid = me; c.wclk = t.vc[me] + 1;
    } else {
      bool f = false;
      for (auto& r : c.rd) if (r.first == me) { r.second = t.vc[me] + 1; f = true; }
      if (!f) c.rd.push_back({me, t.vc[me] + 1});
    }
  }
}

// Resolve an access of n bytes.  Returns the object (writable if 'write') and
// the concrete offset, or, for symbolic reads, *symOff.
Obj* Exec::resolve(State& s, Val addr, uint32_t n, bool write, uint64_t& off, EP* symOff) {
  if (symOff) *symOff = nullptr;
  if (addr.e) {
    EP e = simp(s, addr.e);
    if (!e->isConst() && !e->uninit) e = simp(s, resolveSpine(s, e));
    if (e->isConst()) addr = Val((uint64_t)e->val);
    else {
      if (e->uninit) error(s, "uninit", "address depends on an uninitialised value");
      uint64_t a0 = (uint64_t)evalExpr(e, s.model);
      const Obj* o = s.mem.get(a0 >> ADDR_SHIFT);
      uint64_t base = objBase(a0 >> ADDR_SHIFT);
      if (!o || a0 < base || a0 + n > base + o->size) error(s, "memory", "out-of-bounds access through a computed address (" + hexs(a0) + ")");
      EP rel = mkBin(E_SUB, e, mkConst(base, 64));
      EP in = mkBin(E_ULE, rel, mkConst(o->size - n, 64));
      if (!branch(s, in)) error(s, "engine", "model mismatch");
      rel = simp(s, rel);
      if (rel->isConst()) { addr = Val(base + (uint64_t)rel->val); }
      else if (!write && symOff && o->size <= 4096) { *symOff = rel; off = 0; return const_cast<Obj*>(o); }
      else { Val v = Val::of(e); concretize(s, v, 64); addr = v; }
    }
  }
  uint64_t id = addr.c >> ADDR_SHIFT;
  if (id == 0) error(s, "memory", std::string(write ? "write through" : "read through") + " null pointer (" + hexs(addr.c) + ")");
  const Obj* o = s.mem.get(id);
  if (!o) error(s, "memory", (id < s.mem.next ? "use after free" : "wild pointer access"));
  off = (addr.c & ((1ull << ADDR_SHIFT) - 1)) - OBJ_OFF;
  if ((addr.c & ((1ull << ADDR_SHIFT) - 1)) < OBJ_OFF || off + n > o->size)
    error(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of a " + std::to_string(o->size) + "-byte object");
  if (write && o->kind == OK_CONST) error(s, "memory", "write to constant object");
  bool mt = raceDetect && s.th.size() > 1 && !s.t().world && o->kind != OK_CONST && !(o->kind == OK_STACK && o->tid == s.cur && o->shadow.empty());
  if (write || mt) { Obj* w = s.mem.getw(id); if (mt) raceCheck(s, w, off, n, write); return w; }
  return const_cast<Obj*>(o);
}

Val Exec::loadBytes(State& s, uint64_t id, uint64_t off, unsigned w) {
  const Obj* o = s.mem.get(id);
  unsigned n = (w + 7) / 8;
  bool conc = true;
  if (!o->cls.empty()) for (unsigned i = 0; i < n; i++) if (o->cls[off + i]) { conc = false; break; }
  if (conc) {
    u128 v = 0;
    for (unsigned i = 0; i < n; i++) v |= (u128)o->data[off + i] << (8 * i);
    v &= maskw(w);
    return w > 64 ? Val::of(mkConst(v, w)) : Val((uint64_t)v);
  }
  EP e = nullptr;
  // a value stored as a whole is read back as a whole
  if (n > 1 && o->cls[off] == C_SYM) {
    EP b0 = o->sym[off];
    if (b0->op == E_EXTRACT && b0->val == 0 && b0->a->w == n * 8) {
      EP full = b0->a; bool ok = true;
      for (unsigned i = 1; i < n && ok; i++) {
        uint8_t c = o->cls[off + i];
        if (c == C_SYM) { EP x = o->sym[off + i]; ok = x->op == E_EXTRACT && x->a == full && x->val == 8 * i; }
        else if (c == C_CONC) { EP x = mkExtract(full, 8 * i, 8); ok = x->isConst() && x->val == o->data[off + i]; }
        else ok = false;
      }
      if (ok) return Val::of(w % 8 ? mkExtract(full, 0, w) : full);
    }
  }
  for (unsigned i = 0; i < n; i++) {
    EP b;
    uint8_t c = o->cls[off + i];
    if (c == C_CONC) b = mkConst(o->data[off + i], 8);
    else if (c == C_SYM) { b = o->sym[off + i]; if (b->op == E_EXTRACT) b = mkExtract(b->a, (unsigned)b->val, 8); }
    else {
      Obj* wo = s.mem.getw(id); o = wo;
      unsigned k = s.counters["uninit"]++;
      b = mkVar("~uninit", k, true);
      if (wo->sym.empty()) wo->sym.assign(wo->size, nullptr);
      wo->sym[off + i] = b; wo->cls[off + i] = C_SYM;
    }
    e = e ? mkConcat(b, e) : b;
  }
  if (w % 8) e = mkExtract(e, 0, w);
  return Val::of(e);
}

void Exec::storeBytes(State& s, Obj* o, uint64_t off, unsigned w, Val v) {
  unsigned n = (w + 7) / 8;
  if (!v.e || v.e->isConst()) {
    u128 x = v.e ? v.e->val : v.c;
    x &= maskw(w);
    for (unsigned i = 0; i < n; i++) { o->data[off + i] = (uint8_t)(x >> (8 * i)); if (!o->cls.empty()) o->cls[off + i] = C_CONC; }
    return;
  }
  EP e = v.e;
  if (w % 8) e = mkZext(e, n * 8);
  if (o->cls.empty()) o->cls.assign(o->size, C_CONC);
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  for (unsigned i = 0; i < n; i++) {
    EP b = mkExtract(e, i * 8, 8);
    if (b->isConst()) { o->data[off + i] = (uint8_t)b->val; o->cls[off + i] = C_CONC; }
    else { o->sym[off + i] = n > 1 ? mkExtractRaw(e, i * 8, 8) : b; o->cls[off + i] = C_SYM; }
  }
}

bool Exec::load(State& s, Val addr, unsigned w, Val& out) {
  uint64_t off; EP so;
  unsigned n = (w + 7) / 8;
  Obj* o = resolve(s, addr, n, false, off, &so);
  if (!so) { out = loadBytes(s, o->id, off, w); return true; }
  // symbolic offset: select over the object's elements
  uint64_t id = o->id; uint32_t size = o->size;
  unsigned lz = lowZeroBits(so);
  unsigned ln = 0; while ((1u << ln) < n) ln++;
  unsigned stride = ((1u << ln) == n && lz >= ln) ? n : 1;
  unsigned sh = stride == n ? ln : 0;
  EP idx = sh ? mkExtract(so, sh, 64 - sh) : so;
  // Reduce width of the index for cheaper comparisons.
  unsigned iw = 1; while (((uint64_t)1 << iw) <= size / stride) iw++;
  if (iw < idx->w) idx = mkExtract(idx, 0, iw);        // in-bounds already assumed
  else iw = idx->w;
  // offsets that cannot occur are don't-cares
  std::vector<bool> feas;
  if (so->vs->v.size() == 1) {
    uint32_t var = so->vs->v[0];
    feas.assign(size, false);
    Assign m; m.v.assign(var + 1, 0);
    const Dom* d = var < s.doms.size() && s.doms[var] ? s.doms[var].get() : nullptr;
    for (unsigned x = 0; x < 256; x++) {
      if (d && !(*d)[x]) continue;
      m.v[var] = (uint8_t)x; m.stamp = newStamp();
      u128 r = evalExpr(so, m);
      if (r < size) feas[(uint64_t)r] = true;
    }
  }
  std::vector<EP> vals;
  for (uint64_t a = 0; a + n <= size; a += stride) {
    if (!feas.empty() && !feas[a]) { vals.push_back(nullptr); continue; }
    EP v = toE(loadBytes(s, id, a, w), w);
    if (v->uninit) { PartialModel pm; if (query(s, mkEq(so, mkConst(a, 64)), &pm) == R_UNSAT) v = nullptr; }
    vals.push_back(v);
  }
  struct Run { uint64_t lo, hi; EP v; bool aff; };
  std::vector<Run> runs;
  for (uint64_t i = 0; i < vals.size(); i++) {
    if (!vals[i]) { if (!runs.empty() && !runs.back().aff) runs.back().hi = i; continue; }
    if (!runs.empty()) {
      Run& r = runs.back();
      if (!r.aff && vals[i] == r.v) { r.hi = i; continue; }
      if (vals[i]->isConst() && r.v->isConst()) {
        if (r.aff && r.hi + 1 == i && ((vals[i]->val - r.v->val) & maskw(w)) == i - r.lo) { r.hi = i; continue; }
        if (!r.aff && r.lo == r.hi && r.hi + 1 == i && ((vals[i]->val - r.v->val) & maskw(w)) == 1) { r.aff = true; r.hi = i; continue; }
      }
    }
    runs.push_back({i, i, vals[i], false});
  }
  auto idxTo = [&](unsigned W) { return iw >= W ? mkExtract(idx, 0, W) : mkZext(idx, W); };
  EP res = nullptr;
  if (runs.empty()) kill(s, "empty table");
  for (size_t k = runs.size(); k-- > 0;) {
    Run& r = runs[k];
    EP v = r.aff ? mkBin(E_ADD, idxTo(w), mkConst(r.v->val - r.lo, w)) : r.v;
    if (!res) res = v;
    else res = mkIte(mkBin(E_ULE, idx, mkConst(r.hi, iw)), v, res);
  }
  out = Val::of(res);
  return true;
}

bool Exec::store(State& s, Val addr, unsigned w, Val v) {
  uint64_t off;
  Obj* o = resolve(s, addr, (w + 7) / 8, true, off, nullptr);
  storeBytes(s, o, off, w, v);
  return true;
}

uint64_t Exec::rd64(State& s, uint64_t addr, bool& ok) {
  const Obj* o = s.mem.get(addr >> ADDR_SHIFT);
  uint64_t off = (addr & ((1ull << ADDR_SHIFT) - 1)) - OBJ_OFF;
  if (!o || off + 8 > o->size) { ok = false; return 0; }
  ok = true;
  uint64_t v = 0; memcpy(&v, &o->data[off], 8);
  if (!o->cls.empty()) for (int i = 0; i < 8; i++) if (o->cls[off + i]) { ok = false; return 0; }
  return v;
}

std::string Exec::cstr(State& s, uint64_t addr) {
  std::string r;
  const Obj* o = s.mem.get(addr >> ADDR_SHIFT);
  if (!o) return "<bad>";
  uint64_t off = (addr & ((1ull << ADDR_SHIFT) - 1)) - OBJ_OFF;
  for (; off < o->size && o->data[off]; off++) {
    if (!o->cls.empty() && o->cls[off]) { r += '?'; continue; }
    r += (char)o->data[off];
  }
  return r;
}

bool Exec::copyMem(State& s, Val d, Val src, uint64_t n) {
  if (n == 0) return true;
  uint64_t so, dof;
  Obj* a = resolve(s, src, n, false, so, nullptr);
  uint64_t aid = a->id;
  std::vector<uint8_t> data(a->data.begin() + so, a->data.begin() + so + n), cls;
  std::vector<EP> sym;
  if (!a->cls.empty()) { cls.assign(a->cls.begin() + so, a->cls.begin() + so + n); if (!a->sym.empty()) sym.assign(a->sym.begin() + so, a->sym.begin() + so + n); }
  (void)aid;
  Obj* b = resolve(s, d, n, true, dof, nullptr);
  std::copy(data.begin(), data.end(), b->data.begin() + dof);
  bool any = false;
  for (uint8_t c : cls) if (c) { any = true; break; }
  if (any) {
    if (b->cls.empty()) b->cls.assign(b->size, C_CONC);
    std::copy(cls.begin(), cls.end(), b->cls.begin() + dof);
    if (!sym.empty()) { if (b->sym.empty()) b->sym.assign(b->size, nullptr); std::copy(sym.begin(), sym.end(), b->sym.begin() + dof); }
  } else if (!b->cls.empty()) std::fill(b->cls.begin() + dof, b->cls.begin() + dof + n, C_CONC);
  return true;
}

bool Exec::fillMem(State& s, Val d, Val bv, uint64_t n) {
  if (n == 0) return true;
  uint64_t dof;
  Obj* b = resolve(s, d, n, true, dof, nullptr);
  if (!bv.e) {
    std::fill(b->data.begin() + dof, b->data.begin() + dof + n, (uint8_t)bv.c);
    if (!b->cls.empty()) std::fill(b->cls.begin() + dof, b->cls.begin() + dof + n, C_CONC);
  } else for (uint64_t i = 0; i < n; i++) storeBytes(s, b, dof + i, 8, bv);
  return true;
}

// ------------------------------------------------------------------ control
void Exec::jump(State& s, Edge& e) {
  Frame& f = s.f();
  if (!e.mv.empty()) {
    static std::vector<Val> tmp;
    tmp.clear();
    for (auto& m : e.mv) tmp.push_back(opv(f, m.second));
    for (size_t i = 0; i < e.mv.size(); i++) f.s[e.mv[i].first] = tmp[i];
  }
  f.pc = e.pc;
}

void Exec::advance(State& s, Inst& in) {
  if (in.op == I_INVOKE) jump(s, in.edges[0]);
  else s.f().pc++;
}

void Exec::pushCall(State& s, FnInfo* fi, std::vector<Val>& args, Inst* call) {
  if (!fi->decoded) decode(fi);
  fi->executed = true;
  if (s.t().st.size() > 2000) error(s, "stack-overflow", "call depth exceeds 2000 frames");
  Frame nf; nf.fn = fi; nf.s.resize(fi->nslots);
  size_t k = 0;
  for (size_t i = 0; i < fi->argSlot.size(); i++)
    for (unsigned j = 0; j < fi->argN[i]; j++, k++) {
      if (k >= args.size()) break;
      Val v = args[k];
      if (call && k < call->byval.size() && call->byval[k]) {
        Obj* o = s.mem.alloc(OK_STACK, call->byval[k], false);
        o->tid = s.cur;
        nf.allocas.push_back(o->id);
        uint64_t a = objBase(o->id);
        copyMem(s, Val(a), v, call->byval[k]);
        v = Val(a);
      }
      nf.s[fi->argSlot[i] + j] = v;
    }
  for (; k < args.size(); k++) nf.va.push_back(args[k]);
  s.t().st.push_back(std::move(nf));
}

void Exec::popFrame(State& s) {
  for (uint64_t id : s.f().allocas) s.mem.free(id);
  s.t().st.pop_back();
}

void Exec::threadDone(State& s) {
  Thread& t = s.t();
  if (s.cur == 0) {
    // next constructor / entry
    if (s.ctorIdx < ctors.size()) { std::vector<Val> a; pushCall(s, info(ctors[s.ctorIdx++]), a, nullptr); return; }
    if (!s.inMain) { s.inMain = true; std::vector<Val> a; pushCall(s, info(entry), a, nullptr); return; }
    pathEnd(s);
    throw PathStop();
  }
  t.stat = T_DONE;
  if (!pickNext(s, true)) error(s, "deadlock", "no runnable thread");
}

void Exec::doReturn(State& s, std::vector<Val>& rv) {
  popFrame(s);
  if (s.t().st.empty()) { threadDone(s); return; }
  Frame& f = s.f();
  Inst& in = f.fn->code[f.pc];
  if (in.dst >= 0) for (size_t i = 0; i < rv.size() && i < in.nd; i++) f.s[in.dst + i] = rv[i];
  advance(s, in);
}

void Exec::doCall(State& s, Inst& in) {
  Frame& f = s.f();
  std::vector<Val> args;
  args.reserve(in.ops.size());
  for (size_t i = 1; i < in.ops.size(); i++) args.push_back(opv(f, in.ops[i]));
  FnInfo* fi = in.cfn;
  Native* nat = in.nat;
  if (!fi && !nat) {
    Function* F = in.callee;
    if (!F) {
      Val t = opv(f, in.ops[0]);
      concretize(s, t, 64);
      if (t.c < FN_BASE) error(s, "memory", "call through an invalid function pointer (" + hexs(t.c) + ")");
      uint64_t k = (t.c - FN_BASE) >> 4;
      if (k >= fnByIdx.size()) error(s, "memory", "call through an invalid function pointer");
      fi = fnByIdx[k];
      F = fi->F;
      nat = findNative(fi->name);
      if (!nat && F->isDeclaration()) { unmodelled.insert(fi->name); kill(s, ("unmodelled external: " + fi->name).c_str()); }
    } else { unmodelled.insert(F->getName().str()); kill(s, ("unmodelled external: " + F->getName().str()).c_str()); }
  }
  if (nat) { nat->fn(*this, s, in, args); return; }
  pushCall(s, fi, args, &in);
}

Native* Exec::findNative(const std::string& n) {
  auto it = natives.find(n);
  if (it != natives.end()) return &it->second;
  if (n.compare(0, 5, "llvm.") == 0) {
    // strip type suffixes
    std::string t = n;
    while (true) {
      size_t p = t.rfind('.');
      if (p == std::string::npos || p < 5) break;
      t = t.substr(0, p);
      it = natives.find(t);
      if (it != natives.end()) return &it->second;
    }
  }
  return nullptr;
}

// ------------------------------------------------------------------ exceptions
int Exec::typeId(uint64_t ti) {
  auto it = tiId.find(ti);
  if (it != tiId.end()) return it->second;
  tiById.push_back(ti);
  return tiId[ti] = (int)tiById.size();
}
std::string Exec::tiName(State& s, uint64_t ti) {
  bool ok; uint64_t p = rd64(s, ti + 8, ok);
  if (!ok || !p) {
    for (auto& g : gaddr) if (g.second == ti) return demang(g.first->getName().str());
    return "?";
  }
  return demang("_Z" + cstr(s, p));
}
bool Exec::upcast(State& s, uint64_t from, uint64_t to, uint64_t& ptr, int depth) {
  if (from == to) return true;
  if (depth > 20) return false;
  bool ok; uint64_t vt = rd64(s, from, ok);
  if (!ok) return false;
  if (vt == vtSi) { uint64_t b = rd64(s, from + 16, ok); return ok && upcast(s, b, to, ptr, depth + 1); }
  if (vt == vtVmi) {
    uint64_t fc = rd64(s, from + 16, ok);
    unsigned cnt = (unsigned)(fc >> 32);
    for (unsigned i = 0; i < cnt; i++) {
      uint64_t b = rd64(s, from + 24 + 16 * i, ok);
      int64_t of = (int64_t)rd64(s, from + 32 + 16 * i, ok);
      int64_t o = of >> 8;
      uint64_t q = ptr;
      if (of & 1) { uint64_t vp = rd64(s, ptr, ok); if (!ok) continue; o = (int64_t)rd64(s, vp + o, ok); if (!ok) continue; }
      q += o;
      if (upcast(s, b, to, q, depth + 1)) { ptr = q; return true; }
    }
  }
  return false;
}
bool Exec::tiMatch(State& s, uint64_t thrown, uint64_t want, uint64_t& ptr) {
  if (want == 0) return true;
  return upcast(s, thrown, want, ptr, 0);
}
// exception header (see rt/cxxabi.cc): [ti, dtor, adjusted, handlers, next, refcount, ...] 64 bytes before the object
void Exec::unwind(State& s, uint64_t exc, bool popFirst) {
  bool ok; uint64_t ti = rd64(s, exc - 64, ok);
  if (!ok) error(s, "engine", "bad exception object");
  Thread& t = s.t();
  auto handles = [&](Frame& f, bool& search) {
    Inst& in = f.fn->code[f.pc]; search = false;
    if (in.op != I_INVOKE) return false;
    Inst& lp = f.fn->code[in.edges[1].pc];
    for (LpClause& c : lp.clauses) {
      uint64_t p = exc;
      if (!c.isFilter) { if (tiMatch(s, ti, c.ti[0], p)) return true; }
      else { bool any = false; for (uint64_t w : c.ti) { uint64_t q = exc; if (tiMatch(s, ti, w, q)) any = true; } if (!any) return true; }
    }
    return false;
  };
  // search phase: is there a handler at all?
  { bool found = false, d; size_t top = t.st.size() - (popFirst ? 1 : 0);
    for (size_t i = top; i-- > 0;) if (handles(t.st[i], d)) { found = true; break; }
    if (!found) error(s, "uncaught-exception", "uncaught exception of type " + tiName(s, ti)); }
  if (popFirst) popFrame(s);
  while (!t.st.empty()) {
    Frame& f = s.f();
    Inst& in = f.fn->code[f.pc];
    if (in.op == I_INVOKE) {
      Inst& lp = f.fn->code[in.edges[1].pc];
      int sel = 0; bool take = false; uint64_t p = exc;
      for (LpClause& c : lp.clauses) {
        if (!c.isFilter) { p = exc; if (tiMatch(s, ti, c.ti[0], p)) { sel = typeId(c.ti[0]); take = true; break; } }
        else { bool any = false; for (uint64_t w : c.ti) { uint64_t q = exc; if (tiMatch(s, ti, w, q)) any = true; } if (!any) { sel = -1; take = true; p = exc; break; } }
      }
      if (!take && lp.cleanup) { take = true; sel = 0; p = exc; }
      if (take) {
        if (sel > 0) store(s, Val(exc - 64 + 16), 64, Val(p));
        jump(s, in.edges[1]);
        f.s[lp.dst] = Val(exc); f.s[lp.dst + 1] = Val((uint64_t)(uint32_t)sel);
        f.pc++;                            // skip the landingpad itself
        return;
      }
    }
    popFrame(s);
  }
  error(s, "uncaught-exception", "uncaught exception of type " + tiName(s, ti));
}

// ------------------------------------------------------------------ threads
bool Exec::enabled(State& s, int i) {
  Thread& t = s.th[i];
  switch (t.stat) {
    case T_DONE: return false;
    case T_MUTEX: { auto it = s.mutexes.find(t.waitAddr); return it == s.mutexes.end() || it->second.owner < 0; }
    case T_COND: return false;
    case T_JOIN: return s.th[t.waitAddr].stat == T_DONE;
    case T_FLAG: {
      const Obj* o = s.mem.get(t.waitAddr >> ADDR_SHIFT);
      uint64_t off = (t.waitAddr & ((1ull << ADDR_SHIFT) - 1)) - OBJ_OFF;
      if (!o || off + 4 > o->size) return true;        // reported when the thread runs
      Val v = loadBytes(s, t.waitAddr >> ADDR_SHIFT, off, 32);
      return v.e || v.c != 0;
    }
    default: return true;
  }
}
// Choose the next thread to run.  Forks one state per choice.
bool Exec::pickNext(State& s, bool mustSwitch) {
  schedPoints++;
  std::vector<int> en;
  for (size_t i = 0; i < s.th.size(); i++) if (enabled(s, i)) en.push_back(i);
  if (en.empty()) {            // timed waits end when nothing else can happen
    for (auto& t : s.th) if (t.stat == T_COND && t.timed) { t.stat = T_MUTEX; t.waitAddr = t.waitMutex; t.reacquire = true; t.pend = true; t.timedOut = true; }
    for (size_t i = 0; i < s.th.size(); i++) if (enabled(s, i)) en.push_back(i);
  }
  if (en.empty()) return false;
  bool curEn = std::find(en.begin(), en.end(), s.cur) != en.end();
  if (delayBound && !curEn) std::rotate(en.begin(), std::upper_bound(en.begin(), en.end(), (int)s.cur), en.end());   // round robin
  if ((curEn || delayBound) && preemptBound >= 0 && (long)s.preemptions >= preemptBound) en.assign(1, curEn ? s.cur : en[0]);
  int pick = en[0];
  if (en.size() > 1) {
    unsigned k = s.counters["b:sched"]++;
    EP v = mkVar("sched", k);
    if (s.model.v.size() <= v->val) { s.model.v.resize((size_t)v->val + 1, 0); }
    // order: current thread first so that value 0 means "no switch"
    if (curEn) { en.erase(std::find(en.begin(), en.end(), s.cur)); en.insert(en.begin(), s.cur); }
    size_t i = 0;
    // the variable is fresh on this path: every value below en.size() is feasible
    for (i = en.size() - 1; i > 0; i--) {
      State* n = forkState(s);
      PartialModel pm{{(uint32_t)v->val, (uint8_t)i}};
      addCons(*n, mkEq(v, mkConst(i, 8)), &pm);
      if (delayBound || (curEn && en[i] != n->cur)) n->preemptions++;
      n->cur = en[i]; n->th[en[i]].granted = n->th[en[i]].pend; n->th[en[i]].pend = false; switches++;
      n->schedTrace.push_back("T" + std::to_string(en[i]));
    }
    PartialModel pm{{(uint32_t)v->val, 0}};
    addCons(s, mkEq(v, mkConst(0, 8)), &pm);
    pick = en[0];
  }
  s.schedTrace.push_back("T" + std::to_string(pick));
  s.cur = pick;
  s.th[pick].granted = s.th[pick].pend; s.th[pick].pend = false;
  return true;
}
// Called at the start of a synchronisation operation.  Returns true if the
// current thread may execute its operation now; otherwise another thread was
// scheduled and this operation will be retried later.
bool Exec::schedPoint(State& s) {
  if (s.th.size() == 1) return true;
  if (s.t().granted) { s.t().granted = false; return true; }
  s.t().pend = true;
  if (!pickNext(s, false)) error(s, "deadlock", "no runnable thread");
  return false;
}

// ------------------------------------------------------------------ step
void eng_atomic_sync(State& s, uint64_t addr, unsigned kind);
static double asD(const Val& v) { double d; uint64_t u = v.c; memcpy(&d, &u, 8); return d; }
static uint64_t fromD(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static float asF(const Val& v) { float d; uint32_t u = (uint32_t)v.c; memcpy(&d, &u, 4); return d; }
static uint64_t fromF(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static long double as80(const Val& v) { long double d = 0; u128 x = v.e ? v.e->val : v.c; memcpy(&d, &x, 10); return d; }
static Val from80(long double d) { u128 x = 0; memcpy(&x, &d, 10); return Val::of(mkConst(x, 80)); }
static long double getF(const Val& v, unsigned w) { return w == 64 ? (long double)asD(v) : w == 32 ? (long double)asF(v) : as80(v); }
static Val putF(long double d, unsigned w) { return w == 64 ? Val(fromD((double)d)) : w == 32 ? Val(fromF((float)d)) : from80(d); }
static bool symF(const Val& v) { return v.e && !v.e->isConst(); }

static EP icmpE(unsigned pred, EP a, EP b) {
  switch (pred) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(E_ULT, a, b);
    case CmpInst::ICMP_ULE: return mkBin(E_ULE, a, b);
    case CmpInst::ICMP_UGT: return mkBin(E_ULT, b, a);
    case CmpInst::ICMP_UGE: return mkBin(E_ULE, b, a);
    case CmpInst::ICMP_SLT: return mkBin(E_SLT, a, b);
    case CmpInst::ICMP_SLE: return mkBin(E_SLE, a, b);
    case CmpInst::ICMP_SGT: return mkBin(E_SLT, b, a);
    case CmpInst::ICMP_SGE: return mkBin(E_SLE, b, a);
  }
  abort();
}
static bool icmpC(unsigned pred, uint64_t a, uint64_t b, unsigned w) {
  int64_t sa = (int64_t)sextw(a, w), sb = (int64_t)sextw(b, w);
  switch (pred) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sa < sb;
    case CmpInst::ICMP_SLE: return sa <= sb;
    case CmpInst::ICMP_SGT: return sa > sb;
    case CmpInst::ICMP_SGE: return sa >= sb;
  }
  abort();
}

void Exec::step(State& s) {
  Frame& f = s.f();
  Inst& in = f.fn->code[f.pc];
  in.seen = true;
  switch (in.op) {
    case I_NOP: f.pc++; break;
    case I_RET: {
      std::vector<Val> rv;
      for (auto& o : in.ops) rv.push_back(opv(f, o));
      doReturn(s, rv);
      break;
    }
    case I_BR: jump(s, in.edges[0]); break;
    case I_CBR: {
      Val c = opv(f, in.ops[0]);
      bool d = c.e ? branch(s, c.e) : (c.c & 1);
      jump(s, in.edges[d ? 0 : 1]);
      break;
    }
    case I_SWITCH: {
      Val c = opv(f, in.ops[0]);
      unsigned w = in.ops[0].w;
      if (!c.e) {
        size_t k = 0;
        for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == c.c) { k = i + 1; break; }
        jump(s, in.edges[k]);
      } else {
        EP e = simp(s, c.e);
        size_t k = 0;
        for (size_t i = 0; i < in.cases.size(); i++) if (branch(s, mkEq(e, mkConst(in.cases[i], w)))) { k = i + 1; break; }
        jump(s, in.edges[k]);
      }
      break;
    }
    case I_UNREACH: error(s, "unreachable", "executed unreachable code (undefined behaviour)"); break;
    case I_RESUME: {
      Val e = opv(f, in.ops[0]);
      unwind(s, e.c, true);
      break;
    }
    case I_BIN: {
      for (unsigned k = 0; k < in.nd; k++) {
        Val a = opv(f, in.ops[k]), b = opv(f, in.ops[in.imm + k]);
        unsigned w = in.ops[k].w;
        Op op = (Op)in.sub;
        if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) {
          EP z = mkEq(toE(b, w), mkConst(0, w));
          if (z->isConst() ? z->val : branch(s, z)) error(s, "arith", "division by zero");
        }
        if (!a.e && !b.e && w <= 64) f.s[in.dst + k] = Val((uint64_t)foldBin(op, a.c, b.c, w));
        else f.s[in.dst + k] = Val::of(mkBin(op, toE(a, w), toE(b, w)));
      }
      f.pc++;
      break;
    }
    case I_ICMP: {
      for (unsigned k = 0; k < in.nd; k++) {
        Val a = opv(f, in.ops[k]), b = opv(f, in.ops[in.imm + k]);
        if (!a.e && !b.e) f.s[in.dst + k] = Val(icmpC(in.sub, a.c, b.c, in.w2));
        else f.s[in.dst + k] = Val::of(icmpE(in.sub, toE(a, in.w2), toE(b, in.w2)));
      }
      f.pc++;
      break;
    }
    case I_FNEG: {
      Val a = opv(f, in.ops[0]);
      unsigned w = in.w;
      if (a.e) f.s[in.dst] = Val::of(mkBin(E_XOR, a.e, mkConst((u128)1 << (w - 1), w)));
      else f.s[in.dst] = Val(a.c ^ (1ull << (w - 1)));
      f.pc++; break;
    }
    case I_FBIN: {
      Val a = opv(f, in.ops[0]), b = opv(f, in.ops[1]);
      if (symF(a) || symF(b)) kill(s, "symbolic floating-point arithmetic");
      if (in.w == 64) {
        double x = asD(a), y = asD(b), r = 0;
        switch (in.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
        f.s[in.dst] = Val(fromD(r));
      } else {
        long double x = getF(a, in.w), y = getF(b, in.w), r = 0;
        switch (in.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodl(x, y); }
        f.s[in.dst] = putF(r, in.w);
      }
      f.pc++; break;
    }
    case I_FCMP: {
      Val a = opv(f, in.ops[0]), b = opv(f, in.ops[1]);
      if (symF(a) || symF(b)) kill(s, "symbolic floating-point comparison");
      long double x = getF(a, in.w2), y = getF(b, in.w2);
      bool un = std::isnan(x) || std::isnan(y), r = false;
      switch (in.sub) {
        case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_TRUE: r = true; break; default: r = false;
      }
      f.s[in.dst] = Val(r); f.pc++; break;
    }
    case I_FPCAST: {
      Val a = opv(f, in.ops[0]);
      if (symF(a)) kill(s, "symbolic floating-point conversion");
      switch (in.sub) {
        case Instruction::FPTrunc: case Instruction::FPExt: f.s[in.dst] = putF(getF(a, in.w2), in.w); break;
        case Instruction::FPToUI: f.s[in.dst] = Val((uint64_t)getF(a, in.w2) & (uint64_t)maskw(in.w)); break;
        case Instruction::FPToSI: f.s[in.dst] = Val((uint64_t)(int64_t)getF(a, in.w2) & (uint64_t)maskw(in.w)); break;
        case Instruction::UIToFP: f.s[in.dst] = putF((long double)a.c, in.w); break;
        case Instruction::SIToFP: f.s[in.dst] = putF((long double)(int64_t)sextw(a.c, in.w2), in.w); break;
      }
      f.pc++; break;
    }
    case I_ALLOCA: {
      Val n = opv(f, in.ops[0]);
      concretize(s, n, in.ops[0].w);
      uint64_t sz = in.size * n.c;
      Obj* o = s.mem.alloc(OK_STACK, sz ? sz : 1, false);
      o->tid = s.cur;
      f.allocas.push_back(o->id);
      f.s[in.dst] = Val(objBase(o->id));
      f.pc++; break;
    }
    case I_LOAD: {
      if ((in.sub & 2) && !schedPoint(s)) break;
      Val a = opv(f, in.ops[0]);
      if (in.sub && s.th.size() > 1) { bool rd = raceDetect; raceDetect = false; if (!a.e) eng_atomic_sync(s, a.c, in.sub); Val r; load(s, a, in.lw[0], r); f.s[in.dst] = r; raceDetect = rd; }
      else if (in.lw.size() == 1) { Val r; load(s, a, in.lw[0], r); f.s[in.dst] = r; }
      else {
        concretize(s, a, 64);
        for (size_t k = 0; k < in.lw.size(); k++) { Val r; load(s, Val(a.c + in.loff[k]), in.lw[k], r); f.s[in.dst + k] = r; }
      }
      f.pc++; break;
    }
    case I_STORE: {
      if ((in.sub & 2) && !schedPoint(s)) break;
      Val a = opv(f, in.ops[0]);
      if (in.sub && s.th.size() > 1) { bool rd = raceDetect; raceDetect = false; if (!a.e) eng_atomic_sync(s, a.c, in.sub); store(s, a, in.lw[0], opv(f, in.ops[1])); raceDetect = rd; }
      else if (in.lw.size() == 1) store(s, a, in.lw[0], opv(f, in.ops[1]));
      else {
        concretize(s, a, 64);
        for (size_t k = 0; k < in.lw.size(); k++) store(s, Val(a.c + in.loff[k]), in.lw[k], opv(f, in.ops[1 + k]));
      }
      f.pc++; break;
    }
    case I_GEP: {
      Val b = opv(f, in.ops[0]);
      if (in.gep.empty() && !b.e) { f.s[in.dst] = Val(b.c + in.imm); f.pc++; break; }
      bool sym = b.e != nullptr; uint64_t acc = b.c + in.imm;
      EP e = b.e ? mkBin(E_ADD, b.e, mkConst(in.imm, 64)) : nullptr;
      for (auto& g : in.gep) {
        Val i = opv(f, in.ops[g.first]);
        unsigned w = in.ops[g.first].w;
        if (!i.e) {
          uint64_t d = (uint64_t)((int64_t)sextw(i.c, w)) * g.second;
          if (sym) e = mkBin(E_ADD, e, mkConst(d, 64)); else acc += d;
        } else {
          EP x = w < 64 ? mkSext(i.e, 64) : i.e;
          x = mkBin(E_MUL, x, mkConst(g.second, 64));
          if (g.second && !(g.second & (g.second - 1))) { unsigned k = 0; while ((1ull << k) < g.second) k++; x = mkBin(E_SHL, w < 64 ? mkSext(i.e, 64) : i.e, mkConst(k, 64)); }
          if (!sym) { sym = true; e = mkConst(acc, 64); }
          e = mkBin(E_ADD, e, x);
        }
      }
      f.s[in.dst] = sym ? Val::of(e) : Val(acc);
      f.pc++; break;
    }
    case I_TRUNC: case I_ZEXT: case I_SEXT: {
      std::vector<uint16_t> dw; 
      for (unsigned k = 0; k < in.nd; k++) {
        Val a = opv(f, in.ops[k]);
        unsigned sw = in.ops[k].w, w = in.w;
        if (!w) kill(s, "vector cast");
        if (!a.e && w <= 64) {
          uint64_t v = a.c;
          if (in.op == I_SEXT) v = (uint64_t)sextw(v, sw);
          f.s[in.dst + k] = Val(v & (uint64_t)maskw(w));
        } else {
          EP e = toE(a, sw);
          f.s[in.dst + k] = Val::of(in.op == I_TRUNC ? mkExtract(e, 0, w) : in.op == I_ZEXT ? mkZext(e, w) : mkSext(e, w));
        }
      }
      f.pc++; break;
    }
    case I_COPY: {
      if (in.nd == 1) f.s[in.dst] = opv(f, in.ops[0]);
      else { std::vector<Val> t; for (unsigned k = 0; k < in.nd; k++) t.push_back(opv(f, in.ops[k])); for (unsigned k = 0; k < in.nd; k++) f.s[in.dst + k] = t[k]; }
      f.pc++; break;
    }
    case I_SELECT: {
      Val c = opv(f, in.ops[0]);
      EP ce = c.e ? simp(s, c.e) : nullptr;
      if (ce && ce->isConst()) { c = Val((uint64_t)ce->val); ce = nullptr; }
      for (unsigned k = 0; k < in.nd; k++) {
        Val a = opv(f, in.ops[1 + k]), b = opv(f, in.ops[1 + in.nd + k]);
        if (!ce) f.s[in.dst + k] = (c.c & 1) ? a : b;
        else f.s[in.dst + k] = Val::of(mkIte(ce, toE(a, in.lw[k]), toE(b, in.lw[k])));
      }
      f.pc++; break;
    }
    case I_CALL: case I_INVOKE: doCall(s, in); break;
    case I_LPAD: error(s, "engine", "fell into landingpad"); break;
    case I_RMW: {
      if ((in.imm & 2) && !schedPoint(s)) break;
      Val a = opv(f, in.ops[0]), b = opv(f, in.ops[1]), o;
      bool rd = raceDetect; raceDetect = false;
      if (!a.e) eng_atomic_sync(s, a.c, in.imm);
      load(s, a, in.w, o);
      EP x = toE(o, in.w), y = toE(b, in.w), r = nullptr;
      switch (in.sub) {
        case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkBin(E_ADD, x, y); break;
        case AtomicRMWInst::Sub: r = mkBin(E_SUB, x, y); break; case AtomicRMWInst::And: r = mkBin(E_AND, x, y); break;
        case AtomicRMWInst::Or: r = mkBin(E_OR, x, y); break; case AtomicRMWInst::Xor: r = mkBin(E_XOR, x, y); break;
        default: raceDetect = rd; kill(s, "atomicrmw op");
      }
      store(s, a, in.w, Val::of(r));
      raceDetect = rd;
      f.s[in.dst] = o; f.pc++; break;
    }
    case I_CMPXCHG: {
      if ((in.imm & 2) && !schedPoint(s)) break;
      Val a = opv(f, in.ops[0]), c = opv(f, in.ops[1]), nv = opv(f, in.ops[2]), o;
      bool rd = raceDetect; raceDetect = false;
      load(s, a, in.w, o);
      EP eq = mkEq(toE(o, in.w), toE(c, in.w));
      bool t = branch(s, eq);
      if (!a.e) eng_atomic_sync(s, a.c, t ? in.imm : in.imm & ~8);
      if (t) store(s, a, in.w, nv);
      raceDetect = rd;
      f.s[in.dst] = o; f.s[in.dst + 1] = Val(t); f.pc++; break;
    }
    default:
      kill(s, ("unsupported instruction: " + instStr(in.I)).c_str());
  }
}

void Exec::pathEnd(State& s) {
  if ((pathsDone < 200 || pathsDone % 64 == 0) && !s.cons.empty() && solver.canConfirm()) {
    g_ss.x_paths++;
    if (solver.confirm(s.cons) == R_UNSAT) kill(s, "internal: an executed path is infeasible");
  }
  pathsDone++;
  for (auto& c : s.covered) covers[c]++;
  if (samples.size() < sampleMax || (sampleMax && (pathsDone % 97) == 0)) {
    PathSample p;
    assignOf(s, s.model, p.assign);
    for (auto& l : s.log) {
      std::string v; char b[8];
      for (auto& x : l.v) { u128 q = x.e ? evalExpr(x.e, s.model) : x.c; if (l.w == 8) { snprintf(b, 8, "%02x", (unsigned)q); v += b; } else v += std::to_string((unsigned long long)q); }
      p.log.push_back({l.name, v});
    }
    p.sched = s.schedTrace;
    if (samples.size() < sampleMax) samples.push_back(p);
    else samples[(pathsDone / 97) % sampleMax] = p;
  }
}

void Exec::run() {
  State* s0 = new State;
  s0->th.resize(1);
  s0->model.stamp = newStamp();
  initGlobals(*s0);
  work.push_back(s0);
  bool first = true;
  uint64_t tick = 0;
  while (!work.empty()) {
    State* s = work.back(); work.pop_back();
    try {
      if (first) { first = false; threadDone(*s); }
      for (;;) {
        step(*s);
        s->instrs++; totalInstr++;
        if ((++tick & 0xfff) == 0) {
          if (elapsed() > maxTime) { incomplete["time limit"] += 1 + work.size(); throw 1; }
          if (s->instrs > maxInstrPath) kill(*s, "instruction limit on one path");
        }
      }
    } catch (PathStop&) {
    } catch (int) {
      delete s;
      for (State* x : work) delete x;
      work.clear();
      return;
    }
    delete s;
    if (viol.size() >= maxViol) { for (State* x : work) delete x; if (!work.empty()) incomplete["stopped after violation limit"] += work.size(); work.clear(); }
  }
}
