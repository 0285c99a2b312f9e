// LLVM pass: instruments every function of a module for concolic execution with bit-vector expressions.
//
// Every integer SSA value (<= 128 bits) gets a shadow: a 32-bit handle of a z3 term (0 = does not depend on an input).
// Shadows of memory live in the runtime (bvrt.cpp).  Branches, switches and memory indexes on values with a shadow are
// reported to the runtime, which records them as path conditions; unsupported operations pin their operands.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
using namespace llvm;
namespace {
struct Concolic {
    Module& M; LLVMContext& C; DataLayout const& DL;
    Type *I1, *I8, *I32, *I64, *Ptr, *Void;
    GlobalVariable *GArgs, *GArgFn, *GRet, *GRetFn, *GArgPtr;
    FunctionCallee Load, Store, Clear, Copy, Set, Bin, Cmp, Cast, Sel, Br, Sw, Pin, PinMem, Ovf, Intr, Free, After;
    explicit Concolic(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout())
    {
        I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); Ptr = PointerType::getUnqual(C); Void = Type::getVoidTy(C);
        auto g = [&](char const* n, Type* t) { auto* v = cast<GlobalVariable>(M.getOrInsertGlobal(n, t)); return v; };
        GArgs = g("__sym_args", ArrayType::get(I32, 128)); GArgFn = g("__sym_argfn", Ptr); GRet = g("__sym_ret", ArrayType::get(I32, 16)); GRetFn = g("__sym_retfn", Ptr);
        GArgPtr = g("__sym_argptr", ArrayType::get(Ptr, 32));
        Load = M.getOrInsertFunction("__sym_load", I32, Ptr, I64);
        Store = M.getOrInsertFunction("__sym_store", Void, Ptr, I64, I32);
        Clear = M.getOrInsertFunction("__sym_clear", Void, Ptr, I64);
        Copy = M.getOrInsertFunction("__sym_copy", Void, Ptr, Ptr, I64);
        Set = M.getOrInsertFunction("__sym_set", Void, Ptr, I32, I64);
        Bin = M.getOrInsertFunction("__sym_bin", I32, I32, I32, I32, I32, I64, I64, I64, I64);
        Cmp = M.getOrInsertFunction("__sym_cmp", I32, I32, I32, I32, I32, I64, I64, I64, I64);
        Cast = M.getOrInsertFunction("__sym_cast", I32, I32, I32, I32, I32);
        Sel = M.getOrInsertFunction("__sym_sel", I32, I32, I32, I32, I32, I64, I64, I64, I64);
        Br = M.getOrInsertFunction("__sym_br", Void, I32, I32);
        Sw = M.getOrInsertFunction("__sym_sw", Void, I32, I32, I64, I64);
        Pin = M.getOrInsertFunction("__sym_pin", Void, I32, I32, I64, I64);
        PinMem = M.getOrInsertFunction("__sym_pinmem", Void, Ptr, I64);
        Ovf = M.getOrInsertFunction("__sym_ovf", I32, I32, I32, I32, I32, I64, I64);
        Intr = M.getOrInsertFunction("__sym_intr", I32, I32, I32, I32, I32, I32, I64, I64, I64);
        Free = M.getOrInsertFunction("__sym_free", Void, Ptr);
        After = M.getOrInsertFunction("__sym_after", Void, Ptr, I32);
    }
    bool isInt(Type* t) { auto* i = dyn_cast<IntegerType>(t); return i && i->getBitWidth() <= 128; }
    Type* sty(Type* t)
    {
        if (auto* s = dyn_cast<StructType>(t)) { std::vector<Type*> e; for (auto* x : s->elements()) e.push_back(sty(x)); return StructType::get(C, e); }
        if (auto* a = dyn_cast<ArrayType>(t)) return ArrayType::get(sty(a->getElementType()), a->getNumElements());
        return I32;
    }
    unsigned leaves(Type* t)
    {
        if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* x : s->elements()) n += leaves(x); return n; }
        if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leaves(a->getElementType());
        return 1;
    }
    Function* F = nullptr;
    std::map<Value*, Value*> sh;
    std::vector<std::pair<PHINode*, PHINode*>> phis;
    Value* zero(Type* t) { return Constant::getNullValue(sty(t)); }
    Value* S(Value* v)
    {
        if (isa<Constant>(v) || v->getType()->isMetadataTy() || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return zero(v->getType());
        auto it = sh.find(v);
        if (it != sh.end()) return it->second;
        return zero(v->getType());
    }
    bool z(Value* s) { auto* c = dyn_cast<Constant>(s); return c && c->isNullValue(); }
    std::pair<Value*, Value*> lohi(IRBuilder<>& B, Value* v)
    {
        unsigned w = v->getType()->getIntegerBitWidth();
        if (w <= 64) return {B.CreateZExt(v, I64), ConstantInt::get(I64, 0)};
        Value* x = w < 128 ? B.CreateZExt(v, IntegerType::get(C, 128)) : v;
        return {B.CreateTrunc(x, I64), B.CreateTrunc(B.CreateLShr(x, 64), I64)};
    }
    Value* c32(unsigned x) { return ConstantInt::get(I32, x); }
    Value* c64(uint64_t x) { return ConstantInt::get(I64, x); }
    void pin(IRBuilder<>& B, Value* v)
    {
        if (!isInt(v->getType())) return;
        Value* s = S(v); if (z(s)) return;
        auto [l, h] = lohi(B, v);
        B.CreateCall(Pin, {s, c32(v->getType()->getIntegerBitWidth()), l, h});
    }
    // shadow of an aggregate or scalar in memory
    Value* loadSh(IRBuilder<>& B, Type* t, Value* p, uint64_t off)
    {
        auto at = [&](uint64_t o) { return o ? B.CreateConstGEP1_64(I8, p, o) : p; };
        if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL.getStructLayout(s); Value* r = zero(t); for (unsigned i = 0; i < s->getNumElements(); ++i) r = B.CreateInsertValue(r, loadSh(B, s->getElementType(i), p, off + L->getElementOffset(i)), i); return r; }
        if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(a->getElementType()); Value* r = zero(t); for (unsigned i = 0; i < a->getNumElements(); ++i) r = B.CreateInsertValue(r, loadSh(B, a->getElementType(), p, off + i * es), i); return r; }
        if (isInt(t)) {
            unsigned w = t->getIntegerBitWidth();
            Value* r = B.CreateCall(Load, {at(off), c64(DL.getTypeStoreSize(t))});
            if (w % 8) r = B.CreateCall(Cast, {c32(0), r, c32((w + 7) / 8 * 8), c32(w)});
            return r;
        }
        B.CreateCall(PinMem, {at(off), c64(DL.getTypeStoreSize(t))});
        return c32(0);
    }
    void storeSh(IRBuilder<>& B, Type* t, Value* p, uint64_t off, Value* s)
    {
        auto at = [&](uint64_t o) { return o ? B.CreateConstGEP1_64(I8, p, o) : p; };
        if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeSh(B, st->getElementType(i), p, off + L->getElementOffset(i), B.CreateExtractValue(s, i)); return; }
        if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); ++i) storeSh(B, a->getElementType(), p, off + i * es, B.CreateExtractValue(s, i)); return; }
        if (isInt(t)) { unsigned w = t->getIntegerBitWidth(); if (w % 8 && !z(s)) s = B.CreateCall(Cast, {c32(1), s, c32(w), c32((w + 7) / 8 * 8)}); }
        B.CreateCall(Store, {at(off), c64(DL.getTypeStoreSize(t)), s});
    }
    void flatten(IRBuilder<>& B, Type* t, Value* s, std::vector<Value*>& out)
    {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(B, st->getElementType(i), B.CreateExtractValue(s, i), out); return; }
        if (auto* a = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < a->getNumElements(); ++i) flatten(B, a->getElementType(), B.CreateExtractValue(s, i), out); return; }
        out.push_back(s);
    }
    Value* unflatten(IRBuilder<>& B, Type* t, std::vector<Value*> const& in, unsigned& k)
    {
        if (auto* st = dyn_cast<StructType>(t)) { Value* r = zero(t); for (unsigned i = 0; i < st->getNumElements(); ++i) r = B.CreateInsertValue(r, unflatten(B, st->getElementType(i), in, k), i); return r; }
        if (auto* a = dyn_cast<ArrayType>(t)) { Value* r = zero(t); for (unsigned i = 0; i < a->getNumElements(); ++i) r = B.CreateInsertValue(r, unflatten(B, a->getElementType(), in, k), i); return r; }
        return in[k++];
    }
    Value* argSlot(IRBuilder<>& B, unsigned i) { return B.CreateConstInBoundsGEP2_64(GArgs->getValueType(), GArgs, 0, i); }
    Value* retSlot(IRBuilder<>& B, unsigned i) { return B.CreateConstInBoundsGEP2_64(GRet->getValueType(), GRet, 0, i); }
    Value* ptrSlot(IRBuilder<>& B, unsigned i) { return B.CreateConstInBoundsGEP2_64(GArgPtr->getValueType(), GArgPtr, 0, i); }

    static unsigned binop(unsigned op)
    {
        switch (op) {
        case Instruction::Add: return 1; case Instruction::Sub: return 2; case Instruction::Mul: return 3; case Instruction::UDiv: return 4; case Instruction::SDiv: return 5;
        case Instruction::URem: return 6; case Instruction::SRem: return 7; case Instruction::Shl: return 8; case Instruction::LShr: return 9; case Instruction::AShr: return 10;
        case Instruction::And: return 11; case Instruction::Or: return 12; case Instruction::Xor: return 13; default: return 0; }
    }
    void call(CallBase* cb)
    {
        IRBuilder<> B(cb);
        Function* callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (auto* ii = dyn_cast<IntrinsicInst>(cb)) { intrinsic(ii); return; }
        if (cb->isInlineAsm()) { for (auto& a : cb->args()) pin(B, a); return; }
        StringRef n = callee ? callee->getName() : "";
        if (n.starts_with("__sym_") || n.starts_with("llvm.")) return;
        auto redirect = [&](char const* to) { FunctionCallee f = M.getOrInsertFunction(to, callee->getFunctionType()); cb->setCalledFunction(f); callee = cast<Function>(f.getCallee()); };
        if (callee && callee->isDeclaration()) {
            static std::map<std::string, char const*> const ren = {{"abs", "sv_abs"}, {"labs", "sv_labs"}, {"llabs", "sv_labs"}, {"memcmp", "sv_memcmp"}, {"bcmp", "sv_memcmp"}, {"strlen", "sv_strlen"}, {"strcmp", "sv_strcmp"}, {"memchr", "sv_memchr"}, {"strtol", "sv_strtol"}, {"__isoc23_strtol", "sv_strtol"}, {"strtoll", "sv_strtol"}, {"__isoc23_strtoll", "sv_strtol"}, {"isspace", "sv_isspace"}, {"isdigit", "sv_isdigit"}};
            auto it = ren.find(n.str());
            if (it != ren.end()) { redirect(it->second); n = callee->getName(); }
            if (n == "memcpy" || n == "memmove") { pin(B, cb->getArgOperand(2)); B.CreateCall(Copy, {cb->getArgOperand(0), cb->getArgOperand(1), cb->getArgOperand(2)}); return; }
            if (n == "memset") { pin(B, cb->getArgOperand(2)); B.CreateCall(Clear, {cb->getArgOperand(0), cb->getArgOperand(2)}); return; }
            if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) { B.CreateCall(Free, {cb->getArgOperand(0)}); return; }
            if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "realloc" || n == "calloc") { for (auto& a : cb->args()) pin(B, a); }
        }
        // arguments
        std::vector<Value*> flat; unsigned np = 0;
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
            Value* a = cb->getArgOperand(i);
            flatten(B, a->getType(), S(a), flat);
            if (cb->isByValArgument(i) && np < 32) B.CreateStore(a, ptrSlot(B, np++));
        }
        bool any = np > 0;
        for (auto* f : flat) any = any || !z(f);
        if (any && flat.size() <= 128) {
            for (unsigned i = 0; i < flat.size(); ++i) B.CreateStore(flat[i], argSlot(B, i));
            B.CreateStore(cb->getCalledOperand(), GArgFn);
        } else B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)), GArgFn);
        unsigned nl = cb->getType()->isVoidTy() ? 0 : leaves(cb->getType());
        bool want = nl > 0 && nl <= 16 && wantsShadow(cb->getType());
        if (want) B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)), GRetFn);
        bool passed = any && flat.size() <= 128;
        if (!want && !passed) return;
        Instruction* at = nullptr;
        if (auto* inv = dyn_cast<InvokeInst>(cb)) {
            BasicBlock* nb = SplitEdge(inv->getParent(), inv->getNormalDest());
            at = &*nb->getFirstInsertionPt();
        } else at = cb->getNextNode();
        IRBuilder<> A(at);
        if (passed && !cb->doesNotReturn()) A.CreateCall(After, {cb->getCalledOperand(), c32(flat.size())});
        if (!want) return;
        Value* fn = A.CreateLoad(Ptr, GRetFn);
        Value* m = A.CreateICmpEQ(fn, cb->getCalledOperand());
        std::vector<Value*> in;
        for (unsigned i = 0; i < nl; ++i) in.push_back(A.CreateSelect(m, A.CreateLoad(I32, retSlot(A, i)), c32(0)));
        unsigned k = 0;
        sh[cb] = unflatten(A, cb->getType(), in, k);
    }
    bool wantsShadow(Type* t)
    {
        if (isInt(t)) return true;
        if (auto* s = dyn_cast<StructType>(t)) { for (auto* x : s->elements()) if (wantsShadow(x)) return true; return false; }
        if (auto* a = dyn_cast<ArrayType>(t)) return wantsShadow(a->getElementType());
        return false;
    }
    void intrinsic(IntrinsicInst* ii)
    {
        IRBuilder<> B(ii);
        auto after = [&]() { return IRBuilder<>(ii->getNextNode()); };
        switch (ii->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            pin(B, ii->getArgOperand(2)); B.CreateCall(Copy, {ii->getArgOperand(0), ii->getArgOperand(1), B.CreateZExtOrTrunc(ii->getArgOperand(2), I64)}); return; }
        case Intrinsic::memset: case Intrinsic::memset_inline: { pin(B, ii->getArgOperand(2)); Value* s = S(ii->getArgOperand(1)); B.CreateCall(Set, {ii->getArgOperand(0), s, B.CreateZExtOrTrunc(ii->getArgOperand(2), I64)}); return; }
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
            unsigned k = 0, o = 0;
            switch (ii->getIntrinsicID()) { case Intrinsic::sadd_with_overflow: k = 0; o = 1; break; case Intrinsic::uadd_with_overflow: k = 1; o = 1; break; case Intrinsic::ssub_with_overflow: k = 2; o = 2; break; case Intrinsic::usub_with_overflow: k = 3; o = 2; break; case Intrinsic::smul_with_overflow: k = 4; o = 3; break; default: k = 5; o = 3; }
            Value *a = ii->getArgOperand(0), *b = ii->getArgOperand(1); unsigned w = a->getType()->getIntegerBitWidth();
            if (!isInt(a->getType()) || (z(S(a)) && z(S(b)))) return;
            if (w > 64) { pin(B, a); pin(B, b); return; }
            auto [al, ah] = lohi(B, a); auto [bl, bh] = lohi(B, b);
            Value* v = B.CreateCall(Bin, {c32(o), c32(w), S(a), S(b), al, ah, bl, bh});
            Value* f = B.CreateCall(Ovf, {c32(k), c32(w), S(a), S(b), al, bl});
            Value* r = zero(ii->getType()); r = B.CreateInsertValue(r, v, 0); r = B.CreateInsertValue(r, f, 1);
            sh[ii] = r; return; }
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::abs: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap:
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat: {
            if (!isInt(ii->getType())) return;
            unsigned k = 0;
            switch (ii->getIntrinsicID()) { case Intrinsic::smax: k = 1; break; case Intrinsic::smin: k = 2; break; case Intrinsic::umax: k = 3; break; case Intrinsic::umin: k = 4; break; case Intrinsic::abs: k = 5; break; case Intrinsic::fshl: k = 6; break; case Intrinsic::fshr: k = 7; break; case Intrinsic::usub_sat: k = 8; break; case Intrinsic::uadd_sat: k = 9; break; case Intrinsic::bswap: k = 10; break; case Intrinsic::ctpop: k = 11; break; case Intrinsic::cttz: k = 12; break; default: k = 13; }
            unsigned w = ii->getType()->getIntegerBitWidth();
            Value* a[3]; Value* s[3]; bool any = false;
            unsigned na = (k == 6 || k == 7) ? 3 : (k == 5 || k >= 10) ? 1 : 2;
            for (unsigned i = 0; i < 3; ++i) { if (i < na) { s[i] = S(ii->getArgOperand(i)); any = any || !z(s[i]); a[i] = lohi(B, ii->getArgOperand(i)).first; } else { s[i] = c32(0); a[i] = c64(0); } }
            if (!any) return;
            if (w > 64 && k >= 1 && k <= 4) {
                Value *x = ii->getArgOperand(0), *y = ii->getArgOperand(1); auto [al, ah] = lohi(B, x); auto [bl, bh] = lohi(B, y);
                CmpInst::Predicate pr = k == 1 ? CmpInst::ICMP_SGT : k == 2 ? CmpInst::ICMP_SLT : k == 3 ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
                B.CreateCall(Cmp, {c32((unsigned)pr), c32(w), s[0], s[1], al, ah, bl, bh});
                // a constant operand has the shadow 0: its value is then the machine value itself
                sh[ii] = B.CreateSelect(B.CreateICmp(pr, x, y), s[0], s[1]); return;
            }
            if (w > 64 && k != 5) { for (unsigned i = 0; i < na; ++i) pin(B, ii->getArgOperand(i)); return; }
            sh[ii] = B.CreateCall(Intr, {c32(k), c32(w), s[0], s[1], s[2], a[0], a[1], a[2]});
            return; }
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: sh[ii] = S(ii->getArgOperand(0)); return;
        case Intrinsic::lifetime_start: { auto* sz = cast<ConstantInt>(ii->getArgOperand(0)); IRBuilder<> A = after(); if (!sz->isMinusOne()) A.CreateCall(Clear, {ii->getArgOperand(1), c64(sz->getZExtValue())}); return; }
        case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::is_constant: case Intrinsic::objectsize: return;
        default: if (ii->getNumOperands()) for (auto& a : ii->args()) if (!a->getType()->isMetadataTy() && !isa<Constant>(a)) pin(B, a); return;
        }
    }
    void run(Function& f)
    {
        F = &f; sh.clear(); phis.clear();
        // collect first: instrumentation adds instructions
        std::vector<Instruction*> ins;
        for (auto& bb : f) for (auto& i : bb) ins.push_back(&i);
        // entry: shadows of the arguments
        {
            Instruction* at = &*f.getEntryBlock().getFirstInsertionPt();
            while (isa<AllocaInst>(at)) at = at->getNextNode();
            IRBuilder<> B(at);
            bool want = false, byval = false;
            for (auto& a : f.args()) { want = want || wantsShadow(a.getType()); byval = byval || a.hasByValAttr(); }
            if (want || byval) {
                Value* m = B.CreateICmpEQ(B.CreateLoad(Ptr, GArgFn), &f);
                unsigned k = 0, np = 0;
                for (auto& a : f.args()) {
                    unsigned n = leaves(a.getType());
                    if (wantsShadow(a.getType()) && k + n <= 128) {
                        std::vector<Value*> in;
                        for (unsigned i = 0; i < n; ++i) in.push_back(B.CreateSelect(m, B.CreateLoad(I32, argSlot(B, k + i)), c32(0)));
                        unsigned q = 0; sh[&a] = unflatten(B, a.getType(), in, q);
                    }
                    k += n;
                    if (a.hasByValAttr() && np < 32) {
                        Value* src = B.CreateSelect(m, B.CreateLoad(Ptr, ptrSlot(B, np)), &a);
                        B.CreateCall(Clear, {B.CreateSelect(m, ConstantPointerNull::get(cast<PointerType>(Ptr)), &a), c64(DL.getTypeAllocSize(a.getParamByValType()))});
                        B.CreateCall(Copy, {&a, src, c64(DL.getTypeAllocSize(a.getParamByValType()))}); ++np;
                    }
                }
                B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)), GArgFn);
            }
        }
        // reverse post order keeps definitions before uses (except through phis)
        ReversePostOrder(f, ins);
        for (auto* i : ins) visit(i);
        for (auto& [p, q] : phis) for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) q->addIncoming(S(p->getIncomingValue(i)), p->getIncomingBlock(i));
    }
    void ReversePostOrder(Function& f, std::vector<Instruction*>& ins)
    {
        std::vector<BasicBlock*> post; std::set<BasicBlock*> seen;
        std::vector<std::pair<BasicBlock*, unsigned>> st; st.push_back({&f.getEntryBlock(), 0}); seen.insert(&f.getEntryBlock());
        while (!st.empty()) {
            auto& [b, k] = st.back(); auto* t = b->getTerminator();
            if (k < t->getNumSuccessors()) { BasicBlock* s = t->getSuccessor(k++); if (seen.insert(s).second) st.push_back({s, 0}); }
            else { post.push_back(b); st.pop_back(); }
        }
        std::set<Instruction*> orig(ins.begin(), ins.end());
        ins.clear();
        for (auto it = post.rbegin(); it != post.rend(); ++it) for (auto& i : **it) if (orig.count(&i)) ins.push_back(&i);
    }
    // only the sign of the value matters: sign tests of bitwise combinations decide the sign of each operand
    static bool signTest(User* u, Value* v)
    {
        auto* c = dyn_cast<ICmpInst>(u); if (!c || c->getOperand(0) != v) return false;
        auto* k = dyn_cast<ConstantInt>(c->getOperand(1)); if (!k) return false;
        return (c->getPredicate() == ICmpInst::ICMP_SLT && k->isZero()) || (c->getPredicate() == ICmpInst::ICMP_SGT && k->isMinusOne());
    }
    static bool signOnly(Value* v)
    {
        auto* b = dyn_cast<BinaryOperator>(v); if (!b || b->use_empty()) return false;
        if (b->getOpcode() != Instruction::Xor && b->getOpcode() != Instruction::And && b->getOpcode() != Instruction::Or) return false;
        for (User* u : b->users()) if (!signTest(u, b) && !signOnly(u)) return false;
        return true;
    }
    void visit(Instruction* i)
    {
        if (auto* p = dyn_cast<PHINode>(i)) {
            if (!wantsShadow(p->getType())) return;
            IRBuilder<> B(p);
            auto* q = B.CreatePHI(sty(p->getType()), p->getNumIncomingValues()); phis.push_back({p, q}); sh[p] = q; return;
        }
        if (auto* cb = dyn_cast<CallBase>(i)) { call(cb); return; }
        IRBuilder<> B(i);
        if (auto* b = dyn_cast<BinaryOperator>(i)) {
            unsigned op = binop(b->getOpcode());
            if (!op || !isInt(b->getType())) return;
            Value *x = b->getOperand(0), *y = b->getOperand(1);
            if (z(S(x)) && z(S(y))) return;
            auto [al, ah] = lohi(B, x); auto [bl, bh] = lohi(B, y);
            if (b->getType()->getIntegerBitWidth() > 1 && signOnly(b)) {
                Constant* zero = ConstantInt::get(x->getType(), 0); auto [zl, zh] = lohi(B, zero); unsigned w = b->getType()->getIntegerBitWidth();
                if (!z(S(x)) && !signOnly(x)) B.CreateCall(Cmp, {c32(40), c32(w), S(x), c32(0), al, ah, zl, zh});
                if (!z(S(y)) && !signOnly(y)) B.CreateCall(Cmp, {c32(40), c32(w), S(y), c32(0), bl, bh, zl, zh});
                return;
            }
            sh[i] = B.CreateCall(Bin, {c32(op), c32(b->getType()->getIntegerBitWidth()), S(x), S(y), al, ah, bl, bh});
            return;
        }
        if (auto* c = dyn_cast<ICmpInst>(i)) {
            Value *x = c->getOperand(0), *y = c->getOperand(1);
            if (!isInt(x->getType()) || (z(S(x)) && z(S(y)))) return;
            auto [al, ah] = lohi(B, x); auto [bl, bh] = lohi(B, y);
            sh[i] = B.CreateCall(Cmp, {c32((unsigned)c->getPredicate()), c32(x->getType()->getIntegerBitWidth()), S(x), S(y), al, ah, bl, bh});
            return;
        }
        if (auto* c = dyn_cast<CastInst>(i)) {
            Value* x = c->getOperand(0);
            if (!isInt(x->getType()) || z(S(x))) return;
            unsigned k = c->getOpcode() == Instruction::Trunc ? 0 : c->getOpcode() == Instruction::ZExt ? 1 : c->getOpcode() == Instruction::SExt ? 2 : 9;
            if (k == 9 || !isInt(c->getType())) { pin(B, x); return; }
            sh[i] = B.CreateCall(Cast, {c32(k), S(x), c32(x->getType()->getIntegerBitWidth()), c32(c->getType()->getIntegerBitWidth())});
            return;
        }
        if (auto* s = dyn_cast<SelectInst>(i)) {
            Value* c = s->getCondition();
            if (!c->getType()->isIntegerTy(1)) return;
            Value *t = s->getTrueValue(), *e = s->getFalseValue();
            if (isInt(s->getType())) {
                if (z(S(c)) ) { if (z(S(t)) && z(S(e))) return; sh[i] = B.CreateSelect(c, S(t), S(e)); return; }
                auto [al, ah] = lohi(B, t); auto [bl, bh] = lohi(B, e);
                Value* r = B.CreateCall(Sel, {c32(s->getType()->getIntegerBitWidth()), S(c), S(t), S(e), al, ah, bl, bh});
                // a concrete condition keeps the shadow of the chosen side
                sh[i] = B.CreateSelect(B.CreateICmpEQ(S(c), c32(0)), B.CreateSelect(c, S(t), S(e)), r);
                return;
            }
            if (!z(S(c))) B.CreateCall(Br, {S(c), B.CreateZExt(c, I32)});
            if (wantsShadow(s->getType())) sh[i] = B.CreateSelect(c, S(t), S(e));
            return;
        }
        if (auto* l = dyn_cast<LoadInst>(i)) {
            IRBuilder<> A(i->getNextNode());
            Value* r = loadSh(A, l->getType(), l->getPointerOperand(), 0);
            if (wantsShadow(l->getType())) sh[i] = r;
            return;
        }
        if (auto* s = dyn_cast<StoreInst>(i)) { storeSh(B, s->getValueOperand()->getType(), s->getPointerOperand(), 0, S(s->getValueOperand())); return; }
        if (auto* g = dyn_cast<GetElementPtrInst>(i)) { for (auto& x : g->indices()) pin(B, x); return; }
        if (auto* a = dyn_cast<AllocaInst>(i)) {
            Instruction* at = i->getNextNode(); while (isa<AllocaInst>(at)) at = at->getNextNode();
            IRBuilder<> A(at);
            if (auto* n = dyn_cast<ConstantInt>(a->getArraySize())) A.CreateCall(Clear, {a, c64(DL.getTypeAllocSize(a->getAllocatedType()) * n->getZExtValue())});
            return;
        }
        if (auto* e = dyn_cast<ExtractValueInst>(i)) { if (wantsShadow(e->getAggregateOperand()->getType())) { Value* s = S(e->getAggregateOperand()); if (!z(s)) sh[i] = B.CreateExtractValue(s, e->getIndices()); } return; }
        if (auto* e = dyn_cast<InsertValueInst>(i)) { sh[i] = B.CreateInsertValue(S(e->getAggregateOperand()), S(e->getInsertedValueOperand()), e->getIndices()); return; }
        if (auto* f = dyn_cast<FreezeInst>(i)) { sh[i] = S(f->getOperand(0)); return; }
        if (auto* b = dyn_cast<BranchInst>(i)) { if (b->isConditional() && !z(S(b->getCondition()))) B.CreateCall(Br, {S(b->getCondition()), B.CreateZExt(b->getCondition(), I32)}); return; }
        if (auto* s = dyn_cast<SwitchInst>(i)) {
            Value* c = s->getCondition();
            if (!isInt(c->getType()) || z(S(c))) return;
            Value* v = lohi(B, c).first;
            // stop at the first matching case
            for (auto& k : s->cases()) B.CreateCall(Sw, {S(c), c32(c->getType()->getIntegerBitWidth()), v, c64(k.getCaseValue()->getZExtValue())});
            return;
        }
        if (auto* r = dyn_cast<ReturnInst>(i)) {
            Value* v = r->getReturnValue();
            if (!v || !wantsShadow(v->getType()) || leaves(v->getType()) > 16) return;
            std::vector<Value*> flat; flatten(B, v->getType(), S(v), flat);
            for (unsigned k = 0; k < flat.size(); ++k) B.CreateStore(flat[k], retSlot(B, k));
            B.CreateStore(F, GRetFn);
            return;
        }
        if (auto* x = dyn_cast<AtomicRMWInst>(i)) { pin(B, x->getValOperand()); B.CreateCall(Clear, {x->getPointerOperand(), c64(DL.getTypeStoreSize(x->getType()))}); return; }
        if (auto* x = dyn_cast<AtomicCmpXchgInst>(i)) { pin(B, x->getCompareOperand()); pin(B, x->getNewValOperand()); B.CreateCall(Clear, {x->getPointerOperand(), c64(16)}); return; }
        // anything else: operands become concrete
        for (auto& o : i->operands()) if (!isa<Constant>(o) && !isa<BasicBlock>(o)) pin(B, o);
    }
};
struct P : PassInfoMixin<P> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
    {
        Concolic c(M);
        std::vector<Function*> fs;
        for (auto& f : M) if (!f.isDeclaration() && !f.getName().starts_with("__sym_") && !f.hasFnAttribute(Attribute::Naked) && !f.hasAvailableExternallyLinkage()) fs.push_back(&f);
        for (auto* f : fs) c.run(*f);
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "Concolic", "1", [](PassBuilder& PB) { PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(P()); }); }};
}
