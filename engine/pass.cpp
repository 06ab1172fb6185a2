// LLVM 18 pass plugin: instruments every function of a translation unit so that,
// next to its native execution, a symbolic expression ("shadow") is computed for
// every SSA value and every byte of memory.  The runtime (rt.cpp) turns branches
// on symbolic values into solver queries.
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
using namespace llvm;

namespace {
bool skipped(const Function& F);
struct Instr {
    Module& M;
    LLVMContext& C;
    const DataLayout& DL;
    PointerType* P;
    Type *I1, *I8, *I32, *I64, *V;
    Constant* Null;
    GlobalVariable *GTag, *GPE, *GPC, *GRet;
    FunctionCallee fBin, fICmp, fFBin, fFCmp, fFNeg, fCast, fSelect, fLoad, fStore, fGepBase, fGepIdx, fBranch,
        fSwitch, fCall, fRet, fAlloca, fMemcpy, fMemset, fInsert, fExtract, fOvf, fUn, fExt, fConc, fUnsup, fAtomic, fByval;
    std::map<Value*, Value*> S;
    std::vector<std::pair<PHINode*, PHINode*>> phis;
    Function* F = nullptr;

    explicit Instr(Module& m)
        : M(m), C(m.getContext()), DL(m.getDataLayout()), P(PointerType::get(C, 0)), I1(Type::getInt1Ty(C)),
          I8(Type::getInt8Ty(C)), I32(Type::getInt32Ty(C)), I64(Type::getInt64Ty(C)), V(Type::getVoidTy(C)),
          Null(ConstantPointerNull::get(P))
    {
        auto g = [&](const char* n, Type* t) {
            return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
        };
        GTag = g("vp_ptag", P);
        GPE = g("vp_pe", ArrayType::get(P, 64));
        GPC = g("vp_pc", ArrayType::get(I64, 64));
        GRet = g("vp_ret", P);
        auto fn = [&](const char* n, Type* r, std::vector<Type*> a) {
            return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
        };
        fBin = fn("vp_rt_bin", P, {I32, I32, I64, P, I64, P});
        fICmp = fn("vp_rt_icmp", P, {I32, I32, I64, P, I64, P});
        fFBin = fn("vp_rt_fbin", P, {I32, I32, I64, P, I64, P});
        fFCmp = fn("vp_rt_fcmp", P, {I32, I32, I64, P, I64, P});
        fFNeg = fn("vp_rt_fneg", P, {I32, P});
        fCast = fn("vp_rt_cast", P, {I32, I32, I32, P});
        fSelect = fn("vp_rt_select", P, {P, I1, I64, P, I64, P, I32, I32});
        fLoad = fn("vp_rt_load", P, {P, P, I32, I32, I32});
        fStore = fn("vp_rt_store", V, {P, P, I64, P, I32, I32});
        fGepBase = fn("vp_rt_gepbase", P, {P, P, P});
        fGepIdx = fn("vp_rt_gepidx", P, {P, P, I64, P, I32, I64});
        fBranch = fn("vp_rt_branch", V, {P, I1});
        fSwitch = fn("vp_rt_switch", V, {P, I64, I32, I32, P});
        fCall = fn("vp_rt_call", V, {P, I32, P});
        fRet = fn("vp_rt_ret", P, {P, P});
        fAlloca = fn("vp_rt_alloca", V, {P, I64});
        fMemcpy = fn("vp_rt_memcpy", V, {P, P, P, P, I64, P});
        fMemset = fn("vp_rt_memset", V, {P, P, I64, P, I64, P});
        fInsert = fn("vp_rt_insert", P, {P, P, I32, I32});
        fExtract = fn("vp_rt_extract", P, {P, I32});
        fOvf = fn("vp_rt_ovf", P, {I32, I32, I64, P, I64, P});
        fUn = fn("vp_rt_un", P, {I32, I32, I64, P, I64});
        fExt = fn("vp_rt_ext", P, {P, I64, I64, I64, I64, I64});
        fConc = fn("vp_rt_conc", V, {P, I64, P});
        fUnsup = fn("vp_rt_unsup", V, {P, P});
        fAtomic = fn("vp_rt_atomic", V, {P, I32, I32});
        fByval = fn("vp_rt_byval", V, {I32, P, I64, P});
    }
    Value* sh(Value* v)
    {
        auto it = S.find(v);
        return it == S.end() ? (Value*)Null : it->second;
    }
    static bool isNull(Value* v) { return isa<ConstantPointerNull>(v); }
    Constant* c32(uint64_t v) { return ConstantInt::get(I32, v); }
    Constant* c64(uint64_t v) { return ConstantInt::get(I64, v); }
    std::map<std::string, Constant*> strs;
    Constant* str(StringRef s)
    {
        auto& c = strs[s.str()];
        if (!c) {
            auto* d = ConstantDataArray::getString(C, s);
            auto* g = new GlobalVariable(M, d->getType(), true, GlobalValue::PrivateLinkage, d, "vps");
            c = g;
        }
        return c;
    }
    // bit width if v's type is a supported scalar, else 0
    unsigned bitsOf(Type* t)
    {
        if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64 ? t->getIntegerBitWidth() : 0;
        if (t->isPointerTy()) return 64;
        if (t->isDoubleTy()) return 64;
        if (t->isFloatTy()) return 32;
        return 0;
    }
    static int kindOf(Type* t) { return t->isFloatingPointTy() ? 1 : 0; }
    Value* raw(IRBuilder<>& B, Value* v)
    {
        Type* t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return B.CreateZExtOrTrunc(v, I64);
        return c64(0);
    }
    void unsup(IRBuilder<>& B, Instruction* I, const char* what)
    {
        for (Value* op : I->operands()) {
            Value* s = sh(op);
            if (!isNull(s)) B.CreateCall(fUnsup, {s, str(std::string(what) + " in " + F->getName().str())});
        }
    }
    int flatIndex(Type* agg, ArrayRef<unsigned> idx)
    {
        // index of the first leaf of the designated sub-aggregate
        int r = 0;
        Type* t = agg;
        for (unsigned i : idx) {
            if (auto* st = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; k++) r += leaves(st->getElementType(k));
                t = st->getElementType(i);
            }
            else if (auto* at = dyn_cast<ArrayType>(t)) {
                r += i * leaves(at->getElementType());
                t = at->getElementType();
            }
        }
        return r;
    }
    int leaves(Type* t)
    {
        if (auto* st = dyn_cast<StructType>(t)) {
            int n = 0;
            for (auto* e : st->elements()) n += leaves(e);
            return n;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * leaves(at->getElementType());
        return 1;
    }

    void run(Function& Fn)
    {
        F = &Fn;
        S.clear();
        phis.clear();
        // split critical invoke edges so that a return shadow can be read
        std::vector<InvokeInst*> inv;
        for (auto& BB : Fn)
            if (auto* II = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(II);
        for (auto* II : inv)
            if (!II->getNormalDest()->getSinglePredecessor()) SplitEdge(II->getParent(), II->getNormalDest());

        std::vector<Instruction*> work;
        // Visit in an order in which definitions precede uses (RPO), phis resolved at the end.
        ReversePostOrder(Fn, work);
        // entry
        {
            IRBuilder<> B(&*Fn.getEntryBlock().getFirstInsertionPt());
            bool need = false;
            for (auto& A : Fn.args())
                if (bitsOf(A.getType()) || A.getType()->isAggregateType()) need = true;
            if (need) {
                Value* tag = B.CreateLoad(P, GTag);
                Value* m = B.CreateICmpEQ(tag, Fn.hasLocalLinkage() || true ? (Value*)&Fn : nullptr);
                unsigned i = 0;
                for (auto& A : Fn.args()) {
                    if (i < 64) {
                        if (A.hasByValAttr()) {
                            B.CreateCall(fByval, {c32(i), &A, c64(DL.getTypeAllocSize(A.getParamByValType())), &Fn});
                        }
                        else {
                            Value* e = B.CreateLoad(P, B.CreateConstGEP2_32(ArrayType::get(P, 64), GPE, 0, i));
                            S[&A] = B.CreateSelect(m, e, Null);
                        }
                    }
                    i++;
                }
            }
        }
        for (auto* I : work) visit(I);
        for (auto& pr : phis)
            for (unsigned i = 0; i < pr.first->getNumIncomingValues(); i++)
                pr.second->addIncoming(sh(pr.first->getIncomingValue(i)), pr.first->getIncomingBlock(i));
    }
    static void ReversePostOrder(Function& Fn, std::vector<Instruction*>& out)
    {
        std::vector<BasicBlock*> post;
        std::map<BasicBlock*, int> st;
        std::vector<std::pair<BasicBlock*, unsigned>> stk;
        stk.push_back({&Fn.getEntryBlock(), 0});
        st[&Fn.getEntryBlock()] = 1;
        while (!stk.empty()) {
            auto& [b, i] = stk.back();
            auto* T = b->getTerminator();
            if (i < T->getNumSuccessors()) {
                auto* s = T->getSuccessor(i++);
                if (!st[s]) {
                    st[s] = 1;
                    stk.push_back({s, 0});
                }
            }
            else {
                post.push_back(b);
                stk.pop_back();
            }
        }
        for (auto it = post.rbegin(); it != post.rend(); ++it)
            for (auto& I : **it) out.push_back(&I);
    }
    IRBuilder<> after(Instruction* I)
    {
        if (auto* II = dyn_cast<InvokeInst>(I)) return IRBuilder<>(&*II->getNormalDest()->getFirstInsertionPt());
        return IRBuilder<>(I->getNextNode());
    }
    void visit(Instruction* I)
    {
        if (auto* PN = dyn_cast<PHINode>(I)) {
            if (bitsOf(PN->getType()) || PN->getType()->isAggregateType()) {
                auto* SP = PHINode::Create(P, PN->getNumIncomingValues(), "", PN);
                S[PN] = SP;
                phis.push_back({PN, SP});
            }
            return;
        }
        if (isa<LandingPadInst>(I)) return;
        if (auto* CB = dyn_cast<CallBase>(I)) return call(CB);
        if (auto* A = dyn_cast<AllocaInst>(I)) {
            IRBuilder<> B(I->getNextNode());
            Value* sz = c64(DL.getTypeAllocSize(A->getAllocatedType()));
            if (A->isArrayAllocation()) sz = B.CreateMul(sz, B.CreateZExtOrTrunc(A->getArraySize(), I64));
            B.CreateCall(fAlloca, {A, sz});
            return;
        }
        IRBuilder<> B(I);
        if (auto* L = dyn_cast<LoadInst>(I)) {
            unsigned b = bitsOf(L->getType());
            Value* sa = sh(L->getPointerOperand());
            if (L->isAtomic()) B.CreateCall(fAtomic, {L->getPointerOperand(), c32(DL.getTypeStoreSize(L->getType())), c32(0 | (unsigned)L->getOrdering() << 4)});
            if (!b) {
                unsigned sz = DL.getTypeStoreSize(L->getType());
                B.CreateCall(fLoad, {L->getPointerOperand(), sa, c32(sz), c32(0), c32(2)});
                return;
            }
            S[I] = B.CreateCall(fLoad, {L->getPointerOperand(), sa, c32(DL.getTypeStoreSize(L->getType())), c32(b),
                                        c32(L->getType()->isPointerTy() ? 3 : kindOf(L->getType()))});
            return;
        }
        if (auto* St = dyn_cast<StoreInst>(I)) {
            Value* v = St->getValueOperand();
            unsigned b = bitsOf(v->getType());
            if (St->isAtomic()) B.CreateCall(fAtomic, {St->getPointerOperand(), c32(DL.getTypeStoreSize(v->getType())), c32(1 | (unsigned)St->getOrdering() << 4)});
            if (!b) unsup(B, I, "store of unsupported type");
            B.CreateCall(fStore, {St->getPointerOperand(), sh(St->getPointerOperand()), raw(B, v), b ? sh(v) : Null,
                                  c32(DL.getTypeStoreSize(v->getType())), c32(b)});
            return;
        }
        if (auto* G = dyn_cast<GetElementPtrInst>(I)) {
            if (!G->getType()->isPointerTy()) return unsup(B, I, "vector gep");
            Value* sb = sh(G->getPointerOperand());
            struct Ix { Value* v; uint64_t scale; };
            std::vector<Ix> ix;
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                if (it.isStruct()) continue;
                Value* v = it.getOperand();
                if (isNull(sh(v))) continue;
                ix.push_back({v, (uint64_t)DL.getTypeAllocSize(it.getIndexedType())});
            }
            if (isNull(sb) && ix.empty()) return;
            IRBuilder<> A(I->getNextNode());
            Value* s = isNull(sb) ? (Value*)Null : A.CreateCall(fGepBase, {G, G->getPointerOperand(), sb});
            for (auto& x : ix)
                s = A.CreateCall(fGepIdx, {s, G, A.CreateSExtOrTrunc(x.v, I64), sh(x.v),
                                           c32(x.v->getType()->getIntegerBitWidth()), c64(x.scale)});
            S[I] = s;
            return;
        }
        if (auto* BO = dyn_cast<BinaryOperator>(I)) {
            Value *a = BO->getOperand(0), *b = BO->getOperand(1);
            if (isNull(sh(a)) && isNull(sh(b))) return;
            unsigned w = bitsOf(I->getType());
            if (!w) return unsup(B, I, "binop type");
            S[I] = B.CreateCall(I->getType()->isFloatingPointTy() ? fFBin : fBin,
                                {c32(BO->getOpcode()), c32(w), raw(B, a), sh(a), raw(B, b), sh(b)});
            return;
        }
        if (auto* U = dyn_cast<UnaryOperator>(I)) {
            if (isNull(sh(U->getOperand(0)))) return;
            S[I] = B.CreateCall(fFNeg, {c32(bitsOf(I->getType())), sh(U->getOperand(0))});
            return;
        }
        if (auto* CI = dyn_cast<CmpInst>(I)) {
            Value *a = CI->getOperand(0), *b = CI->getOperand(1);
            if (isNull(sh(a)) && isNull(sh(b))) return;
            unsigned w = bitsOf(a->getType());
            if (!w) return unsup(B, I, "cmp type");
            S[I] = B.CreateCall(isa<ICmpInst>(I) ? fICmp : fFCmp,
                                {c32(CI->getPredicate()), c32(w), raw(B, a), sh(a), raw(B, b), sh(b)});
            return;
        }
        if (auto* CI = dyn_cast<CastInst>(I)) {
            Value* a = CI->getOperand(0);
            if (isNull(sh(a))) return;
            unsigned f = bitsOf(a->getType()), t = bitsOf(I->getType());
            if (!f || !t) return unsup(B, I, "cast type");
            unsigned op = CI->getOpcode();
            if (op == Instruction::BitCast) op = a->getType()->isFloatingPointTy() == I->getType()->isFloatingPointTy() ? 100 : 101;
            S[I] = B.CreateCall(fCast, {c32(op), c32(f), c32(t), sh(a)});
            return;
        }
        if (auto* SI = dyn_cast<SelectInst>(I)) {
            Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
            if (isNull(sh(c)) && isNull(sh(a)) && isNull(sh(b))) return;
            if (!c->getType()->isIntegerTy(1)) return unsup(B, I, "vector select");
            unsigned w = bitsOf(I->getType());
            int kind = I->getType()->isPointerTy() ? 2 : (w ? kindOf(I->getType()) : 3);
            S[I] = B.CreateCall(fSelect, {sh(c), c, raw(B, a), sh(a), raw(B, b), sh(b), c32(w), c32(kind)});
            return;
        }
        if (auto* FI = dyn_cast<FreezeInst>(I)) {
            S[I] = sh(FI->getOperand(0));
            return;
        }
        if (auto* EV = dyn_cast<ExtractValueInst>(I)) {
            Value* s = sh(EV->getAggregateOperand());
            if (isNull(s) || !bitsOf(I->getType())) return;
            S[I] = B.CreateCall(fExtract, {s, c32(flatIndex(EV->getAggregateOperand()->getType(), EV->getIndices()))});
            return;
        }
        if (auto* IV = dyn_cast<InsertValueInst>(I)) {
            Value *s = sh(IV->getAggregateOperand()), *v = sh(IV->getInsertedValueOperand());
            if (isNull(s) && isNull(v)) return;
            if (!bitsOf(IV->getInsertedValueOperand()->getType())) return unsup(B, I, "nested insertvalue");
            S[I] = B.CreateCall(fInsert, {s, v, c32(flatIndex(IV->getType(), IV->getIndices())), c32(leaves(IV->getType()))});
            return;
        }
        if (auto* BI = dyn_cast<BranchInst>(I)) {
            if (BI->isConditional() && !isNull(sh(BI->getCondition())))
                B.CreateCall(fBranch, {sh(BI->getCondition()), BI->getCondition()});
            return;
        }
        if (auto* SW = dyn_cast<SwitchInst>(I)) {
            Value* s = sh(SW->getCondition());
            if (isNull(s)) return;
            std::vector<Constant*> cs;
            for (auto& c : SW->cases()) cs.push_back(ConstantInt::get(I64, c.getCaseValue()->getZExtValue()));
            auto* at = ArrayType::get(I64, cs.size());
            auto* g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cs), "vpsw");
            B.CreateCall(fSwitch, {s, raw(B, SW->getCondition()), c32(bitsOf(SW->getCondition()->getType())), c32(cs.size()), g});
            return;
        }
        if (auto* R = dyn_cast<ReturnInst>(I)) {
            if (R->getReturnValue() && (bitsOf(R->getReturnValue()->getType()) || R->getReturnValue()->getType()->isAggregateType())) {
                if (auto* pc = R->getParent()->getTerminatingMustTailCall()) { (void)pc; return; }
                B.CreateStore(sh(R->getReturnValue()), GRet);
            }
            return;
        }
        if (auto* RMW = dyn_cast<AtomicRMWInst>(I)) {
            B.CreateCall(fAtomic, {RMW->getPointerOperand(), c32(DL.getTypeStoreSize(I->getType())), c32(2 | (unsigned)RMW->getOrdering() << 4)});
            unsup(B, I, "atomicrmw");
            return;
        }
        if (auto* CX = dyn_cast<AtomicCmpXchgInst>(I)) {
            B.CreateCall(fAtomic, {CX->getPointerOperand(), c32(8), c32(2 | (unsigned)CX->getSuccessOrdering() << 4)});
            unsup(B, I, "cmpxchg");
            return;
        }
        if (isa<UnreachableInst>(I) || isa<ResumeInst>(I) || isa<FenceInst>(I)) return;
        unsup(B, I, I->getOpcodeName());
    }
    void call(CallBase* CB)
    {
        IRBuilder<> B(CB);
        if (auto* II = dyn_cast<IntrinsicInst>(CB)) return intrinsic(II);
        if (CB->isInlineAsm()) return unsup(B, CB, "asm");
        Value* callee = CB->getCalledOperand();
        Function* f = dyn_cast<Function>(callee->stripPointerCasts());
        if (f && f->getName().starts_with("vp_rt_")) return;
        if (f && f->isDeclaration()) {
            for (const char* n : {"malloc", "calloc", "realloc", "free"})
                if (f->getName() == n) {
                    auto r = M.getOrInsertFunction(std::string("vp_rt_") + n, f->getFunctionType());
                    CB->setCalledFunction(r);
                    unsigned na = CB->arg_size();
                    for (unsigned i = 0; i < na; i++)
                        if (!isNull(sh(CB->getArgOperand(i))))
                            B.CreateCall(fConc, {sh(CB->getArgOperand(i)), raw(B, CB->getArgOperand(i)), str(n)});
                    return;
                }
        }
        // symbolic function pointer
        if (!isNull(sh(callee))) B.CreateCall(fConc, {sh(callee), raw(B, callee), str("callee")});
        StringRef name = f ? f->getName() : "";
        bool isVp = name.starts_with("vp_");
        static const std::set<std::string> modeled = {"memcmp", "bcmp", "strlen", "memcpy", "memmove", "memset", "memchr",
                                                      "_ZSt11_Hash_bytesPKvmm", "pow", "log", "exp", "cos", "sin", "tan", "fmod", "log2", "log10", "tanh"};
        bool model = modeled.count(name.str()) && !f->hasFnAttribute("vp-defined") && f->isDeclaration();
        unsigned n = CB->arg_size();
        bool any = false;
        for (unsigned i = 0; i < n && i < 64; i++)
            if (!isNull(sh(CB->getArgOperand(i))) || CB->isByValArgument(i)) any = true;
        if (model) {
            // library function modelled by the runtime: shadows of args are passed through vp_pe
            for (unsigned i = 0; i < n && i < 5; i++)
                B.CreateStore(sh(CB->getArgOperand(i)), B.CreateConstGEP2_32(ArrayType::get(P, 64), GPE, 0, i));
            std::vector<Value*> a = {str(name)};
            for (unsigned i = 0; i < 4; i++) a.push_back(i < n ? raw(B, CB->getArgOperand(i)) : c64(0));
            a.push_back(c64(n));
            B.CreateStore(Null, GTag);
            Value* s = B.CreateCall(fExt, a);
            if (bitsOf(CB->getType())) S[CB] = s;
            return;
        }
        if (any) {
            for (unsigned i = 0; i < n && i < 64; i++) {
                Value* a = CB->getArgOperand(i);
                B.CreateStore(sh(a), B.CreateConstGEP2_32(ArrayType::get(P, 64), GPE, 0, i));
                B.CreateStore(raw(B, a), B.CreateConstGEP2_32(ArrayType::get(I64, 64), GPC, 0, i));
            }
            B.CreateCall(fCall, {callee, c32(n), isVp ? (Value*)c_null() : (Value*)str(name)});
        }
        else
            B.CreateStore(Null, GTag);
        bool hasRet = bitsOf(CB->getType()) || CB->getType()->isAggregateType();
        if (hasRet && !CB->isMustTailCall()) {
            B.CreateStore(Null, GRet);
            IRBuilder<> A = after(CB);
            Value* s = A.CreateLoad(P, GRet);
            if (!(f && !f->isDeclaration() && !skipped(*f)) && !isVp) s = A.CreateCall(fRet, {s, callee});
            S[CB] = s;
        }
    }
    Constant* c_null() { return Null; }
    void intrinsic(IntrinsicInst* II)
    {
        IRBuilder<> B(II);
        auto A = [&](unsigned i) { return II->getArgOperand(i); };
        switch (II->getIntrinsicID()) {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove:
            B.CreateCall(fMemcpy, {A(0), sh(A(0)), A(1), sh(A(1)), B.CreateZExtOrTrunc(A(2), I64), sh(A(2))});
            return;
        case Intrinsic::memset:
        case Intrinsic::memset_inline:
            B.CreateCall(fMemset, {A(0), sh(A(0)), raw(B, A(1)), sh(A(1)), B.CreateZExtOrTrunc(A(2), I64), sh(A(2))});
            return;
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_start:
        case Intrinsic::invariant_end:
        case Intrinsic::trap:
        case Intrinsic::eh_typeid_for:
        case Intrinsic::stacksave:
        case Intrinsic::stackrestore:
        case Intrinsic::prefetch:
            return;
        default:
            break;
        }
        bool any = false;
        for (auto& a : II->args())
            if (!isNull(sh(a))) any = true;
        if (!any) return;
        unsigned w = II->arg_size() ? bitsOf(A(0)->getType()) : 0;
        if (!w) return unsup(B, II, "intrinsic operand type");
        auto bin = [&](int op) { S[II] = B.CreateCall(fBin, {c32(op), c32(w), raw(B, A(0)), sh(A(0)), raw(B, A(1)), sh(A(1))}); };
        auto ovf = [&](int op) { S[II] = B.CreateCall(fOvf, {c32(op), c32(w), raw(B, A(0)), sh(A(0)), raw(B, A(1)), sh(A(1))}); };
        auto un = [&](int op, Value* extra) { S[II] = B.CreateCall(fUn, {c32(op), c32(w), raw(B, A(0)), sh(A(0)), extra}); };
        switch (II->getIntrinsicID()) {
        case Intrinsic::umin: return bin(200);
        case Intrinsic::umax: return bin(201);
        case Intrinsic::smin: return bin(202);
        case Intrinsic::smax: return bin(203);
        case Intrinsic::usub_sat: return bin(204);
        case Intrinsic::uadd_sat: return bin(205);
        case Intrinsic::uadd_with_overflow: return ovf(0);
        case Intrinsic::usub_with_overflow: return ovf(1);
        case Intrinsic::umul_with_overflow: return ovf(2);
        case Intrinsic::sadd_with_overflow: return ovf(3);
        case Intrinsic::ssub_with_overflow: return ovf(4);
        case Intrinsic::smul_with_overflow: return ovf(5);
        case Intrinsic::abs: return un(0, c64(0));
        case Intrinsic::fabs: return un(1, c64(0));
        case Intrinsic::is_fpclass: return un(2, B.CreateZExt(A(1), I64));
        case Intrinsic::floor: return un(3, c64(0));
        case Intrinsic::ceil: return un(4, c64(0));
        case Intrinsic::trunc: return un(5, c64(0));
        case Intrinsic::sqrt: return un(6, c64(0));
        case Intrinsic::bswap: return un(7, c64(0));
        case Intrinsic::ctpop: return un(8, c64(0));
        case Intrinsic::ctlz: return un(9, c64(0));
        case Intrinsic::cttz: return un(10, c64(0));
        case Intrinsic::fshl:
        case Intrinsic::fshr:
            if (A(0) == A(1) && isNull(sh(A(2)))) {
                S[II] = B.CreateCall(fUn, {c32(II->getIntrinsicID() == Intrinsic::fshl ? 11 : 12), c32(w), raw(B, A(0)), sh(A(0)), raw(B, A(2))});
                return;
            }
            break;
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::expect:
            S[II] = sh(A(0));
            return;
        case Intrinsic::fmuladd: {
            Value* m = B.CreateFMul(A(0), A(1));
            Value* sm = B.CreateCall(fFBin, {c32(Instruction::FMul), c32(w), raw(B, A(0)), sh(A(0)), raw(B, A(1)), sh(A(1))});
            S[II] = B.CreateCall(fFBin, {c32(Instruction::FAdd), c32(w), raw(B, m), sm, raw(B, A(2)), sh(A(2))});
            return;
        }
        case Intrinsic::maxnum: S[II] = B.CreateCall(fFBin, {c32(301), c32(w), raw(B, A(0)), sh(A(0)), raw(B, A(1)), sh(A(1))}); return;
        case Intrinsic::minnum: S[II] = B.CreateCall(fFBin, {c32(300), c32(w), raw(B, A(0)), sh(A(0)), raw(B, A(1)), sh(A(1))}); return;
        default: break;
        }
        unsup(B, II, II->getCalledFunction()->getName().str().c_str());
    }
};

// regular expressions work on concrete text: run as they are
bool skipped(const Function& F)
{
    StringRef s = F.getName();
    if (F.isDeclaration() || F.hasLocalLinkage() || !(s.starts_with("_ZNSt") || s.starts_with("_ZNKSt") || s.starts_with("_ZSt"))) return false;
    for (const char* n : {"regex_traits", "sub_match", "8__detail4_NFA", "8__detail6_State", "8__detail9_StateSeq", "8__detail8_Scanner", "8__detail12_ScannerBase"})
        if (s.contains(n)) return true;
    return false;
}
struct VpPass : PassInfoMixin<VpPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
    {
        std::vector<Function*> fs;
        for (auto& F : M) {
            if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) continue;
            if (F.getName().starts_with("vp_")) continue;
            if (skipped(F)) continue;
            fs.push_back(&F);
        }
        Instr in(M);
        std::vector<Constant*> tab;
        for (auto* F : fs) {
            in.run(*F);
            if (!F->hasLocalLinkage() && F->getName() != "main") F->setVisibility(GlobalValue::HiddenVisibility);
            F->removeFnAttr(Attribute::Memory);
            F->removeFnAttr(Attribute::NoSync);
            F->removeFnAttr(Attribute::WillReturn);
            for (auto& A : F->args()) {
                A.removeAttr(Attribute::ReadNone);
                A.removeAttr(Attribute::ReadOnly);
            }
        }
        for (auto* F : fs) {
            // internal functions of a COMDAT group may be discarded by the linker
            if (F->hasLocalLinkage() && F->hasComdat()) continue;
            tab.push_back(ConstantExpr::getBitCast(F, in.P));
            tab.push_back(in.str(F->getName()));
        }
        if (tab.empty()) return PreservedAnalyses::none();
        auto* at = ArrayType::get(in.P, tab.size());
        auto* g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, tab), "vp_functab");
        auto* reg = Function::Create(FunctionType::get(in.V, false), GlobalValue::InternalLinkage, "vp_ctor", M);
        IRBuilder<> B(BasicBlock::Create(in.C, "", reg));
        auto fr = M.getOrInsertFunction("vp_rt_register", FunctionType::get(in.V, {in.P, in.I64}, false));
        B.CreateCall(fr, {g, in.c64(tab.size() / 2)});
        B.CreateRetVoid();
        appendToGlobalCtors(M, reg, 0);
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "vp", "1", [](PassBuilder& PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(VpPass()); });
            }};
}
