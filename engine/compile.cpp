// jsym: LLVM IR -> internal form
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
namespace jsym {
u64 Exec::sizeOf(Type* t) { return DL->getTypeAllocSize(t).getFixedValue(); }
unsigned Exec::widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty() || t->isFP128Ty()) return 128;
    if (t->isHalfTy()) return 16;
    if (t->isVoidTy()) return 0;
    return 0;
}
void Exec::leaves(Type* t, std::vector<u8>& w, std::vector<u64>& off, u64 b) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), w, off, b + sl->getElementOffset(i)); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { u64 s = sizeOf(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), w, off, b + i * s); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 s = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), w, off, b + i * s); }
    else if (!t->isVoidTy()) { w.push_back((u8)widthOf(t)); off.push_back(b); }
}
static u128 apToU(const APInt& a) { u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v & mask(a.getBitWidth() > 128 ? 128 : a.getBitWidth()); }
Value Exec::constVal(const Constant* c) {
    Value v;
    if (auto* ci = dyn_cast<ConstantInt>(c)) { v.c = apToU(ci->getValue()); return v; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { v.c = apToU(cf->getValueAPF().bitcastToAPInt()); return v; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return v;
    if (auto* f = dyn_cast<Function>(c)) { v.c = getF(f)->addr; return v; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto* gv = dyn_cast<GlobalVariable>(c)) { v.c = gaddr[gv]; return v; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); v.c = (u64)((u64)constVal(ce->getOperand(0)).c + off.getSExtValue()); return v; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: v = constVal(ce->getOperand(0)); if (ce->getType()->isIntegerTy()) v.c &= mask(widthOf(ce->getType())); return v;
        case Instruction::Trunc: v = constVal(ce->getOperand(0)); v.c &= mask(widthOf(ce->getType())); return v;
        case Instruction::ZExt: return constVal(ce->getOperand(0));
        case Instruction::SExt: v = constVal(ce->getOperand(0)); v.c = (u128)sx(v.c, widthOf(ce->getOperand(0)->getType())) & mask(widthOf(ce->getType())); return v;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: {
            static std::map<unsigned, K> km{{Instruction::Add, K::Add}, {Instruction::Sub, K::Sub}, {Instruction::Mul, K::Mul}, {Instruction::And, K::And}, {Instruction::Or, K::Or}, {Instruction::Xor, K::Xor}, {Instruction::Shl, K::Shl}, {Instruction::LShr, K::LShr}};
            return bin(km[ce->getOpcode()], constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), widthOf(ce->getType())); }
        case Instruction::ICmp: return icmp(ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), widthOf(ce->getOperand(0)->getType()));
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "jsym: unsupported constant %s\n", s.c_str());
    return v;
}
void Exec::constLeaves(const Constant* c, std::vector<Value>& out) {
    Type* t = c->getType();
    if (isa<StructType>(t) || isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
        unsigned n = isa<StructType>(t) ? t->getStructNumElements() : isa<ArrayType>(t) ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out);
    } else out.push_back(constVal(c));
}
void Exec::initBytes(Object* o, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return; // objects are zero filled
    if (isa<UndefValue>(c)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { StringRef d = cds->getRawDataValues(); for (u64 i = 0; i < d.size(); i++) o->setb(off + i, (u8)d[i]); return; }
    if (isa<StructType>(t)) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) initBytes(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (isa<ArrayType>(t)) { u64 s = sizeOf(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); i++) initBytes(o, off + i * s, c->getAggregateElement((unsigned)i)); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 s = sizeOf(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) initBytes(o, off + i * s, c->getAggregateElement(i)); return; }
    Value v = constVal(c); unsigned n = (widthOf(t) + 7) / 8; for (unsigned i = 0; i < n; i++) o->setb(off + i, (u8)(v.c >> (8 * i)));
}
FuncI* Exec::getF(const Function* F) {
    auto it = fmap.find(F); if (it != fmap.end()) return it->second;
    funcs.emplace_back(); FuncI* f = &funcs.back(); f->F = F; f->name = F->getName().str(); f->addr = 0x100000 + funcs.size() * 16;
    fmap[F] = f; fbyAddr[f->addr] = f;
    if (auto* sp = F->getSubprogram()) { std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; f->file = fn; f->line = sp->getLine(); f->repo = fn.compare(0, opt.repoPrefix.size(), opt.repoPrefix) == 0; }
    auto b = bnames.find(f->name); if (b != bnames.end() && (F->isDeclaration() || f->name.compare(0, 5, "_Znwm"))) f->builtin = b->second;
    return f;
}
void Exec::load(const std::string& bc) {
    static LLVMContext ctx; SMDiagnostic err; M = parseIRFile(bc, err, ctx);
    if (!M) { err.print("jsym", errs()); exit(3); }
    DL = &M->getDataLayout();
    u64 a = 0x10000000;
    for (auto& g : M->globals()) { u64 sz = g.getValueType()->isSized() ? sizeOf(g.getValueType()) : 64; if (g.isDeclaration() && sz < 64) sz = 64;
        u64 al = std::max<u64>(g.getAlign() ? g.getAlign()->value() : 16, 16); a = (a + al - 1) / al * al; gaddr[&g] = a; gname[a] = g.getName().str(); a += sz + 64; }
    for (auto& g : M->globals()) {
        Object* o = new Object; o->base = gaddr[&g]; o->size = g.getValueType()->isSized() ? sizeOf(g.getValueType()) : 64; if (g.isDeclaration() && o->size < 64) o->size = 64; o->zero = true; o->kind = g.isConstant() ? OK_::Const : OK_::Global; o->tag = "global"; o->init();
        if (g.hasInitializer()) initBytes(o, 0, g.getInitializer());
        base.insert(ObjRef(o));
    }
}
static std::map<unsigned, K> binK{{Instruction::Add, K::Add}, {Instruction::Sub, K::Sub}, {Instruction::Mul, K::Mul}, {Instruction::UDiv, K::UDiv}, {Instruction::SDiv, K::SDiv}, {Instruction::URem, K::URem}, {Instruction::SRem, K::SRem}, {Instruction::And, K::And}, {Instruction::Or, K::Or}, {Instruction::Xor, K::Xor}, {Instruction::Shl, K::Shl}, {Instruction::LShr, K::LShr}, {Instruction::AShr, K::AShr}, {Instruction::FAdd, K::FAdd}, {Instruction::FSub, K::FSub}, {Instruction::FMul, K::FMul}, {Instruction::FDiv, K::FDiv}, {Instruction::FRem, K::FRem}};
void Exec::compile(FuncI* f) {
    f->compiled = true; const Function* F = f->F;
    std::map<const llvm::Value*, std::pair<int, int>> slot; int n = 0;
    auto cnt = [&](Type* t) { std::vector<u8> w; std::vector<u64> o; leaves(t, w, o, 0); return (int)w.size(); };
    for (auto& a : F->args()) { int k = cnt(a.getType()); slot[&a] = {n, k}; f->argSlots.push_back(n); f->argN.push_back(k); n += k; }
    std::map<const BasicBlock*, int> bid; int nb = 0;
    for (auto& b : *F) { bid[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) { int k = cnt(i.getType()); slot[&i] = {n, k}; n += k; } }
    f->nregs = n; f->cov.assign(nb, 0); f->blocks.resize(nb);
    auto ops = [&](const llvm::Value* v, std::vector<Opnd>& out) -> int {
        auto it = slot.find(v);
        if (it != slot.end()) { for (int i = 0; i < it->second.second; i++) { Opnd o; o.reg = it->second.first + i; out.push_back(o); } return it->second.second; }
        if (auto* c = dyn_cast<Constant>(v)) { std::vector<Value> vs; constLeaves(c, vs); for (auto& x : vs) { Opnd o; o.c = x; out.push_back(o); } return (int)vs.size(); }
        Opnd o; out.push_back(o); return 1; // metadata, asm...
    };
    for (auto& b : *F) {
        int id = bid[&b]; f->blocks[id].first = (int)f->code.size();
        for (auto& i : b) {
            if (auto* p = dyn_cast<PHINode>(&i)) {
                for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { std::vector<Opnd> o; ops(p->getIncomingValue(k), o); auto& v = f->blocks[id].phis[bid[p->getIncomingBlock(k)]]; 
                    bool dup = false; for (auto& c : v) if (c.dst == slot[p].first) dup = true; if (dup) continue;
                    for (size_t j = 0; j < o.size(); j++) v.push_back({slot[p].first + (int)j, o[j]}); }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&i)) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&i)) { auto iid = ii->getIntrinsicID(); if (iid == Intrinsic::lifetime_start || iid == Intrinsic::lifetime_end || iid == Intrinsic::assume || iid == Intrinsic::experimental_noalias_scope_decl || iid == Intrinsic::donothing || iid == Intrinsic::invariant_start || iid == Intrinsic::invariant_end || iid == Intrinsic::prefetch || iid == Intrinsic::var_annotation) { if (ii->getType()->isVoidTy()) continue; } }
            Inst in; in.I = &i; in.op = (u16)i.getOpcode(); 
            if (!i.getType()->isVoidTy()) { in.dst = slot[&i].first; in.dstN = slot[&i].second; std::vector<u64> lo; leaves(i.getType(), in.lw, in.loff, 0); in.w = in.lw.empty() ? 0 : in.lw[0]; in.lanes = (u8)in.lw.size(); }
            switch (i.getOpcode()) {
            case Instruction::Br: { auto* br = cast<BranchInst>(&i); if (br->isConditional()) { ops(br->getCondition(), in.o); in.tgt = {bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; } else in.tgt = {bid[br->getSuccessor(0)]}; break; }
            case Instruction::Switch: { auto* sw = cast<SwitchInst>(&i); ops(sw->getCondition(), in.o); in.w = (u8)widthOf(sw->getCondition()->getType()); in.tgt.push_back(bid[sw->getDefaultDest()]); for (auto& c : sw->cases()) { in.cases.push_back(apToU(c.getCaseValue()->getValue())); in.tgt.push_back(bid[c.getCaseSuccessor()]); } break; }
            case Instruction::Call: case Instruction::Invoke: {
                auto* cb = cast<CallBase>(&i);
                for (unsigned k = 0; k < cb->arg_size(); k++) { in.argn.push_back((u8)ops(cb->getArgOperand(k), in.o)); }
                if (auto* iv = dyn_cast<InvokeInst>(&i)) in.tgt = {bid[iv->getNormalDest()], bid[iv->getUnwindDest()]};
                const llvm::Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
                if (auto* cf = dyn_cast<Function>(cv)) { in.callee = getF(cf); if (cf->isIntrinsic()) { in.builtin = -2; if (cb->arg_size()) { std::vector<u64> lo; std::vector<u8> aw; leaves(cb->getArgOperand(0)->getType(), aw, lo, 0); in.sw = aw.empty() ? 0 : aw[0]; } } else { in.builtin = in.callee->builtin; static const std::set<std::string> visn{"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait", "pthread_cond_signal", "pthread_cond_broadcast", "jsym_spawn", "sched_yield", "jsym_yield", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock"}; in.vis = in.builtin >= 0 && visn.count(in.callee->name); } }
                else if (isa<InlineAsm>(cb->getCalledOperand())) in.builtin = -3;
                else ops(cb->getCalledOperand(), in.o);
                break; }
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&i); ops(g->getPointerOperand(), in.o);
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    const llvm::Value* idx = it.getOperand();
                    if (auto* st = it.getStructTypeOrNull()) { in.gepc += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    u64 es = sizeOf(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(idx)) { in.gepc += es * (u64)ci->getSExtValue(); continue; }
                    std::vector<Opnd> o; ops(idx, o); in.gep.push_back({o[0].reg, es, (u8)widthOf(idx->getType()), o[0].c});
                }
                break; }
            case Instruction::Alloca: { auto* al = cast<AllocaInst>(&i); in.asize = sizeOf(al->getAllocatedType()); in.align = al->getAlign().value(); ops(al->getArraySize(), in.o); in.sw = (u8)widthOf(al->getArraySize()->getType()); break; }
            case Instruction::Load: ops(i.getOperand(0), in.o); in.vis = cast<LoadInst>(&i)->isAtomic(); break;
            case Instruction::Store: { in.lw.clear(); in.loff.clear(); leaves(i.getOperand(0)->getType(), in.lw, in.loff, 0); ops(i.getOperand(0), in.o); ops(i.getOperand(1), in.o); in.vis = cast<StoreInst>(&i)->isAtomic(); break; }
            case Instruction::AtomicCmpXchg: for (unsigned k = 0; k < 3; k++) ops(i.getOperand(k), in.o); in.vis = true; break;
            case Instruction::AtomicRMW: in.pred = (u8)cast<AtomicRMWInst>(&i)->getOperation(); ops(i.getOperand(0), in.o); ops(i.getOperand(1), in.o); in.vis = true; break;
            case Instruction::Fence: break;
            case Instruction::ICmp: case Instruction::FCmp: { in.pred = (u8)cast<CmpInst>(&i)->getPredicate(); std::vector<u8> w; std::vector<u64> lo; leaves(i.getOperand(0)->getType(), w, lo, 0); in.sw = w[0]; ops(i.getOperand(0), in.o); ops(i.getOperand(1), in.o); break; }
            case Instruction::ExtractValue: { // slot copy
                auto* ev = cast<ExtractValueInst>(&i); std::vector<Opnd> all; ops(ev->getAggregateOperand(), all);
                Type* t = ev->getAggregateOperand()->getType(); int at = 0; for (unsigned ix : ev->indices()) { for (unsigned k = 0; k < ix; k++) at += cnt(isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType()); t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType(); }
                for (int k = 0; k < in.dstN; k++) in.o.push_back(all[at + k]); break; }
            case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(&i); ops(iv->getAggregateOperand(), in.o); std::vector<Opnd> v; int m = ops(iv->getInsertedValueOperand(), v);
                Type* t = iv->getAggregateOperand()->getType(); int at = 0; for (unsigned ix : iv->indices()) { for (unsigned k = 0; k < ix; k++) at += cnt(isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType()); t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType(); }
                for (int k = 0; k < m; k++) in.o[at + k] = v[k]; break; }
            case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&i); for (int m : sv->getShuffleMask()) in.shuf.push_back(m); ops(i.getOperand(0), in.o); ops(i.getOperand(1), in.o); break; }
            case Instruction::ExtractElement: ops(i.getOperand(0), in.o); ops(i.getOperand(1), in.o); break;
            case Instruction::InsertElement: ops(i.getOperand(0), in.o); ops(i.getOperand(1), in.o); ops(i.getOperand(2), in.o); break;
            case Instruction::LandingPad: break;
            default: {
                for (auto& op : i.operands()) ops(op.get(), in.o);
                if (i.getNumOperands()) { std::vector<u8> w; std::vector<u64> lo; leaves(i.getOperand(0)->getType(), w, lo, 0); in.sw = w.empty() ? 0 : w[0]; }
                break; }
            }
            auto it = binK.find(i.getOpcode()); if (it != binK.end()) in.pred = (u8)it->second;
            f->code.push_back(std::move(in));
        }
    }
}
}
