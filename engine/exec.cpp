// irsym: a small symbolic executor for LLVM IR.
#include "lower.hpp"
#include "solver.hpp"
#include <chrono>
#include <deque>
#include <functional>
#include <sys/resource.h>
#include <sys/mman.h>
#include <pthread.h>
#include <unistd.h>
#include <unordered_set>
using namespace llvm;
using std::string; using std::vector; using std::unordered_map; using std::pair; using std::map;

#define FATAL(...) do { fprintf(stderr, "irsym: "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); fatalExit(); } while (0)
static void fatalExit();

// ------------------------------------------------------------------ memory objects
enum OK : u8 { K_Global, K_Stack, K_Heap, K_Func, K_Opaque };
struct Obj {
    u32 rc = 0; OK kind; bool ro = false; bool freed = false; const char* name = ""; u8 allocFn = 0;
    vector<u8> c; vector<Expr*> s; // s empty or same size
    u64 size() const { return c.size(); }
};
struct OP { Obj* p = nullptr;
    OP() {} OP(Obj* q) : p(q) { if (p) ++p->rc; } OP(const OP& o) : p(o.p) { if (p) ++p->rc; } OP(OP&& o) noexcept : p(o.p) { o.p = nullptr; }
    OP& operator=(OP o) { std::swap(p, o.p); return *this; } ~OP() { if (p && --p->rc == 0) delete p; }
    Obj* operator->() const { return p; } explicit operator bool() const { return p; } };
static const u64 BASE = 0x10000; static const u32 DYN = 1u << 20;
static inline u64 addrOf(u32 id) { return ((u64)id << 32) | BASE; }

// ------------------------------------------------------------------ globals of the engine
static LLVMContext* Ctx; static Module* M; static const DataLayout* DL;
static vector<OP> gobjs(1); // id -> initial content for globals; index 0 unused
static unordered_map<const GlobalValue*, u32> gid;
static unordered_map<string, u32> extid;
static vector<Function*> gfunc(1, nullptr);
static vector<GlobalVariable*> gvar(1, nullptr);
static unordered_map<const Function*, std::unique_ptr<LFunc>> lfuncs;
static vector<SV> cpool;
static map<string, i64> params;
static double optMaxTime = 300; static u64 optMaxSteps = 30000000, optMaxPaths = ~0ull; static int optSamples = 8; static int optMaxViol = 3; static bool optVerbose = false;
static std::chrono::steady_clock::time_point tStart;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

struct KnownMap { unordered_map<Expr*, Expr*> m; unordered_map<Expr*, Expr*> memo; };
struct Frame { LFunc* f; LBlock* bb; u32 pc; LBlock* prev; vector<SV> r; vector<u32> allocas; bool call; };
struct Exc { u64 ti; u64 dtor; int handlers = 0; bool rethrown = false; };
struct Input { u32 var; };
struct State {
    vector<Frame> st;
    unordered_map<u32, OP> gmod; // modified globals
    vector<OP> dyn;
    vector<Expr*> pc; std::shared_ptr<KnownMap> known; Model model;
    map<string, int> names; vector<u32> inputs; // variables created on this path
    map<u64, Exc> excs; vector<u64> caught;
    vector<pair<string, pair<Expr*, u64>>> obs;
    u64 steps = 0; u64 forks = 0; u64 heapLive = 0; int nonce = 0;
};
struct PathEnd { int why; };
struct Restart {};

static vector<State*> work; static State* S;
// stats
static u64 nInst = 0, nForks = 0, nPaths = 0, nAssumed = 0, nChecks = 0, nCheckQ = 0, nInconcl = 0, nViolPaths = 0, nTrapsAvoided = 0, nLimit = 0;
static std::set<string> covers; static vector<string> notes; static std::set<string> incNotes;
struct TestCase { vector<pair<string, pair<int, u64>>> in; vector<pair<string, u64>> obs; string kind, msg, where; };
static vector<TestCase> violations, samples; static std::set<string> violSites;
static u64 seenSamples = 0; static u64 rngState = 88172645463325252ull;
static u64 rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static void inconclusive(const string& s) { ++nInconcl; if (incNotes.size() < 50) incNotes.insert(s); }
static bool stopAll = false; static string stopWhy; static string outFile; static string entryName;
static void writeOut();
static void fatalExit() { stopWhy = "fatal"; if (S) { for (int i = (int)S->st.size() - 1; i >= 0 && i > (int)S->st.size() - 12; --i) fprintf(stderr, "   in %s\n", demangle(S->st[i].f->F->getName().str()).c_str()); } _exit(4); }

// ------------------------------------------------------------------ lowering
static u32 slotsOf(Type* t) {
    if (auto* s = dyn_cast<StructType>(t)) { u32 n = 0; for (Type* e : s->elements()) n += slotsOf(e); return n; }
    if (auto* a = dyn_cast<ArrayType>(t)) return (u32)a->getNumElements() * slotsOf(a->getElementType());
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
    if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return 0;
    return 1;
}
static u16 widthOf(Type* t) {
    if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16;
    if (t->isFP128Ty()) return 128;
    if (auto* v = dyn_cast<FixedVectorType>(t)) return widthOf(v->getElementType());
    return 0;
}
static void flat(Type* t, u32 off, vector<FieldLoc>& out) {
    if (auto* s = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) flat(s->getElementType(i), off + (u32)L->getElementOffset(i), out); }
    else if (auto* a = dyn_cast<ArrayType>(t)) { u32 es = (u32)DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); ++i) flat(a->getElementType(), off + (u32)i * es, out); }
    else if (auto* v = dyn_cast<FixedVectorType>(t)) { u32 es = (u32)DL->getTypeStoreSize(v->getElementType()); u16 w = widthOf(t); if (w % 8) FATAL("vector of sub-byte elements in memory"); for (unsigned i = 0; i < v->getNumElements(); ++i) out.push_back({off + i * es, w}); }
    else out.push_back({off, widthOf(t)});
}
static SV cst(u128 v, unsigned w) { if (w <= 64) return SV{(u64)v & mask64(w), nullptr}; return SV{0, mkConst(v, w)}; }
static SV norm(Expr* e) { if (e->isC() && e->w <= 64) return SV{(u64)e->val, nullptr}; return SV{0, e}; }
static Expr* toE(const SV& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static void writeConst(Constant* c, Obj* o, u64 off);
static u32 newGlobalId() { gobjs.emplace_back(); gfunc.push_back(nullptr); gvar.push_back(nullptr); if (gobjs.size() >= DYN) FATAL("too many globals"); return (u32)gobjs.size() - 1; }
static u64 globalAddr(const GlobalValue* g0) {
    const GlobalValue* g = g0;
    if (auto* al = dyn_cast<GlobalAlias>(g)) return globalAddr(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
    auto it = gid.find(g); if (it != gid.end()) return addrOf(it->second);
    u32 id = newGlobalId(); gid[g] = id;
    Obj* o = new Obj; o->name = strdup(g->getName().str().c_str());
    if (auto* f = dyn_cast<Function>(g)) { o->kind = K_Func; gfunc[id] = const_cast<Function*>(f); gobjs[id] = OP(o); return addrOf(id); }
    auto* v = const_cast<GlobalVariable*>(cast<GlobalVariable>(g)); gvar[id] = v;
    u64 sz = DL->getTypeAllocSize(v->getValueType());
    gobjs[id] = OP(o);
    if (v->hasInitializer()) { o->kind = K_Global; o->c.assign(sz, 0); o->ro = v->isConstant(); writeConst(v->getInitializer(), o, 0); }
    else { o->kind = K_Opaque; o->c.assign(std::max<u64>(sz, 512), 0); if (v->getName() == "__libc_single_threaded") { o->kind = K_Global; o->c[0] = 1; } 
        if (v->getName() == "stdin" || v->getName() == "stdout" || v->getName() == "stderr") o->kind = K_Global; }
    return addrOf(id);
}
static void constSlots(Constant* c, vector<SV>& out);
static u128 constScalar(Constant* c);
static u128 constExprVal(ConstantExpr* e) {
    switch (e->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(e); if (!g->accumulateConstantOffset(*DL, off)) FATAL("const gep"); return (constScalar(cast<Constant>(g->getPointerOperand())) + (u128)(i128)off.getSExtValue()) & mask64(64); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: return constScalar(e->getOperand(0)) & maskw(widthOf(e->getType()));
        case Instruction::SExt: return (u128)sgn(constScalar(e->getOperand(0)), widthOf(e->getOperand(0)->getType())) & maskw(widthOf(e->getType()));
        case Instruction::Add: return (constScalar(e->getOperand(0)) + constScalar(e->getOperand(1))) & maskw(widthOf(e->getType()));
        case Instruction::Sub: return (constScalar(e->getOperand(0)) - constScalar(e->getOperand(1))) & maskw(widthOf(e->getType()));
        case Instruction::Xor: return constScalar(e->getOperand(0)) ^ constScalar(e->getOperand(1));
        case Instruction::And: return constScalar(e->getOperand(0)) & constScalar(e->getOperand(1));
        case Instruction::Or: return constScalar(e->getOperand(0)) | constScalar(e->getOperand(1));
        case Instruction::Mul: return (constScalar(e->getOperand(0)) * constScalar(e->getOperand(1))) & maskw(widthOf(e->getType()));
        case Instruction::Shl: return (constScalar(e->getOperand(0)) << (unsigned)constScalar(e->getOperand(1))) & maskw(widthOf(e->getType()));
        case Instruction::LShr: return constScalar(e->getOperand(0)) >> (unsigned)constScalar(e->getOperand(1));
        case Instruction::ICmp: { u128 a = constScalar(e->getOperand(0)), b = constScalar(e->getOperand(1)); if (e->getPredicate() == CmpInst::ICMP_EQ) return a == b; if (e->getPredicate() == CmpInst::ICMP_NE) return a != b; if (e->getPredicate() == CmpInst::ICMP_ULT) return a < b; FATAL("const icmp"); }
        default: FATAL("constant expression %s", e->getOpcodeName());
    }
}
static u128 apv(const APInt& v) { u128 r = v.getRawData()[0]; if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64; if (v.getBitWidth() > 128) FATAL("wide int const"); return r & maskw(v.getBitWidth()); }
static u128 constScalar(Constant* c) {
    if (auto* i = dyn_cast<ConstantInt>(c)) return apv(i->getValue());
    if (auto* f = dyn_cast<ConstantFP>(c)) return apv(f->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto* g = dyn_cast<GlobalValue>(c)) return globalAddr(g);
    if (auto* e = dyn_cast<ConstantExpr>(c)) return constExprVal(e);
    if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) return globalAddr(d->getGlobalValue());
    if (auto* d = dyn_cast<NoCFIValue>(c)) return globalAddr(d->getGlobalValue());
    FATAL("constant kind");
}
static void constSlots(Constant* c, vector<SV>& out) {
    Type* t = c->getType();
    if (!t->isAggregateType() && !t->isVectorTy()) { out.push_back(cst(constScalar(c), widthOf(t))); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (t->isAggregateType()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements(); for (unsigned i = 0; i < n; ++i) constSlots(Constant::getNullValue(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()), out); }
        else for (u32 i = 0; i < slotsOf(t); ++i) out.push_back(cst(0, widthOf(t)));
        return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); ++i) constSlots(d->getElementAsConstant(i), out); return; }
    if (auto* a = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < a->getNumOperands(); ++i) constSlots(a->getOperand(i), out); return; }
    FATAL("constant aggregate");
}
static void writeConst(Constant* c, Obj* o, u64 off) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = d->getRawDataValues(); memcpy(&o->c[off], raw.data(), raw.size()); return; }
    if (auto* a = dyn_cast<ConstantStruct>(c)) { const StructLayout* L = DL->getStructLayout(a->getType()); for (unsigned i = 0; i < a->getNumOperands(); ++i) writeConst(a->getOperand(i), o, off + L->getElementOffset(i)); return; }
    if (auto* a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); ++i) writeConst(a->getOperand(i), o, off + i * es); return; }
    if (auto* a = dyn_cast<ConstantVector>(c)) { u64 es = DL->getTypeStoreSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); ++i) writeConst(a->getOperand(i), o, off + i * es); return; }
    u128 v = constScalar(c); u64 n = (widthOf(t) + 7) / 8; for (u64 i = 0; i < n; ++i) o->c[off + i] = (u8)(v >> (8 * i));
}

struct Lowerer {
    LFunc* L; unordered_map<const Value*, i32> slot; unordered_map<const BasicBlock*, LBlock*> bm;
    i32 opnd(Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) { i32 idx = -(i32)cpool.size() - 1; size_t before = cpool.size(); vector<SV> t; constSlots(c, t); cpool.insert(cpool.end(), t.begin(), t.end()); if (cpool.size() == before) cpool.push_back({0, nullptr}); return -(i32)before - 1; (void)idx; }
        auto it = slot.find(v); if (it == slot.end()) FATAL("operand without slot"); return it->second;
    }
    void inst(LBlock* b, Instruction& I);
};
static int findHandler(StringRef name);
static LFunc* lower(Function* F) {
    auto it = lfuncs.find(F); if (it != lfuncs.end()) return it->second.get();
    auto L = std::make_unique<LFunc>(); LFunc* l = L.get(); l->F = F; lfuncs[F] = std::move(L);
    Lowerer w; w.L = l; u32 n = 0;
    for (auto& a : F->args()) { w.slot[&a] = n; u32 k = slotsOf(a.getType()); l->params.push_back({n, (u16)k}); n += k; }
    l->nparams = n;
    for (auto& bb : *F) { auto b = std::make_unique<LBlock>(); b->idx = (u32)l->blocks.size(); b->f = l; b->bb = &bb; w.bm[&bb] = b.get(); l->blocks.push_back(std::move(b)); for (auto& I : bb) { w.slot[&I] = n; n += slotsOf(I.getType()); } }
    l->nslots = n;
    for (auto& b : l->blocks) for (auto& I : *b->bb) w.inst(b.get(), I);
    return l;
}
// mapping of intrinsic/extern names to handlers is done below
void Lowerer::inst(LBlock* b, Instruction& I) {
    if (auto* p = dyn_cast<PHINode>(&I)) { LPhi x; x.dst = slot[&I]; x.n = slotsOf(I.getType()); for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) x.in.push_back({bm[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))}); b->phis.push_back(x); return; }
    LInst l{}; l.I = &I; l.n = slotsOf(I.getType()); l.w = widthOf(I.getType()); l.dst = slot[&I];
    auto push = [&] { b->insts.push_back(std::move(l)); };
    unsigned oc = I.getOpcode();
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) { l.a = opnd(bo->getOperand(0)); l.b = opnd(bo->getOperand(1)); l.sub = oc; l.op = I.getType()->isFPOrFPVectorTy() ? O_FBin : O_Bin; return push(); }
    if (auto* c = dyn_cast<ICmpInst>(&I)) { l.op = O_ICmp; l.sub = c->getPredicate(); l.w2 = widthOf(c->getOperand(0)->getType()); l.a = opnd(c->getOperand(0)); l.b = opnd(c->getOperand(1)); return push(); }
    if (auto* c = dyn_cast<FCmpInst>(&I)) { l.op = O_FCmp; l.sub = c->getPredicate(); l.w2 = widthOf(c->getOperand(0)->getType()); l.a = opnd(c->getOperand(0)); l.b = opnd(c->getOperand(1)); return push(); }
    if (oc == Instruction::FNeg) { l.op = O_FNeg; l.a = opnd(I.getOperand(0)); return push(); }
    if (auto* s = dyn_cast<SelectInst>(&I)) { l.op = O_Select; l.a = opnd(s->getCondition()); l.b = opnd(s->getTrueValue()); l.c = opnd(s->getFalseValue()); l.sub = s->getCondition()->getType()->isVectorTy(); l.off = I.getType()->isPointerTy(); 
        if (I.getType()->isAggregateType()) { flat(I.getType(), 0, l.fields); } return push(); }
    if (auto* c = dyn_cast<CastInst>(&I)) {
        l.a = opnd(c->getOperand(0)); l.w2 = widthOf(c->getSrcTy()); l.sub = oc;
        if (oc == Instruction::BitCast) { u32 n2 = slotsOf(c->getSrcTy()); l.op = n2 == l.n ? O_Copy : O_BitCast; l.off = n2; return push(); }
        l.op = O_Cast; return push(); }
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        l.op = O_GEP; l.a = opnd(g->getPointerOperand()); l.off = 0; l.sub = g->getPointerOperandType()->isVectorTy(); if (I.getType()->isVectorTy()) FATAL("vector gep");
        for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
            Value* idx = ti.getOperand();
            if (StructType* st = ti.getStructTypeOrNull()) { l.off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
            i64 sc = (i64)DL->getTypeAllocSize(ti.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(idx)) { l.off += ci->getSExtValue() * sc; continue; }
            l.gep.push_back({opnd(idx), widthOf(idx->getType()), sc}); }
        return push(); }
    if (auto* ld = dyn_cast<LoadInst>(&I)) { l.op = O_Load; l.a = opnd(ld->getPointerOperand()); flat(I.getType(), 0, l.fields); l.off = (i64)DL->getTypeStoreSize(I.getType()); return push(); }
    if (auto* s = dyn_cast<StoreInst>(&I)) { l.op = O_Store; l.a = opnd(s->getPointerOperand()); l.b = opnd(s->getValueOperand()); flat(s->getValueOperand()->getType(), 0, l.fields); l.off = (i64)DL->getTypeStoreSize(s->getValueOperand()->getType()); return push(); }
    if (auto* a = dyn_cast<AllocaInst>(&I)) { l.op = O_Alloca; l.off = (i64)DL->getTypeAllocSize(a->getAllocatedType()); l.a = opnd(a->getArraySize()); l.w2 = widthOf(a->getArraySize()->getType()); return push(); }
    if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { l.op = O_CondBr; l.a = opnd(br->getCondition()); l.tgt = {bm[br->getSuccessor(0)], bm[br->getSuccessor(1)]}; } else { l.op = O_Br; l.tgt = {bm[br->getSuccessor(0)]}; } return push(); }
    if (auto* sw = dyn_cast<SwitchInst>(&I)) { l.op = O_Switch; l.a = opnd(sw->getCondition()); l.w = widthOf(sw->getCondition()->getType()); l.tgt.push_back(bm[sw->getDefaultDest()]); for (auto& c : sw->cases()) { l.imm.push_back((u64)apv(c.getCaseValue()->getValue())); l.tgt.push_back(bm[c.getCaseSuccessor()]); } return push(); }
    if (auto* r = dyn_cast<ReturnInst>(&I)) { l.op = O_Ret; l.n = 0; if (r->getReturnValue()) { l.a = opnd(r->getReturnValue()); l.n = slotsOf(r->getReturnValue()->getType()); } return push(); }
    if (isa<UnreachableInst>(&I)) { l.op = O_Unreachable; return push(); }
    if (auto* e = dyn_cast<ExtractValueInst>(&I)) { l.op = O_Extract; l.a = opnd(e->getAggregateOperand()); Type* t = e->getAggregateOperand()->getType(); u32 s = 0; for (unsigned i : e->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) s += slotsOf(st->getElementType(k)); t = st->getElementType(i); } else { t = t->getArrayElementType(); s += i * slotsOf(t); } } l.off = s; return push(); }
    if (auto* e = dyn_cast<InsertValueInst>(&I)) { l.op = O_Insert; l.a = opnd(e->getAggregateOperand()); l.b = opnd(e->getInsertedValueOperand()); Type* t = e->getType(); u32 s = 0; for (unsigned i : e->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) s += slotsOf(st->getElementType(k)); t = st->getElementType(i); } else { t = t->getArrayElementType(); s += i * slotsOf(t); } } l.off = s; l.w2 = (u16)slotsOf(t); return push(); }
    if (auto* e = dyn_cast<ExtractElementInst>(&I)) { l.op = O_ExtElt; l.a = opnd(e->getVectorOperand()); l.b = opnd(e->getIndexOperand()); l.w2 = widthOf(e->getIndexOperand()->getType()); l.off = slotsOf(e->getVectorOperand()->getType()); return push(); }
    if (auto* e = dyn_cast<InsertElementInst>(&I)) { l.op = O_InsElt; l.a = opnd(e->getOperand(0)); l.b = opnd(e->getOperand(1)); l.c = opnd(e->getOperand(2)); return push(); }
    if (auto* s = dyn_cast<ShuffleVectorInst>(&I)) { l.op = O_Shuffle; l.a = opnd(s->getOperand(0)); l.b = opnd(s->getOperand(1)); l.off = slotsOf(s->getOperand(0)->getType()); for (int m : s->getShuffleMask()) l.mask.push_back(m); return push(); }
    if (isa<FreezeInst>(&I)) { l.op = O_Copy; l.a = opnd(I.getOperand(0)); return push(); }
    if (isa<LandingPadInst>(&I)) { l.op = O_LandingPad; return push(); }
    if (auto* r = dyn_cast<ResumeInst>(&I)) { l.op = O_Resume; l.a = opnd(r->getValue()); return push(); }
    if (isa<FenceInst>(&I)) return;
    if (auto* r = dyn_cast<AtomicRMWInst>(&I)) { l.op = O_AtomicRMW; l.a = opnd(r->getPointerOperand()); l.b = opnd(r->getValOperand()); l.sub = r->getOperation(); return push(); }
    if (auto* r = dyn_cast<AtomicCmpXchgInst>(&I)) { l.op = O_CmpXchg; l.a = opnd(r->getPointerOperand()); l.b = opnd(r->getCompareOperand()); l.c = opnd(r->getNewValOperand()); l.w = widthOf(r->getCompareOperand()->getType()); return push(); }
    if (auto* cb = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(&I)) return;
        if (auto* ii = dyn_cast<IntrinsicInst>(&I)) switch (ii->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: return; default: break; }
        l.op = isa<InvokeInst>(&I) ? O_Invoke : O_Call;
        if (auto* iv = dyn_cast<InvokeInst>(&I)) l.tgt = {bm[iv->getNormalDest()], bm[iv->getUnwindDest()]};
        if (cb->isInlineAsm()) { l.op = O_Nop; if (l.n) FATAL("inline asm with result"); return push(); }
        Value* cv = cb->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        l.callee = dyn_cast<Function>(cv);
        if (!l.callee) l.a = opnd(cb->getCalledOperand());
        unsigned k = 0;
        for (auto& a : cb->args()) {
            if (a->getType()->isMetadataTy()) { l.args.push_back(0); l.argN.push_back(0); ++k; continue; }
            u16 n = (u16)slotsOf(a->getType()); l.args.push_back(opnd(a)); l.argN.push_back(n); l.argTotal += n;
            if (cb->isByValArgument(k)) { l.imm.push_back(k); l.imm.push_back(DL->getTypeAllocSize(cb->getParamByValType(k))); }
            ++k; }
        if (l.callee) { l.handler = findHandler(l.callee->getName()); }
        return push();
    }
    string s; raw_string_ostream os(s); I.print(os); FATAL("unsupported instruction %s", s.c_str());
}

// ------------------------------------------------------------------ state helpers
static inline SV& R(Frame& f, i32 i) { return i >= 0 ? f.r[i] : cpool[-i - 1]; }
static string where(State& s) {
    string r; int n = 0;
    for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; --i) {
        Frame& f = s.st[i]; if (f.pc >= f.bb->insts.size()) continue;
        const DebugLoc& dl = f.bb->insts[f.pc].I->getDebugLoc();
        string fn = demangle(f.f->F->getName().str()); if (fn.size() > 100) fn = fn.substr(0, 100) + "...";
        string loc; if (dl) { loc = " at " + dl->getFilename().str() + ":" + std::to_string(dl.getLine()); }
        r += (n ? " <- " : "") + fn + loc; ++n;
    }
    return r;
}
static void fillInputs(State& s, const Model& m, TestCase& t) { for (u32 v : s.inputs) t.in.push_back({g_vars[v].name, {g_vars[v].w, m.get(v)}}); }
static void report(State& s, const Model& m, const string& kind, const string& msg) {
    ++nViolPaths; string wh = where(s); string site = kind + "|" + msg + "|" + wh.substr(0, wh.find(" <- "));
    if (optVerbose) fprintf(stderr, "VIOL %s: %s\n   %s\n", kind.c_str(), msg.c_str(), wh.c_str());
    if (!violSites.insert(site).second) return;
    TestCase t; t.kind = kind; t.msg = msg; t.where = wh; fillInputs(s, m, t); violations.push_back(t);
    if ((int)violations.size() >= optMaxViol) { stopAll = true; stopWhy = "violations"; }
}
[[noreturn]] static void violate(State& s, const string& kind, const string& msg) { report(s, s.model, kind, msg); throw PathEnd{2}; }

static unordered_map<Expr*, vector<u32>> varCache;
static const vector<u32>& varsOf(Expr* e) { auto it = varCache.find(e); if (it != varCache.end()) return it->second; vector<u32> v; collectVars(e, v); return varCache[e] = v; }
static bool feasible(State& s, Expr* q, Model& out, Res& res) {
    // independence slice
    vector<char> inS(g_vars.size(), 0); vector<Expr*> cs{q}; for (u32 v : varsOf(q)) inS[v] = 1;
    vector<char> used(s.pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); ++i) if (!used[i]) { const auto& vs = varsOf(s.pc[i]); bool hit = false; for (u32 v : vs) if (inS[v]) { hit = true; break; } if (hit) { used[i] = 1; cs.push_back(s.pc[i]); for (u32 v : vs) if (!inS[v]) { inS[v] = 1; ch = true; } } } }
    out = s.model; res = solverCheck(cs, out);
    return res == Res::Sat;
}
static void learn(State& s, Expr* c) {
    auto k = std::make_shared<KnownMap>(); if (s.known) k->m = s.known->m;
    std::function<void(Expr*, bool)> add = [&](Expr* e, bool v) {
        if (e->isC()) return;
        if (v && e->k == K::And && e->w == 1) { add(e->a, true); add(e->b, true); return; }
        if (!v && e->k == K::Or && e->w == 1) { add(e->a, false); add(e->b, false); return; }
        if (e->w == 1 && e->k == K::Xor && e->b->isC()) { add(e->a, !v); return; }
        k->m[e] = mkConst(v, 1);
        if (v && e->k == K::Eq && e->b->isC()) {
            // decompose: zext/concat of the left side
            Expr* x = e->a; u128 c = e->b->val;
            k->m[x] = e->b; while (x->k == K::ZExt) { x = x->a; k->m[x] = mkConst(c, x->w); }
            if (x->k == K::Add && x->b->isC()) k->m[x->a] = mkConst(c - x->b->val, x->w);
            if (x->k == K::Mul && x->b->isC() && (x->b->val & 1)) { u128 inv = x->b->val; for (int i = 0; i < 7; ++i) inv *= 2 - x->b->val * inv; k->m[x->a] = mkConst(c * inv, x->w); }
        }
    };
    add(c, true); s.known = k;
}
static Expr* subst(KnownMap& k, Expr* e) {
    if (e->isC()) return e;
    auto it = k.memo.find(e); if (it != k.memo.end()) return it->second;
    Expr* r; auto im = k.m.find(e);
    if (im != k.m.end()) r = im->second;
    else if (e->k == K::Var) r = e;
    else {
        Expr* a = subst(k, e->a);
        if (e->k == K::Ite) { if (a->isC()) r = subst(k, a->val ? e->b : e->c); else { Expr* b = subst(k, e->b); Expr* c = subst(k, e->c); r = (a == e->a && b == e->b && c == e->c) ? e : mkIte(a, b, c); } }
        else {
            Expr* b = e->b ? subst(k, e->b) : nullptr; Expr* c = e->c ? subst(k, e->c) : nullptr;
            if (a == e->a && b == e->b && c == e->c) r = e;
            else switch (e->k) {
                case K::Add: r = mkAdd(a, b); break; case K::Mul: r = mkMul(a, b); break; case K::UDiv: r = mkUDiv(a, b); break; case K::SDiv: r = mkSDiv(a, b); break;
                case K::URem: r = mkURem(a, b); break; case K::SRem: r = mkSRem(a, b); break; case K::And: r = mkAnd(a, b); break; case K::Or: r = mkOr(a, b); break; case K::Xor: r = mkXor(a, b); break;
                case K::Shl: r = mkShl(a, b); break; case K::LShr: r = mkLShr(a, b); break; case K::AShr: r = mkAShr(a, b); break; case K::Eq: r = mkEq(a, b); break; case K::Ult: r = mkUlt(a, b); break;
                case K::Ule: r = mkUle(a, b); break; case K::Slt: r = mkSlt(a, b); break; case K::Sle: r = mkSle(a, b); break; case K::Concat: r = mkConcat(a, b); break;
                case K::Extract: r = mkExtract(a, e->lo, e->w); break; case K::ZExt: r = mkZExt(a, e->w); break; case K::SExt: r = mkSExt(a, e->w); break;
                default: r = mkF(e->k, e->w, a, b, c, e->aux);
            }
            if (r != e && !r->isC()) { auto i2 = k.m.find(r); if (i2 != k.m.end()) r = i2->second; }
        }
    }
    return k.memo[e] = r;
}
static Expr* simp(State& s, Expr* e) { if (e->isC() || !s.known) return e; return subst(*s.known, e); }
static void addPC(State& s, Expr* c) { if (c->isC()) return; s.pc.push_back(c); learn(s, c); }
static void fork(State& s, Expr* cond, const Model& m) { State* n = new State(s); n->model = m; addPC(*n, cond); ++nForks; ++n->forks; work.push_back(n); }
// decide a boolean; forks the other side (which re-executes the current instruction)
static bool decide(State& s, Expr* c0) {
    Expr* c = simp(s, c0); if (c->isC()) return c->val;
    bool v = evalE(c, s.model); Expr* oth = v ? mkNot(c) : c; Model m; Res r;
    if (feasible(s, oth, m, r)) { fork(s, oth, m); addPC(s, v ? c : mkNot(c)); }
    else { if (r == Res::Unknown) inconclusive("branch: solver gave up at " + where(s)); else learn(s, v ? c : mkNot(c)); }
    return v;
}
static u64 concretize(State& s, const SV& v, unsigned w) {
    if (!v.e) return v.c;
    Expr* e = simp(s, v.e); if (e->isC()) return (u64)e->val;
    u64 x = (u64)evalE(e, s.model); Expr* ne = mkNot(mkEq(e, mkConst(x, w))); Model m; Res r;
    if (feasible(s, ne, m, r)) { fork(s, ne, m); addPC(s, mkEq(e, mkConst(x, w))); }
    else { if (r == Res::Unknown) inconclusive("concretize: solver gave up at " + where(s)); learn(s, mkEq(e, mkConst(x, w))); }
    return x;
}
static void assumeC(State& s, Expr* c0) {
    Expr* c = simp(s, c0); if (c->isC()) { if (!c->val) throw PathEnd{1}; return; }
    if (evalE(c, s.model)) { addPC(s, c); return; }
    Model m; Res r; if (!feasible(s, c, m, r)) { if (r == Res::Unknown) inconclusive("assume: solver gave up"); throw PathEnd{1}; }
    s.model = m; addPC(s, c);
}
static void checkC(State& s, Expr* c0, const string& msg) {
    ++nChecks; Expr* c = simp(s, c0);
    if (c->isC()) { if (!c->val) violate(s, "check", msg); return; }
    ++nCheckQ;
    if (!evalE(c, s.model)) { report(s, s.model, "check", msg); assumeC(s, c); return; }
    Model m; Res r; if (feasible(s, mkNot(c), m, r)) { report(s, m, "check", msg); addPC(s, c); }
    else if (r == Res::Unknown) { inconclusive("check '" + msg + "': solver gave up"); addPC(s, c); }
    else learn(s, c);
}
// ------------------------------------------------------------------ memory access
static Obj* getObj(State& s, u32 id) {
    if (id >= DYN) { u32 i = id - DYN; return i < s.dyn.size() ? s.dyn[i].p : nullptr; }
    if (id == 0 || id >= gobjs.size()) return nullptr;
    auto it = s.gmod.find(id); if (it != s.gmod.end()) return it->second.p;
    return gobjs[id].p;
}
static Obj* getObjW(State& s, u32 id) {
    if (id >= DYN) { OP& o = s.dyn[id - DYN]; if (o->rc > 1) { Obj* n = new Obj(*o.p); n->rc = 0; o = OP(n); } return o.p; }
    auto it = s.gmod.find(id); if (it == s.gmod.end()) { Obj* n = new Obj(*gobjs[id].p); n->rc = 0; s.gmod[id] = OP(n); return n; }
    OP& o = it->second; if (o->rc > 1) { Obj* n = new Obj(*o.p); n->rc = 0; o = OP(n); } return o.p;
}
static u32 newObj(State& s, u64 size, OK kind, const char* name) {
    Obj* o = new Obj; o->kind = kind; o->name = name; o->c.assign(size, 0xAA); s.dyn.push_back(OP(o)); return DYN + (u32)s.dyn.size() - 1;
}
static string ptrDesc(State& s, u64 p) {
    u32 id = (u32)(p >> 32); i64 off = (i64)(u32)p - (i64)BASE; Obj* o = getObj(s, id); char b[256];
    if (!o) { snprintf(b, 256, "address 0x%llx (no object)", (unsigned long long)p); return b; }
    snprintf(b, 256, "offset %lld of %s object '%s' of size %llu%s", (long long)off, o->kind == K_Heap ? "heap" : o->kind == K_Stack ? "stack" : "global", o->name, (unsigned long long)o->size(), o->freed ? " (freed)" : ""); return b;
}
static void badAccess(State& s, u64 p, u64 n, bool write) { violate(s, "memory", string("invalid ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + ptrDesc(s, p)); }
struct Loc { u32 id; u64 off; Expr* soff; }; // soff: symbolic offset or null
static Loc locate(State& s, const SV& p0, u64 n, bool write) {
    SV p = p0; if (p.e) p = norm(simp(s, p.e));
    if (!p.e) {
        u32 id = (u32)(p.c >> 32); u64 off = (u64)(u32)p.c - BASE; Obj* o = getObj(s, id);
        if (!o || o->freed || o->kind == K_Func || off > o->size() || n > o->size() - off) badAccess(s, p.c, n, write);
        if (write && o->ro) violate(s, "memory", "write to constant object '" + string(o->name) + "'");
        if (o->kind == K_Opaque) FATAL("access to external global %s", o->name);
        return {id, off, nullptr};
    }
    u64 pv = (u64)evalE(p.e, s.model); u32 id = (u32)(pv >> 32); u64 off = (u64)(u32)pv - BASE; Obj* o = getObj(s, id);
    if (!o || o->freed || o->kind == K_Func || off > o->size() || n > o->size() - off) badAccess(s, pv, n, write);
    if (o->kind == K_Opaque) FATAL("access to external global %s", o->name);
    Expr* so = mkSub(p.e, mkConst(addrOf(id), 64));
    Expr* in = mkUle(so, mkConst(o->size() - n, 64));
    Expr* si = simp(s, in);
    if (!si->isC()) { Model m; Res r; Expr* ni = mkNot(si);
        if (feasible(s, ni, m, r)) { fork(s, ni, m); addPC(s, si); } else if (r == Res::Unknown) inconclusive("address: solver gave up"); else learn(s, si); }
    if (write && o->ro) violate(s, "memory", "write to constant object '" + string(o->name) + "'");
    so = simp(s, so); if (so->isC()) return {id, (u64)so->val, nullptr};
    return {id, 0, so};
}
static Expr* byteE(Obj* o, u64 i) { if (!o->s.empty() && o->s[i]) return o->s[i]; return mkConst(o->c[i], 8); }
static SV readC(Obj* o, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) if (o->s[off + i]) { sym = true; break; }
    if (!sym && n <= 8) { u64 v = 0; memcpy(&v, &o->c[off], n); return SV{v & mask64(w), nullptr}; }
    Expr* r = byteE(o, off); for (unsigned i = 1; i < n; ++i) r = mkConcat(byteE(o, off + i), r);
    if (r->w != w) r = mkTrunc(r, w);
    return norm(r);
}
static void writeC(Obj* o, u64 off, unsigned w, const SV& v) {
    unsigned n = (w + 7) / 8;
    if (!v.e) { u64 x = v.c; for (unsigned i = 0; i < n; ++i) { o->c[off + i] = (u8)(i < 8 ? x >> (8 * i) : 0); } if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i] = nullptr; return; }
    Expr* e = v.e; if (e->w != 8 * n) e = mkZExt(e, 8 * n);
    if (o->s.empty()) o->s.assign(o->c.size(), nullptr);
    for (unsigned i = 0; i < n; ++i) { Expr* b = mkExtract(e, 8 * i, 8); if (b->isC()) { o->c[off + i] = (u8)b->val; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
static unsigned tz(Expr* e) {
    switch (e->k) {
        case K::Const: { if (!e->val) return e->w; unsigned n = 0; while (!((e->val >> n) & 1)) ++n; return n; }
        case K::Concat: { unsigned t = tz(e->b); return t < e->b->w ? t : t + tz(e->a); }
        case K::Add: case K::Or: case K::Xor: return std::min(tz(e->a), tz(e->b));
        case K::And: return std::max(tz(e->a), tz(e->b));
        case K::Mul: return std::min<unsigned>(e->w, tz(e->a) + tz(e->b));
        case K::Ite: return std::min(tz(e->b), tz(e->c));
        case K::ZExt: case K::SExt: { unsigned t = tz(e->a); return t == e->a->w ? e->w : t; }
        default: return 0;
    }
}
static u64 oddStride(Expr* e) { // e = x * k (+ c)?  returns k (stride) for offset expressions of the form x*k, else 2^tz
    if (e->k == K::Mul && e->b->isC()) return (u64)e->b->val;
    if (e->k == K::ZExt) return oddStride(e->a);
    if (e->k == K::Concat && e->b->isC() && e->b->val == 0) return oddStride(e->a) << e->b->w;
    return (u64)1 << std::min(tz(e), 62u);
}
static Expr* mux(Obj* o, Expr* so, const vector<u64>& offs, size_t lo, size_t hi, unsigned w, unsigned fo) {
    if (hi - lo == 1) return toE(readC(o, offs[lo] + fo, w), w);
    size_t mid = (lo + hi) / 2; Expr* l = mux(o, so, offs, lo, mid, w, fo); Expr* r = mux(o, so, offs, mid, hi, w, fo);
    if (l == r) return l;
    return mkIte(mkUlt(so, mkConst(offs[mid], 64)), l, r);
}
static bool strideOk(Expr* so, u64 st, u64 base) { // multiplication may wrap: only trust power-of-two strides or provable ranges
    if ((st & (st - 1)) == 0) return true;
    return false; (void)so; (void)base;
}
static bool candidates(State& s, Obj* o, Expr* so, u64 n, size_t limit, vector<u64>& offs) {
    u64 lo = so->umin, hi = std::min<u64>(so->umax, o->size() - n);
    unsigned t = std::min(tz(so), 62u); u64 st = (u64)1 << t;
    // so = C + x where C constant: alignment of (so - C)
    u64 rem = 0; if (so->k == K::Add && so->b->isC()) { unsigned t2 = std::min(tz(so->a), 62u); if (t2 > t) { st = (u64)1 << t2; rem = (u64)so->b->val & (st - 1); } }
    if (lo % st != rem) { u64 d = (rem + st - lo % st) % st; lo += d; }
    if (lo > hi) return true;
    if ((hi - lo) / st + 1 > limit) return false;
    for (u64 x = lo; x <= hi; x += st) offs.push_back(x);
    return true;
}
static SV readAt(State& s, const Loc& L, unsigned fo, unsigned w, u64 total) {
    Obj* o = getObj(s, L.id);
    if (!L.soff) return readC(o, L.off + fo, w);
    vector<u64> offs; bool cg = o->kind == K_Global && o->ro;
    if (!candidates(s, o, L.soff, total, cg ? 4096 : 128, offs)) { u64 v = concretize(s, SV{0, L.soff}, 64); return readC(o, v + fo, w); }
    if (offs.empty()) throw PathEnd{1};
    return norm(mux(o, L.soff, offs, 0, offs.size(), w, fo));
}
static void writeAt(State& s, Loc& L, unsigned fo, unsigned w, const SV& v, u64 total) {
    if (L.soff) {
        Obj* o = getObj(s, L.id); vector<u64> offs;
        if (!candidates(s, o, L.soff, total, 32, offs)) { L.off = concretize(s, SV{0, L.soff}, 64); L.soff = nullptr; }
        else { o = getObjW(s, L.id); for (u64 x : offs) { SV old = readC(o, x + fo, w); writeC(o, x + fo, w, norm(mkIte(mkEq(L.soff, mkConst(x, 64)), toE(v, w), toE(old, w)))); } return; }
    }
    writeC(getObjW(s, L.id), L.off + fo, w, v);
}
static u64 ptrConc(State& s, const SV& p) { return concretize(s, p, 64); }
static Loc locC(State& s, u64 p, u64 n, bool w) { return locate(s, SV{p, nullptr}, n, w); }
static void memCopy(State& s, u64 d, u64 src, u64 n) {
    if (!n) return; Loc a = locC(s, src, n, false), b = locC(s, d, n, true);
    Obj* so = getObj(s, a.id); OP hold(so); Obj* dobj = getObjW(s, b.id);
    if (!so->s.empty() || !dobj->s.empty()) {
        vector<Expr*> t(n, nullptr); if (!so->s.empty()) for (u64 i = 0; i < n; ++i) t[i] = so->s[a.off + i];
        if (dobj->s.empty()) { bool any = false; for (Expr* x : t) if (x) any = true; if (any) dobj->s.assign(dobj->c.size(), nullptr); }
        if (!dobj->s.empty()) for (u64 i = 0; i < n; ++i) dobj->s[b.off + i] = t[i];
    }
    memmove(&dobj->c[b.off], &so->c[a.off], n);
}
static string readStr(State& s, u64 p) { string r; for (;;) { Loc l = locC(s, p, 1, false); Obj* o = getObj(s, l.id); if (!o->s.empty() && o->s[l.off]) FATAL("symbolic string"); char c = (char)o->c[l.off]; if (!c) return r; r += c; ++p; if (r.size() > 4096) return r; } }

// ------------------------------------------------------------------ calls
static void jump(State& s, Frame& f, LBlock* to) {
    LBlock* from = f.bb; 
    if (!to->phis.empty()) {
        static vector<SV> tmp; tmp.clear();
        for (auto& p : to->phis) { i32 src = 0; bool ok = false; for (auto& q : p.in) if (q.first == from) { src = q.second; ok = true; break; } if (!ok) FATAL("phi"); for (u32 k = 0; k < p.n; ++k) tmp.push_back(src >= 0 ? f.r[src + k] : cpool[-src - 1 + k]); }
        size_t i = 0; for (auto& p : to->phis) for (u32 k = 0; k < p.n; ++k) f.r[p.dst + k] = tmp[i++];
    }
    f.prev = from; f.bb = to; f.pc = 0;
}
static void pushFrame(State& s, LFunc* lf, const SV* args, u32 n, bool call) {
    if (s.st.size() > 3000) violate(s, "stack", "unbounded recursion");
    s.st.emplace_back(); Frame& f = s.st.back(); f.f = lf; f.bb = lf->blocks[0].get(); f.pc = 0; f.prev = nullptr; f.call = call; f.r.assign(lf->nslots, SV{0, nullptr}); ++lf->calls;
    for (u32 i = 0; i < n && i < lf->nparams; ++i) f.r[i] = args[i];
}
static void popFrame(State& s) {
    Frame& f = s.st.back(); for (u32 id : f.allocas) { OP& o = s.dyn[id - DYN]; Obj* n = new Obj; n->kind = K_Stack; n->name = o->name; n->freed = true; o = OP(n); }
    s.st.pop_back();
    while (!s.dyn.empty() && s.dyn.back()->freed && s.dyn.back()->kind == K_Stack) s.dyn.pop_back();
}
// ---- typeinfo
static string symName(u64 addr) { u32 id = (u32)(addr >> 32); if (id && id < gobjs.size()) return gobjs[id]->name; return ""; }
static u64 globalByName(const string& n) { if (GlobalValue* g = M->getNamedValue(n)) return globalAddr(g); auto it = extid.find(n); if (it != extid.end()) return addrOf(it->second); u32 id = newGlobalId(); Obj* o = new Obj; o->kind = K_Opaque; o->name = strdup(n.c_str()); o->c.assign(512, 0); gobjs[id] = OP(o); extid[n] = id; return addrOf(id); }
// bases of a typeinfo: (typeinfo address, offset)
static void tiBases(u64 ti, vector<pair<u64, i64>>& out) {
    u32 id = (u32)(ti >> 32); GlobalVariable* g = id < gvar.size() ? gvar[id] : nullptr;
    if (!g || !g->hasInitializer()) return;
    Obj* o = gobjs[id].p; u64 vt = readC(o, 0, 64).c; string k = symName(vt);
    if (k.find("__si_class_type_info") != string::npos) out.push_back({readC(o, 16, 64).c, 0});
    else if (k.find("__vmi_class_type_info") != string::npos) { u32 n = (u32)readC(o, 20, 32).c; for (u32 i = 0; i < n; ++i) { u64 b = readC(o, 24 + 16 * i, 64).c; i64 fl = (i64)readC(o, 32 + 16 * i, 64).c; if (fl & 1) continue; out.push_back({b, fl >> 8}); } }
}
static bool tiDerives(u64 ti, u64 base, i64& off) { if (ti == base) { off = 0; return true; } if (!symName(ti).empty() && symName(ti) == symName(base)) { off = 0; return true; } vector<pair<u64, i64>> b; tiBases(ti, b); for (auto& p : b) { i64 o; if (tiDerives(p.first, base, o)) { off = o + p.second; return true; } } return false; }
static map<u64, int> tidIds; static int tidOf(u64 ti) { auto it = tidIds.find(ti); if (it != tidIds.end()) return it->second; int n = (int)tidIds.size() + 1; tidIds[ti] = n; return n; }
static bool lpMatch(LandingPadInst* lp, u64 ti, int& sel, bool& catches) {
    sel = 0; catches = false;
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (!lp->isCatch(i)) { // filter
            sel = -1; catches = true; return true; }
        Constant* c = lp->getClause(i);
        if (isa<ConstantPointerNull>(c)) { sel = tidOf(0); catches = true; return true; }
        u64 t = globalAddr(cast<GlobalValue>(c->stripPointerCasts())); i64 off;
        if (tiDerives(ti, t, off)) { sel = tidOf(t); catches = true; return true; }
        // pointer/fundamental types: only exact match
    }
    return lp->isCleanup();
}
static void unwind(State& s, u64 exc) {
    u64 ti = s.excs[exc].ti; int sel; bool catches;
    // phase 1
    bool found = false;
    for (int i = (int)s.st.size() - 1; i >= 0 && !found; --i) { Frame& f = s.st[i]; if (f.pc >= f.bb->insts.size()) continue; LInst& I = f.bb->insts[f.pc]; if (I.op == O_Invoke && (i == (int)s.st.size() - 1 || s.st[i + 1].call)) { auto* lp = I.tgt[1]->bb->getLandingPadInst(); if (lpMatch(lp, ti, sel, catches) && catches) found = true; } }
    if (!found) violate(s, "exception", "uncaught exception of type " + demangle(symName(ti)));
    for (;;) {
        Frame& f = s.st.back(); LInst& I = f.bb->insts[f.pc];
        if (I.op == O_Invoke) {
            auto* lp = I.tgt[1]->bb->getLandingPadInst();
            if (lpMatch(lp, ti, sel, catches)) {
                jump(s, f, I.tgt[1]);
                // landingpad is the first instruction after phis (maybe after debug)
                u32 k = 0; while (f.bb->insts[k].op != O_LandingPad) ++k;
                f.r[f.bb->insts[k].dst] = SV{exc, nullptr}; f.r[f.bb->insts[k].dst + 1] = SV{(u32)sel, nullptr}; f.pc = k + 1; return;
            }
        }
        popFrame(s); if (s.st.empty()) violate(s, "exception", "uncaught exception");
    }
}
static void callFn(State& s, const string& name, vector<SV> args) { Function* F = M->getFunction(name); if (!F || F->isDeclaration()) FATAL("missing runtime function %s", name.c_str()); pushFrame(s, lower(F), args.data(), (u32)args.size(), false); }

// ------------------------------------------------------------------ handlers for external functions and intrinsics
struct HCtx { State& s; Frame& f; LInst& I; bool advance = true; bool jumped = false;
    SV arg(unsigned i) { return R(f, I.args[i]); }
    void ret(const SV& v) { if (I.n) f.r[I.dst] = v; }
    unsigned w(unsigned i) { return widthOf(cast<CallBase>(I.I)->getArgOperand(i)->getType()); } };
typedef void (*Handler)(HCtx&);
static vector<pair<string, Handler>> hTable; static unordered_map<string, int> hIndex; static vector<pair<string, Handler>> hPrefix;
static int findHandler(StringRef name) { string n = name.str(); auto it = hIndex.find(n); if (it != hIndex.end()) return it->second;
    for (size_t i = 0; i < hPrefix.size(); ++i) if (n.compare(0, hPrefix[i].first.size(), hPrefix[i].first) == 0) { hTable.push_back({n, hPrefix[i].second}); int k = (int)hTable.size() - 1; hIndex[n] = k; return k; }
    return -1; }
static Expr* A(HCtx& h, unsigned i) { return toE(h.arg(i), h.w(i)); }
static SV doAlloc(State& s, u64 n, const char* nm, u8 fn) { u32 id = newObj(s, n, K_Heap, nm); getObjW(s, id)->allocFn = fn; return SV{addrOf(id), nullptr}; }
static const u64 ALLOC_LIMIT = 1 << 24;
static bool allocSize(HCtx& h, const SV& v, u64& n) { // false: too large
    if (v.e) { if (!decide(h.s, mkUle(v.e, mkConst(ALLOC_LIMIT, 64)))) return false; n = concretize(h.s, v, 64); } else n = v.c;
    return n <= ALLOC_LIMIT; }
static void doFree(HCtx& h, const SV& p0, u8 fn) {
    u64 p = ptrConc(h.s, p0); if (!p) return; u32 id = (u32)(p >> 32); Obj* o = getObj(h.s, id);
    if (!o || o->kind != K_Heap || (u32)p != BASE) violate(h.s, "memory", "free of invalid pointer: " + ptrDesc(h.s, p));
    if (o->freed) violate(h.s, "memory", "double free: " + ptrDesc(h.s, p));
    if (o->allocFn != fn) violate(h.s, "memory", "mismatched allocation/deallocation functions");
    Obj* n = new Obj; n->kind = K_Heap; n->name = o->name; n->freed = true; h.s.dyn[id - DYN] = OP(n);
}
static string symNameOf(HCtx& h, unsigned i) { return readStr(h.s, ptrConc(h.s, h.arg(i))); }
static Expr* newVar(State& s, const string& nm, unsigned w) { Expr* e = mkVar(nm, w); s.inputs.push_back(e->lo); return e; }
static string occ(State& s, const string& nm) { int k = s.names[nm]++; return nm + "#" + std::to_string(k); }
static void binOvf(HCtx& h, bool sg, int op) {
    unsigned w = h.w(0); Frame& f = h.f; u32 n = h.I.n / 2;
    if (n != 1) FATAL("vector overflow intrinsic");
    SV a = h.arg(0), b = h.arg(1);
    Expr* x = toE(a, w); Expr* y = toE(b, w); Expr* r; Expr* o;
    if (op == 0) { r = mkAdd(x, y); if (sg) { // overflow iff sign(x)==sign(y) != sign(r)
            Expr* sx = mkExtract(x, w - 1, 1); Expr* sy = mkExtract(y, w - 1, 1); Expr* sr = mkExtract(r, w - 1, 1); o = mkAnd(mkEq(sx, sy), mkNot(mkEq(sx, sr)));
            if (y->isC()) o = sgn(y->val, w) >= 0 ? mkSlt(mkConst((maskw(w) >> 1) - y->val, w), x) : mkSlt(x, mkConst(((u128)1 << (w - 1)) - y->val, w)); }
        else o = mkUlt(r, x); }
    else if (op == 1) { r = mkSub(x, y); if (sg) { Expr* sx = mkExtract(x, w - 1, 1); Expr* sy = mkExtract(y, w - 1, 1); Expr* sr = mkExtract(r, w - 1, 1); o = mkAnd(mkNot(mkEq(sx, sy)), mkNot(mkEq(sx, sr))); } else o = mkUlt(x, y); }
    else { r = mkMul(x, y);
        if (w <= 64) { Expr* X = sg ? mkSExt(x, 2 * w) : mkZExt(x, 2 * w); Expr* Y = sg ? mkSExt(y, 2 * w) : mkZExt(y, 2 * w); Expr* P = mkMul(X, Y); 
            if (sg) o = mkNot(mkEq(P, mkSExt(mkTrunc(P, w), 2 * w))); else o = mkNot(mkEq(mkExtract(P, w, w), mkConst(0, w))); }
        else if (x->isC() && y->isC()) { bool ov; if (sg) { i128 t; ov = __builtin_mul_overflow(sgn(x->val, w), sgn(y->val, w), &t); if (!ov && w < 128) ov = sgn((u128)t & maskw(w), w) != t; }
            else { u128 t; ov = __builtin_mul_overflow(x->val, y->val, &t); if (!ov && w < 128) ov = (t & maskw(w)) != t; } o = mkConst(ov, 1); }
        else { auto fitsHalf = [&](Expr* e) { if (e->isC()) return sg ? sgn(e->val, w) == (i128)(i64)(u64)e->val : (e->val >> 64) == 0; if (e->k == K::ZExt) return sg ? e->a->w < 64 : e->a->w <= 64; if (e->k == K::SExt) return sg && e->a->w <= 64; return false; };
            if (w == 128 && fitsHalf(x) && fitsHalf(y)) o = mkConst(0, 1); else FATAL("wide mul overflow"); } }
    f.r[h.I.dst] = norm(r); f.r[h.I.dst + 1] = norm(o);
}
static Expr* ctpopE(Expr* x) { unsigned w = x->w; Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), w)); if (!r->isC()) g_popOf[r] = x; return r; }
static Expr* cttzE(Expr* x) { unsigned w = x->w; Expr* r = mkConst(w, w); for (int i = (int)w - 1; i >= 0; --i) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); return r; }
static Expr* ctlzE(Expr* x) { unsigned w = x->w; Expr* r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); return r; }
static Expr* fcmpE(unsigned pred, Expr* a, Expr* b) {
    auto C = [&](FP p, Expr* x, Expr* y) { return mkF(K::FCmp, 1, x, y, nullptr, p); };
    switch (pred) {
        case CmpInst::FCMP_FALSE: return mkConst(0, 1); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
        case CmpInst::FCMP_OEQ: return C(F_OEQ, a, b); case CmpInst::FCMP_OGT: return C(F_OLT, b, a); case CmpInst::FCMP_OGE: return C(F_OLE, b, a);
        case CmpInst::FCMP_OLT: return C(F_OLT, a, b); case CmpInst::FCMP_OLE: return C(F_OLE, a, b); case CmpInst::FCMP_ONE: return mkOr(C(F_OLT, a, b), C(F_OLT, b, a));
        case CmpInst::FCMP_ORD: return mkNot(C(F_UNO, a, b)); case CmpInst::FCMP_UNO: return C(F_UNO, a, b);
        case CmpInst::FCMP_UEQ: return mkOr(C(F_UNO, a, b), C(F_OEQ, a, b)); case CmpInst::FCMP_UGT: return mkNot(C(F_OLE, a, b)); case CmpInst::FCMP_UGE: return mkNot(C(F_OLT, a, b));
        case CmpInst::FCMP_ULT: return mkNot(C(F_OLE, b, a)); case CmpInst::FCMP_ULE: return mkNot(C(F_OLT, b, a)); default: return mkNot(C(F_OEQ, a, b));
    }
}
template<class Fn> static void mapN(HCtx& h, Fn fn) { unsigned w = h.I.w; for (u32 i = 0; i < h.I.n; ++i) { auto g = [&](unsigned k) { i32 o = h.I.args[k]; return toE(o >= 0 ? h.f.r[o + i] : cpool[-o - 1 + (h.I.argN[k] > 1 ? i : 0)], h.w(k)); }; h.f.r[h.I.dst + i] = norm(fn(g, w)); } }
static u64 fpBits(double d) { u64 x; memcpy(&x, &d, 8); return x; }
template<class F64, class F32> static void libm1(HCtx& h, F64 f64, F32 f32) {
    SV a = h.arg(0); unsigned w = h.I.w; if (a.e && w <= 64) { u64 v = concretize(h.s, a, w); a = SV{v, nullptr}; }
    if (w == 64) { double d; memcpy(&d, &a.c, 8); h.ret(SV{fpBits(f64(d)), nullptr}); } else if (w == 32) { float d; u32 x = (u32)a.c; memcpy(&d, &x, 4); d = f32(d); memcpy(&x, &d, 4); h.ret(SV{x, nullptr}); } else FATAL("libm long double");
}
template<class F64, class F32> static void libm2(HCtx& h, F64 f64, F32 f32) {
    SV a = h.arg(0), b = h.arg(1); unsigned w = h.I.w; if (w > 64) FATAL("libm long double"); if (a.e) a = SV{concretize(h.s, a, w), nullptr}; if (b.e) b = SV{concretize(h.s, b, w), nullptr};
    if (w == 64) { double d, e; memcpy(&d, &a.c, 8); memcpy(&e, &b.c, 8); h.ret(SV{fpBits(f64(d, e)), nullptr}); } else { float d, e; u32 x = (u32)a.c, y = (u32)b.c; memcpy(&d, &x, 4); memcpy(&e, &y, 4); d = f32(d, e); memcpy(&x, &d, 4); h.ret(SV{x, nullptr}); }
}
#define LIBM1(nm) H(#nm, [](HCtx& h) { libm1(h, [](double x) { return ::nm(x); }, [](float x) { return ::nm##f(x); }); }); H(#nm "f", [](HCtx& h) { libm1(h, [](double x) { return ::nm(x); }, [](float x) { return ::nm##f(x); }); }); P("llvm." #nm ".", [](HCtx& h) { libm1(h, [](double x) { return ::nm(x); }, [](float x) { return ::nm##f(x); }); })
static void H(const string& n, Handler f) { hTable.push_back({n, f}); hIndex[n] = (int)hTable.size() - 1; }
static void P(const string& n, Handler f) { hPrefix.push_back({n, f}); }
static void frnd(HCtx& h, u8 mode) { mapN(h, [&](auto g, unsigned w) { return mkF(K::FRound, w, g(0), nullptr, nullptr, mode); }); }
static void memcmpH(HCtx& h, bool bcmp) {
    u64 n = concretize(h.s, h.arg(2), 64); u64 p = ptrConc(h.s, h.arg(0)), q = ptrConc(h.s, h.arg(1));
    if (!n) { h.ret(SV{0, nullptr}); return; }
    Loc a = locC(h.s, p, n, false), b = locC(h.s, q, n, false); Obj *x = getObj(h.s, a.id), *y = getObj(h.s, b.id);
    Expr* r = mkConst(0, 32);
    for (u64 i = n; i-- > 0;) { Expr* u = byteE(x, a.off + i); Expr* v = byteE(y, b.off + i); Expr* eq = mkEq(u, v); r = bcmp ? mkIte(eq, r, mkConst(1, 32)) : mkIte(eq, r, mkIte(mkUlt(u, v), mkConst(0xffffffff, 32), mkConst(1, 32))); }
    h.ret(norm(r));
}
static u64 dynCast(State& s, u64 obj, u64 dst) {
    Loc l = locC(s, obj, 8, false); u64 vp = readC(getObj(s, l.id), l.off, 64).c; Loc v = locC(s, vp - 16, 16, false); Obj* vo = getObj(s, v.id); i64 top = (i64)readC(vo, v.off, 64).c; u64 ti = readC(vo, v.off + 8, 64).c; i64 off;
    if (!tiDerives(ti, dst, off)) return 0; return obj + top + off;
}
static void initHandlers() {
    // --- harness API
    H("irsym_bits", [](HCtx& h) { string nm = occ(h.s, symNameOf(h, 0)); unsigned n = (unsigned)concretize(h.s, h.arg(1), 32); Expr* e = newVar(h.s, nm, n); h.ret(norm(mkZExt(e, 64))); });
    H("irsym_bytes", [](HCtx& h) { u64 p = ptrConc(h.s, h.arg(0)); u64 n = concretize(h.s, h.arg(1), 64); string base = symNameOf(h, 2); if (!n) return; Loc l = locC(h.s, p, n, true); string nm = occ(h.s, base); Obj* o = getObjW(h.s, l.id);
        for (u64 i = 0; i < n; ++i) writeC(o, l.off + i, 8, SV{0, newVar(h.s, nm + "[" + std::to_string(i) + "]", 8)}); });
    H("irsym_assume", [](HCtx& h) { assumeC(h.s, mkTrunc(A(h, 0), 1)); });
    H("irsym_check", [](HCtx& h) { checkC(h.s, mkTrunc(A(h, 0), 1), symNameOf(h, 1)); });
    H("irsym_fail", [](HCtx& h) { ++nChecks; violate(h.s, "check", symNameOf(h, 0)); });
    H("irsym_cover", [](HCtx& h) { covers.insert(symNameOf(h, 0)); });
    H("irsym_observe", [](HCtx& h) { SV v = h.arg(1); h.s.obs.push_back({symNameOf(h, 0), {v.e, v.c}}); });
    H("irsym_concretize", [](HCtx& h) { h.ret(SV{concretize(h.s, h.arg(0), 64), nullptr}); });
    H("irsym_param", [](HCtx& h) { auto it = params.find(symNameOf(h, 0)); h.ret(it == params.end() ? h.arg(1) : SV{(u64)it->second & mask64(32), nullptr}); });
    H("irsym_stop", [](HCtx& h) { throw PathEnd{0}; });
    H("irsym_print", [](HCtx& h) { SV v = h.arg(1); fprintf(stderr, "[print] %s = %s\n", symNameOf(h, 0).c_str(), v.e ? exprStr(simp(h.s, v.e)).c_str() : std::to_string(v.c).c_str()); });
    H("irsym_live_heap", [](HCtx& h) { u64 n = 0; for (auto& o : h.s.dyn) if (o->kind == K_Heap && !o->freed && o->allocFn != 9) ++n; h.ret(SV{n, nullptr}); });
    H("irsym_valid_range", [](HCtx& h) { u64 p = ptrConc(h.s, h.arg(0)), n = concretize(h.s, h.arg(1), 64); if (n) locC(h.s, p, n, false); });
    // --- memory
    auto mcp = [](HCtx& h) { u64 n = concretize(h.s, h.arg(2), h.w(2)); u64 d = ptrConc(h.s, h.arg(0)), s = ptrConc(h.s, h.arg(1)); if (n) memCopy(h.s, d, s, n); if (h.I.n) h.ret(SV{d, nullptr}); };
    P("llvm.memcpy.", mcp); P("llvm.memmove.", mcp); H("memcpy", mcp); H("memmove", mcp);
    auto mset = [](HCtx& h) { u64 n = concretize(h.s, h.arg(2), h.w(2)); u64 d = ptrConc(h.s, h.arg(0)); if (n) { Loc l = locC(h.s, d, n, true); Obj* o = getObjW(h.s, l.id); SV v = norm(mkTrunc(A(h, 1), 8)); if (!v.e) { memset(&o->c[l.off], (int)v.c, n); if (!o->s.empty()) std::fill(o->s.begin() + l.off, o->s.begin() + l.off + n, nullptr); } else for (u64 i = 0; i < n; ++i) writeC(o, l.off + i, 8, v); } if (h.I.n) h.ret(SV{d, nullptr}); };
    P("llvm.memset.", mset); H("memset", mset);
    H("memcmp", [](HCtx& h) { memcmpH(h, false); }); H("bcmp", [](HCtx& h) { memcmpH(h, true); });
    H("strlen", [](HCtx& h) { u64 p = ptrConc(h.s, h.arg(0)); for (u64 i = 0;; ++i) { Loc l = locC(h.s, p + i, 1, false); if (decide(h.s, mkEq(byteE(getObj(h.s, l.id), l.off), mkConst(0, 8)))) { h.ret(SV{i, nullptr}); return; } } });
    H("memchr", [](HCtx& h) { u64 p = ptrConc(h.s, h.arg(0)); u64 n = concretize(h.s, h.arg(2), 64); Expr* c = mkTrunc(A(h, 1), 8); for (u64 i = 0; i < n; ++i) { Loc l = locC(h.s, p + i, 1, false); if (decide(h.s, mkEq(byteE(getObj(h.s, l.id), l.off), c))) { h.ret(SV{p + i, nullptr}); return; } } h.ret(SV{0, nullptr}); });
    auto nw = [](HCtx& h) { u64 n; bool al = h.I.callee->getName().contains("St11align_val_t"); bool arr = h.I.callee->getName().starts_with("_Zna"); if (!allocSize(h, h.arg(0), n)) { h.advance = false; h.jumped = true; callFn(h.s, "irsym_rt_throw_bad_alloc", {}); h.s.st.back().call = true; return; } h.ret(doAlloc(h.s, n, "new", arr ? 2 : 1)); (void)al; };
    for (const char* n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) H(n, nw);
    auto nwn = [](HCtx& h) { u64 n; bool arr = h.I.callee->getName().starts_with("_Zna"); if (!allocSize(h, h.arg(0), n)) { h.ret(SV{0, nullptr}); return; } h.ret(doAlloc(h.s, n, "new", arr ? 2 : 1)); };
    H("_ZnwmRKSt9nothrow_t", nwn); H("_ZnamRKSt9nothrow_t", nwn);
    H("malloc", [](HCtx& h) { u64 n; if (!allocSize(h, h.arg(0), n)) { h.ret(SV{0, nullptr}); return; } h.ret(doAlloc(h.s, n, "malloc", 3)); });
    H("calloc", [](HCtx& h) { u64 n = concretize(h.s, h.arg(0), 64) * concretize(h.s, h.arg(1), 64); SV p = doAlloc(h.s, n, "calloc", 3); Obj* o = getObjW(h.s, (u32)(p.c >> 32)); std::fill(o->c.begin(), o->c.end(), 0); h.ret(p); });
    H("realloc", [](HCtx& h) { u64 p = ptrConc(h.s, h.arg(0)); u64 n; if (!allocSize(h, h.arg(1), n)) { h.ret(SV{0, nullptr}); return; } SV q = doAlloc(h.s, n, "malloc", 3); if (p) { Obj* o = getObj(h.s, (u32)(p >> 32)); if (!o) violate(h.s, "memory", "realloc of invalid pointer"); memCopy(h.s, q.c, p, std::min<u64>(n, o->size())); doFree(h, SV{p, nullptr}, 3); } h.ret(q); });
    H("free", [](HCtx& h) { doFree(h, h.arg(0), 3); });
    for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) H(n, [](HCtx& h) { doFree(h, h.arg(0), 1); });
    for (const char* n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) H(n, [](HCtx& h) { doFree(h, h.arg(0), 2); });
    // --- integer intrinsics
    P("llvm.sadd.with.overflow.", [](HCtx& h) { binOvf(h, true, 0); }); P("llvm.uadd.with.overflow.", [](HCtx& h) { binOvf(h, false, 0); });
    P("llvm.ssub.with.overflow.", [](HCtx& h) { binOvf(h, true, 1); }); P("llvm.usub.with.overflow.", [](HCtx& h) { binOvf(h, false, 1); });
    P("llvm.smul.with.overflow.", [](HCtx& h) { binOvf(h, true, 2); }); P("llvm.umul.with.overflow.", [](HCtx& h) { binOvf(h, false, 2); });
    P("llvm.uadd.sat.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { Expr* r = mkAdd(g(0), g(1)); return mkIte(mkUlt(r, g(0)), mkConst(maskw(w), w), r); }); });
    P("llvm.usub.sat.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { return mkIte(mkUlt(g(0), g(1)), mkConst(0, w), mkSub(g(0), g(1))); }); });
    P("llvm.umin.", [](HCtx& h) { mapN(h, [](auto g, unsigned) { return mkIte(mkUlt(g(0), g(1)), g(0), g(1)); }); });
    P("llvm.umax.", [](HCtx& h) { mapN(h, [](auto g, unsigned) { return mkIte(mkUlt(g(1), g(0)), g(0), g(1)); }); });
    P("llvm.smin.", [](HCtx& h) { mapN(h, [](auto g, unsigned) { return mkIte(mkSlt(g(0), g(1)), g(0), g(1)); }); });
    P("llvm.smax.", [](HCtx& h) { mapN(h, [](auto g, unsigned) { return mkIte(mkSlt(g(1), g(0)), g(0), g(1)); }); });
    P("llvm.abs.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { return mkIte(mkSlt(g(0), mkConst(0, w)), mkNeg(g(0)), g(0)); }); });
    P("llvm.ctpop.", [](HCtx& h) { mapN(h, [](auto g, unsigned) { return ctpopE(g(0)); }); });
    P("llvm.cttz.", [](HCtx& h) { mapN(h, [](auto g, unsigned) { return cttzE(g(0)); }); });
    P("llvm.ctlz.", [](HCtx& h) { mapN(h, [](auto g, unsigned) { return ctlzE(g(0)); }); });
    P("llvm.bswap.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { Expr* x = g(0); Expr* r = mkExtract(x, w - 8, 8); for (int i = (int)w - 16; i >= 0; i -= 8) r = mkConcat(mkExtract(x, i, 8), r); return r; }); });
    P("llvm.bitreverse.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { Expr* x = g(0); Expr* r = mkExtract(x, w - 1, 1); for (int i = (int)w - 2; i >= 0; --i) r = mkConcat(mkExtract(x, i, 1), r); return r; }); });
    P("llvm.fshl.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { Expr* s = mkURem(g(2), mkConst(w, w)); Expr* z = mkEq(s, mkConst(0, w)); return mkIte(z, g(0), mkOr(mkShl(g(0), s), mkLShr(g(1), mkSub(mkConst(w, w), s)))); }); });
    P("llvm.fshr.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { Expr* s = mkURem(g(2), mkConst(w, w)); Expr* z = mkEq(s, mkConst(0, w)); return mkIte(z, g(1), mkOr(mkLShr(g(1), s), mkShl(g(0), mkSub(mkConst(w, w), s)))); }); });
    P("llvm.expect.", [](HCtx& h) { h.ret(h.arg(0)); });
    P("llvm.is.constant.", [](HCtx& h) { h.ret(SV{0, nullptr}); });
    P("llvm.objectsize.", [](HCtx& h) { h.ret(SV{~0ull, nullptr}); });
    P("llvm.launder.invariant.group", [](HCtx& h) { h.ret(h.arg(0)); }); P("llvm.strip.invariant.group", [](HCtx& h) { h.ret(h.arg(0)); });
    P("llvm.threadlocal.address", [](HCtx& h) { h.ret(h.arg(0)); }); P("llvm.ptrmask.", [](HCtx& h) { h.ret(norm(mkAnd(A(h, 0), A(h, 1)))); });
    P("llvm.stacksave", [](HCtx& h) { h.ret(SV{0, nullptr}); }); P("llvm.stackrestore", [](HCtx&) {}); P("llvm.prefetch", [](HCtx&) {});
    P("llvm.trap", [](HCtx& h) { violate(h.s, "trap", "trap"); }); P("llvm.debugtrap", [](HCtx& h) { violate(h.s, "trap", "trap"); });
    P("llvm.ubsantrap", [](HCtx& h) { static const char* nm[] = {"add overflow", "builtin unreachable", "cfi", "integer divide", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment assumption", "vla bound"}; u64 k = h.arg(0).c; violate(h.s, "undefined", k < 25 ? nm[k] : "undefined behaviour"); });
    P("llvm.eh.typeid.for", [](HCtx& h) { h.ret(SV{(u64)(u32)tidOf(h.arg(0).c), nullptr}); });
    // --- floating point
    P("llvm.fabs.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { return mkAnd(g(0), mkConst(maskw(w) >> 1, w)); }); }); H("fabs", hTable.back().second); 
    P("llvm.copysign.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { return mkOr(mkAnd(g(0), mkConst(maskw(w) >> 1, w)), mkAnd(g(1), mkConst((u128)1 << (w - 1), w))); }); });
    P("llvm.sqrt.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { return mkF(K::FSqrt, w, g(0)); }); }); H("sqrt", [](HCtx& h) { h.ret(norm(mkF(K::FSqrt, h.I.w, A(h, 0)))); }); H("sqrtf", [](HCtx& h) { h.ret(norm(mkF(K::FSqrt, h.I.w, A(h, 0)))); });
    P("llvm.floor.", [](HCtx& h) { frnd(h, R_TN); }); P("llvm.ceil.", [](HCtx& h) { frnd(h, R_TP); }); P("llvm.trunc.", [](HCtx& h) { frnd(h, R_TZ); }); P("llvm.round.", [](HCtx& h) { frnd(h, R_NA); }); P("llvm.roundeven.", [](HCtx& h) { frnd(h, R_NE); }); P("llvm.rint.", [](HCtx& h) { frnd(h, R_NE); }); P("llvm.nearbyint.", [](HCtx& h) { frnd(h, R_NE); });
    for (const char* s : {"", "f", "l"}) { string f = s; H("floor" + f, [](HCtx& h) { frnd(h, R_TN); }); H("ceil" + f, [](HCtx& h) { frnd(h, R_TP); }); H("trunc" + f, [](HCtx& h) { frnd(h, R_TZ); }); H("round" + f, [](HCtx& h) { frnd(h, R_NA); }); H("rint" + f, [](HCtx& h) { frnd(h, R_NE); }); H("nearbyint" + f, [](HCtx& h) { frnd(h, R_NE); }); }
    P("llvm.fma.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { return mkF(K::FMA, w, g(0), g(1), g(2)); }); });
    P("llvm.fmuladd.", [](HCtx& h) { mapN(h, [](auto g, unsigned w) { return mkF(K::FAdd, w, mkF(K::FMul, w, g(0), g(1)), g(2)); }); });
    P("llvm.minnum.", [](HCtx& h) { mapN(h, [](auto g, unsigned) { Expr* a = g(0); Expr* b = g(1); return mkIte(fcmpE(CmpInst::FCMP_UNO, a, a), b, mkIte(fcmpE(CmpInst::FCMP_OLT, b, a), b, a)); }); });
    P("llvm.maxnum.", [](HCtx& h) { mapN(h, [](auto g, unsigned) { Expr* a = g(0); Expr* b = g(1); return mkIte(fcmpE(CmpInst::FCMP_UNO, a, a), b, mkIte(fcmpE(CmpInst::FCMP_OLT, a, b), b, a)); }); });
    P("llvm.is.fpclass.", [](HCtx& h) { unsigned w = h.w(0); u64 m = h.arg(1).c; Expr* x = A(h, 0); unsigned eb = w == 32 ? 8 : w == 64 ? 11 : 15, mb = w - 1 - eb; Expr* ex = mkExtract(x, mb, eb); Expr* mn = mkExtract(x, 0, mb); Expr* sg = mkExtract(x, w - 1, 1);
        Expr* e1 = mkEq(ex, mkConst(maskw(eb), eb)); Expr* e0 = mkEq(ex, mkConst(0, eb)); Expr* m0 = mkEq(mn, w == 80 ? mkConst((u128)1 << 63, mb) : mkConst(0, mb)); Expr* q = mkExtract(mn, w == 80 ? 62 : mb - 1, 1);
        Expr* r = mkConst(0, 1); Expr* neg = sg; Expr* pos = mkNot(sg); auto add = [&](int b, Expr* c) { if (m & (1u << b)) r = mkOr(r, c); };
        Expr* nan = mkAnd(e1, mkNot(m0)); Expr* inf = mkAnd(e1, m0); Expr* nrm = mkAnd(mkNot(e1), mkNot(e0)); Expr* z0 = mkEq(mn, mkConst(0, mb)); Expr* zero = mkAnd(e0, z0); Expr* sub = mkAnd(e0, mkNot(z0));
        add(0, mkAnd(nan, mkNot(q))); add(1, mkAnd(nan, q)); add(2, mkAnd(inf, neg)); add(3, mkAnd(nrm, neg)); add(4, mkAnd(sub, neg)); add(5, mkAnd(zero, neg)); add(6, mkAnd(zero, pos)); add(7, mkAnd(sub, pos)); add(8, mkAnd(nrm, pos)); add(9, mkAnd(inf, pos)); h.ret(norm(r)); });
    LIBM1(sin); LIBM1(cos); LIBM1(tan); LIBM1(exp); LIBM1(exp2); LIBM1(log); LIBM1(log2); LIBM1(log10); LIBM1(asin); LIBM1(acos); LIBM1(atan); LIBM1(cbrt); LIBM1(sinh); LIBM1(cosh); LIBM1(tanh); LIBM1(log1p); LIBM1(expm1); LIBM1(logb);
    P("llvm.pow.", [](HCtx& h) { libm2(h, [](double a, double b) { return ::pow(a, b); }, [](float a, float b) { return ::powf(a, b); }); }); H("pow", hPrefix.back().second); H("powf", hPrefix.back().second);
    H("atan2", [](HCtx& h) { libm2(h, [](double a, double b) { return ::atan2(a, b); }, [](float a, float b) { return ::atan2f(a, b); }); }); H("atan2f", hTable.back().second);
    H("fmod", [](HCtx& h) { libm2(h, [](double a, double b) { return ::fmod(a, b); }, [](float a, float b) { return ::fmodf(a, b); }); }); H("fmodf", hTable.back().second);
    H("hypot", [](HCtx& h) { libm2(h, [](double a, double b) { return ::hypot(a, b); }, [](float a, float b) { return ::hypotf(a, b); }); });
    auto ldx = [](HCtx& h) { SV a = h.arg(0), b = h.arg(1); unsigned w = h.I.w; i32 k = (i32)concretize(h.s, b, 32); 
        if (w <= 64) { u64 v = concretize(h.s, a, w); if (w == 64) { double d; memcpy(&d, &v, 8); h.ret(SV{fpBits(::ldexp(d, k)), nullptr}); } else { float d; u32 x = (u32)v; memcpy(&d, &x, 4); d = ::ldexpf(d, k); memcpy(&x, &d, 4); h.ret(SV{x, nullptr}); } } else { if (!a.e || !a.e->isC()) FATAL("ldexpl"); long double d = 0; u128 v = a.e->val; memcpy(&d, &v, 10); d = ::ldexpl(d, k); v = 0; memcpy(&v, &d, 10); h.ret(cst(v, 80)); } };
    H("ldexp", ldx); H("ldexpf", ldx); H("ldexpl", ldx); H("scalbn", ldx); P("llvm.ldexp.", ldx);
    // --- C++ runtime
    H("__cxa_allocate_exception", [](HCtx& h) { h.ret(doAlloc(h.s, std::max<u64>(8, h.arg(0).c), "exception", 9)); });
    H("__cxa_free_exception", [](HCtx& h) { doFree(h, h.arg(0), 9); });
    H("__cxa_throw", [](HCtx& h) { u64 e = h.arg(0).c; h.s.excs[e] = Exc{h.arg(1).c, h.arg(2).c}; h.jumped = true; unwind(h.s, e); });
    H("__cxa_begin_catch", [](HCtx& h) { u64 e = h.arg(0).c; h.s.caught.push_back(e); Exc& x = h.s.excs[e]; ++x.handlers; x.rethrown = false; h.ret(SV{e, nullptr}); });
    H("__cxa_get_exception_ptr", [](HCtx& h) { h.ret(h.arg(0)); });
    H("__cxa_end_catch", [](HCtx& h) { if (h.s.caught.empty()) FATAL("end_catch"); u64 e = h.s.caught.back(); h.s.caught.pop_back(); Exc& x = h.s.excs[e]; --x.handlers; if (x.handlers == 0 && !x.rethrown) { u64 d = x.dtor; h.s.excs.erase(e);
            if (d) { Function* F = gfunc[(u32)(d >> 32)]; if (F && !F->isDeclaration()) { // run destructor, then return after this call
                    if (h.I.op == O_Invoke) jump(h.s, h.f, h.I.tgt[0]); else ++h.f.pc; h.jumped = true; SV a{e, nullptr}; pushFrame(h.s, lower(F), &a, 1, false); } } } });
    H("__cxa_rethrow", [](HCtx& h) { if (h.s.caught.empty()) violate(h.s, "terminate", "rethrow without exception"); u64 e = h.s.caught.back(); h.s.excs[e].rethrown = true; h.jumped = true; unwind(h.s, e); });
    H("__cxa_current_exception_type", [](HCtx& h) { h.ret(SV{h.s.caught.empty() ? 0 : h.s.excs[h.s.caught.back()].ti, nullptr}); });
    H("_ZSt18uncaught_exceptionv", [](HCtx& h) { u64 n = h.s.excs.size(); for (auto& x : h.s.excs) if (x.second.handlers > 0 && !x.second.rethrown) --n; h.ret(SV{n > 0, nullptr}); });
    H("_ZSt19uncaught_exceptionsv", [](HCtx& h) { u64 n = h.s.excs.size(); for (auto& x : h.s.excs) if (x.second.handlers > 0 && !x.second.rethrown) --n; h.ret(SV{n, nullptr}); });
    H("__dynamic_cast", [](HCtx& h) { u64 p = ptrConc(h.s, h.arg(0)); h.ret(SV{p ? dynCast(h.s, p, h.arg(2).c) : 0, nullptr}); });
    H("__cxa_atexit", [](HCtx& h) { h.ret(SV{0, nullptr}); }); H("atexit", [](HCtx& h) { h.ret(SV{0, nullptr}); }); H("__cxa_thread_atexit", [](HCtx& h) { h.ret(SV{0, nullptr}); });
    H("__cxa_guard_acquire", [](HCtx& h) { Loc l = locC(h.s, h.arg(0).c, 1, false); h.ret(SV{(u64)(getObj(h.s, l.id)->c[l.off] == 0), nullptr}); });
    H("__cxa_guard_release", [](HCtx& h) { Loc l = locC(h.s, h.arg(0).c, 1, true); getObjW(h.s, l.id)->c[l.off] = 1; });
    H("__cxa_guard_abort", [](HCtx&) {});
    H("__cxa_pure_virtual", [](HCtx& h) { violate(h.s, "terminate", "pure virtual call"); });
    for (const char* n : {"__clang_call_terminate", "_ZSt9terminatev", "abort", "_exit", "exit", "__assert_fail", "quick_exit", "__cxa_call_unexpected"}) H(n, [](HCtx& h) { string nm = h.I.callee->getName().str(); violate(h.s, "terminate", "call of " + nm); });
    for (const char* n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_broadcast", "pthread_cond_signal", "_ZSt21ios_base_library_initv"}) H(n, [](HCtx& h) { if (h.I.n) h.ret(SV{0, nullptr}); });
    H("_ZSt24__throw_out_of_range_fmtPKcz", [](HCtx& h) { h.jumped = true; callFn(h.s, "irsym_rt_throw_out_of_range", {}); h.s.st.back().call = true; });
    P("_ZN6archon4core4impl12do_terminate", [](HCtx& h) { violate(h.s, "terminate", readStr(h.s, ptrConc(h.s, h.arg(0)))); });
    H("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](HCtx& h) { violate(h.s, "terminate", "library assertion: " + readStr(h.s, ptrConc(h.s, h.arg(3)))); });
    H("__errno_location", [](HCtx& h) { h.ret(SV{globalByName("irsym_rt_errno"), nullptr}); });
}
// ------------------------------------------------------------------ instruction semantics
static SV binop(State& s, unsigned oc, unsigned w, const SV& a, const SV& b) {
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c, m = mask64(w);
        switch (oc) {
            case Instruction::Add: return {(x + y) & m, nullptr}; case Instruction::Sub: return {(x - y) & m, nullptr}; case Instruction::Mul: return {(x * y) & m, nullptr};
            case Instruction::And: return {x & y, nullptr}; case Instruction::Or: return {x | y, nullptr}; case Instruction::Xor: return {x ^ y, nullptr};
            case Instruction::Shl: return {y >= w ? 0 : (x << y) & m, nullptr}; case Instruction::LShr: return {y >= w ? 0 : x >> y, nullptr};
            case Instruction::AShr: { i64 v = (i64)sgn(x, w); return {(u64)(v >> (y >= w ? w - 1 : y)) & m, nullptr}; }
            case Instruction::UDiv: if (!y) violate(s, "undefined", "division by zero"); return {x / y, nullptr}; case Instruction::URem: if (!y) violate(s, "undefined", "division by zero"); return {x % y, nullptr};
            case Instruction::SDiv: case Instruction::SRem: { if (!y) violate(s, "undefined", "division by zero"); i64 u = (i64)sgn(x, w), v = (i64)sgn(y, w); if (v == -1) { if (x == (u64)1 << (w - 1)) violate(s, "undefined", "division overflow"); return {oc == Instruction::SDiv ? (0 - x) & m : 0, nullptr}; } return {(u64)(oc == Instruction::SDiv ? u / v : u % v) & m, nullptr}; }
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    if (oc == Instruction::UDiv || oc == Instruction::URem || oc == Instruction::SDiv || oc == Instruction::SRem) {
        Expr* z = mkEq(y, mkConst(0, w)); if (decide(s, z)) violate(s, "undefined", "division by zero");
        if (oc == Instruction::SDiv || oc == Instruction::SRem) { Expr* o = mkAnd(mkEq(y, mkConst(maskw(w), w)), mkEq(x, mkConst((u128)1 << (w - 1), w))); if (decide(s, o)) violate(s, "undefined", "division overflow"); }
        // cheap simplification of both operands under what is known
        x = simp(s, x); y = simp(s, y);
    }
    switch (oc) {
        case Instruction::Add: return norm(mkAdd(x, y)); case Instruction::Sub: return norm(mkSub(x, y)); case Instruction::Mul: return norm(mkMul(x, y));
        case Instruction::And: return norm(mkAnd(x, y)); case Instruction::Or: return norm(mkOr(x, y)); case Instruction::Xor: return norm(mkXor(x, y));
        case Instruction::Shl: return norm(mkShl(x, y)); case Instruction::LShr: return norm(mkLShr(x, y)); case Instruction::AShr: return norm(mkAShr(x, y));
        case Instruction::UDiv: return norm(mkUDiv(x, y)); case Instruction::URem: return norm(mkURem(x, y)); case Instruction::SDiv: return norm(mkSDiv(x, y)); case Instruction::SRem: return norm(mkSRem(x, y));
    }
    FATAL("binop");
}
static SV icmp(unsigned p, unsigned w, const SV& a, const SV& b) {
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c; i64 u = (i64)sgn(x, w), v = (i64)sgn(y, w); bool r = false;
        switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_SLT: r = u < v; break; case CmpInst::ICMP_SLE: r = u <= v; break; case CmpInst::ICMP_SGT: r = u > v; break; case CmpInst::ICMP_SGE: r = u >= v; break; }
        return {(u64)r, nullptr}; }
    Expr *x = toE(a, w), *y = toE(b, w);
    switch (p) { case CmpInst::ICMP_EQ: return norm(mkEq(x, y)); case CmpInst::ICMP_NE: return norm(mkNot(mkEq(x, y))); case CmpInst::ICMP_ULT: return norm(mkUlt(x, y)); case CmpInst::ICMP_ULE: return norm(mkUle(x, y)); case CmpInst::ICMP_UGT: return norm(mkUlt(y, x)); case CmpInst::ICMP_UGE: return norm(mkUle(y, x));
        case CmpInst::ICMP_SLT: return norm(mkSlt(x, y)); case CmpInst::ICMP_SLE: return norm(mkSle(x, y)); case CmpInst::ICMP_SGT: return norm(mkSlt(y, x)); default: return norm(mkSle(y, x)); }
}
static SV castop(unsigned oc, unsigned w, unsigned w2, const SV& a) {
    switch (oc) {
        case Instruction::Trunc: if (!a.e && w2 <= 64) return {a.c & mask64(w), nullptr}; return norm(mkTrunc(toE(a, w2), w));
        case Instruction::ZExt: if (!a.e && w <= 64) return a; return norm(mkZExt(toE(a, w2), w));
        case Instruction::SExt: if (!a.e && w <= 64) return {(u64)(i64)sgn(a.c, w2) & mask64(w), nullptr}; return norm(mkSExt(toE(a, w2), w));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (w == w2) return a; return w < w2 ? norm(mkTrunc(toE(a, w2), w)) : norm(mkZExt(toE(a, w2), w));
        case Instruction::FPToSI: return norm(mkF(K::FToS, w, toE(a, w2))); case Instruction::FPToUI: return norm(mkF(K::FToU, w, toE(a, w2)));
        case Instruction::SIToFP: return norm(mkF(K::SToF, w, toE(a, w2))); case Instruction::UIToFP: return norm(mkF(K::UToF, w, toE(a, w2)));
        case Instruction::FPTrunc: return norm(mkF(K::FTrunc, w, toE(a, w2))); case Instruction::FPExt: return norm(mkF(K::FExt, w, toE(a, w2)));
    }
    FATAL("cast");
}
static std::unordered_set<string> unknownExt;
static void doCall(State& s, Frame& f, LInst& I) {
    Function* F = I.callee; int hd = I.handler;
    if (!F) { u64 p = concretize(s, R(f, I.a), 64); u32 id = (u32)(p >> 32); if (id == 0 || id >= gfunc.size() || !gfunc[id] || (u32)p != BASE) violate(s, "memory", "call through invalid function pointer " + ptrDesc(s, p)); F = gfunc[id]; hd = findHandler(F->getName()); 
        if (hd >= 0) { LInst J = I; J.callee = F; J.handler = hd; HCtx h{s, f, J}; hTable[hd].second(h); if (h.jumped) return; Frame& g = s.st.back(); if (I.op == O_Invoke) jump(s, g, I.tgt[0]); else ++g.pc; return; } }
    if (hd >= 0) {
        HCtx h{s, f, I}; hTable[hd].second(h); if (h.jumped) return;
        if (I.op == O_Invoke) jump(s, f, I.tgt[0]); else ++f.pc; return;
    }
    if (F->isVarArg()) if (Function* G = M->getFunction("irsym_va_" + F->getName().str())) { F = G; }
    if (F->isDeclaration()) FATAL("call of external function %s (%s)", F->getName().str().c_str(), demangle(F->getName().str()).c_str());
    LFunc* lf = (I.callee && I.lcallee) ? I.lcallee : lower(F); if (I.callee) I.lcallee = lf;
    if (F->isVarArg()) FATAL("call of variadic function %s", F->getName().str().c_str());
    SV tmp[64]; vector<SV> big; SV* a = tmp; if (I.argTotal > 64) { big.resize(I.argTotal); a = big.data(); }
    u32 n = 0; for (size_t i = 0; i < I.args.size(); ++i) for (u32 k = 0; k < I.argN[i]; ++k) a[n++] = I.args[i] >= 0 ? f.r[I.args[i] + k] : cpool[-I.args[i] - 1 + k];
    vector<u32> extra;
    for (size_t q = 0; q + 1 < I.imm.size(); q += 2) { u32 k = 0; for (u32 i = 0; i < I.imm[q]; ++i) k += I.argN[i]; u64 src = ptrConc(s, a[k]); u32 id = newObj(s, I.imm[q + 1], K_Stack, "byval"); memCopy(s, addrOf(id), src, I.imm[q + 1]); a[k] = SV{addrOf(id), nullptr}; extra.push_back(id); }
    pushFrame(s, lf, a, n, true); s.st.back().allocas = extra;
}
static void sample(State& s) {
    ++seenSamples; size_t slot; if ((int)samples.size() < optSamples) { slot = samples.size(); samples.emplace_back(); } else { u64 k = rng() % seenSamples; if (k >= (u64)optSamples) return; slot = k; }
    TestCase t; fillInputs(s, s.model, t); for (auto& o : s.obs) t.obs.push_back({o.first, o.second.first ? (u64)evalE(o.second.first, s.model) : o.second.second}); samples[slot] = t;
}
static bool step(State& s) { // returns false when the path is finished
    Frame& f = s.st.back(); LInst& I = f.bb->insts[f.pc]; ++nInst; ++s.steps;
    switch (I.op) {
        case O_Bin: if (I.n == 1) f.r[I.dst] = binop(s, I.sub, I.w, R(f, I.a), R(f, I.b)); else for (u32 i = 0; i < I.n; ++i) { SV x = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i], y = I.b >= 0 ? f.r[I.b + i] : cpool[-I.b - 1 + i]; f.r[I.dst + i] = binop(s, I.sub, I.w, x, y); } ++f.pc; break;
        case O_ICmp: for (u32 i = 0; i < I.n; ++i) { SV x = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i], y = I.b >= 0 ? f.r[I.b + i] : cpool[-I.b - 1 + i]; f.r[I.dst + i] = icmp(I.sub, I.w2, x, y); } ++f.pc; break;
        case O_FBin: for (u32 i = 0; i < I.n; ++i) { SV x = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i], y = I.b >= 0 ? f.r[I.b + i] : cpool[-I.b - 1 + i]; K k = I.sub == Instruction::FAdd ? K::FAdd : I.sub == Instruction::FSub ? K::FSub : I.sub == Instruction::FMul ? K::FMul : K::FDiv; if (I.sub == Instruction::FRem) FATAL("frem"); f.r[I.dst + i] = norm(mkF(k, I.w, toE(x, I.w), toE(y, I.w))); } ++f.pc; break;
        case O_FCmp: for (u32 i = 0; i < I.n; ++i) { SV x = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i], y = I.b >= 0 ? f.r[I.b + i] : cpool[-I.b - 1 + i]; f.r[I.dst + i] = norm(fcmpE(I.sub, toE(x, I.w2), toE(y, I.w2))); } ++f.pc; break;
        case O_FNeg: for (u32 i = 0; i < I.n; ++i) { SV x = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i]; f.r[I.dst + i] = norm(mkXor(toE(x, I.w), mkConst((u128)1 << (I.w - 1), I.w))); } ++f.pc; break;
        case O_Select: for (u32 i = 0; i < I.n; ++i) { SV c = I.a >= 0 ? f.r[I.a + (I.sub ? i : 0)] : cpool[-I.a - 1 + (I.sub ? i : 0)]; SV x = I.b >= 0 ? f.r[I.b + i] : cpool[-I.b - 1 + i], y = I.c >= 0 ? f.r[I.c + i] : cpool[-I.c - 1 + i]; unsigned w = I.fields.empty() ? I.w : I.fields[i].w;
                if (!c.e) f.r[I.dst + i] = c.c ? x : y; else { Expr* cc = simp(s, c.e); if (cc->isC()) f.r[I.dst + i] = cc->val ? x : y; else if (I.off) f.r[I.dst + i] = decide(s, cc) ? x : y; /* split on pointers: symbolic addresses are dear */ else f.r[I.dst + i] = norm(mkIte(cc, toE(x, w), toE(y, w))); } } ++f.pc; break;
        case O_Cast: for (u32 i = 0; i < I.n; ++i) { SV x = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i]; f.r[I.dst + i] = castop(I.sub, I.w, I.w2, x); } ++f.pc; break;
        case O_Copy: for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i]; ++f.pc; break;
        case O_BitCast: { u32 n2 = (u32)I.off; if (n2 * I.w2 > 128) FATAL("bitcast"); Expr* e = nullptr; for (u32 i = 0; i < n2; ++i) { SV x = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i]; Expr* y = toE(x, I.w2); e = e ? mkConcat(y, e) : y; } for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = norm(mkExtract(e, i * I.w, I.w)); ++f.pc; break; }
        case O_GEP: {
            SV p = R(f, I.a); u64 add = (u64)I.off; Expr* se = p.e; if (!p.e) add += p.c;
            for (auto& g : I.gep) { SV x = R(f, g.opnd); if (!x.e) add += (u64)((i64)sgn(x.c, g.w) * g.scale); else { Expr* t = mkMul(g.w < 64 ? mkSExt(x.e, 64) : x.e, mkConst((u64)g.scale, 64)); se = se ? mkAdd(se, t) : t; } }
            f.r[I.dst] = se ? norm(mkAdd(se, mkConst(add, 64))) : SV{add, nullptr}; ++f.pc; break; }
        case O_Load: {
            const SV& p = R(f, I.a);
            if (!p.e && I.n == 1) { // fast path
                u32 id = (u32)(p.c >> 32); u64 off = (u64)(u32)p.c - BASE; Obj* o = getObj(s, id); if (o && !o->freed && o->kind < K_Func && off <= o->size() && (u64)I.off <= o->size() - off) { f.r[I.dst] = readC(o, off, I.w); ++f.pc; break; } }
            Loc L = locate(s, p, (u64)I.off, false); for (u32 i = 0; i < I.n; ++i) { SV v = readAt(s, L, I.fields[i].off, I.fields[i].w, (u64)I.off); f.r[I.dst + i] = v; } ++f.pc; break; }
        case O_Store: { Loc L = locate(s, R(f, I.a), (u64)I.off, true); for (size_t i = 0; i < I.fields.size(); ++i) { SV v = I.b >= 0 ? f.r[I.b + i] : cpool[-I.b - 1 + i]; writeAt(s, L, I.fields[i].off, I.fields[i].w, v, (u64)I.off); } ++f.pc; break; }
        case O_Alloca: { u64 n = concretize(s, R(f, I.a), I.w2); u32 id = newObj(s, n * (u64)I.off, K_Stack, "local"); f.allocas.push_back(id); f.r[I.dst] = SV{addrOf(id), nullptr}; ++f.pc; break; }
        case O_Br: jump(s, f, I.tgt[0]); break;
        case O_CondBr: { const SV& c = R(f, I.a); bool v; if (!c.e) v = c.c; else v = decide(s, c.e); jump(s, f, I.tgt[v ? 0 : 1]); break; }
        case O_Switch: {
            const SV& c = R(f, I.a); size_t t = 0; 
            if (!c.e) { for (size_t i = 0; i < I.imm.size(); ++i) if (I.imm[i] == c.c) { t = i + 1; break; } }
            else { Expr* e = simp(s, c.e); u64 v = (u64)evalE(e, s.model);
                // group by destination
                LBlock* dst = I.tgt[0]; for (size_t i = 0; i < I.imm.size(); ++i) if (I.imm[i] == v) { dst = I.tgt[i + 1]; break; }
                Expr* in = mkConst(0, 1); Expr* any = mkConst(0, 1); for (size_t i = 0; i < I.imm.size(); ++i) { Expr* q = mkEq(e, mkConst(I.imm[i], I.w)); any = mkOr(any, q); if (I.tgt[i + 1] == dst) in = mkOr(in, q); }
                if (dst == I.tgt[0]) in = mkOr(in, mkNot(any));
                if (!decide(s, in)) FATAL("switch"); 
                jump(s, f, dst); break; }
            jump(s, f, I.tgt[t]); break; }
        case O_Call: case O_Invoke: doCall(s, f, I); break;
        case O_Ret: {
            SV rv[16]; if (I.n > 16) FATAL("large return"); for (u32 i = 0; i < I.n; ++i) rv[i] = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i];
            bool call = f.call; u32 n = I.n; popFrame(s); if (s.st.empty()) return false;
            if (!call) break;
            Frame& g = s.st.back(); LInst& C = g.bb->insts[g.pc]; for (u32 i = 0; i < n && i < C.n; ++i) g.r[C.dst + i] = rv[i];
            if (C.op == O_Invoke) jump(s, g, C.tgt[0]); else ++g.pc; break; }
        case O_Extract: for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = I.a >= 0 ? f.r[I.a + I.off + i] : cpool[-I.a - 1 + I.off + i]; ++f.pc; break;
        case O_Insert: for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i]; for (u32 i = 0; i < I.w2; ++i) f.r[I.dst + I.off + i] = I.b >= 0 ? f.r[I.b + i] : cpool[-I.b - 1 + i]; ++f.pc; break;
        case O_ExtElt: { u64 k = concretize(s, R(f, I.b), I.w2); if (k >= (u64)I.off) FATAL("extractelement"); f.r[I.dst] = I.a >= 0 ? f.r[I.a + k] : cpool[-I.a - 1 + k]; ++f.pc; break; }
        case O_InsElt: { u64 k = concretize(s, R(f, I.c), 64); for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = I.a >= 0 ? f.r[I.a + i] : cpool[-I.a - 1 + i]; if (k >= I.n) FATAL("insertelement"); f.r[I.dst + k] = R(f, I.b); ++f.pc; break; }
        case O_Shuffle: { vector<SV> t; for (int m : I.mask) { if (m < 0) t.push_back(SV{0, nullptr}); else if (m < I.off) t.push_back(I.a >= 0 ? f.r[I.a + m] : cpool[-I.a - 1 + m]); else { int k = m - (int)I.off; t.push_back(I.b >= 0 ? f.r[I.b + k] : cpool[-I.b - 1 + k]); } } for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = t[i]; ++f.pc; break; }
        case O_Resume: { u64 e = R(f, I.a).c; popFrame(s); if (s.st.empty()) violate(s, "exception", "uncaught"); s.excs[e].rethrown = s.excs[e].rethrown; 
            unwind(s, e); break; }
        case O_LandingPad: FATAL("landingpad reached");
        case O_Unreachable: violate(s, "undefined", "unreachable code reached");
        case O_AtomicRMW: { u64 n = I.w / 8; Loc L = locate(s, R(f, I.a), n, true); SV old = readAt(s, L, 0, I.w, n); SV b = R(f, I.b); Expr *x = toE(old, I.w), *y = toE(b, I.w), *r;
            switch (I.sub) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkAdd(x, y); break; case AtomicRMWInst::Sub: r = mkSub(x, y); break; case AtomicRMWInst::And: r = mkAnd(x, y); break; case AtomicRMWInst::Or: r = mkOr(x, y); break; case AtomicRMWInst::Xor: r = mkXor(x, y); break; default: FATAL("atomicrmw"); }
            writeAt(s, L, 0, I.w, norm(r), n); f.r[I.dst] = old; ++f.pc; break; }
        case O_CmpXchg: { u64 n = I.w / 8; Loc L = locate(s, R(f, I.a), n, true); SV old = readAt(s, L, 0, I.w, n); Expr* eq = mkEq(toE(old, I.w), toE(R(f, I.b), I.w)); bool ok = decide(s, eq); if (ok) writeAt(s, L, 0, I.w, R(f, I.c), n); f.r[I.dst] = old; f.r[I.dst + 1] = SV{(u64)ok, nullptr}; ++f.pc; break; }
        case O_Nop: ++f.pc; break;
        default: FATAL("op %d", I.op);
    }
    return true;
}
static size_t rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return (size_t)b * 4096 >> 20; }
static size_t optMaxMem = 3500;
static void runState(State* s) {
    S = s; u64 k = 0;
    try {
        for (;;) {
            if ((++k & 1023) == 0) { if (now() > optMaxTime) { stopAll = true; stopWhy = "time"; inconclusive("time budget exhausted"); return; } if ((k & 0xfffff) == 0 && rssMB() > optMaxMem) { stopAll = true; stopWhy = "memory"; inconclusive("memory budget exhausted"); return; } }
            if (s->steps > optMaxSteps) { ++nLimit; report(*s, s->model, "nontermination", "step limit"); throw PathEnd{3}; }
            if (!step(*s)) { ++nPaths; sample(*s); return; }
        }
    } catch (PathEnd& e) { if (e.why == 0) { ++nPaths; sample(*s); } else if (e.why == 1) ++nAssumed; }
}
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void outTC(FILE* f, const TestCase& t) {
    fprintf(f, "{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":[", esc(t.kind).c_str(), esc(t.msg).c_str(), esc(t.where).c_str());
    for (size_t i = 0; i < t.in.size(); ++i) fprintf(f, "%s[\"%s\",%d,\"%llx\"]", i ? "," : "", esc(t.in[i].first).c_str(), t.in[i].second.first, (unsigned long long)t.in[i].second.second);
    fprintf(f, "],\"obs\":["); for (size_t i = 0; i < t.obs.size(); ++i) fprintf(f, "%s[\"%s\",\"%llx\"]", i ? "," : "", esc(t.obs[i].first).c_str(), (unsigned long long)t.obs[i].second); fprintf(f, "]}");
}
static void writeOut() {
    FILE* f = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
    fprintf(f, "{\"entry\":\"%s\",\"paths\":%llu,\"assumed_away\":%llu,\"violating_paths\":%llu,\"instructions\":%llu,\"forks\":%llu,\"checks\":%llu,\"check_queries\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"slow_queries\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"exprs\":%zu,\"wall_s\":%.3f,\"rss_mb\":%zu,\"inconclusive\":%llu,\"stop\":\"%s\",\n",
        esc(entryName).c_str(), (unsigned long long)nPaths, (unsigned long long)nAssumed, (unsigned long long)nViolPaths, (unsigned long long)nInst, (unsigned long long)nForks, (unsigned long long)nChecks, (unsigned long long)nCheckQ, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.slow, g_ss.time, g_ss.maxTime, exprCount(), now(), rssMB(), (unsigned long long)nInconcl, esc(stopWhy).c_str());
    fprintf(f, "\"inconclusive_notes\":["); bool c = false; for (auto& s : incNotes) { fprintf(f, "%s\"%s\"", c ? "," : "", esc(s).c_str()); c = true; }
    fprintf(f, "],\n\"covers\":["); c = false; for (auto& s : covers) { fprintf(f, "%s\"%s\"", c ? "," : "", esc(s).c_str()); c = true; }
    fprintf(f, "],\n\"functions\":["); c = false; std::set<string> fn; for (auto& l : lfuncs) if (l.second->calls) { string d = demangle(l.first->getName().str()); fn.insert(d); } for (auto& s : fn) { fprintf(f, "%s\"%s\"", c ? "," : "", esc(s).c_str()); c = true; }
    fprintf(f, "],\n\"violations\":["); for (size_t i = 0; i < violations.size(); ++i) { if (i) fprintf(f, ",\n"); outTC(f, violations[i]); }
    fprintf(f, "],\n\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) { if (i) fprintf(f, ",\n"); outTC(f, samples[i]); }
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
}
static int selftest();
static int realMain(int argc, char** argv) {
    string bc, entry; double qto = 60;
    for (int i = 1; i < argc; ++i) { string a = argv[i]; auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
        if (auto v = val("--entry=")) entry = v; else if (auto v = val("--out=")) outFile = v; else if (auto v = val("--max-time=")) optMaxTime = atof(v); else if (auto v = val("--max-steps=")) optMaxSteps = strtoull(v, 0, 10); else if (auto v = val("--max-paths=")) optMaxPaths = strtoull(v, 0, 10); else if (auto v = val("--samples=")) optSamples = atoi(v); else if (auto v = val("--max-viol=")) optMaxViol = atoi(v); else if (auto v = val("--query-timeout=")) qto = atof(v); else if (auto v = val("--seed=")) rngState += strtoull(v, 0, 10) * 7919; else if (auto v = val("--max-mem=")) optMaxMem = strtoull(v, 0, 10);
        else if (auto v = val("--param=")) { string kv = v; size_t e = kv.find('='); params[kv.substr(0, e)] = atoll(kv.c_str() + e + 1); } else if (a == "-v") optVerbose = true; else if (a == "--selftest") { solverInit(20); return selftest(); } else bc = a; }
    tStart = std::chrono::steady_clock::now(); entryName = entry;
    Ctx = new LLVMContext; SMDiagnostic err; auto mod = parseIRFile(bc, err, *Ctx); if (!mod) { err.print("irsym", errs()); return 4; } M = mod.get(); DL = &M->getDataLayout();
    solverInit(qto); initHandlers();
    State* s = new State;
    Function* F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "irsym: no entry %s\n", entry.c_str()); return 4; }
    pushFrame(*s, lower(F), nullptr, 0, false);
    // static initialisers, in priority order
    if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
        vector<pair<u64, Function*>> v; for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (size_t i = v.size(); i-- > 0;) if (!v[i].second->isDeclaration()) pushFrame(*s, lower(v[i].second), nullptr, 0, false); }
    work.push_back(s);
    while (!work.empty() && !stopAll) { State* t = work.back(); work.pop_back(); runState(t); S = nullptr; delete t; if (nPaths >= optMaxPaths) { stopAll = true; stopWhy = "paths"; inconclusive("path budget exhausted"); } if (now() > optMaxTime && !work.empty()) { stopAll = true; stopWhy = "time"; inconclusive("time budget exhausted"); } if ((nPaths & 255) == 0 && rssMB() > optMaxMem) { stopAll = true; stopWhy = "memory"; inconclusive("memory budget exhausted"); } }
    if (!stopAll) stopWhy = "complete";
    writeOut(); fflush(stdout);
    return 0;
}
// ------------------------------------------------------------------ self test of the simplifier against evaluation and against Z3
static int selftest() {
    vector<Expr*> vars; for (unsigned w : {1u, 8u, 8u, 16u, 32u, 64u, 33u}) vars.push_back(mkVar("v" + std::to_string(vars.size()), w));
    u64 bad = 0, n = 0;
    for (int round = 0; round < 3000; ++round) {
        vector<Expr*> pool = vars; for (unsigned w : {1u, 8u, 16u, 32u, 64u, 33u}) { pool.push_back(mkConst(rng(), w)); pool.push_back(mkConst(rng() % 5, w)); pool.push_back(mkConst(-(u128)(rng() % 3), w)); }
        vector<Model> ms; for (int i = 0; i < 6; ++i) { Model m; for (Expr* v : vars) m.set(v->lo, (i < 2 ? rng() % 4 : i == 2 ? ~0ull - rng() % 3 : rng()) & mask64(v->w)); ms.push_back(m); }
        for (int k = 0; k < 60; ++k) {
            Expr* a = pool[rng() % pool.size()]; Expr* b = nullptr; for (int t = 0; t < 50 && !b; ++t) { Expr* x = pool[rng() % pool.size()]; if (x->w == a->w) b = x; } if (!b) b = a;
            int op = (int)(rng() % 25); if (op >= 3 && op <= 6) b = mkOr(b, mkConst(1, b->w)); Expr* r = nullptr; Expr* c = nullptr; unsigned p1 = 0, p2 = 0;
            switch (op) { case 0: r = mkAdd(a, b); break; case 1: r = mkSub(a, b); break; case 2: r = mkMul(a, b); break; case 3: r = mkUDiv(a, b); break; case 4: r = mkSDiv(a, b); break; case 5: r = mkURem(a, b); break; case 6: r = mkSRem(a, b); break; case 7: r = mkAnd(a, b); break; case 8: r = mkOr(a, b); break; case 9: r = mkXor(a, b); break; case 10: r = mkShl(a, b); break; case 11: r = mkLShr(a, b); break; case 12: r = mkAShr(a, b); break; case 13: r = mkEq(a, b); break; case 14: r = mkUlt(a, b); break; case 15: r = mkUle(a, b); break; case 16: r = mkSlt(a, b); break; case 17: r = mkSle(a, b); break;
                case 18: for (int t = 0; t < 50 && !c; ++t) { Expr* x = pool[rng() % pool.size()]; if (x->w == 1) c = x; } if (!c) continue; r = mkIte(c, a, b); break;
                case 19: { Expr* x = pool[rng() % pool.size()]; if (a->w + x->w > 128) continue; b = x; r = mkConcat(a, b); break; } case 20: p1 = (unsigned)(rng() % a->w); p2 = 1 + (unsigned)(rng() % (a->w - p1)); r = mkExtract(a, p1, p2); break; case 21: p1 = a->w + (unsigned)(rng() % (129 - a->w)); r = mkZExt(a, p1); break; case 22: p1 = a->w + (unsigned)(rng() % (129 - a->w)); r = mkSExt(a, p1); break; case 23: r = mkNot(a); break; default: r = mkNeg(a); }
            for (auto& m : ms) {
                u128 x = evalE(a, m), y = b ? evalE(b, m) : 0, z = 0; unsigned w = a->w; u128 Mk = maskw(w); i128 sx = sgn(x, w), sy = op == 19 ? 0 : sgn(y, w);
                switch (op) { case 0: z = (x + y) & Mk; break; case 1: z = (x - y) & Mk; break; case 2: z = (x * y) & Mk; break; case 3: z = y ? x / y : Mk; break; case 4: z = y == 0 ? (sx < 0 ? 1 : Mk) : sy == -1 ? (-x) & Mk : (u128)(sx / sy) & Mk; break; case 5: z = y ? x % y : x; break; case 6: z = y == 0 ? x : sy == -1 ? 0 : (u128)(sx % sy) & Mk; break; case 7: z = x & y; break; case 8: z = x | y; break; case 9: z = x ^ y; break; case 10: z = y >= w ? 0 : (x << (int)y) & Mk; break; case 11: z = y >= w ? 0 : x >> (int)y; break; case 12: z = (u128)(sx >> (int)(y >= w ? w - 1 : y)) & Mk; break; case 13: z = x == y; break; case 14: z = x < y; break; case 15: z = x <= y; break; case 16: z = sx < sy; break; case 17: z = sx <= sy; break; case 18: z = evalE(c, m) ? x : y; break; case 19: z = (x << b->w) | y; break; case 20: z = (x >> p1) & maskw(p2); break; case 21: z = x; break; case 22: z = (u128)sx & maskw(p1); break; case 23: z = ~x & Mk; break; default: z = (-x) & Mk; }
                if (op >= 3 && op <= 6 && y == 0) continue; // division by zero never reaches the expression level
                ++n; u128 got = evalE(r, m); if (got != z) { ++bad; if (bad < 10) fprintf(stderr, "selftest: op %d: %s -> %s\n", op, exprStr(a).c_str(), exprStr(r).c_str()); }
                if (r->w <= 64 && ((u64)got < r->umin || (u64)got > r->umax)) { ++bad; if (bad < 10) fprintf(stderr, "selftest: range of %s\n", exprStr(r).c_str()); }
            }
            if (r->w <= 64) pool.push_back(r);
        }
        if (round % 100 == 0) { // the Z3 translation agrees with evaluation
            Expr* e = pool.back(); vector<Expr*> cs; for (Expr* v : vars) cs.push_back(mkEq(v, mkConst(ms[3].get(v->lo), v->w))); vector<Expr*> c1 = cs; u128 val = evalE(e, ms[3]); Expr* q = mkEq(e, mkConst(val, e->w)); if (!q->isC()) { c1.push_back(q); Model o; if (solverCheck(c1, o) != Res::Sat) { ++bad; fprintf(stderr, "selftest: z3 disagrees on %s\n", exprStr(e).c_str()); } cs.push_back(mkNot(q)); if (solverCheck(cs, o) != Res::Unsat) { ++bad; fprintf(stderr, "selftest: z3 disagrees (neg) on %s\n", exprStr(e).c_str()); } } }
    }
    printf("selftest: %llu evaluations, %llu disagreements\n", (unsigned long long)n, (unsigned long long)bad); return bad ? 1 : 0;
}
struct Args { int c; char** v; int r; };
static void* thr(void* p) { Args* a = (Args*)p; a->r = realMain(a->c, a->v); return nullptr; }
int main(int argc, char** argv) {
    Args a{argc, argv, 0}; pthread_attr_t at; pthread_attr_init(&at); size_t sz = (size_t)1 << 30; void* stk = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pthread_attr_setstack(&at, stk, sz);
    pthread_t t; if (pthread_create(&t, &at, thr, &a)) return 5; pthread_join(t, nullptr); fflush(nullptr); _exit(a.r);
}
