#include <malloc.h>
// rpsym: bounded symbolic execution of LLVM bitcode compiled from the current source tree.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Operator.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <cmath>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <functional>

using namespace llvm;
typedef std::string Str;

static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// =================================================================== memory
static const u32 PS = 1024;
struct Page { int rc; u32 n; u64* sym; u8 data[1]; };
static Page* newPage(u32 n, u8 fill) { Page* p = (Page*)malloc(sizeof(Page) + n); p->rc = 1; p->n = n; p->sym = nullptr; memset(p->data, fill, n); return p; }
static void decPage(Page* p) { if (p && --p->rc == 0) { free(p->sym); free(p); } }
static Page* clonePage(Page* q) {
    Page* p = (Page*)malloc(sizeof(Page) + q->n); p->rc = 1; p->n = q->n; memcpy(p->data, q->data, q->n); p->sym = nullptr;
    if (q->sym) { p->sym = (u64*)malloc(8 * q->n); memcpy(p->sym, q->sym, 8 * q->n); }
    return p;
}
enum { K_HEAP, K_GLOBAL, K_CONST, K_STACK };
struct Obj {
    int rc; u64 size; u8 kind, fill; u32 np; u64 symFill; const char* name; Page** pg; Page* one;   // symFill: symbolic value of the bytes not written yet
};
static Obj* newObj(u64 size, u8 kind, u8 fill, const char* name) {
    Obj* o = new Obj(); o->rc = 1; o->size = size; o->kind = kind; o->fill = fill; o->symFill = 0; o->name = name;
    o->np = (u32)((size + PS - 1) / PS); o->one = nullptr;
    o->pg = o->np <= 1 ? &o->one : (Page**)calloc(o->np, sizeof(Page*));
    return o;
}
static void decObj(Obj* o) {
    if (!o || --o->rc) return;
    for (u32 i = 0; i < o->np; i++) decPage(o->pg[i]);
    if (o->pg != &o->one) free(o->pg);
    delete o;
}
static Obj* cloneObj(Obj* q) {
    Obj* o = new Obj(*q); o->rc = 1;
    if (q->pg == &q->one) { o->pg = &o->one; }
    else { o->pg = (Page**)malloc(o->np * sizeof(Page*)); memcpy(o->pg, q->pg, o->np * sizeof(Page*)); }
    for (u32 i = 0; i < o->np; i++) if (o->pg[i]) o->pg[i]->rc++;
    return o;
}
static inline u32 pageSize(const Obj* o, u32 i) { u64 r = o->size - (u64)i * PS; return r < PS ? (u32)r : PS; }
static inline Page* wpage(Obj* o, u32 i) {
    Page*& p = o->pg[i];
    if (!p) { p = newPage(pageSize(o, i), o->fill); if (o->symFill) { p->sym = (u64*)malloc(8 * p->n); for (u32 k = 0; k < p->n; k++) p->sym[k] = o->symFill; } }
    else if (p->rc > 1) { Page* q = clonePage(p); p->rc--; p = q; }
    return p;
}
static inline u64 cell(Expr* e, u32 idx) { return (u64)(uintptr_t)e | ((u64)idx << 56); }
static inline Expr* cellE(u64 c) { return (Expr*)(uintptr_t)(c & 0x00ffffffffffffffull); }
static inline u32 cellI(u64 c) { return (u32)(c >> 56); }

static inline u8 rdByte(const Obj* o, u64 off, u64& sym) {
    Page* p = o->pg[off / PS]; sym = 0;
    if (!p) { sym = o->symFill; return o->fill; }
    if (p->sym) sym = p->sym[off % PS];
    return p->data[off % PS];
}
static Val memRead(const Obj* o, u64 off, u32 n) {
    u32 pi = (u32)(off / PS), po = (u32)(off % PS);
    if (po + n <= PS) {
        Page* p = o->pg[pi];
        if (!p && !o->symFill) { u64 v = 0; memset(&v, o->fill, n); return Val(v); }
        bool hasSym = !p;
        if (p && p->sym) for (u32 i = 0; i < n; i++) if (p->sym[po + i]) { hasSym = true; break; }
        if (!hasSym) { u64 v = 0; memcpy(&v, p->data + po, n); return Val(v); }
        Expr* e = cellE(p ? p->sym[po] : o->symFill);
        if (e && e->w == 8 * n) {
            bool all = true;
            for (u32 i = 0; i < n; i++) if ((p ? p->sym[po + i] : o->symFill) != cell(e, i)) { all = false; break; }
            if (all) return Val(e);
        }
    }
    // general: from the most significant byte down
    Val acc; u32 aw = 0;
    int i = (int)n - 1;
    while (i >= 0) {
        u64 s; u8 b = rdByte(o, off + i, s);
        Val part; u32 pw;
        if (!s) {
            u64 v = b; pw = 8; int j = i - 1;
            while (j >= 0) { u64 s2; u8 b2 = rdByte(o, off + j, s2); if (s2) break; v = (v << 8) | b2; pw += 8; j--; }
            part = Val(v); i = j;
        } else {
            Expr* e = cellE(s); u32 hi = cellI(s), lo = hi; int j = i - 1;
            while (j >= 0 && lo > 0) { u64 s2; rdByte(o, off + j, s2); if (s2 != cell(e, lo - 1)) break; lo--; j--; }
            pw = 8 * (hi - lo + 1);
            part = mkExtract(e->w, Val(e), 8 * lo, pw); i = j;
        }
        if (!aw) { acc = part; aw = pw; } else { acc = mkConcat(aw, acc, pw, part); aw += pw; }
    }
    return acc;
}
static void memWrite(Obj* o, u64 off, u32 n, const Val& v) {
    u32 pi = (u32)(off / PS), po = (u32)(off % PS);
    if (po + n <= PS) {
        Page* p = wpage(o, pi);
        if (v.isC()) {
            memcpy(p->data + po, &v.c, n);
            if (p->sym) memset(p->sym + po, 0, 8 * n);
        } else {
            if (!p->sym) p->sym = (u64*)calloc(p->n, 8);
            for (u32 i = 0; i < n; i++) p->sym[po + i] = cell(v.e, i);
        }
        return;
    }
    for (u32 i = 0; i < n; i++) {
        Page* p = wpage(o, (u32)((off + i) / PS)); u32 q = (u32)((off + i) % PS);
        if (v.isC()) { p->data[q] = (u8)(v.c >> (8 * i)); if (p->sym) p->sym[q] = 0; }
        else { if (!p->sym) p->sym = (u64*)calloc(p->n, 8); p->sym[q] = cell(v.e, i); }
    }
}
// object table: two levels, shared chunks
static const u32 CH = 128;
struct Chunk { int rc; Obj* o[CH]; };
struct ObjTable {
    std::vector<Chunk*> c; u32 n = 1;
    ObjTable() {}
    ObjTable(const ObjTable& t) : c(t.c), n(t.n) { for (Chunk* k : c) k->rc++; }
    ObjTable& operator=(const ObjTable&) = delete;
    ~ObjTable() { for (Chunk* k : c) if (--k->rc == 0) { for (u32 i = 0; i < CH; i++) decObj(k->o[i]); delete k; } }
    Obj* get(u32 id) const { return id < n ? c[id / CH]->o[id % CH] : nullptr; }
    Chunk* wchunk(u32 k) {
        Chunk* x = c[k];
        if (x->rc > 1) { Chunk* y = new Chunk(*x); y->rc = 1; for (u32 i = 0; i < CH; i++) if (y->o[i]) y->o[i]->rc++; x->rc--; c[k] = y; return y; }
        return x;
    }
    Obj* getW(u32 id) {
        Chunk* x = wchunk(id / CH); Obj*& o = x->o[id % CH];
        if (o->rc > 1) { Obj* q = cloneObj(o); o->rc--; o = q; }
        return o;
    }
    u32 add(Obj* o) {
        u32 id = n++;
        if (id / CH >= c.size()) { Chunk* k = new Chunk(); memset(k, 0, sizeof(Chunk)); k->rc = 1; c.push_back(k); }
        wchunk(id / CH)->o[id % CH] = o;
        return id;
    }
    void remove(u32 id) { Chunk* x = wchunk(id / CH); decObj(x->o[id % CH]); x->o[id % CH] = nullptr; }
};
static const u64 STACK_ID = 0x20000000ull, FUNC_ID = 0x7E000000ull;

// =================================================================== compiled code
enum K : u16 {
    I_BIN, I_CMP, I_FBIN, I_FUN, I_FCMP, I_CONV, I_FCONV, I_SEL, I_MOV, I_GEP, I_LOAD, I_STORE, I_ALLOCA,
    I_CALL, I_CALLI, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_MEMCPY, I_MEMSET, I_BUILTIN, I_UNSUP, I_EXTELT, I_INSELT,
    I_MINMAX, I_POPC, I_ABS, I_FSHL, I_USUBSAT, I_UADDSAT, I_TRAP, I_OVF, I_VASTART, I_CTLZ, I_CTTZ, I_BSWAP, I_FMULADD, I_RMW, I_CMPXCHG
};
struct Inst {
    K k; u8 op; u8 w; u8 w2; u16 n; u16 pad; int dst, a, b, c; i64 imm; int x, xn; int line;
};
struct Leaf { u32 off; u32 bits; u32 bytes; };
struct Edge { int target; std::vector<std::array<int, 3>> mv; bool overlap; };
struct FuncC;
struct FuncC {
    Function* f; Str name; bool compiled = false, executed = false; u32 nregs = 0; u32 nargs = 0; bool varArg = false; u32 retSlots = 0;
    std::vector<Inst> code; std::vector<Edge> edges; std::vector<int> ops; std::vector<Leaf> leaves;
    std::vector<std::pair<u64, int>> cases;
    int builtin = -1; u64 runs = 0; const char* file = "";
};
static LLVMContext ctx;
static std::unique_ptr<Module> mod;
static const DataLayout* DL;
static std::vector<Val> gConsts;
static std::unordered_map<const Function*, u32> gFuncIdx;
static std::vector<FuncC*> gFuncs;
static std::unordered_map<const GlobalVariable*, u32> gGlobalId;
static std::map<u64, u32> gConstMemo;
static std::vector<Str*> gNames;

static int constIdx(const Val& v) {   // only concrete constants
    auto it = gConstMemo.find(v.c);
    if (it != gConstMemo.end()) return it->second;
    gConsts.push_back(v); gConstMemo[v.c] = (u32)gConsts.size() - 1; return (int)gConsts.size() - 1;
}
static int constRun(const std::vector<Val>& v) {
    if (v.size() == 1) return -constIdx(v[0]) - 1;
    int i = (int)gConsts.size();
    // lanes of constants are laid out in reverse so that op - lane addresses them
    for (auto& x : v) gConsts.push_back(x);
    return -i - 1;
}
static void typeLeaves(Type* t, u64 off, std::vector<Leaf>& out) {
    if (t->isVoidTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) typeLeaves(st->getElementType(i), off + sl->getElementOffset(i), out);
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 s = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) typeLeaves(at->getElementType(), off + i * s, out);
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 s = DL->getTypeStoreSize(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); i++) typeLeaves(vt->getElementType(), off + i * s, out);
        return;
    }
    Leaf l; l.off = (u32)off; l.bits = (u32)DL->getTypeSizeInBits(t).getFixedValue(); l.bytes = (l.bits + 7) / 8;
    out.push_back(l);
}
static u32 nSlots(Type* t) { std::vector<Leaf> l; typeLeaves(t, 0, l); return (u32)l.size(); }
static u32 laneW(Type* t) { if (auto* v = dyn_cast<VectorType>(t)) t = v->getElementType(); return (u32)DL->getTypeSizeInBits(t).getFixedValue(); }
static u32 lanes(Type* t) { if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 1; }

static u32 funcIndex(const Function* f);
static u64 constScalar(const Constant* c);
static void flatConst(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { u32 n = nSlots(t); for (u32 i = 0; i < n; i++) out.push_back(Val((u64)0)); return; }
    if (auto* a = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < a->getNumOperands(); i++) flatConst(cast<Constant>(a->getOperand(i)), out); return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) flatConst(d->getElementAsConstant(i), out); return; }
    out.push_back(Val(constScalar(c)));
}
static u64 constScalar(const Constant* c) {
    if (auto* i = dyn_cast<ConstantInt>(c)) return i->getValue().getBitWidth() <= 64 ? i->getZExtValue() : i->getValue().extractBitsAsZExtValue(64, 0);
    if (auto* f = dyn_cast<ConstantFP>(c)) { APInt b = f->getValueAPF().bitcastToAPInt(); return b.getBitWidth() <= 64 ? b.getZExtValue() : 0; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto* g = dyn_cast<GlobalVariable>(c)) { if (g->hasExternalWeakLinkage() && g->isDeclaration()) return 0; auto it = gGlobalId.find(g); if (it == gGlobalId.end()) { return 0; } return (u64)it->second << 32; }
    if (auto* f = dyn_cast<Function>(c)) return (FUNC_ID + funcIndex(f)) << 32;
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) break;
                return constScalar(e->getOperand(0)) + off.getZExtValue();
            }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return constScalar(e->getOperand(0));
            case Instruction::Trunc: return constScalar(e->getOperand(0)) & maskW((u32)DL->getTypeSizeInBits(e->getType()));
            case Instruction::Add: return constScalar(e->getOperand(0)) + constScalar(e->getOperand(1));
            case Instruction::Sub: return constScalar(e->getOperand(0)) - constScalar(e->getOperand(1));
            case Instruction::ICmp: { u64 a = constScalar(e->getOperand(0)), b = constScalar(e->getOperand(1)); if (e->getPredicate() == CmpInst::ICMP_EQ) return a == b; if (e->getPredicate() == CmpInst::ICMP_NE) return a != b; break; }
            default: break;
        }
    }
    Str s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "rpsym: unsupported constant %s\n", s.c_str());
    return 0;
}
static const char* internStr(const Str& s) { static std::set<Str> S; return S.insert(s).first->c_str(); }

static std::unordered_map<Str, int> gBuiltins;
static std::vector<bool (*)(struct State&, const Inst&, const int* args, int nargs)> gBuiltinFn;
static u32 funcIndex(const Function* f) {
    auto it = gFuncIdx.find(f);
    if (it != gFuncIdx.end()) return it->second;
    FuncC* fc = new FuncC(); fc->f = const_cast<Function*>(f); fc->name = f->getName().str();
    fc->nargs = (u32)f->arg_size(); fc->varArg = f->isVarArg();
    auto b = gBuiltins.find(fc->name);
    if (b != gBuiltins.end()) fc->builtin = b->second;
    gFuncs.push_back(fc); gFuncIdx[f] = (u32)gFuncs.size() - 1;
    return (u32)gFuncs.size() - 1;
}

struct Compiler {
    FuncC* fc; std::unordered_map<const Value*, int> reg; std::unordered_map<const BasicBlock*, int> bbStart; u32 nregs = 0;
    struct Fix { const BasicBlock *from, *to; int edge; };
    std::vector<Fix> fixes;
    int line = 0;
    int opnd(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> o; flatConst(c, o); if (o.empty()) o.push_back(Val((u64)0)); return constRun(o); }
        auto it = reg.find(v);
        if (it == reg.end()) return constRun({ Val((u64)0) });
        return it->second;
    }
    int newReg(const Value* v) { u32 n = nSlots(v->getType()); int r = (int)nregs; nregs += n ? n : 0; reg[v] = r; return r; }
    int edge(const BasicBlock* from, const BasicBlock* to) { fixes.push_back({ from, to, (int)fc->edges.size() }); fc->edges.push_back(Edge()); return (int)fc->edges.size() - 1; }
    Inst& emit(K k) { Inst i; memset(&i, 0, sizeof i); i.k = k; i.n = 1; i.line = line; fc->code.push_back(i); return fc->code.back(); }
    void run() {
        Function& F = *fc->f;
        if (auto* sp = F.getSubprogram()) fc->file = internStr(sp->getFilename().str());
        for (auto& a : F.args()) newReg(&a);
        fc->retSlots = nSlots(F.getReturnType());
        for (auto& bb : F) for (auto& I : bb) if (!I.getType()->isVoidTy()) newReg(&I);
        for (auto& bb : F) { bbStart[&bb] = (int)fc->code.size(); for (auto& I : bb) comp(I); }
        // edges
        for (auto& fx : fixes) {
            Edge& e = fc->edges[fx.edge]; e.target = bbStart[fx.to]; e.overlap = false;
            std::set<int> dsts;
            for (auto& phi : fx.to->phis()) {
                int d = reg[&phi], s = opnd(phi.getIncomingValueForBlock(fx.from)); int n = (int)nSlots(phi.getType());
                if (d == s) continue;
                for (int k = 0; k < n; k++) if (s >= 0 && dsts.count(s + k)) e.overlap = true;
                for (int k = 0; k < n; k++) dsts.insert(d + k);
                e.mv.push_back({ d, s, n });
            }
        }
        fc->nregs = nregs; fc->compiled = true;
    }
    int leavesOf(Type* t, int& n) { int x = (int)fc->leaves.size(); typeLeaves(t, 0, fc->leaves); n = (int)fc->leaves.size() - x; return x; }
    bool badWidth(Type* t) { std::vector<Leaf> l; typeLeaves(t, 0, l); for (auto& x : l) if (x.bits > 64) return true; return false; }
    void callArgs(const CallBase& cb, Inst& i) {
        i.x = (int)fc->ops.size(); int n = 0;
        std::vector<int> tmp;
        for (auto& a : cb.args()) {
            if (a->getType()->isMetadataTy()) continue;
            int o = opnd(a.get()); u32 k = nSlots(a->getType());
            for (u32 j = 0; j < k; j++) { tmp.push_back(o >= 0 ? o + (int)j : o - (int)j); n++; }
        }
        for (int t : tmp) fc->ops.push_back(t);
        i.xn = n;
    }
    void comp(Instruction& I) {
        if (auto& d = I.getDebugLoc()) line = (int)d.getLine();
        int dst = I.getType()->isVoidTy() ? -1 : reg[&I];
        Type* T = I.getType();
        if (isa<PHINode>(I)) return;
        for (auto& o : I.operands()) if (!o->getType()->isVoidTy() && !o->getType()->isLabelTy() && !o->getType()->isMetadataTy() && !isa<Function>(o) && o->getType()->isSized() && badWidth(o->getType())) { Inst& i = emit(I_UNSUP); i.dst = dst; return; }
        if (T->isSized() && badWidth(T)) { Inst& i = emit(I_UNSUP); i.dst = dst; return; }
        auto bin = [&](K k, int op) { Inst& i = emit(k); i.op = (u8)op; i.w = (u8)laneW(T); i.n = (u16)lanes(T); i.dst = dst; int a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)); fc->code.back().a = a; fc->code.back().b = b; };
        auto conv = [&](K k, int op) { int a = opnd(I.getOperand(0)); Inst& i = emit(k); i.op = (u8)op; i.w = (u8)laneW(I.getOperand(0)->getType()); i.w2 = (u8)laneW(T); i.n = (u16)lanes(T); i.dst = dst; i.a = a; };
        auto mov = [&](int src, int n) { Inst& i = emit(I_MOV); i.dst = dst; i.a = src; i.n = (u16)n; };
        switch (I.getOpcode()) {
            case Instruction::Add: bin(I_BIN, ADD); break;
            case Instruction::Sub: bin(I_BIN, SUB); break;
            case Instruction::Mul: bin(I_BIN, MUL); break;
            case Instruction::UDiv: bin(I_BIN, UDIV); break;
            case Instruction::SDiv: bin(I_BIN, SDIV); break;
            case Instruction::URem: bin(I_BIN, UREM); break;
            case Instruction::SRem: bin(I_BIN, SREM); break;
            case Instruction::And: bin(I_BIN, AND); break;
            case Instruction::Or: bin(I_BIN, OR); break;
            case Instruction::Xor: bin(I_BIN, XOR); break;
            case Instruction::Shl: bin(I_BIN, SHL); break;
            case Instruction::LShr: bin(I_BIN, LSHR); break;
            case Instruction::AShr: bin(I_BIN, ASHR); break;
            case Instruction::FAdd: bin(I_FBIN, FADD); break;
            case Instruction::FSub: bin(I_FBIN, FSUB); break;
            case Instruction::FMul: bin(I_FBIN, FMUL); break;
            case Instruction::FDiv: bin(I_FBIN, FDIV); break;
            case Instruction::FRem: bin(I_FBIN, FREM); break;
            case Instruction::FNeg: { int a = opnd(I.getOperand(0)); Inst& i = emit(I_FUN); i.op = FNEG; i.w = (u8)laneW(T); i.n = (u16)lanes(T); i.dst = dst; i.a = a; break; }
            case Instruction::ICmp: case Instruction::FCmp: {
                auto& c = cast<CmpInst>(I);
                int a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1));
                Inst& i = emit(isa<ICmpInst>(I) ? I_CMP : I_FCMP); i.op = (u8)c.getPredicate(); i.w = (u8)laneW(I.getOperand(0)->getType()); i.n = (u16)lanes(T); i.dst = dst; i.a = a; i.b = b; break; }
            case Instruction::Select: {
                int a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)), c = opnd(I.getOperand(2));
                std::vector<Leaf> lv; typeLeaves(T, 0, lv);
                Inst& i = emit(I_SEL); i.dst = dst; i.a = a; i.b = b; i.c = c; i.n = (u16)lv.size(); i.imm = I.getOperand(0)->getType()->isVectorTy();
                int n; int x = leavesOf(T, n); fc->code.back().x = x; break; }
            case Instruction::Trunc: conv(I_CONV, EXTRACT); break;
            case Instruction::ZExt: conv(I_CONV, ZEXT); break;
            case Instruction::SExt: conv(I_CONV, SEXT); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: conv(I_CONV, ZEXT); fc->code.back().imm = 1; break;
            case Instruction::SIToFP: conv(I_FCONV, SITOFP); break;
            case Instruction::UIToFP: conv(I_FCONV, UITOFP); break;
            case Instruction::FPToSI: conv(I_FCONV, FPTOSI); break;
            case Instruction::FPToUI: conv(I_FCONV, FPTOUI); break;
            case Instruction::FPExt: conv(I_FCONV, FPEXT); break;
            case Instruction::FPTrunc: conv(I_FCONV, FPTRUNC); break;
            case Instruction::AddrSpaceCast: case Instruction::Freeze: mov(opnd(I.getOperand(0)), (int)nSlots(T)); break;
            case Instruction::BitCast: {
                Type* S = I.getOperand(0)->getType();
                u32 sw = laneW(S), dw = laneW(T);
                if (sw == dw) { mov(opnd(I.getOperand(0)), (int)nSlots(T)); break; }
                int a = opnd(I.getOperand(0));
                Inst& i = emit(I_CONV); i.op = CONCAT; i.w = (u8)sw; i.w2 = (u8)dw; i.n = (u16)lanes(T); i.x = (int)lanes(S); i.dst = dst; i.a = a; break; }
            case Instruction::GetElementPtr: {
                auto& g = cast<GetElementPtrInst>(I);
                i64 off = 0; std::vector<std::array<i64, 3>> terms; // operand, width, scale
                if (T->isVectorTy()) { Inst& i = emit(I_UNSUP); i.dst = dst; break; }
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value* ix = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) { off += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    i64 sc = (i64)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
                    if (auto* ci = dyn_cast<ConstantInt>(ix)) off += sc * ci->getSExtValue();
                    else terms.push_back({ opnd(ix), (i64)laneW(ix->getType()), sc });
                }
                int a = opnd(g.getPointerOperand());
                int x = (int)fc->ops.size();
                for (auto& t : terms) { fc->ops.push_back((int)t[0]); fc->ops.push_back((int)t[1]); fc->ops.push_back((int)t[2]); }
                Inst& i = emit(I_GEP); i.dst = dst; i.a = a; i.imm = off; i.x = x; i.xn = (int)terms.size(); break; }
            case Instruction::Load: { int a = opnd(I.getOperand(0)); int n; int x = leavesOf(T, n); Inst& i = emit(I_LOAD); i.dst = dst; i.a = a; i.x = x; i.xn = n; i.imm = (i64)DL->getTypeStoreSize(T).getFixedValue(); break; }
            case Instruction::Store: { Value* v = I.getOperand(0); int b = opnd(v), a = opnd(I.getOperand(1)); int n; int x = leavesOf(v->getType(), n); Inst& i = emit(I_STORE); i.a = a; i.b = b; i.x = x; i.xn = n; i.imm = (i64)DL->getTypeStoreSize(v->getType()).getFixedValue(); break; }
            case Instruction::Alloca: { auto& al = cast<AllocaInst>(I); int a = opnd(al.getArraySize()); Inst& i = emit(I_ALLOCA); i.dst = dst; i.a = a; i.imm = (i64)DL->getTypeAllocSize(al.getAllocatedType()).getFixedValue(); break; }
            case Instruction::Br: {
                auto& b = cast<BranchInst>(I);
                if (b.isUnconditional()) { int e = edge(I.getParent(), b.getSuccessor(0)); emit(I_BR).a = e; }
                else {
                    int c = opnd(b.getCondition()); int e1 = edge(I.getParent(), b.getSuccessor(0)), e2 = edge(I.getParent(), b.getSuccessor(1));
                    Inst& i = emit(I_CBR); i.a = c; i.b = e1; i.c = e2;
                }
                break; }
            case Instruction::Switch: {
                auto& s = cast<SwitchInst>(I);
                int c = opnd(s.getCondition()); u32 w = laneW(s.getCondition()->getType());
                std::map<const BasicBlock*, int> em;
                auto ed = [&](const BasicBlock* t) { auto it = em.find(t); if (it != em.end()) return it->second; return em[t] = edge(I.getParent(), t); };
                int def = ed(s.getDefaultDest()); int x = (int)fc->cases.size();
                for (auto& k : s.cases()) fc->cases.push_back({ k.getCaseValue()->getZExtValue(), ed(k.getCaseSuccessor()) });
                Inst& i = emit(I_SWITCH); i.a = c; i.b = def; i.w = (u8)w; i.x = x; i.xn = (int)s.getNumCases(); break; }
            case Instruction::Ret: { int a = 0; u32 n = 0; if (I.getNumOperands()) { a = opnd(I.getOperand(0)); n = nSlots(I.getOperand(0)->getType()); } Inst& i = emit(I_RET); i.a = a; i.n = (u16)n; break; }
            case Instruction::Unreachable: emit(I_UNREACH); break;
            case Instruction::ExtractValue: {
                auto& e = cast<ExtractValueInst>(I);
                int a = opnd(e.getAggregateOperand()); int o = slotOffset(e.getAggregateOperand()->getType(), e.getIndices());
                mov(a >= 0 ? a + o : a - o, (int)nSlots(T)); break; }
            case Instruction::InsertValue: {
                auto& e = cast<InsertValueInst>(I);
                int a = opnd(e.getAggregateOperand()), b = opnd(e.getInsertedValueOperand()); int o = slotOffset(T, e.getIndices());
                mov(a, (int)nSlots(T));
                Inst& i = emit(I_MOV); i.dst = dst + o; i.a = b; i.n = (u16)nSlots(e.getInsertedValueOperand()->getType()); break; }
            case Instruction::ExtractElement: {
                int a = opnd(I.getOperand(0));
                if (auto* ci = dyn_cast<ConstantInt>(I.getOperand(1))) { int o = (int)ci->getZExtValue(); mov(a >= 0 ? a + o : a - o, 1); }
                else { int b = opnd(I.getOperand(1)); Inst& i = emit(I_EXTELT); i.dst = dst; i.a = a; i.b = b; i.imm = lanes(I.getOperand(0)->getType()); i.w = (u8)laneW(I.getOperand(1)->getType()); }
                break; }
            case Instruction::InsertElement: {
                int a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1));
                mov(a, (int)lanes(T));
                if (auto* ci = dyn_cast<ConstantInt>(I.getOperand(2))) { Inst& i = emit(I_MOV); i.dst = dst + (int)ci->getZExtValue(); i.a = b; i.n = 1; }
                else { Inst& i = emit(I_UNSUP); i.dst = dst; }
                break; }
            case Instruction::ShuffleVector: {
                auto& s = cast<ShuffleVectorInst>(I);
                int a = opnd(s.getOperand(0)), b = opnd(s.getOperand(1)); int n0 = (int)lanes(s.getOperand(0)->getType());
                auto m = s.getShuffleMask();
                for (unsigned k = 0; k < m.size(); k++) {
                    int src;
                    if (m[k] < 0) src = constRun({ Val((u64)0) });
                    else if (m[k] < n0) src = a >= 0 ? a + m[k] : a - m[k];
                    else src = b >= 0 ? b + (m[k] - n0) : b - (m[k] - n0);
                    Inst& i = emit(I_MOV); i.dst = dst + (int)k; i.a = src; i.n = 1;
                }
                break; }
            case Instruction::Call: case Instruction::Invoke: {
                auto& cb = cast<CallBase>(I);
                compCall(cb, dst);
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { int e = edge(I.getParent(), iv->getNormalDest()); emit(I_BR).a = e; }
                break; }
            case Instruction::Fence: break;
            case Instruction::LandingPad: { Inst& i = emit(I_UNSUP); i.dst = dst; break; }
            case Instruction::Resume: { emit(I_UNSUP).dst = -1; break; }
            case Instruction::AtomicRMW: {
                auto& r = cast<AtomicRMWInst>(I); int a = opnd(r.getPointerOperand()), b = opnd(r.getValOperand());
                int op = -1; switch (r.getOperation()) { case AtomicRMWInst::Add: op = ADD; break; case AtomicRMWInst::Sub: op = SUB; break; case AtomicRMWInst::Or: op = OR; break; case AtomicRMWInst::And: op = AND; break; case AtomicRMWInst::Xchg: op = 255; break; default: break; }
                if (op < 0) { Inst& i = emit(I_UNSUP); i.dst = dst; break; }
                Inst& i = emit(I_RMW); i.dst = dst; i.a = a; i.b = b; i.op = (u8)op; i.w = (u8)laneW(T); break; }
            default: { Inst& i = emit(I_UNSUP); i.dst = dst; break; }
        }
    }
    int slotOffset(Type* t, ArrayRef<unsigned> idx) {
        int o = 0;
        for (unsigned k : idx) {
            if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) o += (int)nSlots(st->getElementType(j)); t = st->getElementType(k); }
            else { auto* at = cast<ArrayType>(t); o += (int)(k * nSlots(at->getElementType())); t = at->getElementType(); }
        }
        return o;
    }
    void compCall(CallBase& cb, int dst) {
        Function* f = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
        if (auto* al = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) f = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
        if (cb.isInlineAsm()) { Inst& i = emit(I_UNSUP); i.dst = dst; return; }
        if (f && f->isIntrinsic()) {
            Intrinsic::ID id = f->getIntrinsicID();
            Type* T = cb.getType();
            auto un = [&](K k, int op) { int a = opnd(cb.getArgOperand(0)); Inst& i = emit(k); i.op = (u8)op; i.w = (u8)laneW(T); i.n = (u16)lanes(T); i.dst = dst; i.a = a; };
            auto bi = [&](K k, int op) { int a = opnd(cb.getArgOperand(0)), b = opnd(cb.getArgOperand(1)); Inst& i = emit(k); i.op = (u8)op; i.w = (u8)laneW(cb.getArgOperand(0)->getType()); i.n = (u16)lanes(cb.getArgOperand(0)->getType()); i.dst = dst; i.a = a; i.b = b; };
            switch (id) {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::vaend: case Intrinsic::prefetch: return;
                case Intrinsic::invariant_start: mov0(dst); return;
                case Intrinsic::expect: { int a = opnd(cb.getArgOperand(0)); Inst& i = emit(I_MOV); i.dst = dst; i.a = a; i.n = 1; return; }
                case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: {
                    int a = opnd(cb.getArgOperand(0)), b = opnd(cb.getArgOperand(1)), c = opnd(cb.getArgOperand(2));
                    Inst& i = emit(id == Intrinsic::memset ? I_MEMSET : I_MEMCPY); i.a = a; i.b = b; i.c = c; i.w = (u8)laneW(cb.getArgOperand(2)->getType()); i.imm = id == Intrinsic::memmove; return; }
                case Intrinsic::ceil: un(I_FUN, FCEIL); return;
                case Intrinsic::floor: un(I_FUN, FFLOOR); return;
                case Intrinsic::trunc: un(I_FUN, FTRUNCI); return;
                case Intrinsic::round: un(I_FUN, FROUND); return;
                case Intrinsic::fabs: un(I_FUN, FABS); return;
                case Intrinsic::sqrt: un(I_FUN, FSQRT); return;
                case Intrinsic::fmuladd: case Intrinsic::fma: { int a = opnd(cb.getArgOperand(0)), b = opnd(cb.getArgOperand(1)), c = opnd(cb.getArgOperand(2)); Inst& i = emit(I_FMULADD); i.w = (u8)laneW(T); i.n = (u16)lanes(T); i.dst = dst; i.a = a; i.b = b; i.c = c; return; }
                case Intrinsic::umax: bi(I_MINMAX, 0); return;
                case Intrinsic::umin: bi(I_MINMAX, 1); return;
                case Intrinsic::smax: bi(I_MINMAX, 2); return;
                case Intrinsic::smin: bi(I_MINMAX, 3); return;
                case Intrinsic::maxnum: bi(I_MINMAX, 4); return;
                case Intrinsic::minnum: bi(I_MINMAX, 5); return;
                case Intrinsic::ctpop: un(I_POPC, 0); return;
                case Intrinsic::ctlz: un(I_CTLZ, 0); return;
                case Intrinsic::cttz: un(I_CTTZ, 0); return;
                case Intrinsic::bswap: un(I_BSWAP, 0); return;
                case Intrinsic::abs: un(I_ABS, 0); return;
                case Intrinsic::usub_sat: bi(I_USUBSAT, 0); return;
                case Intrinsic::uadd_sat: bi(I_UADDSAT, 0); return;
                case Intrinsic::fshl: case Intrinsic::fshr: { int a = opnd(cb.getArgOperand(0)), b = opnd(cb.getArgOperand(1)), c = opnd(cb.getArgOperand(2)); Inst& i = emit(I_FSHL); i.op = id == Intrinsic::fshr; i.w = (u8)laneW(T); i.n = (u16)lanes(T); i.dst = dst; i.a = a; i.b = b; i.c = c; return; }
                case Intrinsic::uadd_with_overflow: bi(I_OVF, 0); return;
                case Intrinsic::usub_with_overflow: bi(I_OVF, 1); return;
                case Intrinsic::umul_with_overflow: bi(I_OVF, 2); return;
                case Intrinsic::sadd_with_overflow: bi(I_OVF, 3); return;
                case Intrinsic::ssub_with_overflow: bi(I_OVF, 4); return;
                case Intrinsic::smul_with_overflow: bi(I_OVF, 5); return;
                case Intrinsic::trap: case Intrinsic::ubsantrap: emit(I_TRAP); return;
                case Intrinsic::is_constant: { Inst& i = emit(I_MOV); i.dst = dst; i.a = constRun({ Val((u64)0) }); i.n = 1; return; }
                case Intrinsic::eh_typeid_for: { mov0(dst); return; }
                case Intrinsic::objectsize: { Inst& i = emit(I_MOV); i.dst = dst; i.a = constRun({ Val(~0ull) }); i.n = 1; return; }
                default: break;
            }
            fprintf(stderr, "rpsym: unsupported intrinsic %s\n", f->getName().str().c_str());
            Inst& i = emit(I_UNSUP); i.dst = dst; return;
        }
        Inst tmp; memset(&tmp, 0, sizeof tmp);
        callArgs(cb, tmp);
        if (f) {
            u32 fi = funcIndex(f);
            Inst& i = emit(I_CALL); i.dst = dst; i.x = tmp.x; i.xn = tmp.xn; i.imm = fi; i.n = (u16)nSlots(cb.getType());
        } else {
            int a = opnd(cb.getCalledOperand());
            Inst& i = emit(I_CALLI); i.dst = dst; i.a = a; i.x = tmp.x; i.xn = tmp.xn; i.n = (u16)nSlots(cb.getType());
        }
    }
    void mov0(int dst) { if (dst < 0) return; int z = constRun({ Val((u64)0) }); Inst& i = emit(I_MOV); i.dst = dst; i.a = z; i.n = 1; }
};
static void compileFunc(FuncC* fc) { Compiler c; c.fc = fc; c.run(); }

// =================================================================== states
struct Frame { FuncC* f; u32 rb; int pc; int dst; u32 dstN; u32 stackBase; u32 callerRb; };
struct Input { u32 var; const char* name; i64 base; u8 kind; u8 w; };  // value = base + var (kind 0), bits (kind 1), concrete (kind 2: base only)
struct Obs { const char* label; Val v; u8 w; };
struct State {
    std::vector<Val> regs; std::vector<Frame> frames; ObjTable mem; std::vector<Obj*> stack;
    std::vector<Expr*> pc; ModelRef model; std::vector<Input> inputs; std::vector<Obs> obs;
    std::map<const char*, u32> nameCount; std::vector<u64> va;  // va: packed vararg list of innermost frames (unused)
    u64 steps = 0; u32 forks = 0; bool guard = false;
    State() {}
    State(const State& s) : regs(s.regs), frames(s.frames), mem(s.mem), stack(s.stack), pc(s.pc), model(s.model), inputs(s.inputs), obs(s.obs), nameCount(s.nameCount), va(s.va), steps(s.steps), forks(s.forks), guard(s.guard) { for (Obj* o : stack) o->rc++; }
    State& operator=(const State&) = delete;
    ~State() { for (Obj* o : stack) decObj(o); }
};

// =================================================================== results
struct Counters { u64 paths = 0, pathsKilled = 0, forks = 0, decided = 0, checks = 0, checksProved = 0, undecided = 0, unexplored = 0, steps = 0, errors = 0, violations = 0, stepLimit = 0, concretized = 0, memChecks = 0; };
static Counters G;
static Str gEntry; static Str gOutDir; static FILE* gOut;
static std::set<Str> gReach; static std::map<Str, u64> gErrs; static std::map<Str, int> gViolCount; static std::map<Str, u64> gCheckLabels;
static std::deque<State*> gWork;
static double gDeadline = 1e18; static u64 gMaxSteps = 300000000ull; static u64 gSampleEvery = 1; static int gMaxSamples = 6;
static u64 gRng = 88172645463325252ull; static int gVerbose = 0; static u64 gMaxAlloc = 1ull << 30; static int gMaxIte = 64; static u64 gMaxWork = 6000;
static u64 rnd() { gRng ^= gRng << 13; gRng ^= gRng >> 7; gRng ^= gRng << 17; return gRng; }
struct Shared { volatile int freeSlots; volatile int active; volatile int stop; volatile int viol; };
static Shared* gSh;
static Str gBinName;

static Str jesc(const Str& s) { Str r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((u8)c < 32) r += ' '; else r += c; } return r; }
static Str curLoc(State& s) {
    if (s.frames.empty()) return "?";
    Str r;
    int n = 0;
    for (int i = (int)s.frames.size() - 1; i >= 0 && n < 6; i--, n++) {
        Frame& f = s.frames[i];
        int pc = f.pc - 1; if (pc < 0) pc = 0;
        if (n) r += " < ";
        Str dn = demangle(f.f->name); if (dn.size() > 90) dn = dn.substr(0, 90);
        r += dn + ":" + std::to_string(pc < (int)f.f->code.size() ? f.f->code[pc].line : 0);
    }
    return r;
}
static Str inputsJson(State& s, const Model& m) {
    Str r = "[";
    for (size_t i = 0; i < s.inputs.size(); i++) {
        Input& in = s.inputs[i];
        u64 v = in.kind == 2 ? (u64)in.base : (u64)in.base + (m.get(in.var) & maskW(in.w));
        if (i) r += ",";
        r += "[\"" + jesc(in.name) + "\"," + std::to_string((i64)v) + "]";
    }
    return r + "]";
}
static void emitLine(const Str& s) { fputs(s.c_str(), gOut); fputc('\n', gOut); }
static void violation(State& s, const Str& kind, const Str& msg, const Model& m) {
    Str loc = curLoc(s);
    // one class per (kind,msg,innermost location)
    Str key = kind + "|" + msg + (kind == "check" ? "" : loc.substr(0, 120));
    G.violations++;
    if (gSh) __sync_fetch_and_add(&gSh->viol, 1);
    if (++gViolCount[key] > 3) return;
    emitLine("{\"t\":\"violation\",\"entry\":\"" + gEntry + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(loc) + "\",\"inputs\":" + inputsJson(s, m) + "}");
    fflush(gOut);
}
static void engineError(State& s, const Str& msg) { G.errors++; gErrs[msg + " @ " + curLoc(s)]++; }
static void pathEnd(State& s) {
    G.paths++;
    bool take = false;
    static u64 seen = 0, emitted = 0; seen++;
    if (emitted < 2) take = true; else if (emitted < (u64)gMaxSamples && rnd() % (seen + 1) < 2) take = true;
    if (take && !s.obs.empty()) {
        emitted++;
        Str r = "{\"t\":\"sample\",\"entry\":\"" + gEntry + "\",\"inputs\":" + inputsJson(s, *s.model) + ",\"obs\":[";
        for (size_t i = 0; i < s.obs.size(); i++) {
            u64 v = s.obs[i].v.isC() ? s.obs[i].v.c : evalExpr(s.obs[i].v.e, *s.model);
            r += (i ? ",[\"" : "[\"") + jesc(s.obs[i].label) + "\"," + std::to_string(v) + "," + std::to_string(s.obs[i].w) + "]";
        }
        emitLine(r + "]}");
    }
}
static void writeSummary() {
    Str r = "{\"t\":\"summary\",\"entry\":\"" + gEntry + "\"";
    auto add = [&](const char* k, u64 v) { r += ",\"" + Str(k) + "\":" + std::to_string(v); };
    add("paths", G.paths); add("killed", G.pathsKilled); add("forks", G.forks); add("decided", G.decided); add("checks", G.checks); add("proved", G.checksProved);
    add("undecided", G.undecided); add("unexplored", G.unexplored); add("steps", G.steps); add("errors", G.errors); add("violations", G.violations); add("steplimit", G.stepLimit); add("concretized", G.concretized); add("memchecks", G.memChecks);
    add("queries", gSolverStats.queries); add("sat", gSolverStats.sat); add("unsat", gSolverStats.unsat); add("unknown", gSolverStats.unknown); add("cache", gSolverStats.cacheHits); add("modelhits", gSolverStats.modelHits); add("fpqueries", gSolverStats.fpQueries);
    char b[64]; snprintf(b, sizeof b, ",\"solver_s\":%.3f,\"solver_max\":%.3f", gSolverStats.seconds, gSolverStats.maxSeconds); r += b;
    r += ",\"reach\":["; bool first = true; for (auto& x : gReach) { r += (first ? "\"" : ",\"") + jesc(x) + "\""; first = false; }
    r += "],\"errs\":["; first = true; for (auto& x : gErrs) { r += (first ? "[\"" : ",[\"") + jesc(x.first) + "\"," + std::to_string(x.second) + "]"; first = false; }
    r += "],\"checklabels\":["; first = true; for (auto& x : gCheckLabels) { r += (first ? "[\"" : ",[\"") + jesc(x.first) + "\"," + std::to_string(x.second) + "]"; first = false; }
    r += "],\"funcs\":["; first = true; for (FuncC* f : gFuncs) if (f->executed) { r += (first ? "\"" : ",\"") + f->name + "\""; first = false; }
    r += "]}";
    emitLine(r); fflush(gOut);
}

// =================================================================== execution helpers
static inline Val& R(State& s, u32 rb, int o) { return o >= 0 ? s.regs[rb + o] : gConsts[-o - 1]; }
static inline Val lane(State& s, u32 rb, int o, int k) { return o >= 0 ? s.regs[rb + o + k] : gConsts[-o - 1 + k]; }
static inline u64 evalV(State& s, const Val& v) { return v.isC() ? v.c : evalExpr(v.e, *s.model); }
static inline bool inPc(State& s, Expr* e) { for (size_t i = s.pc.size(); i-- > 0;) if (s.pc[i] == e) return true; return false; }
enum { OK_ = 0, DEAD = 1 };

static void addPc(State& s, Expr* e) { if (e->op == CONST) return; if (e->op == AND && e->w == 1) { addPc(s, e->a); addPc(s, e->b); return; } if (!inPc(s, e)) s.pc.push_back(e); }
static int feasible(State& s, Expr* cond, ModelRef& m) {
    if (inPc(s, cond)) { m = s.model; return 1; }
    int r = solverCheck(s.pc, cond, s.model, m);
    return r;
}
// decide a symbolic boolean: result 0/1; may push the other side to the worklist (re-executing the current instruction with the condition decided)
// returns -1 if the path must end
static bool knownSide(State& s, Expr* c, int& side) {
    Val n = mkNot1(Val(c));
    for (size_t i = s.pc.size(); i-- > 0;) { if (s.pc[i] == c) { side = 1; return true; } if (n.e && s.pc[i] == n.e) { side = 0; return true; } }
    return false;
}
static State* forkState(State& s) { State* t = new State(s); t->forks++; s.forks++; G.forks++; return t; }

static int requireTrue(State& s, const Val& c, const char* kind, const Str& msg) {
    // c must hold on every value; reports otherwise, then continues with c assumed. 0 ok, 1 dead
    if (c.isC()) { if (c.c & 1) return OK_; violation(s, kind, msg, *s.model); return DEAD; }
    int side; if (knownSide(s, c.e, side)) { if (side) return OK_; violation(s, kind, msg, *s.model); return DEAD; }
    Val n = mkNot1(c);
    bool cur = evalExpr(c.e, *s.model);
    ModelRef m;
    if (!cur) {
        violation(s, kind, msg, *s.model);
        int r = feasible(s, c.e, m);
        if (r != 1) return DEAD;
        addPc(s, c.e); s.model = m; return OK_;
    }
    int r = feasible(s, toE(n, 1), m);
    if (r == 1) { violation(s, kind, msg, *m); addPc(s, c.e); }
    else if (r == 0) { }
    else { G.undecided++; gErrs["undecided: " + Str(kind) + " " + msg]++; addPc(s, c.e); }
    return OK_;
}
// concretize a value by forking over its feasible values; re-executes the current instruction in the forked state
static u64 concretize(State& s, Val v, u32 w, std::function<void(State&, u64)> = nullptr) {
    if (v.isC()) return v.c & maskW(w);
    u64 x = evalExpr(v.e, *s.model);
    Val eq = mkCmp(EQ, w, v, Val(x));
    if (eq.isC()) return x;
    G.concretized++;
    ModelRef m;
    Val ne = mkNot1(eq);
    int r = feasible(s, toE(ne, 1), m);
    if (r == 1) {
        State* t = forkState(s);
        t->frames.back().pc--;           // re-execute
        addPc(*t, ne.e); t->model = m;
        gWork.push_back(t);
    } else if (r < 0) G.undecided++;
    if (r != 0) addPc(s, eq.e);
    return x;
}

static Obj* findObj(State& s, u64 addr, bool write) {
    u64 id = addr >> 32;
    if (id >= STACK_ID && id < STACK_ID + s.stack.size()) {
        Obj*& o = s.stack[id - STACK_ID];
        if (write && o->rc > 1) { Obj* q = cloneObj(o); o->rc--; o = q; }
        return o;
    }
    if (id == 0 || id >= s.mem.n) return nullptr;
    Obj* o = s.mem.get((u32)id);
    if (!o) return nullptr;
    if (write) return s.mem.getW((u32)id);
    return o;
}
static Str describeAddr(State& s, u64 addr) {
    u64 id = addr >> 32; char b[128];
    if (id == 0) return "null pointer";
    if (id >= FUNC_ID && id < FUNC_ID + gFuncs.size()) return "function address";
    if (id >= STACK_ID && id < FUNC_ID) { snprintf(b, sizeof b, "stack object %llu", (unsigned long long)(id - STACK_ID)); return b; }
    if (id < s.mem.n && !s.mem.get((u32)id)) { snprintf(b, sizeof b, "freed heap object"); return b; }
    if (id >= s.mem.n) return "wild pointer";
    Obj* o = s.mem.get((u32)id); snprintf(b, sizeof b, "object '%s' size %llu offset %d", o->name, (unsigned long long)o->size, (int)(u32)addr); return b;
}
// check concrete access; returns object or null (violation reported)
static Obj* access(State& s, u64 addr, u64 n, bool write) {
    Obj* o = findObj(s, addr, write);
    u64 off = addr & 0xffffffffull;
    if (!o || off + n > o->size) {
        if (n == 0) return o;
        violation(s, "memory", Str(write ? "invalid write" : "invalid read") + " of " + std::to_string(n) + " bytes at " + describeAddr(s, addr), *s.model);
        return nullptr;
    }
    if (write && o->kind == K_CONST) { violation(s, "memory", "write to constant", *s.model); return nullptr; }
    return o;
}
struct Ptr { u64 addr; bool sym; std::vector<u64> cand; std::vector<Expr*> cond; };
// resolves a symbolic pointer. returns false if path is dead
static bool resolve(State& s, const Val& p, u64 n, Ptr& out, bool write) {
    if (p.isC()) { out.addr = p.c; out.sym = false; return true; }
    Expr* e = p.e;
    u64 a0 = evalExpr(e, *s.model);
    out.sym = false;
    Obj* o = findObj(s, a0, false);
    u64 id = a0 >> 32;
    if (o && o->size >= n) {
        u64 lo = id << 32, hi = lo + o->size - n;
        G.memChecks++;
        if (!(e->umin >= lo && e->umax <= hi)) {
            Val in = mkAnd1(mkCmp(ULE, 64, Val(lo), p), mkCmp(ULE, 64, p, Val(hi)));
            // an address in another live object is possible for merged pointers: then concretize instead
            ModelRef m; 
            if (!in.isC()) {
                int r = feasible(s, toE(mkNot1(in), 1), m);
                if (r == 1) {
                    u64 a1 = evalExpr(e, *m);
                    Obj* o1 = findObj(s, a1, false);
                    if (o1 && (a1 & 0xffffffffull) + n <= o1->size && (a1 >> 32) != id) { out.addr = concretize(s, p, 64); return true; }
                    if (a0 < lo || a0 > hi) { violation(s, "memory", Str(write ? "invalid write" : "invalid read") + " (symbolic index) at " + describeAddr(s, a0), *s.model); return false; }
                    State tmp(s); tmp.model = m;
                    violation(tmp, "memory", Str(write ? "invalid write" : "invalid read") + " (symbolic index) at " + describeAddr(s, a1), *m);
                    addPc(s, in.e);
                } else if (r < 0) { G.undecided++; addPc(s, in.e); }
            }
        }
        // candidates
        u64 clo = std::max(lo, e->umin), chi = std::min(hi, e->umax);
        u32 tz = trailingZeros(e->op == ADD && e->b->op == CONST ? e->a : e);
        u64 step = 1ull << std::min<u32>(tz, 12);
        u64 basev = e->op == ADD && e->b->op == CONST ? e->b->imm : 0;
        u64 st = clo; { u64 r = (st - basev) & (step - 1); if (r) st += step - r; }
        if (chi >= clo && (chi - clo) / step + 1 <= (u64)gMaxIte) {
            out.sym = true; out.addr = id << 32;
            for (u64 a = st; a <= chi; a += step) { Val c = mkCmp(EQ, 64, p, Val(a)); if (c.isC() && !c.c) continue; out.cand.push_back(a); out.cond.push_back(toE(c, 1)); }
            if (out.cand.size() == 1) { out.sym = false; out.addr = out.cand[0]; }
            if (!out.cand.empty()) return true;
            out.sym = false;
        }
    }
    out.addr = concretize(s, p, 64);
    return true;
}
static inline Val loadLeaf(const Obj* o, u64 off, const Leaf& l) {
    Val v = memRead(o, off, l.bytes);
    if (l.bits != l.bytes * 8) v = mkExtract(l.bytes * 8, v, 0, l.bits);
    return v;
}
static inline void storeLeaf(Obj* o, u64 off, const Leaf& l, Val v) {
    if (v.isC()) v.c &= maskW(l.bits); else if (l.bits != l.bytes * 8) v = mkZext(l.bits, v, l.bytes * 8);
    memWrite(o, off, l.bytes, v);
}
static int copyBytes(State& s, u64 d, u64 sr, u64 n) {
    if (!n) return OK_;
    Obj* so = access(s, sr, n, false); if (!so) return DEAD;
    Obj* dob = access(s, d, n, true); if (!dob) return DEAD;
    so = findObj(s, sr, false);
    u64 so_ = sr & 0xffffffffull, do_ = d & 0xffffffffull;
    if (so == dob && so_ < do_) {
        for (u64 i = n; i-- > 0;) { u64 c; u8 b = rdByte(so, so_ + i, c); if (c) { Page* p = wpage(dob, (u32)((do_ + i) / PS)); if (!p->sym) p->sym = (u64*)calloc(p->n, 8); p->sym[(do_ + i) % PS] = c; } else { Page* p = wpage(dob, (u32)((do_ + i) / PS)); p->data[(do_ + i) % PS] = b; if (p->sym) p->sym[(do_ + i) % PS] = 0; } }
        return OK_;
    }
    // chunked copy
    u64 i = 0;
    while (i < n) {
        u64 so1 = so_ + i, do1 = do_ + i;
        u64 len = std::min<u64>(n - i, std::min<u64>(PS - so1 % PS, PS - do1 % PS));
        Page* dp = wpage(dob, (u32)(do1 / PS));
        Page* sp = so->pg[so1 / PS];
        u32 a = (u32)(so1 % PS), b = (u32)(do1 % PS);
        if (!sp) { memset(dp->data + b, so->fill, len); if (so->symFill && !dp->sym) dp->sym = (u64*)calloc(dp->n, 8); if (dp->sym) for (u64 k = 0; k < len; k++) dp->sym[b + k] = so->symFill; }
        else {
            memmove(dp->data + b, sp->data + a, len);
            bool any = false;
            if (sp->sym) for (u64 k = 0; k < len; k++) if (sp->sym[a + k]) { any = true; break; }
            if (any) { if (!dp->sym) dp->sym = (u64*)calloc(dp->n, 8); memmove(dp->sym + b, sp->sym + a, 8 * len); }
            else if (dp->sym) memset(dp->sym + b, 0, 8 * len);
        }
        i += len;
    }
    return OK_;
}
static u64 heapAlloc(State& s, u64 size, u8 fill, const char* name) {
    Obj* o = newObj(size ? size : 1, K_HEAP, fill, name); if (!size) o->size = 0;
    return (u64)s.mem.add(o) << 32;
}
static int heapFree(State& s, u64 addr) {
    if (!addr) return OK_;
    u64 id = addr >> 32;
    Obj* o = (id < s.mem.n && id) ? s.mem.get((u32)id) : nullptr;
    if (!o || (addr & 0xffffffffull) || o->kind != K_HEAP) { violation(s, "memory", Str("invalid free of ") + describeAddr(s, addr), *s.model); return DEAD; }
    s.mem.remove((u32)id);
    return OK_;
}
static bool readCStr(State& s, u64 addr, Str& out) {
    out.clear();
    for (int i = 0; i < 4096; i++) {
        Obj* o = findObj(s, addr, false); u64 off = addr & 0xffffffffull;
        if (!o || off >= o->size) return false;
        u64 c; u8 b = rdByte(o, off, c); if (c) return false;
        if (!b) return true; out += (char)b; addr++;
    }
    return false;
}

static void enterFunc(State& s, FuncC* f, const Val* args, u32 n, int dst, u32 dstN, u32 callerRb) {
    if (!f->compiled) compileFunc(f);
    f->executed = true;
    Frame fr; fr.f = f; fr.rb = (u32)s.regs.size(); fr.pc = 0; fr.dst = dst; fr.dstN = dstN; fr.stackBase = (u32)s.stack.size(); fr.callerRb = callerRb;
    s.regs.resize(s.regs.size() + f->nregs);
    for (u32 i = 0; i < n && i < f->nregs; i++) s.regs[fr.rb + i] = args[i];
    s.frames.push_back(fr);
}
static void popFrame(State& s) {
    Frame fr = s.frames.back();
    for (size_t i = fr.stackBase; i < s.stack.size(); i++) decObj(s.stack[i]);
    s.stack.resize(fr.stackBase);
    s.regs.resize(fr.rb);
    s.frames.pop_back();
}
static inline void takeEdge(State& s, Frame& f, int e) {
    const Edge& ed = f.f->edges[e];
    if (!ed.mv.empty()) {
        if (!ed.overlap) { for (auto& m : ed.mv) for (int k = 0; k < m[2]; k++) s.regs[f.rb + m[0] + k] = lane(s, f.rb, m[1], k); }
        else {
            static std::vector<Val> tmp; tmp.clear();
            for (auto& m : ed.mv) for (int k = 0; k < m[2]; k++) tmp.push_back(lane(s, f.rb, m[1], k));
            size_t t = 0;
            for (auto& m : ed.mv) for (int k = 0; k < m[2]; k++) s.regs[f.rb + m[0] + k] = tmp[t++];
        }
    }
    f.pc = ed.target;
}
// =================================================================== builtins
#define BARGS State &s, const Inst &I, const int *args, int nargs
#define A(i) R(s, s.frames.back().rb, args[i])
static void setRet(State& s, const Inst& I, Val v) { if (I.dst >= 0) s.regs[s.frames.back().rb + I.dst] = v; }
typedef bool (*BFn)(BARGS);   // returns false when the path ends
static bool b_nop(BARGS) { if (I.dst >= 0) for (int k = 0; k < I.n; k++) s.regs[s.frames.back().rb + I.dst + k] = Val((u64)0); return true; }
static bool b_malloc(BARGS) {
    u64 n = concretize(s, A(0), 64);
    if (n > gMaxAlloc) { violation(s, "memory", "allocation of " + std::to_string(n) + " bytes", *s.model); return false; }
    setRet(s, I, Val(heapAlloc(s, n, 0xCD, "heap"))); return true;
}
static bool b_calloc(BARGS) { u64 n = concretize(s, A(0), 64), m = concretize(s, A(1), 64); if (n * m > gMaxAlloc) { violation(s, "memory", "allocation too large", *s.model); return false; } setRet(s, I, Val(heapAlloc(s, n * m, 0, "heap"))); return true; }
static bool b_aligned_alloc(BARGS) { u64 n = concretize(s, A(1), 64); if (n > gMaxAlloc) { violation(s, "memory", "allocation too large", *s.model); return false; } setRet(s, I, Val(heapAlloc(s, n, 0xCD, "heap"))); return true; }
static bool b_posix_memalign(BARGS) {
    u64 n = concretize(s, A(2), 64), p = concretize(s, A(0), 64);
    if (n > gMaxAlloc) { violation(s, "memory", "allocation of " + std::to_string(n) + " bytes", *s.model); return false; }
    Obj* o = access(s, p, 8, true); if (!o) return false;
    u64 a = heapAlloc(s, n, 0xCD, "heap");
    memWrite(findObj(s, p, true), p & 0xffffffffull, 8, Val(a)); setRet(s, I, Val((u64)0)); return true;
}
static bool b_realloc(BARGS) {
    u64 p = concretize(s, A(0), 64), n = concretize(s, A(1), 64);
    u64 q = heapAlloc(s, n, 0xCD, "heap");
    if (p) { Obj* o = findObj(s, p, false); if (!o) { violation(s, "memory", "realloc of invalid pointer", *s.model); return false; } u64 k = std::min<u64>(n, o->size); if (copyBytes(s, q, p, k)) return false; if (heapFree(s, p)) return false; }
    setRet(s, I, Val(q)); return true;
}
static bool b_free(BARGS) { u64 p = concretize(s, A(0), 64); return heapFree(s, p) == OK_; }
static bool b_assert(BARGS) {
    Str e; u64 p = concretize(s, A(0), 64); readCStr(s, p, e);
    violation(s, "assert", "assertion failed: " + e, *s.model); return false;
}
static bool b_abort(BARGS) { violation(s, "abort", "abnormal termination (" + s.frames.back().f->name + ")", *s.model); return false; }
static bool b_throw(BARGS) { violation(s, "exception", "C++ exception thrown", *s.model); return false; }
static bool b_exit(BARGS) { violation(s, "abort", "exit called", *s.model); return false; }
static bool b_guard_acquire(BARGS) { u64 p = concretize(s, A(0), 64); Obj* o = access(s, p, 1, false); if (!o) return false; u64 c; u8 b = rdByte(o, p & 0xffffffffull, c); setRet(s, I, Val((u64)(b == 0))); return true; }
static bool b_guard_release(BARGS) { u64 p = concretize(s, A(0), 64); Obj* o = access(s, p, 1, true); if (!o) return false; memWrite(o, p & 0xffffffffull, 1, Val((u64)1)); return true; }
static bool b_strlen(BARGS) { u64 p = concretize(s, A(0), 64); Str t; if (!readCStr(s, p, t)) { engineError(s, "strlen on symbolic/invalid string"); return false; } setRet(s, I, Val((u64)t.size())); return true; }
static bool b_memcmp(BARGS) {
    u64 a = concretize(s, A(0), 64), b = concretize(s, A(1), 64), n = concretize(s, A(2), 64);
    if (n == 0) { setRet(s, I, Val((u64)0)); return true; }
    Obj* x = access(s, a, n, false); if (!x) return false; Obj* y = access(s, b, n, false); if (!y) return false;
    Val r((u64)0);
    for (u64 i = n; i-- > 0;) {
        Val p = memRead(x, (a & 0xffffffffull) + i, 1), q = memRead(y, (b & 0xffffffffull) + i, 1);
        Val d = mkIte(32, mkCmp(ULT, 8, p, q), Val((u64)0xffffffff), Val((u64)1));
        r = mkIte(32, mkCmp(EQ, 8, p, q), r, d);
    }
    setRet(s, I, r); return true;
}
static bool b_strcmp(BARGS) { Str a, b; if (!readCStr(s, concretize(s, A(0), 64), a) || !readCStr(s, concretize(s, A(1), 64), b)) { engineError(s, "strcmp"); return false; } int c = a < b ? -1 : a > b; setRet(s, I, Val((u64)(u32)c)); return true; }
static bool b_memcpy(BARGS) { u64 d = concretize(s, A(0), 64), p = concretize(s, A(1), 64), n = concretize(s, A(2), 64); if (copyBytes(s, d, p, n)) return false; setRet(s, I, Val(d)); return true; }
static bool b_memchr(BARGS) {
    u64 a = concretize(s, A(0), 64), ch = concretize(s, A(1), 32) & 255, n = concretize(s, A(2), 64);
    Obj* x = access(s, a, n, false); if (!x && n) return false;
    for (u64 i = 0; i < n; i++) { u64 c; u8 b = rdByte(x, (a & 0xffffffffull) + i, c); if (c) { engineError(s, "memchr on symbolic"); return false; } if (b == ch) { setRet(s, I, Val(a + i)); return true; } }
    setRet(s, I, Val((u64)0)); return true;
}
template<int FN, int W> static bool b_math1(BARGS) {
    Val o; Val a = A(0);
    if (!mkFun((MathFn)FN, W, a, Val(), o)) { u64 v = concretize(s, a, W); mkFun((MathFn)FN, W, Val(v), Val(), o); }
    setRet(s, I, o); return true;
}
template<int FN, int W> static bool b_math2(BARGS) {
    Val o; Val a = A(0), b = A(1);
    if (!mkFun((MathFn)FN, W, a, b, o)) {
        u64 v = concretize(s, a, W); if (!mkFun((MathFn)FN, W, Val(v), b, o)) { u64 z = concretize(s, b, W); mkFun((MathFn)FN, W, Val(v), Val(z), o); }
    }
    setRet(s, I, o); return true;
}
template<int OP, int W> static bool b_fun(BARGS) { setRet(s, I, mkFUn((Op)OP, W, A(0))); return true; }
static const char* cstrArg(State& s, Val v) { u64 p = concretize(s, v, 64); Str t; readCStr(s, p, t); return internStr(t); }
static std::map<std::pair<const char*, u32>, u32> gVarByName;
static u32 varFor(State& s, const char* name, u32 w, u64 hi) {
    u32 k = s.nameCount[name]++;
    Str full = Str(name) + "#" + std::to_string(k) + ":" + std::to_string(w) + ":" + std::to_string(hi);
    static std::unordered_map<Str, u32> M;
    auto it = M.find(full);
    if (it != M.end()) return it->second;
    Expr* e = newVar(Str(name) + "#" + std::to_string(k), w, hi);
    return M[full] = (u32)e->imm;
}
static bool b_sym_range(BARGS) {
    i64 lo = (i64)concretize(s, A(1), 64), hi = (i64)concretize(s, A(2), 64);
    const char* nm = cstrArg(s, A(0));
    if (lo >= hi) { s.inputs.push_back({ 0, nm, lo, 2, 64 }); setRet(s, I, Val((u64)lo)); return true; }
    u64 d = (u64)hi - (u64)lo; u32 w = 64 - __builtin_clzll(d);
    u32 v = varFor(s, nm, w, d);
    s.inputs.push_back({ v, nm, lo, 0, (u8)w });
    setRet(s, I, mkBin(ADD, 64, mkZext(w, Val(gVars[v].e), 64), Val((u64)lo)));
    return true;
}
static bool b_sym_bits(BARGS) {
    u32 n = (u32)concretize(s, A(1), 32); const char* nm = cstrArg(s, A(0));
    u32 v = varFor(s, nm, n, maskW(n)); s.inputs.push_back({ v, nm, 0, 1, (u8)n });
    setRet(s, I, mkZext(n, Val(gVars[v].e), 64)); return true;
}
static bool b_sym_f32(BARGS) {
    const char* nm = cstrArg(s, A(0)); u32 v = varFor(s, nm, 32, maskW(32)); s.inputs.push_back({ v, nm, 0, 1, 32 });
    setRet(s, I, Val(gVars[v].e)); return true;
}
static Val toBit(State& s, const Inst&, Val v, u32 w) { if (v.isC()) return Val((u64)(v.c != 0)); if (v.e->w == 1) return v; return mkNot1(mkCmp(EQ, v.e->w, v, Val((u64)0))); }
static bool b_sym_assume(BARGS) {
    Val c = toBit(s, I, A(0), 32);
    if (c.isC()) { if (c.c) return true; G.pathsKilled++; return false; }
    if (evalExpr(c.e, *s.model)) { addPc(s, c.e); return true; }
    ModelRef m; int r = feasible(s, c.e, m);
    if (r == 1) { addPc(s, c.e); s.model = m; return true; }
    if (r < 0) { G.undecided++; gErrs["undecided assume"]++; }
    G.pathsKilled++; return false;
}
static bool b_sym_check(BARGS) {
    Val c = toBit(s, I, A(0), 32); const char* msg = cstrArg(s, A(1));
    G.checks++; gCheckLabels[msg]++;
    u64 v0 = G.violations, u0 = G.undecided;
    int r = requireTrue(s, c, "check", msg);
    if (G.violations == v0 && G.undecided == u0) G.checksProved++;
    return r == OK_;
}
static bool b_sym_observe(BARGS) { const char* nm = cstrArg(s, A(0)); s.obs.push_back({ nm, A(1), 64 }); return true; }
static bool b_sym_observe_f(BARGS) { const char* nm = cstrArg(s, A(0)); s.obs.push_back({ nm, A(1), 32 }); return true; }
static bool b_sym_reach(BARGS) { const char* nm = cstrArg(s, A(0)); gReach.insert(nm); return true; }
static bool b_sym_concretize(BARGS) { u64 v = concretize(s, A(0), 64); setRet(s, I, Val(v)); return true; }
static bool b_sym_concretize_f(BARGS) { u64 v = concretize(s, A(0), 32); setRet(s, I, Val(v)); return true; }
static bool b_sym_trace(BARGS) {
    const char* nm = cstrArg(s, A(0)); Val v = A(1);
    if (gVerbose) fprintf(stderr, "[trace] %s = %s\n", nm, v.isC() ? std::to_string((i64)v.c).c_str() : (exprStr(v.e, 5) + " ~" + std::to_string((i64)evalExpr(v.e, *s.model))).c_str());
    return true;
}
static bool b_sym_live(BARGS) { u64 n = 0; for (u32 i = 1; i < s.mem.n; i++) { Obj* o = s.mem.get(i); if (o && o->kind == K_HEAP) n++; } setRet(s, I, Val(n)); return true; }
static bool b_guard_abort(BARGS) { return true; }
// ---- RTTI
static u64 rd64(State& s, u64 addr, bool& ok) { Obj* o = findObj(s, addr, false); u64 off = addr & 0xffffffffull; if (!o || off + 8 > o->size) { ok = false; return 0; } Val v = memRead(o, off, 8); if (!v.isC()) { ok = false; return 0; } return v.c; }
static u64 gVtSI, gVtVMI, gVtClass;
static bool findBase(State& s, u64 ti, u64 target, i64 off, i64& out, bool& ok, int depth = 0) {
    if (ti == target) { out = off; return true; }
    if (depth > 12) return false;
    u64 vt = rd64(s, ti, ok); if (!ok) return false;
    u64 id = vt >> 32;
    if (id == gVtSI) { u64 b = rd64(s, ti + 16, ok); return ok && findBase(s, b, target, off, out, ok, depth + 1); }
    if (id == gVtVMI) {
        u64 fl = rd64(s, ti + 16, ok); u32 n = (u32)(fl >> 32);
        for (u32 i = 0; i < n; i++) {
            u64 b = rd64(s, ti + 24 + 16 * i, ok), of = rd64(s, ti + 32 + 16 * i, ok);
            if (!ok) return false;
            if (of & 1) { ok = false; return false; }
            if (findBase(s, b, target, off + ((i64)of >> 8), out, ok, depth + 1)) return true;
        }
    }
    return false;
}
static bool b_dynamic_cast(BARGS) {
    u64 p = concretize(s, A(0), 64), dstTi = concretize(s, A(2), 64);
    if (!p) { setRet(s, I, Val((u64)0)); return true; }
    bool ok = true; u64 vt = rd64(s, p, ok);
    i64 top = ok ? (i64)rd64(s, vt - 16, ok) : 0; u64 ti = ok ? rd64(s, vt - 8, ok) : 0;
    if (!ok) { violation(s, "memory", "dynamic_cast on invalid object", *s.model); return false; }
    u64 full = p + top; i64 off;
    if (findBase(s, ti, dstTi, 0, off, ok)) setRet(s, I, Val(full + off));
    else { if (!ok) { engineError(s, "dynamic_cast unsupported"); return false; } setRet(s, I, Val((u64)0)); }
    return true;
}
static bool b_time(BARGS) { setRet(s, I, Val((u64)1000000)); return true; }
static bool b_unsupportedFn(BARGS) { return false; }

static void registerBuiltins() {
    auto reg = [&](const char* n, BFn f) { gBuiltins[n] = (int)gBuiltinFn.size(); gBuiltinFn.push_back(f); };
    for (const char* n : { "malloc", "_Znwm", "_Znam" }) reg(n, b_malloc);
    for (const char* n : { "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t" }) reg(n, b_malloc);
    reg("calloc", b_calloc); reg("realloc", b_realloc); reg("aligned_alloc", b_aligned_alloc); reg("memalign", b_aligned_alloc); reg("posix_memalign", b_posix_memalign);
    for (const char* n : { "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t" }) reg(n, b_free);
    reg("__assert_fail", b_assert); reg("abort", b_abort); reg("_ZSt9terminatev", b_abort); reg("__cxa_pure_virtual", b_abort); reg("exit", b_exit); reg("__clang_call_terminate", b_abort); reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", b_abort);
    for (const char* n : { "__cxa_throw", "__cxa_rethrow", "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt20__throw_system_errori", "_ZSt16__throw_bad_castv" }) reg(n, b_throw);
    reg("__cxa_guard_acquire", b_guard_acquire); reg("__cxa_guard_release", b_guard_release); reg("__cxa_guard_abort", b_nop);
    for (const char* n : { "__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "printf", "puts", "putchar", "fprintf", "fflush", "srand" }) reg(n, b_nop);
    reg("strlen", b_strlen); reg("memcmp", b_memcmp); reg("bcmp", b_memcmp); reg("strcmp", b_strcmp); reg("memcpy", b_memcpy); reg("memmove", b_memcpy); reg("memchr", b_memchr);
    reg("sqrtf", b_fun<FSQRT, 32>); reg("sqrt", b_fun<FSQRT, 64>); reg("fabsf", b_fun<FABS, 32>); reg("fabs", b_fun<FABS, 64>);
    reg("ceilf", b_fun<FCEIL, 32>); reg("ceil", b_fun<FCEIL, 64>); reg("floorf", b_fun<FFLOOR, 32>); reg("floor", b_fun<FFLOOR, 64>); reg("truncf", b_fun<FTRUNCI, 32>); reg("trunc", b_fun<FTRUNCI, 64>); reg("roundf", b_fun<FROUND, 32>); reg("round", b_fun<FROUND, 64>);
    reg("sinf", b_math1<FN_SIN, 32>); reg("cosf", b_math1<FN_COS, 32>); reg("tanf", b_math1<FN_TAN, 32>); reg("asinf", b_math1<FN_ASIN, 32>); reg("acosf", b_math1<FN_ACOS, 32>); reg("atanf", b_math1<FN_ATAN, 32>); reg("expf", b_math1<FN_EXP, 32>); reg("logf", b_math1<FN_LOG, 32>);
    reg("sin", b_math1<FN_SIN, 64>); reg("cos", b_math1<FN_COS, 64>); reg("tan", b_math1<FN_TAN, 64>); reg("asin", b_math1<FN_ASIN, 64>); reg("acos", b_math1<FN_ACOS, 64>); reg("atan", b_math1<FN_ATAN, 64>); reg("exp", b_math1<FN_EXP, 64>); reg("log", b_math1<FN_LOG, 64>);
    reg("atan2f", b_math2<FN_ATAN2, 32>); reg("powf", b_math2<FN_POW, 32>); reg("fmodf", b_math2<FN_FMOD, 32>); reg("fminf", b_math2<FN_MINNUM, 32>); reg("fmaxf", b_math2<FN_MAXNUM, 32>);
    reg("atan2", b_math2<FN_ATAN2, 64>); reg("pow", b_math2<FN_POW, 64>); reg("fmod", b_math2<FN_FMOD, 64>); reg("fmin", b_math2<FN_MINNUM, 64>); reg("fmax", b_math2<FN_MAXNUM, 64>);
    reg("__dynamic_cast", b_dynamic_cast);
    reg("_ZNSt6chrono3_V212system_clock3nowEv", b_time); reg("_ZNSt6chrono3_V212steady_clock3nowEv", b_time);
    reg("sym_range", b_sym_range); reg("sym_bits", b_sym_bits); reg("sym_f32", b_sym_f32); reg("sym_assume_", b_sym_assume); reg("sym_check_", b_sym_check);
    reg("sym_observe", b_sym_observe); reg("sym_observe_f", b_sym_observe_f); reg("sym_reach", b_sym_reach); reg("sym_concretize", b_sym_concretize); reg("sym_concretize_f", b_sym_concretize_f); reg("sym_trace", b_sym_trace); reg("sym_heap_live", b_sym_live);
}

// =================================================================== interpreter
static bool icmpVal(State& s, int pred, u32 w, Val a, Val b, Val& out) {
    switch (pred) {
        case CmpInst::ICMP_EQ: out = mkCmp(EQ, w, a, b); break;
        case CmpInst::ICMP_NE: out = mkNot1(mkCmp(EQ, w, a, b)); break;
        case CmpInst::ICMP_ULT: out = mkCmp(ULT, w, a, b); break;
        case CmpInst::ICMP_ULE: out = mkCmp(ULE, w, a, b); break;
        case CmpInst::ICMP_UGT: out = mkCmp(ULT, w, b, a); break;
        case CmpInst::ICMP_UGE: out = mkCmp(ULE, w, b, a); break;
        case CmpInst::ICMP_SLT: out = mkCmp(SLT, w, a, b); break;
        case CmpInst::ICMP_SLE: out = mkCmp(SLE, w, a, b); break;
        case CmpInst::ICMP_SGT: out = mkCmp(SLT, w, b, a); break;
        case CmpInst::ICMP_SGE: out = mkCmp(SLE, w, b, a); break;
        default: return false;
    }
    return true;
}
static Val fcmpVal(int p, u32 w, Val a, Val b) {
    auto uno = [&]() { return mkFCmp(FUNO, w, a, b); };
    switch (p) {
        case CmpInst::FCMP_FALSE: return Val((u64)0);
        case CmpInst::FCMP_TRUE: return Val((u64)1);
        case CmpInst::FCMP_OEQ: return mkFCmp(FOEQ, w, a, b);
        case CmpInst::FCMP_OGT: return mkFCmp(FOLT, w, b, a);
        case CmpInst::FCMP_OGE: return mkFCmp(FOLE, w, b, a);
        case CmpInst::FCMP_OLT: return mkFCmp(FOLT, w, a, b);
        case CmpInst::FCMP_OLE: return mkFCmp(FOLE, w, a, b);
        case CmpInst::FCMP_ONE: return mkAnd1(mkNot1(mkFCmp(FOEQ, w, a, b)), mkNot1(uno()));
        case CmpInst::FCMP_ORD: return mkNot1(uno());
        case CmpInst::FCMP_UNO: return uno();
        case CmpInst::FCMP_UEQ: return mkOr1(mkFCmp(FOEQ, w, a, b), uno());
        case CmpInst::FCMP_UGT: return mkNot1(mkFCmp(FOLE, w, a, b));
        case CmpInst::FCMP_UGE: return mkNot1(mkFCmp(FOLT, w, a, b));
        case CmpInst::FCMP_ULT: return mkNot1(mkFCmp(FOLE, w, b, a));
        case CmpInst::FCMP_ULE: return mkNot1(mkFCmp(FOLT, w, b, a));
        case CmpInst::FCMP_UNE: return mkNot1(mkFCmp(FOEQ, w, a, b));
    }
    return Val((u64)0);
}
static Val popcount(Val a, u32 w) { if (a.isC()) return Val((u64)__builtin_popcountll(a.c & maskW(w))); Val r((u64)0); for (u32 i = 0; i < w; i++) r = mkBin(ADD, w, r, mkZext(1, mkExtract(w, a, i, 1), w)); return r; }

// returns when the path has ended (state deleted by caller)
static bool splitWork();
static void runState(State* sp) {
    State& s = *sp;
    u64 localSteps = 0;
    for (;;) {
        Frame* f = &s.frames.back();
        const Inst* code = f->f->code.data();
        u32 rb = f->rb;
        // inner loop while staying in this frame
        for (;;) {
            const Inst& I = code[f->pc++];
            localSteps++;
            if ((localSteps & 0xffff) == 0) {
                if (s.steps + localSteps > gMaxSteps) { G.stepLimit++; gErrs["step limit @ " + curLoc(s)]++; G.steps += localSteps;
                    emitLine("{\"t\":\"steplimit\",\"entry\":\"" + gEntry + "\",\"loc\":\"" + jesc(curLoc(s)) + "\",\"inputs\":" + inputsJson(s, *s.model) + "}"); return; }
                if (nowS() > gDeadline || gSh->stop) { G.unexplored++; G.steps += localSteps; return; }
                if (gSh->freeSlots > 0 && !gWork.empty()) splitWork();
            }
            switch (I.k) {
                case I_BIN: {
                    for (int k = 0; k < I.n; k++) {
                        Val a = lane(s, rb, I.a, k), b = lane(s, rb, I.b, k);
                        Val& d = s.regs[rb + I.dst + k];
                        if (I.op >= UDIV && I.op <= SREM) {
                            if (b.isC() && (b.c & maskW(I.w)) == 0) { violation(s, "arith", "integer division by zero", *s.model); goto dead; }
                            if (!b.isC() && requireTrue(s, mkNot1(mkCmp(EQ, I.w, b, Val((u64)0))), "arith", "integer division by zero")) goto dead;
                        }
                        if (a.isC() && b.isC()) { d = Val(evalOp((Op)I.op, I.w, 0, I.w, a.c, I.w, b.c, 0, 0)); }
                        else d = mkBin((Op)I.op, I.w, a, b);
                    }
                    break; }
                case I_CMP: for (int k = 0; k < I.n; k++) { Val o; Val a = lane(s, rb, I.a, k), b = lane(s, rb, I.b, k); icmpVal(s, I.op, I.w, a, b, o); s.regs[rb + I.dst + k] = o; } break;
                case I_FBIN:
                    for (int k = 0; k < I.n; k++) {
                        Val a = lane(s, rb, I.a, k), b = lane(s, rb, I.b, k); Val& d = s.regs[rb + I.dst + k];
                        if (a.isC() && b.isC()) d = Val(evalOp((Op)I.op, I.w, 0, I.w, a.c, I.w, b.c, 0, 0)); else d = mkFBin((Op)I.op, I.w, a, b);
                    }
                    break;
                case I_FUN: for (int k = 0; k < I.n; k++) { Val a = lane(s, rb, I.a, k); s.regs[rb + I.dst + k] = mkFUn((Op)I.op, I.w, a); } break;
                case I_FMULADD: for (int k = 0; k < I.n; k++) { Val a = lane(s, rb, I.a, k), b = lane(s, rb, I.b, k), c = lane(s, rb, I.c, k); s.regs[rb + I.dst + k] = mkFBin(FADD, I.w, mkFBin(FMUL, I.w, a, b), c); } break;
                case I_FCMP: for (int k = 0; k < I.n; k++) { Val a = lane(s, rb, I.a, k), b = lane(s, rb, I.b, k); s.regs[rb + I.dst + k] = fcmpVal(I.op, I.w, a, b); } break;
                case I_CONV:
                    for (int k = 0; k < I.n; k++) {
                        Val& d = s.regs[rb + I.dst + k];
                        if (I.op == CONCAT) {
                            // bitcast between different lane counts (little endian)
                            if (I.x > (int)I.n) { int r = I.x / I.n; Val v; u32 w = 0; for (int j = 0; j < r; j++) { Val p = lane(s, rb, I.a, k * r + j); if (!w) v = p; else v = mkConcat(I.w, p, w, v); w += I.w; } d = v; }
                            else { int r = I.n / I.x; Val p = lane(s, rb, I.a, k / r); d = mkExtract(I.w, p, (u32)(k % r) * I.w2, I.w2); }
                            continue;
                        }
                        Val a = lane(s, rb, I.a, k);
                        if (I.imm == 1) { if (I.w > I.w2) d = mkExtract(I.w, a, 0, I.w2); else d = mkZext(I.w, a, I.w2); }
                        else if (I.op == EXTRACT) d = a.isC() ? Val(a.c & maskW(I.w2)) : mkExtract(I.w, a, 0, I.w2);
                        else if (I.op == ZEXT) d = mkZext(I.w, a, I.w2);
                        else d = mkSext(I.w, a, I.w2);
                    }
                    break;
                case I_FCONV: for (int k = 0; k < I.n; k++) { Val a = lane(s, rb, I.a, k); s.regs[rb + I.dst + k] = mkFConv((Op)I.op, I.w, I.w2, a); } break;
                case I_SEL: {
                    for (int k = 0; k < I.n; k++) {
                        Val c = lane(s, rb, I.a, I.imm ? k : 0);
                        Val a = lane(s, rb, I.b, k), b = lane(s, rb, I.c, k);
                        if (c.isC()) s.regs[rb + I.dst + k] = (c.c & 1) ? a : b;
                        else {
                            int side;
                            if (knownSide(s, c.e, side)) s.regs[rb + I.dst + k] = side ? a : b;
                            else s.regs[rb + I.dst + k] = mkIte(f->f->leaves[I.x + k].bits, c, a, b);
                        }
                    }
                    break; }
                case I_MOV: if (I.n == 1) s.regs[rb + I.dst] = R(s, rb, I.a); else {
                    if (I.a >= 0 && I.dst > I.a) for (int k = I.n - 1; k >= 0; k--) s.regs[rb + I.dst + k] = lane(s, rb, I.a, k);
                    else for (int k = 0; k < I.n; k++) s.regs[rb + I.dst + k] = lane(s, rb, I.a, k);
                } break;
                case I_GEP: {
                    Val p = R(s, rb, I.a);
                    const int* o = f->f->ops.data() + I.x;
                    u64 off = (u64)I.imm; Val symOff((u64)0); bool hs = false;
                    for (int t = 0; t < I.xn; t++) {
                        Val v = R(s, rb, o[3 * t]); u32 w = (u32)o[3 * t + 1]; i64 sc = o[3 * t + 2];
                        if (v.isC()) off += (u64)(sxt(v.c, w) * sc);
                        else { symOff = mkBin(ADD, 64, symOff, mkBin(MUL, 64, mkSext(w, v, 64), Val((u64)sc))); hs = true; }
                    }
                    if (!hs && p.isC()) s.regs[rb + I.dst] = Val(p.c + off);
                    else { Val r = p.isC() ? mkBin(ADD, 64, symOff, Val(p.c + off)) : mkBin(ADD, 64, mkBin(ADD, 64, p, symOff), Val(off)); s.regs[rb + I.dst] = r; }
                    break; }
                case I_LOAD: {
                    Val p = R(s, rb, I.a);
                    if (p.isC()) {
                        u64 id = p.c >> 32, off = p.c & 0xffffffffull; Obj* o;
                        if (id >= STACK_ID && id < STACK_ID + s.stack.size()) o = s.stack[id - STACK_ID]; else o = s.mem.get((u32)(id > 0xffffffffu ? 0 : id));
                        if (id == 0) o = nullptr;
                        if (!o || off + (u64)I.imm > o->size) { access(s, p.c, (u64)I.imm, false); goto dead; }
                        const Leaf* l = f->f->leaves.data() + I.x;
                        for (int k = 0; k < I.xn; k++) s.regs[rb + I.dst + k] = loadLeaf(o, off + l[k].off, l[k]);
                        break;
                    }
                    Ptr pt;
                    if (!resolve(s, p, (u64)I.imm, pt, false)) goto dead;
                    const Leaf* l = f->f->leaves.data() + I.x;
                    if (!pt.sym) {
                        Obj* o = access(s, pt.addr, (u64)I.imm, false); if (!o) goto dead;
                        for (int k = 0; k < I.xn; k++) s.regs[rb + I.dst + k] = loadLeaf(o, (pt.addr & 0xffffffffull) + l[k].off, l[k]);
                    } else {
                        Obj* o = findObj(s, pt.addr, false);
                        for (int k = 0; k < I.xn; k++) {
                            Val v = loadLeaf(o, (pt.cand.back() & 0xffffffffull) + l[k].off, l[k]);
                            for (size_t c = pt.cand.size() - 1; c-- > 0;) v = mkIte(l[k].bits, Val(pt.cond[c]), loadLeaf(o, (pt.cand[c] & 0xffffffffull) + l[k].off, l[k]), v);
                            s.regs[rb + I.dst + k] = v;
                        }
                    }
                    break; }
                case I_STORE: {
                    Val p = R(s, rb, I.a);
                    const Leaf* l = f->f->leaves.data() + I.x;
                    Ptr pt;
                    if (!resolve(s, p, (u64)I.imm, pt, true)) goto dead;
                    if (!pt.sym) {
                        Obj* o = access(s, pt.addr, (u64)I.imm, true); if (!o) goto dead;
                        u64 off = pt.addr & 0xffffffffull;
                        for (int k = 0; k < I.xn; k++) storeLeaf(o, off + l[k].off, l[k], lane(s, rb, I.b, k));
                    } else {
                        Obj* o = findObj(s, pt.addr, true);
                        if (o->kind == K_CONST) { violation(s, "memory", "write to constant", *s.model); goto dead; }
                        for (int k = 0; k < I.xn; k++) {
                            Val nv = lane(s, rb, I.b, k);
                            for (size_t c = 0; c < pt.cand.size(); c++) {
                                u64 off = (pt.cand[c] & 0xffffffffull) + l[k].off;
                                Val old = loadLeaf(o, off, l[k]);
                                storeLeaf(o, off, l[k], mkIte(l[k].bits, Val(pt.cond[c]), nv, old));
                            }
                        }
                    }
                    break; }
                case I_ALLOCA: {
                    u64 n = concretize(s, R(s, rb, I.a), 64);
                    s.stack.push_back(newObj((u64)I.imm * n, K_STACK, 0xCD, "stack"));
                    s.regs[rb + I.dst] = Val((STACK_ID + s.stack.size() - 1) << 32);
                    break; }
                case I_BR: takeEdge(s, *f, I.a); break;
                case I_CBR: {
                    Val c = R(s, rb, I.a);
                    if (c.isC()) { takeEdge(s, *f, (c.c & 1) ? I.b : I.c); break; }
                    int side;
                    if (knownSide(s, c.e, side)) { takeEdge(s, *f, side ? I.b : I.c); break; }
                    G.decided++;
                    bool v = evalExpr(c.e, *s.model);
                    Val other = v ? mkNot1(c) : c; ModelRef m;
                    int r = feasible(s, toE(other, 1), m);
                    if (r == 1) {
                        State* t = forkState(s);
                        addPc(*t, other.e); t->model = m;
                        takeEdge(*t, t->frames.back(), v ? I.c : I.b);
                        t->steps += localSteps;
                        gWork.push_back(t);
                        addPc(s, toE(v ? c : mkNot1(c), 1));
                        if (gSh->freeSlots > 0) splitWork();
                    } else if (r < 0) { G.undecided++; gErrs["undecided branch @ " + curLoc(s)]++; addPc(s, toE(v ? c : mkNot1(c), 1)); }
                    takeEdge(s, *f, v ? I.b : I.c);
                    break; }
                case I_SWITCH: {
                    Val c = R(s, rb, I.a);
                    const std::pair<u64, int>* cs = f->f->cases.data() + I.x;
                    auto find = [&](u64 v) { for (int k = 0; k < I.xn; k++) if (cs[k].first == v) return cs[k].second; return I.b; };
                    if (c.isC()) { takeEdge(s, *f, find(c.c & maskW(I.w))); break; }
                    // group by successor
                    u64 cur = evalExpr(c.e, *s.model); int curE = find(cur);
                    std::map<int, Val> conds; Val any((u64)0);
                    for (int k = 0; k < I.xn; k++) { Val e = mkCmp(EQ, I.w, c, Val(cs[k].first)); any = mkOr1(any, e); auto it = conds.find(cs[k].second); if (it == conds.end()) conds[cs[k].second] = e; else it->second = mkOr1(it->second, e); }
                    { Val d = mkNot1(any); auto it = conds.find(I.b); if (it == conds.end()) conds[I.b] = d; else it->second = mkOr1(it->second, d); }
                    for (auto& kv : conds) if (kv.first != curE) {
                        if (kv.second.isC() && !kv.second.c) continue;
                        ModelRef m; G.decided++;
                        int r = feasible(s, toE(kv.second, 1), m);
                        if (r == 1) { State* t = forkState(s); addPc(*t, toE(kv.second, 1)); t->model = m; t->steps += localSteps; takeEdge(*t, t->frames.back(), kv.first); gWork.push_back(t); }
                        else if (r < 0) { G.undecided++; gErrs["undecided switch @ " + curLoc(s)]++; }
                    }
                    addPc(s, toE(conds[curE], 1));
                    takeEdge(s, *f, curE);
                    break; }
                case I_RET: {
                    static std::vector<Val> rv; rv.clear();
                    for (int k = 0; k < I.n; k++) rv.push_back(lane(s, rb, I.a, k));
                    int dst = f->dst; u32 dn = f->dstN; u32 crb = f->callerRb;
                    popFrame(s);
                    if (s.frames.empty()) { s.steps += localSteps; G.steps += localSteps; pathEnd(s); return; }
                    if (dst >= 0) for (u32 k = 0; k < dn && k < rv.size(); k++) s.regs[crb + dst + k] = rv[k];
                    goto frameChanged; }
                case I_CALL: case I_CALLI: {
                    FuncC* g;
                    if (I.k == I_CALL) g = gFuncs[I.imm];
                    else {
                        u64 a = concretize(s, R(s, rb, I.a), 64); u64 id = a >> 32;
                        if (id < FUNC_ID || id >= FUNC_ID + gFuncs.size() || (a & 0xffffffffull)) { violation(s, "memory", "call through invalid function pointer: " + describeAddr(s, a), *s.model); goto dead; }
                        g = gFuncs[id - FUNC_ID];
                    }
                    const int* o = f->f->ops.data() + I.x;
                    if (g->builtin >= 0) {
                        size_t depth = s.frames.size();
                        if (!gBuiltinFn[g->builtin](s, I, o, I.xn)) goto dead;
                        if (s.frames.size() != depth) goto frameChanged;
                        break;
                    }
                    if (g->f->isDeclaration()) { engineError(s, "call of unknown external " + g->name); goto dead; }
                    if (s.frames.size() > 2000) { engineError(s, "stack depth"); goto dead; }
                    static std::vector<Val> av; av.clear();
                    for (int k = 0; k < I.xn; k++) av.push_back(R(s, rb, o[k]));
                    enterFunc(s, g, av.data(), (u32)av.size(), I.dst, I.n, rb);
                    goto frameChanged; }
                case I_UNREACH: violation(s, "unreachable", "unreachable code executed (undefined behaviour or missing return)", *s.model); goto dead;
                case I_TRAP: violation(s, "abort", "trap", *s.model); goto dead;
                case I_MEMCPY: {
                    u64 d = concretize(s, R(s, rb, I.a), 64), q = concretize(s, R(s, rb, I.b), 64), n = concretize(s, R(s, rb, I.c), I.w);
                    if (copyBytes(s, d, q, n)) goto dead; break; }
                case I_MEMSET: {
                    u64 d = concretize(s, R(s, rb, I.a), 64), n = concretize(s, R(s, rb, I.c), I.w); Val v = R(s, rb, I.b);
                    if (n) { Obj* o = access(s, d, n, true); if (!o) goto dead; if (v.isC()) v.c &= 255; if (!(d & 0xffffffffull) && n == o->size && n > 256 && o->kind == K_HEAP) { for (u32 i = 0; i < o->np; i++) { decPage(o->pg[i]); o->pg[i] = nullptr; } o->fill = v.isC() ? (u8)v.c : 0; o->symFill = v.isC() ? 0 : cell(v.e, 0); } else for (u64 i = 0; i < n; i++) memWrite(o, (d & 0xffffffffull) + i, 1, v); }
                    break; }
                case I_EXTELT: { u64 ix = concretize(s, R(s, rb, I.b), I.w); if (ix >= (u64)I.imm) { engineError(s, "extractelement range"); goto dead; } s.regs[rb + I.dst] = lane(s, rb, I.a, (int)ix); break; }
                case I_MINMAX: for (int k = 0; k < I.n; k++) {
                    Val a = lane(s, rb, I.a, k), b = lane(s, rb, I.b, k); Val& d = s.regs[rb + I.dst + k]; u32 w = I.w;
                    switch (I.op) { case 0: d = mkIte(w, mkCmp(ULT, w, a, b), b, a); break; case 1: d = mkIte(w, mkCmp(ULT, w, a, b), a, b); break; case 2: d = mkIte(w, mkCmp(SLT, w, a, b), b, a); break; case 3: d = mkIte(w, mkCmp(SLT, w, a, b), a, b); break;
                        default: { Val o; mkFun(I.op == 4 ? FN_MAXNUM : FN_MINNUM, w, a, b, o); d = o; } }
                } break;
                case I_POPC: for (int k = 0; k < I.n; k++) { Val a = lane(s, rb, I.a, k); s.regs[rb + I.dst + k] = popcount(a, I.w); } break;
                case I_CTLZ: case I_CTTZ: { Val a = R(s, rb, I.a); u64 v;
                    if (a.isC()) { v = a.c & maskW(I.w); s.regs[rb + I.dst] = Val((u64)(v == 0 ? I.w : I.k == I_CTTZ ? __builtin_ctzll(v) : __builtin_clzll(v) - (64 - I.w))); break; }
                    Val r((u64)I.w);
                    if (I.k == I_CTTZ) for (int b = I.w - 1; b >= 0; b--) r = mkIte(I.w, mkExtract(I.w, a, (u32)b, 1), Val((u64)b), r);
                    else for (int b = 0; b < I.w; b++) r = mkIte(I.w, mkExtract(I.w, a, (u32)b, 1), Val((u64)(I.w - 1 - b)), r);
                    s.regs[rb + I.dst] = r; break; }
                case I_BSWAP: { Val a = R(s, rb, I.a); Val r; u32 w = 0; for (u32 b = 0; b < I.w; b += 8) { Val p = mkExtract(I.w, a, b, 8); if (!w) r = p; else r = mkConcat(w, r, 8, p); w += 8; } s.regs[rb + I.dst] = r; break; }
                case I_ABS: for (int k = 0; k < I.n; k++) { Val a = lane(s, rb, I.a, k); s.regs[rb + I.dst + k] = mkIte(I.w, mkCmp(SLT, I.w, a, Val((u64)0)), mkBin(SUB, I.w, Val((u64)0), a), a); } break;
                case I_FSHL: { Val a = R(s, rb, I.a), b = R(s, rb, I.b); u64 c = concretize(s, R(s, rb, I.c), I.w) % I.w;
                    if (c == 0) s.regs[rb + I.dst] = I.op ? b : a;
                    else { u64 l = I.op ? I.w - c : c; s.regs[rb + I.dst] = mkBin(OR, I.w, mkBin(SHL, I.w, a, Val(l)), mkBin(LSHR, I.w, b, Val(I.w - l))); } break; }
                case I_USUBSAT: for (int k = 0; k < I.n; k++) { Val a = lane(s, rb, I.a, k), b = lane(s, rb, I.b, k); s.regs[rb + I.dst + k] = mkIte(I.w, mkCmp(ULT, I.w, a, b), Val((u64)0), mkBin(SUB, I.w, a, b)); } break;
                case I_UADDSAT: for (int k = 0; k < I.n; k++) { Val a = lane(s, rb, I.a, k), b = lane(s, rb, I.b, k); Val t = mkBin(ADD, I.w, a, b); s.regs[rb + I.dst + k] = mkIte(I.w, mkCmp(ULT, I.w, t, a), Val(maskW(I.w)), t); } break;
                case I_OVF: {
                    Val a = R(s, rb, I.a), b = R(s, rb, I.b); u32 w = I.w;
                    if (I.op == 2 || I.op == 5) {
                        if (w > 32) {
                            if (!a.isC() || !b.isC()) { // overflow test through division
                                if (I.op == 5) { engineError(s, "smul.with.overflow"); goto dead; }
                                Val r = mkBin(MUL, w, a, b);
                                Val ov = (b.isC() && b.c) ? mkCmp(ULT, w, Val(maskW(w) / b.c), a) : mkAnd1(mkNot1(mkCmp(EQ, w, b, Val((u64)0))), mkNot1(mkCmp(EQ, w, mkBin(UDIV, w, r, b), a)));
                                s.regs[rb + I.dst] = r; s.regs[rb + I.dst + 1] = ov; break;
                            }
                            unsigned __int128 p = (unsigned __int128)a.c * b.c; __int128 q = (__int128)(i64)a.c * (i64)b.c;
                            s.regs[rb + I.dst] = Val((u64)p); s.regs[rb + I.dst + 1] = Val((u64)(I.op == 2 ? (p >> 64) != 0 : q != (i64)q)); break;
                        }
                        Val x = I.op == 2 ? mkZext(w, a, 2 * w) : mkSext(w, a, 2 * w), y = I.op == 2 ? mkZext(w, b, 2 * w) : mkSext(w, b, 2 * w);
                        Val p = mkBin(MUL, 2 * w, x, y); Val lo = mkExtract(2 * w, p, 0, w);
                        Val back = I.op == 2 ? mkZext(w, lo, 2 * w) : mkSext(w, lo, 2 * w);
                        s.regs[rb + I.dst] = lo; s.regs[rb + I.dst + 1] = mkNot1(mkCmp(EQ, 2 * w, back, p)); break;
                    }
                    if (I.op == 0) { Val t = mkBin(ADD, w, a, b); s.regs[rb + I.dst] = t; s.regs[rb + I.dst + 1] = mkCmp(ULT, w, t, a); break; }
                    if (I.op == 1) { Val t = mkBin(SUB, w, a, b); s.regs[rb + I.dst] = t; s.regs[rb + I.dst + 1] = mkCmp(ULT, w, a, b); break; }
                    Val t = mkBin(I.op == 3 ? ADD : SUB, w, a, b); Val sa = mkExtract(w, a, w - 1, 1), sb = mkExtract(w, b, w - 1, 1), st = mkExtract(w, t, w - 1, 1);
                    s.regs[rb + I.dst] = t;
                    Val same = I.op == 3 ? mkCmp(EQ, 1, sa, sb) : mkNot1(mkCmp(EQ, 1, sa, sb));
                    s.regs[rb + I.dst + 1] = mkAnd1(same, mkNot1(mkCmp(EQ, 1, sa, st))); break; }
                case I_RMW: {
                    u64 p = concretize(s, R(s, rb, I.a), 64); u32 n = I.w / 8; Obj* o = access(s, p, n, true); if (!o) goto dead;
                    Val old = memRead(o, p & 0xffffffffull, n); Val nv = R(s, rb, I.b); if (I.op != 255) nv = mkBin((Op)I.op, I.w, old, nv);
                    memWrite(o, p & 0xffffffffull, n, nv); s.regs[rb + I.dst] = old; break; }
                default: engineError(s, "unsupported instruction"); goto dead;
            }
        }
    frameChanged: continue;
    }
dead:
    G.steps += localSteps; s.steps += localSteps;
    G.pathsKilled++;
}

// =================================================================== exploration
static void openOut() { Str p = gOutDir + "/" + gEntry + "." + std::to_string(getpid()) + ".jsonl"; gOut = fopen(p.c_str(), "w"); if (!gOut) { perror("open"); exit(3); } }
static std::vector<pid_t> gKids;
static bool grabSlot() { for (;;) { int v = gSh->freeSlots; if (v <= 0) return false; if (__sync_bool_compare_and_swap(&gSh->freeSlots, v, v - 1)) return true; } }
static void resetResults() { G = Counters(); gSolverStats = SolverStats(); gReach.clear(); gErrs.clear(); gCheckLabels.clear(); gKids.clear(); for (FuncC* f : gFuncs) f->executed = false; }
void dropTables(); void memReport();
static void explore();
static bool gChild = false;
[[noreturn]] static void finishChild() {
    if (getenv("RPSYM_MEM")) { size_t b = 0; for (auto& t : gTables) b += t.raw.size(); struct mallinfo2 mi = mallinfo2(); fprintf(stderr, "mem %s %d: tables %zu, %zu MB; heap %zu MB\n", gEntry.c_str(), getpid(), gTables.size(), b >> 20, mi.uordblks >> 20); memReport(); }
    writeSummary(); fclose(gOut);
    if (!gKids.empty()) { dropTables(); malloc_trim(0); }      // memory goes to the processes that still work
    __sync_fetch_and_add(&gSh->freeSlots, 1);
    int rc = 0; for (pid_t k : gKids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 5; }      // work of a process that was ended is lost: say so
    _exit(rc);
}
static bool splitWork() {
    if (gWork.empty()) return false;
    if (!grabSlot()) return false;
    fflush(gOut);
    pid_t pid = fork();
    if (pid < 0) { __sync_fetch_and_add(&gSh->freeSlots, 1); return false; }
    size_t n = gWork.size(); size_t half = (n + 1) / 2;   // child takes every other state
    if (pid == 0) {
        std::deque<State*> mine; for (size_t i = 0; i < n; i++) { if (i % 2 == 0) mine.push_back(gWork[i]); else delete gWork[i]; }
        gWork.swap(mine);
        resetResults(); openOut(); gRng ^= (u64)getpid() * 0x9E3779B97F4A7C15ull; gChild = true;
        explore(); finishChild();
    }
    gKids.push_back(pid);
    std::deque<State*> keep; for (size_t i = 0; i < n; i++) { if (i % 2 == 0) delete gWork[i]; else keep.push_back(gWork[i]); }
    gWork.swap(keep); (void)half;
    return true;
}
// tables that only finished paths used are dropped when they take too much memory
extern size_t gTableBytes; void collectTables(const std::vector<Expr*>& roots);
static size_t gTableLimit = 900u << 20;
static void collect() {
    std::vector<Expr*> roots; std::set<const void*> seen;
    auto val = [&](const Val& v) { if (v.e) roots.push_back(v.e); };
    auto obj = [&](const Obj* o) { if (!o || !seen.insert(o).second) return; if (o->symFill) roots.push_back(cellE(o->symFill)); for (u32 i = 0; i < o->np; i++) { Page* p = o->pg[i]; if (!p || !p->sym || !seen.insert(p).second) continue; for (u32 k = 0; k < p->n; k++) if (p->sym[k]) roots.push_back(cellE(p->sym[k])); } };
    for (State* s : gWork) { for (auto& v : s->regs) val(v); for (auto& o : s->obs) val(o.v); for (Expr* e : s->pc) roots.push_back(e); for (Obj* o : s->stack) obj(o); for (Chunk* c : s->mem.c) if (seen.insert(c).second) for (u32 i = 0; i < CH; i++) obj(c->o[i]); }
    for (auto& v : gConsts) val(v);
    collectTables(roots); malloc_trim(0); gTableLimit = std::max<size_t>(900u << 20, gTableBytes * 2);
}
static void explore() {
    while (!gWork.empty()) {
        if (nowS() > gDeadline || gSh->stop) { G.unexplored += gWork.size(); break; }
        while (gSh->freeSlots > 0 && gWork.size() > 1 && splitWork()) {}
        if (gTableBytes > gTableLimit) collect();
        State* s = gWork.back(); gWork.pop_back();
        runState(s); delete s;
    }
}

// =================================================================== module set up
static void initGlobal(State& s, Obj* o, const Constant* c, u64 off) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    Type* t = c->getType();
    if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(s, o, c->getAggregateElement(i), off + sl->getElementOffset(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initGlobal(s, o, c->getAggregateElement((unsigned)i), off + i * sz); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) initGlobal(s, o, c->getAggregateElement(i), off + i * sz); return; }
    u32 n = (u32)DL->getTypeStoreSize(t);
    if (n > 8) return;
    memWrite(o, off, n, Val(constScalar(c) & maskW(n * 8)));
}
static State* initialState() {
    State* s = new State(); s->model = newModel({});
    std::vector<GlobalVariable*> gv; for (auto& g : mod->globals()) if (!g.getName().starts_with("llvm.")) gv.push_back(&g);
    for (auto* g : gv) {
        u64 sz = g->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g->getValueType()) : 8;
        if (g->isDeclaration()) sz = std::max<u64>(sz, 64);
        Obj* o = newObj(sz, g->isConstant() ? K_CONST : K_GLOBAL, 0, internStr(g->getName().str()));
        gGlobalId[g] = s->mem.add(o);
        Str nm = g->getName().str();
        if (nm == "_ZTVN10__cxxabiv120__si_class_type_infoE") gVtSI = gGlobalId[g];
        if (nm == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") gVtVMI = gGlobalId[g];
        if (nm == "_ZTVN10__cxxabiv117__class_type_infoE") gVtClass = gGlobalId[g];
    }
    for (auto* g : gv) if (g->hasInitializer()) initGlobal(*s, s->mem.getW(gGlobalId[g]), g->getInitializer(), 0);
    return s;
}
static bool runConcrete(State* s, Function* f) {
    FuncC* fc = gFuncs[funcIndex(f)];
    u64 p0 = G.paths;
    enterFunc(*s, fc, nullptr, 0, -1, 0, 0);
    runState(s);
    return G.paths == p0 + 1 && gWork.empty();
}

int main(int argc, char** argv) {
    Str bc; std::vector<Str> entries; int workers = 8; double budget = 60; Str traceEntry;
    for (int i = 1; i < argc; i++) {
        Str a = argv[i]; auto nx = [&]() { return Str(argv[++i]); };
        if (a == "--bc") bc = nx(); else if (a == "--out") gOutDir = nx(); else if (a == "--entry") entries.push_back(nx());
        else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--steps") gMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--rlimit") gRlimit = (unsigned)atol(nx().c_str());
        else if (a == "--tablebits") gTableBits = (u32)atoi(nx().c_str()); else if (a == "--nodyadic") gUseDyadic = false; else if (a == "--samples") gMaxSamples = atoi(nx().c_str());
        else if (a == "-v") gVerbose++; else if (a == "--slow") gSlowQueryLog = atof(nx().c_str()); else if (a == "--maxite") gMaxIte = atoi(nx().c_str());
        else if (a == "--seed") gRng ^= strtoull(nx().c_str(), 0, 10) * 0x9E3779B97F4A7C15ull;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    double t0 = nowS();
    registerBuiltins();
    SMDiagnostic err; mod = parseIRFile(bc, err, ctx);
    if (!mod) { err.print("rpsym", errs()); return 3; }
    DL = &mod->getDataLayout();
    gSh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    gSh->freeSlots = 0;
    State* init = initialState();
    // global constructors
    gOut = stderr; gEntry = "<init>";
    if (auto* gc = mod->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function*>> cs;
        for (auto& o : arr->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({ cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f }); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) if (!runConcrete(init, c.second)) { fprintf(stderr, "rpsym: global constructor %s failed\n", c.second->getName().str().c_str()); for (auto& e : gErrs) fprintf(stderr, "  %s\n", e.first.c_str()); return 3; }
    }
    init->obs.clear(); init->steps = 0;
    if (gVerbose) fprintf(stderr, "rpsym: loaded in %.2fs\n", nowS() - t0);
    resetResults();
    gSh->freeSlots = workers;
    double start = nowS(); gDeadline = start + budget; gSolverDeadline = start + budget + 4;
    std::vector<pid_t> kids; std::map<pid_t, Str> kn; int rc = 0;
    size_t next = 0; size_t running = 0;
    auto reap = [&](bool block) { int st; pid_t k = waitpid(-1, &st, block ? 0 : WNOHANG); if (k > 0) { running--; if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "rpsym: entry %s crashed (status %d)\n", kn[k].c_str(), st); rc = 4; } return true; } return false; };
    while (next < entries.size() || running) {
        if (next < entries.size() && grabSlot()) {
            gEntry = entries[next++];
            pid_t pid = fork();
            if (pid == 0) {
                Function* f = mod->getFunction(gEntry);
                openOut();
                if (!f || f->isDeclaration()) { gErrs["no such entry"]++; G.errors++; }
                else { enterFunc(*init, gFuncs[funcIndex(f)], nullptr, 0, -1, 0, 0); gWork.push_back(init); explore(); }
                finishChild();
            }
            kn[pid] = gEntry; running++;
            continue;
        }
        if (!reap(false)) usleep(2000);
    }
    return rc;
}
