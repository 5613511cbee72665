#include "solver.h"
#include <z3.h>
#include <map>
#include <deque>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>

SolverStats gSolverStats;
unsigned gRlimit = 40000000;
double gSlowQueryLog = 0;
u32 gConjBits = 14;

static Z3_context C;
double gSolverDeadline = 1e18;      // no query runs (much) longer than this moment
static volatile sig_atomic_t gLate;
static void onAlarm(int) { gLate = 1; if (C) Z3_interrupt(C); }
static double wallNow() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void armTimer() {
    static pid_t armed; pid_t me = getpid();
    if (armed == me || gSolverDeadline > 1e17) return;
    armed = me; gLate = 0;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
    double left = std::max(0.05, gSolverDeadline - wallNow());
    struct itimerval it; it.it_value.tv_sec = (long)left; it.it_value.tv_usec = (long)((left - (long)left) * 1e6); it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 300000;
    setitimer(ITIMER_REAL, &it, nullptr);
}
static Z3_solver gInc;              // incremental bit-vector solver, constraints guarded by literals
static u64 gIncLits;
static std::unordered_map<u32, Z3_ast> gLit;   // constraint id -> guard literal
static std::unordered_map<u32, bool> gDomLit;
static Z3_sort sBool, sF32, sF64;
static Z3_ast RNE, RTN, RTP, RTZ, RNA;

static void onErr(Z3_context, Z3_error_code) {}
static void initZ3() {
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg);
    Z3_set_error_handler(C, onErr);
    sBool = Z3_mk_bool_sort(C);
    sF32 = Z3_mk_fpa_sort_32(C);
    sF64 = Z3_mk_fpa_sort_64(C);
    RNE = Z3_mk_fpa_rne(C);
    RTN = Z3_mk_fpa_rtn(C);
    RTP = Z3_mk_fpa_rtp(C);
    RTZ = Z3_mk_fpa_rtz(C);
    RNA = Z3_mk_fpa_rna(C);
}
static Z3_sort gBvSorts[130];
static Z3_sort bvs(u32 w) {
    Z3_sort* s = gBvSorts;
    if (!s[w]) { s[w] = Z3_mk_bv_sort(C, w);  }
    return s[w];
}
static Z3_ast keep(Z3_ast a) { return a; }   // the context keeps every term alive
static Z3_ast bvc(u64 v, u32 w) { return Z3_mk_unsigned_int64(C, v & maskW(w), bvs(w)); }
static Z3_ast B(Expr* e);     // bit vector (w>1) or Bool (w==1)
static Z3_ast F(Expr* e);
static Z3_ast bvOf(Expr* e) { Z3_ast x = B(e); if (e->w == 1) return Z3_mk_ite(C, x, bvc(1, 1), bvc(0, 1)); return x; }
static Z3_ast varAst(u32 i) {
    Expr* e = gVars[i].e;
    return B(e);
}
static Z3_ast bitOf(Z3_ast bv, u32 w, u32 k) {
    if (w == 1) return bv; // Bool variable
    return Z3_mk_eq(C, Z3_mk_extract(C, k, k, bv), bvc(1, 1));
}
static Z3_ast tableAst(Expr* e) {
    const TableData& t = gTables[e->imm];
    std::vector<Z3_ast> bits;
    for (u32 v : t.vars) { Z3_ast x = varAst(v); for (u32 k = 0; k < gVars[v].w; k++) bits.push_back(keep(bitOf(x, gVars[v].w, k))); }
    // bottom-up decision diagram with sharing, variable order: low bits first decided at the bottom
    std::map<u64, u32> leafId; std::vector<Z3_ast> ast;
    const std::vector<u64> tv = t.values(); size_t n = tv.size();
    std::vector<u32> cur(n);
    for (size_t i = 0; i < n; i++) {
        auto it = leafId.find(tv[i]);
        if (it == leafId.end()) { it = leafId.emplace(tv[i], (u32)ast.size()).first; ast.push_back(keep(e->w == 1 ? (tv[i] ? Z3_mk_true(C) : Z3_mk_false(C)) : bvc(tv[i], e->w))); }
        cur[i] = it->second;
    }
    for (size_t k = 0; k < bits.size(); k++) {
        std::unordered_map<u64, u32> memo;
        std::vector<u32> nx(cur.size() / 2);
        for (size_t i = 0; i < nx.size(); i++) {
            u32 lo = cur[2 * i], hi = cur[2 * i + 1];
            if (lo == hi) { nx[i] = lo; continue; }
            u64 key = ((u64)lo << 32) | hi;
            auto it = memo.find(key);
            if (it == memo.end()) { ast.push_back(keep(Z3_mk_ite(C, bits[k], ast[hi], ast[lo]))); it = memo.emplace(key, (u32)ast.size() - 1).first; }
            nx[i] = it->second;
        }
        cur.swap(nx);
    }
    return ast[cur[0]];
}
static Z3_ast rndAst(Expr* e) {
    u32 w = e->w, p = (u32)e->imm;
    Z3_ast n = bvOf(e->a);
    Z3_ast neg = Z3_mk_bvslt(C, n, bvc(0, w));
    // one extra bit so that |min| and the rounding increment fit
    u32 W = w + 1;
    Z3_ast ext = Z3_mk_sign_ext(C, 1, n);
    Z3_ast mag = Z3_mk_ite(C, neg, Z3_mk_bvneg(C, ext), ext);
    Z3_ast res = mag;
    u64 amax = (u64)std::max(std::llabs(e->a->smin), std::llabs(e->a->smax));
    u32 L = 64 - (amax ? __builtin_clzll(amax) : 63);
    // addend / mask chosen by magnitude
    Z3_ast add = bvc(0, W), mask = Z3_mk_bvnot(C, bvc(0, W));
    for (u32 k = 1; p + k <= L + 1 && k < W; k++) {
        // bit length is p+k  <=> mag >= 2^(p+k-1)
        if (p + k - 1 >= 63) break;
        Z3_ast ge = Z3_mk_bvuge(C, mag, Z3_mk_unsigned_int64(C, 1ull << (p + k - 1), bvs(W)));
        Z3_ast lsb = Z3_mk_zero_ext(C, W - 1, Z3_mk_extract(C, k, k, mag));
        Z3_ast a = Z3_mk_bvadd(C, Z3_mk_unsigned_int64(C, (1ull << (k - 1)) - 1, bvs(W)), lsb);
        Z3_ast m = Z3_mk_bvshl(C, Z3_mk_bvnot(C, bvc(0, W)), Z3_mk_unsigned_int64(C, k, bvs(W)));
        add = Z3_mk_ite(C, ge, a, add);
        mask = Z3_mk_ite(C, ge, m, mask);
    }
    res = Z3_mk_bvand(C, Z3_mk_bvadd(C, mag, add), mask);
    res = Z3_mk_ite(C, neg, Z3_mk_bvneg(C, res), res);
    return Z3_mk_extract(C, w - 1, 0, res);
}
static Z3_ast toBool(Z3_ast bv1) { return Z3_mk_eq(C, bv1, bvc(1, 1)); }
static Z3_ast B1(Expr* e) {
    u32 w = e->w;
    Expr *a = e->a, *b = e->b, *c = e->c;
    switch (e->op) {
        case CONST: return w == 1 ? (e->imm ? Z3_mk_true(C) : Z3_mk_false(C)) : bvc(e->imm, w);
        case VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%llu", (unsigned long long)e->imm); return Z3_mk_const(C, Z3_mk_string_symbol(C, nm), w == 1 ? sBool : bvs(w)); }
        case TABLE: return tableAst(e);
        case RND: return rndAst(e);
        case EXTRACT: { Z3_ast x = Z3_mk_extract(C, (u32)e->imm + w - 1, (u32)e->imm, bvOf(a)); return w == 1 ? toBool(x) : x; }
        case CONCAT: return Z3_mk_concat(C, bvOf(a), bvOf(b));
        case ZEXT: return Z3_mk_zero_ext(C, w - a->w, bvOf(a));
        case SEXT: return Z3_mk_sign_ext(C, w - a->w, bvOf(a));
        case EQ: return Z3_mk_eq(C, B(a), B(b));
        case ULT: return Z3_mk_bvult(C, bvOf(a), bvOf(b));
        case ULE: return Z3_mk_bvule(C, bvOf(a), bvOf(b));
        case SLT: return Z3_mk_bvslt(C, bvOf(a), bvOf(b));
        case SLE: return Z3_mk_bvsle(C, bvOf(a), bvOf(b));
        case FOEQ: return Z3_mk_fpa_eq(C, F(a), F(b));
        case FOLT: return Z3_mk_fpa_lt(C, F(a), F(b));
        case FOLE: return Z3_mk_fpa_leq(C, F(a), F(b));
        case FUNO: { Z3_ast x[2] = { Z3_mk_fpa_is_nan(C, F(a)), Z3_mk_fpa_is_nan(C, F(b)) }; return Z3_mk_or(C, 2, x); }
        case ITE: if ((w == 32 || w == 64) && e->isFP && (a->hasFPTheory || b->hasFPTheory || c->hasFPTheory)) return Z3_mk_fpa_to_ieee_bv(C, F(e));
                  return Z3_mk_ite(C, B(a), B(b), B(c));
        case FPTOSI: return Z3_mk_fpa_to_sbv(C, RTZ, F(a), w);
        case FPTOUI: return Z3_mk_fpa_to_ubv(C, RTZ, F(a), w);
        default: break;
    }
    if (e->op >= FADD && e->op <= DY) return Z3_mk_fpa_to_ieee_bv(C, F(e));
    if (w == 1) {
        Z3_ast x[2] = { B(a), B(b) };
        switch (e->op) {
            case AND: case MUL: return Z3_mk_and(C, 2, x);
            case OR: return Z3_mk_or(C, 2, x);
            case XOR: case ADD: case SUB: if (b->op == CONST && b->imm) return Z3_mk_not(C, x[0]); return Z3_mk_xor(C, x[0], x[1]);
            default: break;
        }
    }
    Z3_ast x = bvOf(a), y = bvOf(b), r = nullptr;
    switch (e->op) {
        case ADD: r = Z3_mk_bvadd(C, x, y); break;
        case SUB: r = Z3_mk_bvsub(C, x, y); break;
        case MUL: r = Z3_mk_bvmul(C, x, y); break;
        case UDIV: r = Z3_mk_bvudiv(C, x, y); break;
        case SDIV: r = Z3_mk_bvsdiv(C, x, y); break;
        case UREM: r = Z3_mk_bvurem(C, x, y); break;
        case SREM: r = Z3_mk_bvsrem(C, x, y); break;
        case AND: r = Z3_mk_bvand(C, x, y); break;
        case OR: r = Z3_mk_bvor(C, x, y); break;
        case XOR: r = Z3_mk_bvxor(C, x, y); break;
        case SHL: r = Z3_mk_bvshl(C, x, y); break;
        case LSHR: r = Z3_mk_bvlshr(C, x, y); break;
        case ASHR: r = Z3_mk_bvashr(C, x, y); break;
        default: fprintf(stderr, "B1: op %s\n", opNames[e->op]); abort();
    }
    return w == 1 ? toBool(r) : r;
}
static Z3_sort fs(u32 w) { return w == 32 ? sF32 : sF64; }
static Z3_ast F1(Expr* e) {
    u32 w = e->w;
    Expr *a = e->a, *b = e->b, *c = e->c;
    switch (e->op) {
        case CONST: return Z3_mk_fpa_to_fp_bv(C, bvc(e->imm, w), fs(w));
        case FADD: return Z3_mk_fpa_add(C, RNE, F(a), F(b));
        case FSUB: return Z3_mk_fpa_sub(C, RNE, F(a), F(b));
        case FMUL: return Z3_mk_fpa_mul(C, RNE, F(a), F(b));
        case FDIV: return Z3_mk_fpa_div(C, RNE, F(a), F(b));
        case FSQRT: return Z3_mk_fpa_sqrt(C, RNE, F(a));
        case FNEG: return Z3_mk_fpa_neg(C, F(a));
        case FABS: return Z3_mk_fpa_abs(C, F(a));
        case FFLOOR: return Z3_mk_fpa_round_to_integral(C, RTN, F(a));
        case FCEIL: return Z3_mk_fpa_round_to_integral(C, RTP, F(a));
        case FTRUNCI: return Z3_mk_fpa_round_to_integral(C, RTZ, F(a));
        case FROUND: return Z3_mk_fpa_round_to_integral(C, RNA, F(a));
        case SITOFP: return Z3_mk_fpa_to_fp_signed(C, RNE, bvOf(a), fs(w));
        case UITOFP: return Z3_mk_fpa_to_fp_unsigned(C, RNE, bvOf(a), fs(w));
        case FPEXT: case FPTRUNC: return Z3_mk_fpa_to_fp_float(C, RNE, F(a), fs(w));
        case DY: {
            Z3_ast n = Z3_mk_fpa_to_fp_signed(C, RNE, bvOf(a), fs(w));
            double s = std::ldexp(1.0, (int)(i64)e->imm);
            Z3_ast k = w == 32 ? Z3_mk_fpa_numeral_float(C, (float)s, sF32) : Z3_mk_fpa_numeral_double(C, s, sF64);
            return Z3_mk_fpa_mul(C, RNE, n, k);
        }
        case ITE: return Z3_mk_ite(C, B(a), F(b), F(c));
        case FREM: case FUN1: case FUN2: return nullptr;
        default: return Z3_mk_fpa_to_fp_bv(C, B(e), fs(w));
    }
}
// iterative wrapper to avoid deep recursion: translate children first
static void prepare(Expr* root) {
    std::vector<Expr*> st{ root };
    while (!st.empty()) {
        Expr* e = st.back();
        if (e->zbv || e->zfp) { st.pop_back(); continue; }
        bool ready = true;
        Expr* ch[3] = { e->a, e->b, e->c };
        for (Expr* x : ch) if (x && !x->zbv && !x->zfp) { st.push_back(x); ready = false; }
        if (!ready) continue;
        st.pop_back();
        bool fpop = (e->op >= FADD && e->op <= FABS) || (e->op >= SITOFP && e->op <= DY && e->op != FPTOSI && e->op != FPTOUI);
        if (fpop) F(e); else B(e);
    }
}
static std::vector<Expr*> gWithAst;
static Z3_ast B(Expr* e) { if (!e->zbv) { e->zbv = keep(B1(e)); gWithAst.push_back(e); } return (Z3_ast)e->zbv; }
static Z3_ast F(Expr* e) { if (!e->zfp) { e->zfp = keep(F1(e)); gWithAst.push_back(e); } return (Z3_ast)e->zfp; }
// the context keeps every term alive: start afresh when it has become too big
static void renewContext() {
    if (!C || Z3_get_estimated_alloc_size() < (700ull << 20)) return;
    if (gInc) { Z3_solver_dec_ref(C, gInc); gInc = nullptr; }
    gLit.clear(); gDomLit.clear(); gIncLits = 0;
    Z3_context old = C; C = nullptr; Z3_del_context(old);
    for (Expr* e : gWithAst) e->zbv = e->zfp = nullptr;
    gWithAst.clear(); memset(gBvSorts, 0, sizeof gBvSorts); gSolverStats.renewed++;
}

static u64 gModelGen = 1;
ModelRef newModel(const std::vector<u64>& v) { auto m = std::make_shared<Model>(); m->v = v; m->gen = ++gModelGen; return m; }

// recently found models, tried before calling the solver
static std::deque<ModelRef> gRecent;
static std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, ModelRef>>> gCache; // null model: unsat

static bool holds(const std::vector<Expr*>& s, const Model& m) { for (Expr* e : s) if (!evalExpr(e, m)) return false; return true; }

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void supVarsOf(const std::vector<u64>& bits, std::vector<u32>& out) {
    for (size_t i = 0; i < bits.size(); i++) for (int j = 0; j < 64; j++) if ((bits[i] >> j) & 1) out.push_back((u32)(i * 64 + j));
}
static Z3_ast domainAst(u32 v) {
    const VarInfo& vi = gVars[v];
    if (vi.hi == maskW(vi.w)) return nullptr;
    if (vi.w == 1) return vi.hi == 0 ? Z3_mk_not(C, B(vi.e)) : nullptr;
    return Z3_mk_bvule(C, B(vi.e), bvc(vi.hi, vi.w));
}
static u64 readVar(Z3_model m, u32 v) {
    Z3_ast r = nullptr;
    const VarInfo& vi = gVars[v];
    if (!Z3_model_eval(C, m, B(vi.e), true, &r) || !r) return 0;
    if (vi.w == 1) return Z3_get_bool_value(C, r) == Z3_L_TRUE;
    uint64_t x = 0;
    Z3_get_numeral_uint64(C, r, &x);
    return x;
}

int solverCheck(const std::vector<Expr*>& pc, Expr* extra, const ModelRef& base, ModelRef& out) {
    if (extra->op == CONST) { if (extra->imm) { out = base; return 1; } return 0; }
    gSolverStats.queries++;
    // slice: constraints connected with 'extra'
    std::vector<u64> bits = extra->sup->bits;
    std::vector<Expr*> slice{ extra };
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
            const std::vector<u64>& b = pc[i]->sup->bits;
            bool meets = false;
            for (size_t k = 0; k < b.size() && k < bits.size(); k++) if (b[k] & bits[k]) { meets = true; break; }
            if (!meets) continue;
            used[i] = 1; slice.push_back(pc[i]); ch = true;
            if (pc[i] == extra) {}
            if (b.size() > bits.size()) bits.resize(b.size(), 0);
            for (size_t k = 0; k < b.size(); k++) bits[k] |= b[k];
        }
    }
    std::vector<u32> key; for (Expr* e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    u64 h = 1469598103934665603ull; for (u32 k : key) h = (h ^ k) * 1099511628211ull;
    std::vector<u32> vars; supVarsOf(bits, vars);
    auto merge = [&](const Model& m) {
        std::vector<u64> v = base ? base->v : std::vector<u64>();
        if (v.size() < gVars.size()) v.resize(gVars.size(), 0);
        for (u32 x : vars) v[x] = m.get(x);
        out = newModel(v);
    };
    static size_t cacheBytes = 0; cacheBytes += 64 + key.size() * 4; if (cacheBytes > (300u << 20)) { gCache.clear(); cacheBytes = 0; }
    auto& bucket = gCache[h];
    for (auto& p : bucket) if (p.first == key) {
        gSolverStats.cacheHits++;
        if (!p.second) { gSolverStats.unsat++; return 0; }
        gSolverStats.sat++; merge(*p.second); return 1;
    }
    for (auto& m : gRecent) {
        // only evaluate models that are in the domain (all recorded ones are)
        if (evalExpr(extra, *m) && holds(slice, *m)) { gSolverStats.modelHits++; gSolverStats.sat++; merge(*m); bucket.push_back({ key, m }); return 1; }
    }
    renewContext(); initZ3();
    armTimer();
    if (gLate) { gSolverStats.unknown++; return -1; }
    double t0 = now();
    bool fp = false; std::vector<Expr*> orig;
    for (Expr* e : slice) if (e->hasFPTheory) fp = true;
    int res = -1;
    // constraints over few input bits: one decision diagram for the whole slice
    if (Expr* t = conjTable(slice, gTableBits < gConjBits ? gTableBits : gConjBits)) { orig = slice; slice.assign(1, t); fp = false; }
    for (Expr* e : slice) prepare(e);
    bool bad = false;
    for (Expr* e : slice) if (!B(e)) bad = true;
    Z3_model mod = nullptr;
    Z3_solver s = nullptr;
    if (!bad) {
        if (!fp) {
            if (gInc && gIncLits > 3000) { Z3_solver_dec_ref(C, gInc); gInc = nullptr; }
            if (!gInc) {
                gInc = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, gInc);
                gIncLits = 0; gLit.clear(); gDomLit.clear();
                Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
                Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), gRlimit);
                Z3_solver_set_params(C, gInc, p); Z3_params_dec_ref(C, p);
            }
            std::vector<Z3_ast> as;
            for (u32 v : vars) if (!gDomLit.count(v)) { gDomLit[v] = true; Z3_ast d = domainAst(v); if (d) Z3_solver_assert(C, gInc, d); }
            for (Expr* e : slice) {
                auto it = gLit.find(e->id);
                if (it == gLit.end()) {
                    char nm[32]; snprintf(nm, sizeof nm, "g%u", e->id);
                    Z3_ast g = keep(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), sBool));
                    Z3_solver_assert(C, gInc, Z3_mk_implies(C, g, B(e)));
                    it = gLit.emplace(e->id, g).first; gIncLits++;
                }
                as.push_back(it->second);
            }
            s = gInc;
            Z3_lbool r = Z3_solver_check_assumptions(C, s, (unsigned)as.size(), as.data());
            res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        } else {
            gSolverStats.fpQueries++;
            s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV")); Z3_solver_inc_ref(C, s);
            Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
            Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), gRlimit);
            Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
            for (u32 v : vars) { Z3_ast d = domainAst(v); if (d) Z3_solver_assert(C, s, d); }
            for (Expr* e : slice) Z3_solver_assert(C, s, B(e));
            Z3_lbool r = Z3_solver_check(C, s);
            res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        }
        if (res == 1) {
            mod = Z3_solver_get_model(C, s);
            if (!mod) res = -1;
        }
    }
    if (res == 1) {
        Z3_model_inc_ref(C, mod);
        std::vector<u64> v = base ? base->v : std::vector<u64>();
        if (v.size() < gVars.size()) v.resize(gVars.size(), 0);
        for (u32 x : vars) v[x] = readVar(mod, x);
        Z3_model_dec_ref(C, mod);
        out = newModel(v);
        // the model must satisfy the slice under our own semantics
        bool ok = true;
        for (u32 x : vars) if (v[x] > gVars[x].hi) ok = false;
        if (!ok || !holds(orig.empty() ? slice : orig, *out)) {
            if (getenv("RPSYM_DEBUG")) { for (Expr* e : slice) if (!evalExpr(e, *out)) fprintf(stderr, "model mismatch: %s\n", exprStr(e, 6).c_str()); }
            res = -1;
        }
    }
    if (s && s != gInc) Z3_solver_dec_ref(C, s);
    if (res == -1 && s == gInc && gInc) { Z3_solver_dec_ref(C, gInc); gInc = nullptr; }
    double dt = now() - t0;
    gSolverStats.seconds += dt; if (dt > gSolverStats.maxSeconds) gSolverStats.maxSeconds = dt;
    if (gSlowQueryLog > 0 && dt > gSlowQueryLog) fprintf(stderr, "[slow query %.2fs res=%d fp=%d slice=%zu vars=%zu] %s\n", dt, res, fp, slice.size(), vars.size(), exprStr(extra, 9).c_str());
    if (res == 1) {
        gSolverStats.sat++;
        gRecent.push_front(out); if (gRecent.size() > 24) gRecent.pop_back();
        bucket.push_back({ key, out });
    } else if (res == 0) { gSolverStats.unsat++; bucket.push_back({ key, nullptr }); }
    else gSolverStats.unknown++;
    return res;
}

void memReport() { size_t n = 0, b = 0; for (auto& x : gCache) for (auto& y : x.second) { n++; b += y.first.size() * 4; } fprintf(stderr, "   z3 %zu MB, renewed %llu; cache %zu entries %zu MB; terms %zu\n", (size_t)(C ? Z3_get_estimated_alloc_size() >> 20 : 0), (unsigned long long)gSolverStats.renewed, n, b >> 20, gWithAst.size()); }
