#include "expr.h"
#include <cmath>
#include <map>
#include <algorithm>

const char* opNames[] = { "const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
    "eq","ult","ule","slt","sle","ite","concat","extract","zext","sext",
    "fadd","fsub","fmul","fdiv","frem","fsqrt","fneg","fabs","foeq","folt","fole","funo",
    "sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","ffloor","fceil","ftrunci","fround","fun1","fun2","dy","rnd","table" };

std::vector<VarInfo> gVars;
std::vector<TableData> gTables;
u32 gTableBits = 12;
u32 gMidTable = 12;    // up to this size, a table is preferred to dyadic arithmetic that needs rounding
u32 gSmallTable = 5;   // below this, a table is preferred even to exact arithmetic
bool gUseDyadic = true;
u64 gNbExprs = 0;

// ------------------------------------------------------------------ support sets
static std::vector<Sup*> gSups;
static std::map<std::vector<u64>, Sup*> gSupMap;
static std::unordered_map<u64, Sup*> gSupUnion;
static Sup* internSup(const std::vector<u64>& bits) {
    auto it = gSupMap.find(bits);
    if (it != gSupMap.end()) return it->second;
    Sup* s = new Sup();
    s->bits = bits; s->id = (u32)gSups.size(); s->nbits = 0; s->count = 0;
    for (size_t i = 0; i < bits.size(); i++) for (int j = 0; j < 64; j++) if ((bits[i] >> j) & 1) { s->nbits += gVars[i * 64 + j].w; s->count++; }
    gSups.push_back(s);
    gSupMap[bits] = s;
    return s;
}
static Sup* supEmpty() { static Sup* s = internSup({}); return s; }
static Sup* supUnion(Sup* a, Sup* b) {
    if (a == b || b->count == 0) return a;
    if (a->count == 0) return b;
    if (a->id > b->id) std::swap(a, b);
    u64 key = ((u64)a->id << 32) | b->id;
    auto it = gSupUnion.find(key);
    if (it != gSupUnion.end()) return it->second;
    std::vector<u64> r(std::max(a->bits.size(), b->bits.size()), 0);
    for (size_t i = 0; i < a->bits.size(); i++) r[i] |= a->bits[i];
    for (size_t i = 0; i < b->bits.size(); i++) r[i] |= b->bits[i];
    Sup* s = internSup(r);
    gSupUnion[key] = s;
    return s;
}

// ------------------------------------------------------------------ hash consing
static std::vector<Expr*> gBuckets(1 << 20, nullptr);
static u32 hmix(u32 h, u64 v) { u64 x = (h ^ v) * 0x9E3779B97F4A7C15ull; return (u32)(x ^ (x >> 29) ^ (x >> 47)); }

static inline float f32(u64 b) { float f; u32 x = (u32)b; memcpy(&f, &x, 4); return f; }
static inline double f64(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 b32(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline u64 b64(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline double fval(u64 b, u32 w) { return w == 32 ? (double)f32(b) : f64(b); }
static inline u64 fbits(double d, u32 w) { return w == 32 ? b32((float)d) : b64(d); }

static double mathFn(int fn, u32 w, double a, double b) {
    if (w == 32) {
        float x = (float)a, y = (float)b;
        switch (fn) {
            case FN_SIN: return sinf(x); case FN_COS: return cosf(x); case FN_TAN: return tanf(x);
            case FN_ASIN: return asinf(x); case FN_ACOS: return acosf(x); case FN_ATAN: return atanf(x);
            case FN_ATAN2: return atan2f(x, y); case FN_EXP: return expf(x); case FN_LOG: return logf(x);
            case FN_POW: return powf(x, y); case FN_FMOD: return fmodf(x, y);
            case FN_MINNUM: return fminf(x, y); case FN_MAXNUM: return fmaxf(x, y);
        }
    } else {
        switch (fn) {
            case FN_SIN: return sin(a); case FN_COS: return cos(a); case FN_TAN: return tan(a);
            case FN_ASIN: return asin(a); case FN_ACOS: return acos(a); case FN_ATAN: return atan(a);
            case FN_ATAN2: return atan2(a, b); case FN_EXP: return exp(a); case FN_LOG: return log(a);
            case FN_POW: return pow(a, b); case FN_FMOD: return fmod(a, b);
            case FN_MINNUM: return fmin(a, b); case FN_MAXNUM: return fmax(a, b);
        }
    }
    return 0;
}

u64 evalOp(Op op, u32 w, u64 imm, u32 wa, u64 a, u32 wb, u64 b, u32 wc, u64 c) {
    u64 m = maskW(w);
    switch (op) {
        case ADD: return (a + b) & m;
        case SUB: return (a - b) & m;
        case MUL: return (a * b) & m;
        case UDIV: return b ? (a / b) & m : m;
        case UREM: return b ? (a % b) & m : a;
        case SDIV: { i64 x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
        case SREM: { i64 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case SHL: return b >= w ? 0 : (a << b) & m;
        case LSHR: return b >= w ? 0 : (a >> b);
        case ASHR: { i64 x = sxt(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sxt(a, wa) < sxt(b, wa);
        case SLE: return sxt(a, wa) <= sxt(b, wa);
        case ITE: return a ? b : c;
        case CONCAT: return ((a << wb) | b) & m;
        case EXTRACT: return (a >> imm) & m;
        case ZEXT: return a;
        case SEXT: return (u64)sxt(a, wa) & m;
        case FADD: if (w == 32) return b32(f32(a) + f32(b)); return b64(f64(a) + f64(b));
        case FSUB: if (w == 32) return b32(f32(a) - f32(b)); return b64(f64(a) - f64(b));
        case FMUL: if (w == 32) return b32(f32(a) * f32(b)); return b64(f64(a) * f64(b));
        case FDIV: if (w == 32) return b32(f32(a) / f32(b)); return b64(f64(a) / f64(b));
        case FREM: if (w == 32) return b32(fmodf(f32(a), f32(b))); return b64(fmod(f64(a), f64(b)));
        case FSQRT: if (w == 32) return b32(sqrtf(f32(a))); return b64(sqrt(f64(a)));
        case FNEG: return (a ^ (1ull << (w - 1))) & m;
        case FABS: return a & (m >> 1);
        case FOEQ: return wa == 32 ? f32(a) == f32(b) : f64(a) == f64(b);
        case FOLT: return wa == 32 ? f32(a) < f32(b) : f64(a) < f64(b);
        case FOLE: return wa == 32 ? f32(a) <= f32(b) : f64(a) <= f64(b);
        case FUNO: return wa == 32 ? (std::isnan(f32(a)) || std::isnan(f32(b))) : (std::isnan(f64(a)) || std::isnan(f64(b)));
        case SITOFP: return w == 32 ? b32((float)sxt(a, wa)) : b64((double)sxt(a, wa));
        case UITOFP: return w == 32 ? b32((float)a) : b64((double)a);
        case FPTOSI: { double d = fval(a, wa); if (!(d > -9.3e18 && d < 9.2e18)) return 1ull << (w - 1); return (u64)(i64)d & m; }
        case FPTOUI: { double d = fval(a, wa); if (!(d > -9.3e18 && d < 1.84e19)) return 0; return (d < 0 ? (u64)(i64)d : (u64)d) & m; }
        case FPEXT: return b64((double)f32(a));
        case FPTRUNC: return b32((float)f64(a));
        case FFLOOR: return w == 32 ? b32(floorf(f32(a))) : b64(floor(f64(a)));
        case FCEIL: return w == 32 ? b32(ceilf(f32(a))) : b64(ceil(f64(a)));
        case FTRUNCI: return w == 32 ? b32(truncf(f32(a))) : b64(trunc(f64(a)));
        case FROUND: return w == 32 ? b32(roundf(f32(a))) : b64(round(f64(a)));
        case FUN1: case FUN2: return fbits(mathFn((int)imm, w, fval(a, w), op == FUN2 ? fval(b, w) : 0), w);
        case DY: return w == 32 ? b32((float)std::ldexp((double)sxt(a, wa), (int)(i64)imm)) : b64(std::ldexp((double)sxt(a, wa), (int)(i64)imm));
        case RND: return (imm == 24 ? (u64)(i64)(float)sxt(a, wa) : (u64)(i64)(double)sxt(a, wa)) & m;
        default: break;
    }
    fprintf(stderr, "evalOp: bad op %d\n", op); abort();
}

static void computeFInterval(Expr* e);

static Expr* mkNode(Op op, u32 w, Expr* a, Expr* b, Expr* c, u64 imm) {
    u32 h = hmix(hmix(hmix(hmix(op * 131 + w, imm), a ? a->id + 1 : 0), b ? b->id + 1 : 0), c ? c->id + 1 : 0);
    Expr** bk = &gBuckets[h & (gBuckets.size() - 1)];
    for (Expr* e = *bk; e; e = e->next)
        if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->imm == imm) return e;
    Expr* e = new Expr();
    memset(e, 0, sizeof(Expr));
    e->op = op; e->w = (u8)w; e->a = a; e->b = b; e->c = c; e->imm = imm; e->hash = h; e->id = (u32)gNbExprs++;
    e->next = *bk; *bk = e;
    Sup* s = supEmpty();
    if (a) s = supUnion(s, a->sup);
    if (b) s = supUnion(s, b->sup);
    if (c) s = supUnion(s, c->sup);
    e->sup = s;
    e->hasFPTheory = (a && a->hasFPTheory) || (b && b->hasFPTheory) || (c && c->hasFPTheory);
    if (op >= FADD && op <= FUN2) e->hasFPTheory = true;
    // integer intervals
    e->umin = 0; e->umax = maskW(w);
    e->smin = w >= 64 ? INT64_MIN : -(i64)(1ull << (w - 1));
    e->smax = w >= 64 ? INT64_MAX : (i64)((1ull << (w - 1)) - 1);
    i64 tsmin = e->smin, tsmax = e->smax; u64 tumax = e->umax;
    auto setS = [&](__int128 lo, __int128 hi) { if (lo >= tsmin && hi <= tsmax) { e->smin = (i64)lo; e->smax = (i64)hi; } };
    auto setU = [&](unsigned __int128 lo, unsigned __int128 hi) { if (hi <= tumax) { e->umin = (u64)lo; e->umax = (u64)hi; } };
    switch (op) {
        case CONST: e->umin = e->umax = imm; e->smin = e->smax = sxt(imm, w); break;
        case ADD: setS((__int128)a->smin + b->smin, (__int128)a->smax + b->smax);
                  setU((unsigned __int128)a->umin + b->umin, (unsigned __int128)a->umax + b->umax); break;
        case SUB: setS((__int128)a->smin - b->smax, (__int128)a->smax - b->smin);
                  if (a->umin >= b->umax) setU(a->umin - b->umax, a->umax - b->umin); break;
        case MUL: {
            __int128 p[4] = { (__int128)a->smin * b->smin, (__int128)a->smin * b->smax, (__int128)a->smax * b->smin, (__int128)a->smax * b->smax };
            __int128 lo = p[0], hi = p[0];
            for (int i = 1; i < 4; i++) { if (p[i] < lo) lo = p[i]; if (p[i] > hi) hi = p[i]; }
            if (a == b && lo < 0) lo = 0;
            setS(lo, hi);
            setU((unsigned __int128)a->umin * b->umin, (unsigned __int128)a->umax * b->umax); break; }
        case UDIV: if (b->umin > 0) setU(a->umin / b->umax, a->umax / b->umin); break;
        case UREM: if (b->umin > 0) setU(0, std::min(a->umax, b->umax - 1)); break;
        case SDIV: if (b->op == CONST && b->smin > 0) setS(a->smin / b->smin, a->smax / b->smin); break;
        case SREM: if (b->op == CONST && b->smin > 0) setS(a->smin < 0 ? -(b->smin - 1) : 0, a->smax > 0 ? b->smin - 1 : 0); break;
        case AND: setU(0, std::min(a->umax, b->umax)); break;
        case OR: { u64 m = a->umax | b->umax; int k = 64 - (m ? __builtin_clzll(m) : 64); setU(std::max(a->umin, b->umin), maskW(k)); break; }
        case XOR: { u64 m = a->umax | b->umax; int k = 64 - (m ? __builtin_clzll(m) : 64); setU(0, maskW(k)); break; }
        case SHL: if (b->op == CONST && b->imm < w) { setU((unsigned __int128)a->umin << b->imm, (unsigned __int128)a->umax << b->imm);
                      setS((__int128)a->smin * ((__int128)1 << b->imm), (__int128)a->smax * ((__int128)1 << b->imm)); } break;
        case LSHR: if (b->op == CONST && b->imm < w) setU(a->umin >> b->imm, a->umax >> b->imm); else setU(0, a->umax); break;
        case ASHR: if (b->op == CONST && b->imm < w) setS(a->smin >> b->imm, a->smax >> b->imm); break;
        case EQ: case ULT: case ULE: case SLT: case SLE: case FOEQ: case FOLT: case FOLE: case FUNO: break;
        case ITE: setS(std::min(b->smin, c->smin), std::max(b->smax, c->smax)); setU(std::min(b->umin, c->umin), std::max(b->umax, c->umax)); break;
        case CONCAT: setU(((unsigned __int128)a->umin << b->w) + b->umin, ((unsigned __int128)a->umax << b->w) + b->umax); break;
        case EXTRACT:
            if (imm == 0) {
                if (a->smin >= tsmin && a->smax <= tsmax) setS(a->smin, a->smax);
                if (a->umax <= tumax) setU(a->umin, a->umax);
            } else setU(a->umin >> imm, a->umax >> imm);
            break;
        case ZEXT: setU(a->umin, a->umax); break;
        case SEXT: setS(a->smin, a->smax); break;
        case RND: setS((i64)(imm == 24 ? (i64)(float)a->smin : (i64)(double)a->smin), (i64)(imm == 24 ? (i64)(float)a->smax : (i64)(double)a->smax)); break;
        default: break;
    }
    // cross-derive
    if (e->umax <= (u64)(w >= 64 ? INT64_MAX : tsmax)) {
        if ((i64)e->umin > e->smin) e->smin = (i64)e->umin;
        if ((i64)e->umax < e->smax) e->smax = (i64)e->umax;
    }
    if (e->smin >= 0) {
        if ((u64)e->smin > e->umin) e->umin = (u64)e->smin;
        if ((u64)e->smax < e->umax) e->umax = (u64)e->smax;
    }
    computeFInterval(e);
    return e;
}

static inline void fiv(Expr* e, double& lo, double& hi, bool& nan, u32 w) {
    if (e->isFP) { lo = e->flo; hi = e->fhi; nan = e->fnan; return; }
    if (e->op == CONST) { double d = fval(e->imm, w); nan = std::isnan(d); lo = hi = nan ? 0 : d; if (nan) { lo = -INFINITY; hi = INFINITY; } return; }
    lo = -INFINITY; hi = INFINITY; nan = true;
}
static double rndw(double d, u32 w) { return w == 32 ? (double)(float)d : d; }
static void computeFInterval(Expr* e) {
    e->isFP = false;
    double al = 0, ah = 0, bl = 0, bh = 0; bool an = false, bn = false;
    u32 w = e->w;
    switch (e->op) {
        case FADD: case FSUB: case FMUL: case FDIV:
            fiv(e->a, al, ah, an, w); fiv(e->b, bl, bh, bn, w); break;
        case FSQRT: case FNEG: case FABS: case FFLOOR: case FCEIL: case FTRUNCI: case FROUND: fiv(e->a, al, ah, an, w); break;
        case FPEXT: fiv(e->a, al, ah, an, 32); break;
        case FPTRUNC: fiv(e->a, al, ah, an, 64); break;
        case SITOFP: case UITOFP: case DY: case FUN1: case FUN2: break;
        case ITE: if (e->b->isFP || e->c->isFP) { fiv(e->b, al, ah, an, w); fiv(e->c, bl, bh, bn, w); e->isFP = true; e->flo = std::min(al, bl); e->fhi = std::max(ah, bh); e->fnan = an || bn; } return;
        default: return;
    }
    e->isFP = true; e->fnan = an || bn;
    bool inf = std::isinf(al) || std::isinf(ah) || std::isinf(bl) || std::isinf(bh);
    auto add = [&](double x, double y) { return w == 32 ? (double)((float)x + (float)y) : x + y; };
    auto full = [&]() { e->flo = -INFINITY; e->fhi = INFINITY; };
    switch (e->op) {
        case FADD: e->flo = add(al, bl); e->fhi = add(ah, bh); if (inf) { e->fnan = true; full(); } break;
        case FSUB: e->flo = add(al, -bh); e->fhi = add(ah, -bl); if (inf) { e->fnan = true; full(); } break;
        case FMUL: {
            if (inf) { e->fnan = true; full(); break; }
            double p[4] = { al * bl, al * bh, ah * bl, ah * bh };
            double lo = p[0], hi = p[0];
            for (int i = 1; i < 4; i++) { lo = std::min(lo, p[i]); hi = std::max(hi, p[i]); }
            if (e->a == e->b && lo < 0) lo = 0;
            e->flo = rndw(lo, w); e->fhi = rndw(hi, w); break; }
        case FDIV: {
            if (inf || (bl <= 0 && bh >= 0)) { e->fnan = true; full(); break; }
            double p[4];
            if (w == 32) { p[0] = (float)al / (float)bl; p[1] = (float)al / (float)bh; p[2] = (float)ah / (float)bl; p[3] = (float)ah / (float)bh; }
            else { p[0] = al / bl; p[1] = al / bh; p[2] = ah / bl; p[3] = ah / bh; }
            double lo = p[0], hi = p[0];
            for (int i = 1; i < 4; i++) { lo = std::min(lo, p[i]); hi = std::max(hi, p[i]); }
            e->flo = lo; e->fhi = hi; break; }
        case FSQRT: if (al < 0) { e->fnan = true; al = 0; } if (ah < 0) ah = 0; e->flo = w == 32 ? sqrtf((float)al) : sqrt(al); e->fhi = w == 32 ? sqrtf((float)ah) : sqrt(ah); break;
        case FNEG: e->flo = -ah; e->fhi = -al; break;
        case FABS: if (al >= 0) { e->flo = al; e->fhi = ah; } else if (ah <= 0) { e->flo = -ah; e->fhi = -al; } else { e->flo = 0; e->fhi = std::max(-al, ah); } break;
        case FFLOOR: e->flo = floor(al); e->fhi = floor(ah); break;
        case FCEIL: e->flo = ceil(al); e->fhi = ceil(ah); break;
        case FTRUNCI: e->flo = trunc(al); e->fhi = trunc(ah); break;
        case FROUND: e->flo = round(al); e->fhi = round(ah); break;
        case FPEXT: e->flo = al; e->fhi = ah; break;
        case FPTRUNC: e->flo = (double)(float)al; e->fhi = (double)(float)ah; break;
        case SITOFP: e->flo = rndw((double)e->a->smin, w); e->fhi = rndw((double)e->a->smax, w);
            if (w == 32) { e->flo = (double)(float)e->a->smin; e->fhi = (double)(float)e->a->smax; } break;
        case UITOFP: e->flo = w == 32 ? (double)(float)e->a->umin : (double)e->a->umin; e->fhi = w == 32 ? (double)(float)e->a->umax : (double)e->a->umax; break;
        case DY: e->flo = std::ldexp((double)e->a->smin, (int)(i64)e->imm); e->fhi = std::ldexp((double)e->a->smax, (int)(i64)e->imm); break;
        case FUN1: case FUN2: e->fnan = true; full(); break;
        default: break;
    }
    if (std::isnan(e->flo) || std::isnan(e->fhi)) { e->fnan = true; full(); }
}

Expr* mkConst(u64 v, u32 w) { return mkNode(CONST, w, nullptr, nullptr, nullptr, v & maskW(w)); }
Expr* toE(const Val& v, u32 w) { return v.e ? v.e : mkConst(v.c, w); }
static Val fromE(Expr* e) { if (e->op == CONST) return Val(e->imm); return Val(e); }

Expr* newVar(const std::string& name, u32 w, u64 hi) {
    u32 idx = (u32)gVars.size();
    gVars.push_back(VarInfo{ name, w, hi, nullptr });
    Expr* e = mkNode(VAR, w, nullptr, nullptr, nullptr, idx);
    std::vector<u64> bits(idx / 64 + 1, 0);
    bits[idx / 64] |= 1ull << (idx & 63);
    e->sup = internSup(bits);
    e->umin = 0; e->umax = hi;
    if (hi <= (u64)e->smax) { e->smin = 0; e->smax = (i64)hi; }
    gVars[idx].e = e;
    return e;
}

// ------------------------------------------------------------------ finite function tables
static std::unordered_map<u64, std::vector<u64>> gTableMemo;
static size_t gTableMemoBytes = 0;
size_t gTableBytes = 0;
static void supVars(Sup* s, std::vector<u32>& out) {
    for (size_t i = 0; i < s->bits.size(); i++) for (int j = 0; j < 64; j++) if ((s->bits[i] >> j) & 1) out.push_back((u32)(i * 64 + j));
}
static Expr* mkTable(Sup* S, u32 w, std::vector<u64>&& v, bool fp);
static std::unordered_map<u64, std::vector<u32>> gTableIndex;
struct DoneK { u64 x, y; u32 z; u64 imm; bool operator==(const DoneK& o) const { return x == o.x && y == o.y && z == o.z && imm == o.imm; } };
struct DoneH { size_t operator()(const DoneK& k) const { return (k.x * 0x9E3779B97F4A7C15ull) ^ (k.y * 0xC2B2AE3D27D4EB4Full) ^ (k.z * 0x165667B19E3779F9ull) ^ k.imm; } };
static std::unordered_map<DoneK, Expr*, DoneH> gDone;
struct TableDyR { bool ok; Expr* n; u64 c; bool cst; int s; };
static std::unordered_map<u32, TableDyR> gTableDyMemo;
static bool dagDepthBelow(Expr* root, u32 lim) {
    static std::unordered_map<u32, u32> depth; if (depth.size() > 2000000) depth.clear();
    std::vector<Expr*> st{ root };
    while (!st.empty()) {
        Expr* e = st.back(); if (depth.count(e->id)) { st.pop_back(); continue; }
        u32 d = 0; bool ready = true; Expr* ch[3] = { e->a, e->b, e->c };
        for (Expr* x : ch) if (x) { auto it = depth.find(x->id); if (it == depth.end()) { st.push_back(x); ready = false; } else d = std::max(d, it->second); }
        if (ready) { depth[e->id] = d + 1; st.pop_back(); }
    }
    return depth[root->id] < lim;
}
static void trimTableMemo() { if (gTableMemo.size() > 40000 || gTableMemoBytes > (200u << 20)) { gTableMemo.clear(); gTableMemoBytes = 0; } }
// r[i] = op(A[i], B[i], C[i]), common operations without the per-element dispatch
static void applyOp(Op op, u32 w, u64 imm, u32 wa, const u64* A, u32 wb, const u64* B, u32 wc, const u64* C, u64* r, size_t n) {
    u64 m = maskW(w);
#define LOOP(X) do { for (size_t i = 0; i < n; i++) r[i] = (X); return; } while (0)
    switch (op) {
        case ADD: LOOP((A[i] + B[i]) & m); case SUB: LOOP((A[i] - B[i]) & m); case MUL: LOOP((A[i] * B[i]) & m); case AND: LOOP(A[i] & B[i]); case OR: LOOP(A[i] | B[i]); case XOR: LOOP(A[i] ^ B[i]);
        case EQ: LOOP(A[i] == B[i]); case ITE: LOOP(A[i] ? B[i] : C[i]);
        case SLT: LOOP(sxt(A[i], wa) < sxt(B[i], wa)); case SLE: LOOP(sxt(A[i], wa) <= sxt(B[i], wa));
        case FADD: if (w == 32) LOOP(b32(f32(A[i]) + f32(B[i]))); LOOP(b64(f64(A[i]) + f64(B[i])));
        case FSUB: if (w == 32) LOOP(b32(f32(A[i]) - f32(B[i]))); LOOP(b64(f64(A[i]) - f64(B[i])));
        case FMUL: if (w == 32) LOOP(b32(f32(A[i]) * f32(B[i]))); LOOP(b64(f64(A[i]) * f64(B[i])));
        case FDIV: if (w == 32) LOOP(b32(f32(A[i]) / f32(B[i]))); LOOP(b64(f64(A[i]) / f64(B[i])));
        case FOEQ: if (wa == 32) LOOP(f32(A[i]) == f32(B[i])); LOOP(f64(A[i]) == f64(B[i]));
        case FOLT: if (wa == 32) LOOP(f32(A[i]) < f32(B[i])); LOOP(f64(A[i]) < f64(B[i]));
        case FOLE: if (wa == 32) LOOP(f32(A[i]) <= f32(B[i])); LOOP(f64(A[i]) <= f64(B[i]));
        case FNEG: LOOP((A[i] ^ (1ull << (w - 1))) & m); case FABS: LOOP(A[i] & (m >> 1));
        case FPEXT: LOOP(b64((double)f32(A[i]))); case FPTRUNC: LOOP(b32((float)f64(A[i])));
        default: for (size_t i = 0; i < n; i++) r[i] = evalOp(op, w, imm, wa, A ? A[i] : 0, wb, B ? B[i] : 0, wc, C ? C[i] : 0);
    }
#undef LOOP
}
void dropTables() { gTableMemo = {}; gTableMemoBytes = 0; std::vector<TableData>().swap(gTables); }
// Forget the tables (and the terms built on them) that no root reaches. Identifiers are not reused, so memos by identifier stay right.
void collectTables(const std::vector<Expr*>& roots) {
    std::vector<bool> live(gNbExprs, false); std::vector<Expr*> st;
    auto push = [&](Expr* e) { if (e && !live[e->id]) { live[e->id] = true; st.push_back(e); } };
    for (Expr* e : roots) push(e);
    for (auto& v : gVars) push(v.e);
    while (!st.empty()) { Expr* e = st.back(); st.pop_back(); push(e->a); push(e->b); push(e->c); }
    std::vector<bool> keep(gTables.size(), false);
    for (Expr*& b : gBuckets) { Expr** p = &b; while (*p) { Expr* e = *p; if (live[e->id]) { if (e->op == TABLE) keep[e->imm] = true; p = &e->next; } else if (e->op == CONST || e->op == VAR) p = &e->next; else *p = e->next; } }
    gTableMemo = {}; gTableMemoBytes = 0; gDone = {}; gTableDyMemo = {}; gTableBytes = 0;
    for (auto it = gTableIndex.begin(); it != gTableIndex.end();) { auto& l = it->second; l.erase(std::remove_if(l.begin(), l.end(), [&](u32 t) { return !keep[t]; }), l.end()); if (l.empty()) it = gTableIndex.erase(it); else ++it; }
    for (size_t i = 0; i < gTables.size(); i++) if (keep[i]) gTableBytes += gTables[i].raw.size() + 400; else { std::vector<u8>().swap(gTables[i].raw); std::vector<u32>().swap(gTables[i].vars); gTables[i].n = 0; }
}
// references stay valid until trimTableMemo (called by the entry points only) or until a table is created
static const std::vector<u64>& tableOf(Expr* e, Sup* S) {
    u64 key = ((u64)e->id << 24) ^ S->id;
    auto it = gTableMemo.find(key);
    if (it != gTableMemo.end()) return it->second;
    size_t n = (size_t)1 << S->nbits;
    std::vector<u64> r(n);
    if (e->op == CONST) { std::fill(r.begin(), r.end(), e->imm); }
    else if (e->op == VAR) {
        std::vector<u32> vs; supVars(S, vs);
        u32 sh = 0;
        for (u32 v : vs) { if (v == e->imm) break; sh += gVars[v].w; }
        u64 m = maskW(e->w);
        for (size_t i = 0; i < n; i++) r[i] = (i >> sh) & m;
    }
    else if (e->op == TABLE) {
        TableData& t = gTables[e->imm];
        if (t.sup == S) r = t.values(); else {
        std::vector<u32> vs; supVars(S, vs);
        // for each variable of the table find the shift in S
        std::vector<std::pair<u32, u32>> sh; // (shift in S, width)
        for (u32 v : t.vars) { u32 s = 0; for (u32 x : vs) { if (x == v) break; s += gVars[x].w; } sh.push_back({ s, gVars[v].w }); }
        for (size_t i = 0; i < n; i++) {
            u64 idx = 0; u32 o = 0;
            for (auto& p : sh) { idx |= ((i >> p.first) & maskW(p.second)) << o; o += p.second; }
            r[i] = t.at(idx);
        } }
    }
    else {
        const u64 *A = e->a ? tableOf(e->a, S).data() : nullptr, *B = e->b ? tableOf(e->b, S).data() : nullptr, *C = e->c ? tableOf(e->c, S).data() : nullptr;
        applyOp(e->op, e->w, e->imm, e->a ? e->a->w : 0, A, e->b ? e->b->w : 0, B, e->c ? e->c->w : 0, C, r.data(), n);
    }
    gTableMemoBytes += n * 8;
    return gTableMemo[key] = std::move(r);
}
// The conjunction of constraints with a small common support, as one Boolean table (decision diagram for the solver)
Expr* conjTable(const std::vector<Expr*>& cs, u32 limBits) {
    Sup* S = supEmpty();
    for (Expr* e : cs) { if (e->sup->nbits > limBits) return nullptr; S = supUnion(S, e->sup); if (S->nbits > limBits) return nullptr; }
    if (!S->count) return nullptr;
    for (Expr* e : cs) if (e->op != TABLE && !dagDepthBelow(e, 4000)) return nullptr;
    size_t n = (size_t)1 << S->nbits; std::vector<u64> r(n, 1); trimTableMemo();
    static std::unordered_map<u64, std::vector<bool>> memo;
    if (memo.size() > 40000) memo.clear();
    for (Expr* e : cs) {
        u64 key = ((u64)e->id << 24) ^ S->id; auto it = memo.find(key);
        if (it == memo.end()) { const std::vector<u64>& A = tableOf(e, S); it = memo.emplace(key, std::vector<bool>(n)).first; for (size_t i = 0; i < n; i++) it->second[i] = A[i] & 1; }
        const std::vector<bool>& B = it->second; for (size_t i = 0; i < n; i++) if (!B[i]) r[i] = 0;
    }
    return mkTable(S, 1, std::move(r), false);
}
static Expr* mkTable(Sup* S, u32 w, std::vector<u64>&& v, bool fp) {
    // constant?
    bool same = true;
    // only in-domain assignments matter
    static std::unordered_map<u32, std::pair<std::vector<u32>, std::vector<bool>>> doms;
    auto dit = doms.find(S->id);
    if (dit == doms.end()) {
        std::vector<u32> vs; supVars(S, vs); bool full = true; for (u32 x : vs) if (gVars[x].hi != maskW(gVars[x].w)) full = false;
        std::vector<bool> d; if (!full) { d.resize(v.size()); for (size_t i = 0; i < v.size(); i++) { u32 o = 0; bool in = true; for (u32 x : vs) { u32 wv = gVars[x].w; if (((i >> o) & maskW(wv)) > gVars[x].hi) in = false; o += wv; } d[i] = in; } }
        dit = doms.emplace(S->id, std::make_pair(vs, d)).first;
    }
    const std::vector<u32>& vs = dit->second.first; const std::vector<bool>& dom = dit->second.second;
    auto inDom = [&](size_t i) { return dom.empty() || dom[i]; };
    bool first = true; u64 v0 = 0; u64 mn = ~0ull, mx = 0; i64 smn = INT64_MAX, smx = INT64_MIN; double fl = INFINITY, fh = -INFINITY; bool nan = false;
    for (size_t i = 0; i < v.size(); i++) {
        if (!inDom(i)) continue;
        if (first) { v0 = v[i]; first = false; } else if (v[i] != v0) same = false;
        mn = std::min(mn, v[i]); mx = std::max(mx, v[i]);
        i64 s = sxt(v[i], w); smn = std::min(smn, s); smx = std::max(smx, s);
        if (fp) { double d = w == 32 ? (double)f32(v[i]) : f64(v[i]); if (std::isnan(d)) nan = true; else { fl = std::min(fl, d); fh = std::max(fh, d); } }
    }
    if (same) return mkConst(v0, w);
    // out of domain entries: copy a domain value (smaller circuits)
    if (!dom.empty()) for (size_t i = 0; i < v.size(); i++) if (!dom[i]) v[i] = v0;
    // look for an identical table
    auto& index = gTableIndex;
    u64 h = S->id * 1315423911u + w;
    for (u64 x : v) h = (h ^ x) * 0x100000001b3ull + (h >> 31);
    for (u32 t : index[h]) if (gTables[t].sup == S && gTables[t].same(v)) {
        Expr* e = mkNode(TABLE, w, nullptr, nullptr, nullptr, t);
        return e;
    }
    u32 t = (u32)gTables.size();
    gTables.push_back(TableData(S, v, vs, w)); gTableBytes += gTables.back().raw.size() + 400;
    index[h].push_back(t);
    Expr* e = mkNode(TABLE, w, nullptr, nullptr, nullptr, t);
    e->sup = S;
    e->umin = mn; e->umax = mx; e->smin = smn; e->smax = smx;
    if (fp) { e->isFP = true; e->flo = fl; e->fhi = fh; e->fnan = nan; if (fl > fh) { e->flo = -INFINITY; e->fhi = INFINITY; } }
    return e;
}
static bool isFPResult(Op op) { return (op >= FADD && op <= FABS) || op == SITOFP || op == UITOFP || (op >= FPEXT && op <= FUN2) || op == DY; }
static inline bool isT(Expr* e) { return e && e->op == TABLE; }

static bool dyLike(Expr* e);
// Build a node, as a table if that is possible and useful
static Expr* build(Op op, u32 w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u64 imm = 0) {
    bool wantTable = false;
    if (op >= FADD && op <= FUN2) wantTable = true;
    else if (isT(a) || isT(b) || isT(c)) wantTable = true;
    else if (op == ITE && ((b && b->op == DY) || (c && c->op == DY))) wantTable = true;
    if (wantTable && gTableBits) {
        Sup* S = supEmpty();
        if (a) S = supUnion(S, a->sup);
        if (b) S = supUnion(S, b->sup);
        if (c) S = supUnion(S, c->sup);
        bool intOp = !(op >= FADD && op <= FUN2);
        u32 lim = gTableBits;
        if (intOp && !((a && isT(a) && a->sup == S) || (b && isT(b) && b->sup == S) || (c && isT(c) && c->sup == S)) && !((a && a->hasFPTheory) || (b && b->hasFPTheory) || (c && c->hasFPTheory)) && !(op == ITE && ((b->isFP && !dyLike(b)) || (c->isFP && !dyLike(c))))) lim = std::min(lim, gSmallTable);
        if (S->count > 0 && S->nbits <= lim) {
            auto& done = gDone;
            DoneK key{ ((u64)op << 40) | ((u64)w << 32) | (a ? a->id : ~0u), ((u64)(b ? b->id : ~0u) << 32) | (c ? c->id : ~0u), 0, imm };
            auto hit = done.find(key); if (hit != done.end()) return hit->second;
            size_t n = (size_t)1 << S->nbits; trimTableMemo();
            std::vector<u64> r(n);
            const u64 *A = a ? tableOf(a, S).data() : nullptr, *B = b ? tableOf(b, S).data() : nullptr, *C = c ? tableOf(c, S).data() : nullptr;
            applyOp(op, w, imm, a ? a->w : 0, A, b ? b->w : 0, B, c ? c->w : 0, C, r.data(), n);
            bool fp = isFPResult(op) || (op == ITE && ((b->isFP) || (c->isFP)));
            return done[key] = mkTable(S, w, std::move(r), fp);
        }
    }
    return mkNode(op, w, a, b, c, imm);
}

// ------------------------------------------------------------------ integer constructors
static bool isCE(Expr* e) { return e->op == CONST; }

Val mkExtract(u32 ws, Val av, u32 lo, u32 w) {
    if (lo == 0 && w == ws) return av;
    if (av.isC()) return Val((av.c >> lo) & maskW(w));
    Expr* a = av.e;
    switch (a->op) {
        case EXTRACT: return mkExtract(a->a->w, Val(a->a), lo + (u32)a->imm, w);
        case CONCAT:
            if (lo + w <= a->b->w) return mkExtract(a->b->w, fromE(a->b), lo, w);
            if (lo >= a->b->w) return mkExtract(a->a->w, fromE(a->a), lo - a->b->w, w);
            break;
        case ZEXT:
            if (lo + w <= a->a->w) return mkExtract(a->a->w, fromE(a->a), lo, w);
            if (lo >= a->a->w) return Val((u64)0);
            if (lo == 0) return mkZext(a->a->w, fromE(a->a), w);
            break;
        case SEXT:
            if (lo + w <= a->a->w) return mkExtract(a->a->w, fromE(a->a), lo, w);
            if (lo == 0) return mkSext(a->a->w, fromE(a->a), w);
            break;
        case ADD: case SUB: case MUL: case AND: case OR: case XOR:
            if (lo == 0 && (a->a->op == ZEXT || a->a->op == SEXT || isCE(a->a) || isCE(a->b)))
                return mkBin(a->op, w, mkExtract(a->w, fromE(a->a), 0, w), mkExtract(a->w, fromE(a->b), 0, w));
            break;
        case ITE:
            if (isCE(a->b) || isCE(a->c)) return mkIte(w, fromE(a->a), mkExtract(a->w, fromE(a->b), lo, w), mkExtract(a->w, fromE(a->c), lo, w));
            break;
        default: break;
    }
    return fromE(build(EXTRACT, w, a, nullptr, nullptr, lo));
}
Val mkZext(u32 ws, Val a, u32 w) {
    if (w == ws) return a;
    if (a.isC()) return Val(a.c & maskW(ws));
    if (a.e->op == ZEXT) return mkZext(a.e->a->w, Val(a.e->a), w);
    return fromE(build(ZEXT, w, a.e));
}
Val mkSext(u32 ws, Val a, u32 w) {
    if (w == ws) return a;
    if (a.isC()) return Val((u64)sxt(a.c, ws) & maskW(w));
    if (a.e->op == SEXT) return mkSext(a.e->a->w, Val(a.e->a), w);
    if (a.e->smin >= 0) return mkZext(ws, a, w);
    return fromE(build(SEXT, w, a.e));
}
Val mkConcat(u32 wa, Val a, u32 wb, Val b) {
    u32 w = wa + wb;
    if (a.isC() && b.isC()) return Val(((a.c << wb) | b.c) & maskW(w));
    if (a.isC() && a.c == 0) return mkZext(wb, b, w);
    // join adjacent extracts
    if (a.e && b.e) {
        Expr *x = a.e, *y = b.e;
        if (x->op == EXTRACT && y->op == EXTRACT && x->a == y->a && x->imm == y->imm + y->w) return mkExtract(x->a->w, Val(x->a), (u32)y->imm, w);
        if (x->op == EXTRACT && x->a == y && x->imm == y->w) return mkExtract(y->w, Val(y), 0, w);
        if (x->op == CONCAT) {
            // (p.q).y with q,y adjacent
            Expr* q = x->b;
            if (q->op == EXTRACT && y->op == EXTRACT && q->a == y->a && q->imm == y->imm + y->w)
                return mkConcat(x->a->w, fromE(x->a), q->w + wb, mkExtract(q->a->w, Val(q->a), (u32)y->imm, q->w + wb));
        }
        if (y->op == CONCAT) {
            Expr* p = y->a;
            if (x->op == EXTRACT && p->op == EXTRACT && x->a == p->a && x->imm == p->imm + p->w)
                return mkConcat(wa + p->w, mkExtract(p->a->w, Val(p->a), (u32)p->imm, wa + p->w), y->b->w, fromE(y->b));
        }
    }
    return fromE(build(CONCAT, w, toE(a, wa), toE(b, wb)));
}
static bool isPow2(u64 v) { return v && !(v & (v - 1)); }
static u32 trailingZerosOf(Expr* e);
u32 trailingZeros(Expr* e) {
    // Deep selections that share their branches: each expression is looked at once
    static std::vector<u8> memo;            // by expression: 0 not known yet, else result + 1
    switch (e->op) {
        case CONST: case ADD: case SUB: case OR: case AND: case MUL: case SHL: case ZEXT: case SEXT: case ITE: break;
        default: return 0;
    }
    if (e->id >= memo.size()) memo.resize(e->id * 2 + 1024, 0);
    if (memo[e->id]) return memo[e->id] - 1u;
    u32 r = trailingZerosOf(e);
    memo[e->id] = (u8)(r + 1);
    return r;
}
static u32 trailingZerosOf(Expr* e) {
    switch (e->op) {
        case CONST: return e->imm ? __builtin_ctzll(e->imm) : e->w;
        case ADD: case SUB: case OR: return std::min(trailingZeros(e->a), trailingZeros(e->b));
        case AND: return std::max(trailingZeros(e->a), trailingZeros(e->b));
        case MUL: return std::min<u32>(e->w, trailingZeros(e->a) + trailingZeros(e->b));
        case SHL: if (isCE(e->b)) return std::min<u32>(e->w, trailingZeros(e->a) + (u32)e->b->imm); return 0;
        case ZEXT: case SEXT: return trailingZeros(e->a) == e->a->w ? e->w : trailingZeros(e->a);
        case ITE: return std::min(trailingZeros(e->b), trailingZeros(e->c));
        default: return 0;
    }
}

Val mkBin(Op op, u32 w, Val a, Val b) {
    u64 m = maskW(w);
    if (a.isC() && b.isC()) return Val(evalOp(op, w, 0, w, a.c & m, w, b.c & m, 0, 0));
    if (a.isC()) a.c &= m;
    if (b.isC()) b.c &= m;
    // commutative: constant right
    if ((op == ADD || op == MUL || op == AND || op == OR || op == XOR) && a.isC()) std::swap(a, b);
    if ((op == ADD || op == MUL || op == AND || op == OR || op == XOR) && a.e && b.e && a.e->id > b.e->id) std::swap(a, b);
    switch (op) {
        case ADD:
            if (b.isC()) {
                if (b.c == 0) return a;
                if (a.e->op == ADD && isCE(a.e->b)) return mkBin(ADD, w, fromE(a.e->a), Val((a.e->b->imm + b.c) & m));
                if (a.e->op == SUB && isCE(a.e->a)) return mkBin(SUB, w, Val((a.e->a->imm + b.c) & m), fromE(a.e->b));
                if (a.e->op == ITE && isCE(a.e->b) && isCE(a.e->c)) return mkIte(w, fromE(a.e->a), Val((a.e->b->imm + b.c) & m), Val((a.e->c->imm + b.c) & m));
            } else {
                // pull constants out
                if (a.e->op == ADD && isCE(a.e->b)) return mkBin(ADD, w, mkBin(ADD, w, fromE(a.e->a), b), fromE(a.e->b));
                if (b.e->op == ADD && isCE(b.e->b)) return mkBin(ADD, w, mkBin(ADD, w, a, fromE(b.e->a)), fromE(b.e->b));
                if (b.e->op == SUB && b.e->b == a.e) return fromE(b.e->a);
                if (a.e->op == SUB && a.e->b == b.e) return fromE(a.e->a);
            }
            break;
        case SUB:
            if (b.isC()) return mkBin(ADD, w, a, Val((0 - b.c) & m));
            if (a.e && a.e == b.e) return Val((u64)0);
            if (a.e && a.e->op == ADD) {
                if (a.e->a == b.e) return fromE(a.e->b);
                if (a.e->b == b.e) return fromE(a.e->a);
                if (b.e->op == ADD && isCE(a.e->b) && isCE(b.e->b)) return mkBin(ADD, w, mkBin(SUB, w, fromE(a.e->a), fromE(b.e->a)), Val((a.e->b->imm - b.e->b->imm) & m));
                if (isCE(a.e->b)) return mkBin(ADD, w, mkBin(SUB, w, fromE(a.e->a), b), fromE(a.e->b));
            }
            if (b.e->op == ADD && isCE(b.e->b)) {
                if (b.e->a == a.e) return Val((0 - b.e->b->imm) & m);
                return mkBin(ADD, w, mkBin(SUB, w, a, fromE(b.e->a)), Val((0 - b.e->b->imm) & m));
            }
            break;
        case MUL:
            if (b.isC()) {
                if (b.c == 0) return Val((u64)0);
                if (b.c == 1) return a;
                if (isPow2(b.c)) return mkBin(SHL, w, a, Val((u64)__builtin_ctzll(b.c)));
                if (a.e->op == ADD && isCE(a.e->b)) return mkBin(ADD, w, mkBin(MUL, w, fromE(a.e->a), b), Val((a.e->b->imm * b.c) & m));
            }
            break;
        case UDIV:
            if (b.isC() && b.c == 1) return a;
            if (b.isC() && isPow2(b.c)) return mkBin(LSHR, w, a, Val((u64)__builtin_ctzll(b.c)));
            if (b.isC() && b.c && a.e && a.e->umax < b.c) return Val((u64)0);
            break;
        case UREM:
            if (b.isC() && isPow2(b.c)) return mkBin(AND, w, a, Val(b.c - 1));
            if (b.isC() && b.c && a.e && a.e->umax < b.c) return a;
            break;
        case AND:
            if (b.isC()) {
                if (b.c == 0) return Val((u64)0);
                if (b.c == m) return a;
                if (isPow2(b.c + 1) && a.e->umax <= b.c) return a;
                // low mask: keep as zext(extract)
                if (isPow2(b.c + 1)) { u32 k = 64 - __builtin_clzll(b.c); return mkZext(k, mkExtract(w, a, 0, k), w); }
            } else if (a.e == b.e) return a;
            if (w == 1 && a.e && b.e) {
                if (a.e->op == XOR && isCE(a.e->b) && a.e->a == b.e) return Val((u64)0);
                if (b.e->op == XOR && isCE(b.e->b) && b.e->a == a.e) return Val((u64)0);
            }
            break;
        case OR:
            if (b.isC()) { if (b.c == 0) return a; if (b.c == m) return b; }
            else if (a.e == b.e) return a;
            // disjoint concat pattern:  zext(x) | (zext(y) << k)
            if (a.e && b.e) {
                Expr *x = a.e, *y = b.e;
                if (y->op == SHL) std::swap(x, y);
                if (x->op == SHL && isCE(x->b) && y->umax <= maskW((u32)x->b->imm) && x->b->imm < w) {
                    u32 k = (u32)x->b->imm;
                    return mkConcat(w - k, mkExtract(w, fromE(x->a), 0, w - k), k, mkExtract(w, Val(y), 0, k));
                }
            }
            break;
        case XOR:
            if (b.isC()) {
                if (b.c == 0) return a;
                if (w == 1) {
                    Expr* x = a.e;
                    if (x->op == XOR && isCE(x->b)) return fromE(x->a);
                    if (x->op == ULT) return mkCmp(ULE, x->a->w, fromE(x->b), fromE(x->a));
                    if (x->op == ULE) return mkCmp(ULT, x->a->w, fromE(x->b), fromE(x->a));
                    if (x->op == SLT) return mkCmp(SLE, x->a->w, fromE(x->b), fromE(x->a));
                    if (x->op == SLE) return mkCmp(SLT, x->a->w, fromE(x->b), fromE(x->a));
                }
            } else if (a.e == b.e) return Val((u64)0);
            break;
        case SHL:
            if (b.isC()) {
                if (b.c == 0) return a;
                if (b.c >= w) return Val((u64)0);
                if (a.e->op == SHL && isCE(a.e->b)) return mkBin(SHL, w, fromE(a.e->a), Val(a.e->b->imm + b.c));
                if (a.e->op == ADD && isCE(a.e->b)) return mkBin(ADD, w, mkBin(SHL, w, fromE(a.e->a), b), Val((a.e->b->imm << b.c) & m));
            } else if (a.isC() && a.c == 0) return a;
            break;
        case LSHR:
            if (b.isC()) {
                if (b.c == 0) return a;
                if (b.c >= w) return Val((u64)0);
                return mkZext(w - (u32)b.c, mkExtract(w, a, (u32)b.c, w - (u32)b.c), w);
            } else if (a.isC() && a.c == 0) return a;
            break;
        case ASHR:
            if (b.isC()) {
                if (b.c == 0) return a;
                if (a.e->smin >= 0) return mkBin(LSHR, w, a, b.c >= w ? Val((u64)(w - 1)) : b);
                if (b.c >= w) b.c = w - 1;
                return mkSext(w - (u32)b.c, mkExtract(w, a, (u32)b.c, w - (u32)b.c), w);
            }
            break;
        case SDIV:
            if (b.isC() && b.c == 1) return a;
            if (b.isC() && a.e->smin >= 0 && sxt(b.c, w) > 0) return mkBin(UDIV, w, a, b);
            break;
        case SREM:
            if (b.isC() && a.e->smin >= 0 && sxt(b.c, w) > 0) return mkBin(UREM, w, a, b);
            break;
        default: break;
    }
    return fromE(build(op, w, toE(a, w), toE(b, w)));
}
Val mkNot1(Val a) { return mkBin(XOR, 1, a, Val((u64)1)); }
Val mkAnd1(Val a, Val b) { return mkBin(AND, 1, a, b); }
Val mkOr1(Val a, Val b) { return mkBin(OR, 1, a, b); }

Val mkCmp(Op op, u32 w, Val a, Val b) {
    u64 m = maskW(w);
    if (a.isC()) a.c &= m;
    if (b.isC()) b.c &= m;
    if (a.isC() && b.isC()) return Val(evalOp(op, 1, 0, w, a.c, w, b.c, 0, 0));
    if (a.e && a.e == b.e) return Val((u64)(op == EQ || op == ULE || op == SLE));
    Expr *x = toE(a, w), *y = toE(b, w);
    switch (op) {
        case EQ:
            if (x->umax < y->umin || y->umax < x->umin || x->smax < y->smin || y->smax < x->smin) return Val((u64)0);
            if (isCE(x)) std::swap(x, y);
            if (w == 1 && isCE(y)) return y->imm ? fromE(x) : mkNot1(fromE(x));
            if (isCE(y)) {
                if (x->op == ADD && isCE(x->b)) return mkCmp(EQ, w, fromE(x->a), Val((y->imm - x->b->imm) & m));
                if (x->op == ZEXT) { if (y->imm > maskW(x->a->w)) return Val((u64)0); return mkCmp(EQ, x->a->w, fromE(x->a), Val(y->imm)); }
                if (x->op == SEXT) { u64 lo = y->imm & maskW(x->a->w); if (((u64)sxt(lo, x->a->w) & m) != y->imm) return Val((u64)0); return mkCmp(EQ, x->a->w, fromE(x->a), Val(lo)); }
                if (x->op == ITE && isCE(x->b) && isCE(x->c)) {
                    bool e1 = x->b->imm == y->imm, e2 = x->c->imm == y->imm;
                    if (e1 && e2) return Val((u64)1); if (!e1 && !e2) return Val((u64)0);
                    return e1 ? fromE(x->a) : mkNot1(fromE(x->a));
                }
                if (x->op == ITE && (isCE(x->b) || isCE(x->c))) {
                    Val e1 = mkCmp(EQ, w, fromE(x->b), Val(y->imm)), e2 = mkCmp(EQ, w, fromE(x->c), Val(y->imm));
                    return mkIte(1, fromE(x->a), e1, e2);
                }
                if (x->op == SHL && isCE(x->b) && (y->imm & maskW((u32)x->b->imm))) return Val((u64)0);
                if (x->op == CONCAT && isCE(x->b)) { if ((y->imm & maskW(x->b->w)) != x->b->imm) return Val((u64)0); return mkCmp(EQ, x->a->w, fromE(x->a), Val(y->imm >> x->b->w)); }
            } else {
                if (x->id > y->id) std::swap(x, y);
                if (x->op == ADD && y->op == ADD && x->b == y->b) return mkCmp(EQ, w, fromE(x->a), fromE(y->a));
                if (x->op == ADD && y->op == ADD && isCE(x->b) && isCE(y->b)) return mkCmp(EQ, w, mkBin(ADD, w, fromE(x->a), Val((x->b->imm - y->b->imm) & m)), fromE(y->a));
                if ((x->op == ZEXT && y->op == ZEXT || x->op == SEXT && y->op == SEXT) && x->a->w == y->a->w) return mkCmp(EQ, x->a->w, fromE(x->a), fromE(y->a));
            }
            return fromE(build(EQ, 1, x, y));
        case ULT:
            if (x->umax < y->umin) return Val((u64)1);
            if (x->umin >= y->umax) return Val((u64)0);
            if (isCE(y) && y->imm == 1) return mkCmp(EQ, w, fromE(x), Val((u64)0));
            if (x->op == ZEXT && y->op == ZEXT && x->a->w == y->a->w) return mkCmp(ULT, x->a->w, fromE(x->a), fromE(y->a));
            if (x->op == ZEXT && isCE(y)) return mkCmp(ULT, x->a->w, fromE(x->a), Val(y->imm));
            if (y->op == ZEXT && isCE(x)) return mkCmp(ULT, y->a->w, Val(x->imm), fromE(y->a));
            break;
        case ULE:
            if (x->umax <= y->umin) return Val((u64)1);
            if (x->umin > y->umax) return Val((u64)0);
            if (isCE(y)) return mkCmp(ULT, w, fromE(x), Val(y->imm + 1));   // y < umax(x) <= mask here
            if (isCE(x)) return mkCmp(ULT, w, Val(x->imm - 1), fromE(y));
            if (x->op == ZEXT && y->op == ZEXT && x->a->w == y->a->w) return mkCmp(ULE, x->a->w, fromE(x->a), fromE(y->a));
            break;
        case SLT:
            if (x->smax < y->smin) return Val((u64)1);
            if (x->smin >= y->smax) return Val((u64)0);
            if (x->smin >= 0 && y->smin >= 0) return mkCmp(ULT, w, fromE(x), fromE(y));
            if (x->op == SEXT && y->op == SEXT && x->a->w == y->a->w) return mkCmp(SLT, x->a->w, fromE(x->a), fromE(y->a));
            if (x->op == SEXT && isCE(y)) return mkCmp(SLT, x->a->w, fromE(x->a), Val(y->imm & maskW(x->a->w)));
            if (y->op == SEXT && isCE(x)) return mkCmp(SLT, y->a->w, Val(x->imm & maskW(y->a->w)), fromE(y->a));
            break;
        case SLE:
            if (x->smax <= y->smin) return Val((u64)1);
            if (x->smin > y->smax) return Val((u64)0);
            if (x->smin >= 0 && y->smin >= 0) return mkCmp(ULE, w, fromE(x), fromE(y));
            if (isCE(y)) return mkCmp(SLT, w, fromE(x), Val((y->imm + 1) & m));
            if (isCE(x)) return mkCmp(SLT, w, Val((x->imm - 1) & m), fromE(y));
            if (x->op == SEXT && y->op == SEXT && x->a->w == y->a->w) return mkCmp(SLE, x->a->w, fromE(x->a), fromE(y->a));
            break;
        default: break;
    }
    return fromE(build(op, 1, x, y));
}

// ------------------------------------------------------------------ dyadic view of floats
struct DyV { Expr* n; i64 c; i64 lo, hi; int s; bool cst; };
static const i64 DYMAX = (i64)1 << 60;
static u32 sbits(i64 lo, i64 hi) { u32 w = 1; while (w < 64 && (lo < -((i64)1 << (w - 1)) || hi > (((i64)1 << (w - 1)) - 1))) w++; return w; }
// a float table whose values are all multiples of a common power of two: integer table * 2^s
static bool tableDy(Expr* e, u32 w, DyV& d) {
    auto& memo = gTableDyMemo;
    auto it = memo.find(e->id);
    if (it == memo.end()) {
        TableDyR r; r.ok = true; r.n = nullptr; r.c = 0; r.cst = false; r.s = 0;
        const TableData& t = gTables[e->imm]; const std::vector<u64> tv = t.values();
        int smin = 10000, emax = -10000;
        for (u64 b : tv) {
            double x = fval(b, w);
            if (!std::isfinite(x)) { r.ok = false; break; }
            if (x == 0) continue;
            int ex; double mant = std::frexp(x, &ex);
            i64 n = (i64)std::ldexp(mant, 53); int s = ex - 53;
            s += __builtin_ctzll((u64)n);
            smin = std::min(smin, s); emax = std::max(emax, ex);
        }
        if (r.ok && (smin == 10000 || emax - smin > 58 || smin < -100 || emax > 60)) r.ok = false;
        if (r.ok) {
            std::vector<u64> q; i64 lo = 0, hi = 0;
            for (u64 b : tv) { i64 n = (i64)std::ldexp(fval(b, w), -smin); q.push_back((u64)n); lo = std::min(lo, n); hi = std::max(hi, n); }
            u32 iw = sbits(lo, hi);
            for (u64& x : q) x &= maskW(iw);
            Sup* S = t.sup;
            Expr* n = mkTable(S, iw, std::move(q), false);
            r.s = smin;
            if (n->op == CONST) { r.cst = true; r.c = (u64)sxt(n->imm, iw); } else r.n = n;
        }
        it = memo.emplace(e->id, r).first;
    }
    const TableDyR& r = it->second;
    if (!r.ok) return false;
    d.s = r.s;
    if (r.cst) { d.cst = true; d.n = nullptr; d.c = d.lo = d.hi = (i64)r.c; return true; }
    d.cst = false; d.n = r.n; d.lo = r.n->smin; d.hi = r.n->smax; d.c = 0;
    return true;
}
static bool fitsTable(const Val& a, const Val& b) {
    Sup* S = supEmpty();
    if (a.e) S = supUnion(S, a.e->sup);
    if (b.e) S = supUnion(S, b.e->sup);
    return gTableBits && S->nbits <= gTableBits;
}
static bool asDy(const Val& v, u32 w, DyV& d) {
    if (!gUseDyadic) return false;
    if (v.isC()) {
        double x = fval(v.c, w);
        if (!std::isfinite(x)) return false;
        d.cst = true; d.n = nullptr;
        if (x == 0) { if (std::signbit(x)) { /* -0 treated as 0 */ } d.c = d.lo = d.hi = 0; d.s = 0; return true; }
        int ex; double mant = std::frexp(x, &ex);
        i64 n = (i64)std::ldexp(mant, 53); int s = ex - 53;
        while (!(n & 1)) { n >>= 1; s++; }
        d.c = d.lo = d.hi = n; d.s = s;
        return true;
    }
    if (v.e->op == TABLE) return tableDy(v.e, w, d);
    if (v.e->op == DY) { d.cst = false; d.n = v.e->a; d.lo = v.e->a->smin; d.hi = v.e->a->smax; d.s = (int)(i64)v.e->imm; d.c = 0; return true; }
    return false;
}
static bool dyLike(Expr* e) { DyV d; if (e->op == CONST || e->op == DY) return true; return e->op == TABLE && (e->w == 32 || e->w == 64) && asDy(Val(e), e->w, d); }
// is a table the better representation of an operation on a and b (rather than exact dyadic arithmetic)?
static bool prefersTable(const Val& a, const Val& b, u32 w) {
    if (!fitsTable(a, b)) return false;
    Sup* S = supEmpty();
    if (a.e) S = supUnion(S, a.e->sup);
    if (b.e) S = supUnion(S, b.e->sup);
    if (S->nbits <= gSmallTable) return true;
    if (S->nbits <= gMidTable && ((a.e && a.e->op == TABLE && a.e->sup->nbits > gSmallTable) || (b.e && b.e->op == TABLE && b.e->sup->nbits > gSmallTable))) return true;
    DyV x, y;
    return !(asDy(a, w, x) && asDy(b, w, y));
}
// integer n (exact) of value interval [lo,hi], resized to signed width w
static Val fitS(Val n, u32 cw, u32 w) {
    if (n.isC()) return Val((u64)sxt(n.c, cw) & maskW(w));
    if (n.e->w < w) return mkSext(n.e->w, n, w);
    if (n.e->w > w) return mkExtract(n.e->w, n, 0, w);
    return n;
}
struct SI { Val v; u32 w; i64 lo, hi; };
static SI siConst(i64 c) { SI r; r.w = sbits(c, c); r.v = Val((u64)c & maskW(r.w)); r.lo = r.hi = c; return r; }
static SI siExpr(Expr* e) { SI r; r.v = fromE(e); r.w = e->w; r.lo = e->smin; r.hi = e->smax; return r; }
static SI siOf(const DyV& d) { return d.cst ? siConst(d.c) : siExpr(d.n); }
static void siNorm(SI& r) {
    if (r.v.isC()) { i64 c = sxt(r.v.c, r.w); r = siConst(c); return; }
    r.lo = std::max(r.lo, r.v.e->smin); r.hi = std::min(r.hi, r.v.e->smax);
    u32 w = sbits(r.lo, r.hi);
    if (w < r.w) { r.v = fitS(r.v, r.w, w); r.w = w; }
}
static bool siShl(SI a, int k, SI& r) {
    if (k == 0) { r = a; return true; }
    if (k > 60) { if (a.lo == 0 && a.hi == 0) { r = a; return true; } return false; }
    __int128 lo = (__int128)a.lo << k, hi = (__int128)a.hi << k;
    if (lo < -DYMAX || hi > DYMAX) return false;
    u32 w = sbits((i64)lo, (i64)hi);
    if (w < (u32)k + 1) w = k + 1;
    r.w = w; r.lo = (i64)lo; r.hi = (i64)hi;
    r.v = mkBin(SHL, w, fitS(a.v, a.w, w), Val((u64)k));
    siNorm(r);
    return true;
}
static bool siAdd(SI a, SI b, bool sub, SI& r) {
    __int128 lo = sub ? (__int128)a.lo - b.hi : (__int128)a.lo + b.lo, hi = sub ? (__int128)a.hi - b.lo : (__int128)a.hi + b.hi;
    if (lo < -DYMAX || hi > DYMAX) return false;
    u32 w = std::max(std::max(a.w, b.w), sbits((i64)lo, (i64)hi));
    r.w = w; r.lo = (i64)lo; r.hi = (i64)hi;
    r.v = mkBin(sub ? SUB : ADD, w, fitS(a.v, a.w, w), fitS(b.v, b.w, w));
    siNorm(r);
    return true;
}
static bool siMul(SI a, SI b, SI& r) {
    __int128 p[4] = { (__int128)a.lo * b.lo, (__int128)a.lo * b.hi, (__int128)a.hi * b.lo, (__int128)a.hi * b.hi };
    __int128 lo = p[0], hi = p[0];
    for (int i = 1; i < 4; i++) { if (p[i] < lo) lo = p[i]; if (p[i] > hi) hi = p[i]; }
    bool same = a.v.e && a.v.e == b.v.e;
    if (same && lo < 0) lo = 0;
    if (lo < -DYMAX || hi > DYMAX) return false;
    u32 w = std::max(std::max(a.w, b.w), sbits((i64)lo, (i64)hi));
    r.w = w; r.lo = (i64)lo; r.hi = (i64)hi;
    r.v = mkBin(MUL, w, fitS(a.v, a.w, w), fitS(b.v, b.w, w));
    siNorm(r);
    return true;
}
static bool mkDyFrom(u32 w, SI n, int s, Val& out) {
    int p = w == 32 ? 24 : 53;
    if (s < -100 || s > 60) { if (!(n.lo == 0 && n.hi == 0)) return false; }
    if (n.v.isC()) { i64 c = sxt(n.v.c, n.w); 
        out = Val(w == 32 ? b32((float)std::ldexp((double)0 + (p == 24 ? (double)(float)c : (double)c), s)) : b64(std::ldexp((double)c, s))); return true; }
    i64 lim = (i64)1 << p;
    if (n.lo < -lim || n.hi > lim) {
        // explicit rounding to p significant bits
        Sup* S = n.v.e->sup;
        if (S->count > 0 && S->nbits <= std::min(gMidTable, gTableBits)) {
            const std::vector<u64>& A = tableOf(n.v.e, S);
            std::vector<u64> r(A.size());
            for (size_t i = 0; i < A.size(); i++) { i64 c = sxt(A[i], n.v.e->w); r[i] = w == 32 ? b32((float)std::ldexp((double)(float)c, s)) : b64(std::ldexp((double)c, s)); }
            out = fromE(mkTable(S, w, std::move(r), true));
            return true;
        }
        i64 rl = p == 24 ? (i64)(float)n.lo : (i64)(double)n.lo, rh = p == 24 ? (i64)(float)n.hi : (i64)(double)n.hi;
        u32 nw = std::max(n.w, sbits(rl, rh));
        Val x = fitS(n.v, n.w, nw);
        Expr* e = build(RND, nw, toE(x, nw), nullptr, nullptr, (u64)p);
        n.v = fromE(e); n.w = nw; n.lo = rl; n.hi = rh;
        if (n.v.isC()) return mkDyFrom(w, n, s, out);
    }
    // strip common trailing zeros
    u32 tz = trailingZeros(n.v.e);
    if (tz > 0 && tz < n.w && s < 0) {
        u32 k = std::min<u32>(tz, (u32)(-s));
        n.v = mkExtract(n.w, n.v, k, n.w - k); n.w -= k; s += (int)k;
        if (n.v.isC()) return mkDyFrom(w, n, s, out);
    }
    if (isT(n.v.e)) { out = fromE(build(DY, w, n.v.e, nullptr, nullptr, (u64)(i64)s)); return true; }
    Expr* e = mkNode(DY, w, n.v.e, nullptr, nullptr, (u64)(i64)s);
    out = Val(e);
    return true;
}
static bool dyAlign(const DyV& a, const DyV& b, SI& x, SI& y, int& s) {
    bool az = a.cst && a.c == 0, bz = b.cst && b.c == 0;
    s = az ? b.s : bz ? a.s : std::min(a.s, b.s);
    x = siOf(a); y = siOf(b);
    if (!az && !siShl(x, a.s - s, x)) return false;
    if (!bz && !siShl(y, b.s - s, y)) return false;
    return true;
}
static bool isSym(const Val& v) { return !v.isC(); }

// Selections between few values of which some are infinite or NaN (e.g. the distance to a slab along a direction
// of zero) have no dyadic view: operations on them are moved into the branches, where they fold.
static bool tableSpecial(Expr* e, u32 w) {
    static std::unordered_map<u32, bool> memo;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    bool r = false;
    for (u64 x : gTables[e->imm].values()) if (!std::isfinite(fval(x, w))) { r = true; break; }
    return memo[e->id] = r;
}
static bool liftable(Expr* e, u32 w, int& budget, bool& special) {
    if (--budget < 0) return false;
    if (e->op == CONST) { if (!std::isfinite(fval(e->imm, w))) special = true; return true; }
    if (e->op == DY) return true;
    if (e->op == TABLE) { if (tableSpecial(e, w)) special = true; return true; }
    if (e->op == ITE) return liftable(e->b, w, budget, special) && liftable(e->c, w, budget, special);
    return false;
}
static bool canLift(const Val& v, u32 w, int budget) {
    if (!gUseDyadic || v.isC() || (v.e->op != ITE && v.e->op != TABLE)) return false;
    bool special = false;
    return liftable(v.e, w, budget, special) && special;
}
static void splitLift(const Val& v, u32 w, Val& cond, Val& x, Val& y) {
    if (v.e->op == ITE) { cond = fromE(v.e->a); x = fromE(v.e->b); y = fromE(v.e->c); return; }
    std::vector<u64> d = gTables[v.e->imm].values(); Sup* S = gTables[v.e->imm].sup;
    u64 bad = 0, fin = 0; bool hasBad = false;
    for (u64 t : d) { if (!std::isfinite(fval(t, w))) { if (!hasBad) { bad = t; hasBad = true; } } }
    bool any = false;
    for (u64 t : d) if (std::isfinite(fval(t, w))) { fin = t; any = true; break; }
    if (!any) for (u64 t : d) if (t != bad) { fin = t; break; }
    cond = mkCmp(EQ, w, v, Val(bad)); x = Val(bad);
    for (u64& t : d) if (t == bad) t = fin;
    y = fromE(mkTable(S, w, std::move(d), true));
}
static u64 fInf(u32 w, bool neg) { return w == 32 ? (neg ? 0xff800000ull : 0x7f800000ull) : (neg ? 0xfff0000000000000ull : 0x7ff0000000000000ull); }
static u64 fNaN(u32 w) { return w == 32 ? 0x7fc00000ull : 0x7ff8000000000000ull; }

// canonical form of a value that may be infinite or NaN: ite(nan, NaN, ite(pinf, +inf, ite(ninf, -inf, dyadic)))
struct Spec { Val nan, pinf, ninf, dy; bool hasDy; };
static bool toSpec(const Val& v, u32 w, Spec& r) {
    r.nan = r.pinf = r.ninf = Val((u64)0); r.hasDy = true;
    if (v.isC()) {
        double x = fval(v.c, w);
        if (std::isfinite(x)) { r.dy = v; return true; }
        r.hasDy = false; (std::isnan(x) ? r.nan : x > 0 ? r.pinf : r.ninf) = Val((u64)1); return true;
    }
    if (v.e->op == DY) { r.dy = v; return true; }
    if (v.e->op == TABLE) {
        Sup* S = gTables[v.e->imm].sup; std::vector<u64> d = gTables[v.e->imm].values(), n(d.size()), p(d.size()), m(d.size());
        u64 fin = 0; bool any = false;
        for (size_t i = 0; i < d.size(); i++) { double x = fval(d[i], w); n[i] = std::isnan(x); p[i] = std::isinf(x) && x > 0; m[i] = std::isinf(x) && x < 0; if (std::isfinite(x) && !any) { any = true; fin = d[i]; } }
        for (size_t i = 0; i < d.size(); i++) if (!std::isfinite(fval(d[i], w))) d[i] = fin;
        r.nan = fromE(mkTable(S, 1, std::move(n), false)); r.pinf = fromE(mkTable(S, 1, std::move(p), false)); r.ninf = fromE(mkTable(S, 1, std::move(m), false));
        r.hasDy = any; if (any) r.dy = fromE(mkTable(S, w, std::move(d), true));
        return true;
    }
    if (v.e->op == ITE) {
        Spec x, y;
        if (!(v.e->b->op == CONST && !std::isfinite(fval(v.e->b->imm, w)))) return false;
        if (!toSpec(fromE(v.e->b), w, x) || !toSpec(fromE(v.e->c), w, y)) return false;
        Val k = fromE(v.e->a);
        r.nan = mkIte(1, k, x.nan, y.nan); r.pinf = mkIte(1, k, x.pinf, y.pinf); r.ninf = mkIte(1, k, x.ninf, y.ninf);
        r.hasDy = y.hasDy; r.dy = y.dy; return true;
    }
    return false;
}
Val mkIte(u32 w, Val c, Val a, Val b) {
    if (c.isC()) return (c.c & 1) ? a : b;
    if (a.isC() && b.isC() && a.c == b.c) return a;
    if (a.e && a.e == b.e) return a;
    if (w == 1) {
        if (a.isC() && b.isC()) return a.c ? c : mkNot1(c);
        if (a.isC()) return a.c ? mkOr1(c, b) : mkAnd1(mkNot1(c), b);
        if (b.isC()) return b.c ? mkOr1(mkNot1(c), a) : mkAnd1(c, a);
    }
    if (c.e->op == XOR && isCE(c.e->b) && c.e->w == 1) return mkIte(w, fromE(c.e->a), b, a);
    // float select of dyadic values
    if ((w == 32 || w == 64) && ((a.e && (a.e->op == DY || (a.e->op == TABLE && a.e->isFP))) || (b.e && (b.e->op == DY || (b.e->op == TABLE && b.e->isFP)))) && !(prefersTable(a, b, w) && fitsTable(c, a) && fitsTable(c, b))) {
        DyV x, y; SI p, q; int s;
        bool okc = true;
        if (a.isC()) okc = std::isfinite(fval(a.c, w)) ; if (b.isC()) okc = okc && std::isfinite(fval(b.c, w));
        if (okc && asDy(a, w, x) && asDy(b, w, y) && dyAlign(x, y, p, q, s)) {
            u32 nw = std::max(p.w, q.w);
            SI r; r.w = nw; r.lo = std::min(p.lo, q.lo); r.hi = std::max(p.hi, q.hi);
            r.v = mkIte(nw, c, fitS(p.v, p.w, nw), fitS(q.v, q.w, nw));
            Val out;
            // values are exactly representable already: no rounding needed
            if (r.v.isC()) { if (mkDyFrom(w, r, s, out)) return out; }
            else { if (isT(r.v.e)) return fromE(build(DY, w, r.v.e, nullptr, nullptr, (u64)(i64)s)); return Val(mkNode(DY, w, r.v.e, nullptr, nullptr, (u64)(i64)s)); }
        }
    }
    if (gUseDyadic && (w == 32 || w == 64) && !(prefersTable(a, b, w) && fitsTable(c, a) && fitsTable(c, b)) && (canLift(a, w, 12) || canLift(b, w, 12) || (a.isC() && !std::isfinite(fval(a.c, w))) || (b.isC() && !std::isfinite(fval(b.c, w))))) {
        bool plain = a.isC() && !std::isfinite(fval(a.c, w)) && !b.isC() && (b.e->op == DY || (b.e->op == ITE && (fval(b.e->b->imm, w) != fval(a.c, w))));
        bool fpa = (a.e && a.e->isFP) || (b.e && b.e->isFP);
        Spec x, y;
        if (!plain && fpa && toSpec(a, w, x) && toSpec(b, w, y)) {
            Val n = mkIte(1, c, x.nan, y.nan), p = mkIte(1, c, x.pinf, y.pinf), m = mkIte(1, c, x.ninf, y.ninf);
            Val d = x.hasDy && y.hasDy ? mkIte(w, c, x.dy, y.dy) : x.hasDy ? x.dy : y.hasDy ? y.dy : Val(fNaN(w));
            if (d.isC() || d.e->op == DY || d.e->op == TABLE) {
                auto mk = [&](Val k, u64 v, Val o) { if (k.isC()) return k.c ? Val(v) : o; return fromE(mkNode(ITE, w, k.e, mkConst(v, w), toE(o, w), 0)); };
                return mk(n, fNaN(w), mk(p, fInf(w, false), mk(m, fInf(w, true), d)));
            }
        }
    }
    return fromE(build(ITE, w, c.e, toE(a, w), toE(b, w)));
}

Val mkFBin(Op op, u32 w, Val a, Val b) {
    if (a.isC() && b.isC()) return Val(evalOp(op, w, 0, w, a.c, w, b.c, 0, 0));
    if (gUseDyadic && (w == 32 || w == 64)) {
        if (canLift(a, w, 12) && !fitsTable(a, b)) { Val k, x_, y_; splitLift(a, w, k, x_, y_); return mkIte(w, k, mkFBin(op, w, x_, b), mkFBin(op, w, y_, b)); }
        if (canLift(b, w, 12) && !fitsTable(a, b)) { Val k, x_, y_; splitLift(b, w, k, x_, y_); return mkIte(w, k, mkFBin(op, w, a, x_), mkFBin(op, w, a, y_)); }
        // a finite number combined with an infinity
        Val inf = a.isC() ? a : b, oth = a.isC() ? b : a;
        DyV d;
        if (inf.isC() && std::isinf(fval(inf.c, w)) && asDy(oth, w, d) && !d.cst) {
            bool neg = std::signbit(fval(inf.c, w));
            if (op == FADD) return inf;
            if (op == FSUB) return a.isC() ? inf : Val(fInf(w, !neg));
            if (op == FDIV && !a.isC()) return Val((u64)0);
            if (op == FMUL) return mkIte(w, mkCmp(EQ, d.n->w, fromE(d.n), Val((u64)0)), Val(fNaN(w)), mkIte(w, mkCmp(SLT, d.n->w, fromE(d.n), Val((u64)0)), Val(fInf(w, !neg)), Val(fInf(w, neg))));
        }
        if (inf.isC() && std::isnan(fval(inf.c, w))) return Val(fNaN(w));
    }
    if (((isSym(a) && isT(a.e)) || (isSym(b) && isT(b.e))) && (op == FADD || op == FSUB ? prefersTable(a, b, w) : fitsTable(a, b))) {
        // 0 * x etc. are handled by the table itself
        Expr* r = build(op, w, toE(a, w), toE(b, w));
        return fromE(r);
    }
    DyV x, y; SI p, q, r; int s; Val out;
    if (asDy(a, w, x) && asDy(b, w, y)) {
        if (op == FADD || op == FSUB) {
            if (dyAlign(x, y, p, q, s) && siAdd(p, q, op == FSUB, r) && mkDyFrom(w, r, s, out)) return out;
        } else if (op == FMUL) {
            if (siMul(siOf(x), siOf(y), r) && mkDyFrom(w, r, x.s + y.s, out)) return out;
        } else if (op == FDIV) {
            if (y.cst && (y.c == 1 || y.c == -1)) {
                r = siOf(x);
                if (y.c == -1) siAdd(siConst(0), r, true, r);
                if (mkDyFrom(w, r, x.s - y.s, out)) return out;
            }
            if (x.cst && x.c == 0 && (y.lo > 0 || y.hi < 0)) return Val((u64)0);
        }
    }
    // identities that are exact for all values
    if (op == FMUL && b.isC() && fval(b.c, w) == 1.0) return a;
    if (op == FMUL && a.isC() && fval(a.c, w) == 1.0) return b;
    if (op == FDIV && b.isC() && fval(b.c, w) == 1.0) return a;
    if (op == FSUB && b.isC() && b.c == 0) return a;
    if (op == FADD && b.isC() && fval(b.c, w) == 0 && std::signbit(fval(b.c, w))) return a;
    if (op == FADD && a.isC() && fval(a.c, w) == 0 && std::signbit(fval(a.c, w))) return b;
    // x + 0, 0 * x for finite non-NaN values (sign of zero is not tracked, see DESIGN)
    if (gUseDyadic) {
        if (op == FADD && b.isC() && fval(b.c, w) == 0) return a;
        if (op == FADD && a.isC() && fval(a.c, w) == 0) return b;
        if (op == FMUL) {
            Val z = a.isC() && fval(a.c, w) == 0 ? b : (b.isC() && fval(b.c, w) == 0 ? a : Val());
            if (z.e && z.e->isFP && !z.e->fnan && std::isfinite(z.e->flo) && std::isfinite(z.e->fhi)) return Val((u64)0);
        }
        if (op == FSUB && a.isC() && fval(a.c, w) == 0) return mkFUn(FNEG, w, b);
    }
    Expr *ea = toE(a, w), *eb = toE(b, w);
    if ((op == FADD || op == FMUL) && ea->id > eb->id) std::swap(ea, eb);
    return fromE(build(op, w, ea, eb));
}
Val mkFUn(Op op, u32 w, Val a) {
    if (a.isC()) return Val(evalOp(op, w, 0, w, a.c, 0, 0, 0, 0));
    if (!isT(a.e) && canLift(a, w, 12)) { Val k, x_, y_; splitLift(a, w, k, x_, y_); return mkIte(w, k, mkFUn(op, w, x_), mkFUn(op, w, y_)); }
    if (isT(a.e)) return fromE(build(op, w, a.e));
    DyV x; Val out; SI r;
    if (op == FNEG && a.e->op == FNEG) return fromE(a.e->a);
    if (op == FABS && (a.e->op == FABS)) return a;
    if (op == FABS && a.e->op == FNEG) return mkFUn(FABS, w, fromE(a.e->a));
    if (asDy(a, w, x)) {
        SI n = siOf(x);
        if (op == FNEG) { if (siAdd(siConst(0), n, true, r) && mkDyFrom(w, r, x.s, out)) return out; }
        else if (op == FABS) {
            if (n.lo >= 0) return a;
            if (siAdd(siConst(0), n, true, r)) {
                u32 nw = std::max(n.w, r.w);
                SI q; q.w = nw; q.lo = 0; q.hi = std::max(-n.lo, n.hi);
                Val neg = mkCmp(SLT, n.w, n.v, Val((u64)0));
                q.v = mkIte(nw, neg, fitS(r.v, r.w, nw), fitS(n.v, n.w, nw));
                // ite interval cannot see correlation; mask sign by widening: keep nw, interval [min,..]
                if (mkDyFrom(w, q, x.s, out)) return out;
            }
        }
        else if (op == FFLOOR || op == FCEIL || op == FTRUNCI) {
            if (x.s >= 0) return a;
            u64 k = (u64)(-x.s);
            if (k > 60) k = 60;
            auto fl = [&](SI v) { SI z; z.w = v.w; z.v = mkBin(ASHR, v.w, v.v, Val(k >= v.w ? (u64)(v.w - 1) : k)); z.lo = v.lo >> k; z.hi = v.hi >> k; siNorm(z); return z; };
            SI f, c, t;
            f = fl(n);
            bool ok = siAdd(siConst(0), n, true, c);
            if (ok) { c = fl(c); ok = siAdd(siConst(0), c, true, c); }
            if (ok) {
                if (op == FFLOOR) t = f;
                else if (op == FCEIL) t = c;
                else {
                    u32 nw = std::max(f.w, c.w);
                    t.w = nw; t.lo = std::min(f.lo, c.lo); t.hi = std::max(f.hi, c.hi);
                    t.v = mkIte(nw, mkCmp(SLT, n.w, n.v, Val((u64)0)), fitS(c.v, c.w, nw), fitS(f.v, f.w, nw));
                }
                if (mkDyFrom(w, t, 0, out)) return out;
            }
        }
    }
    return fromE(build(op, w, a.e));
}
Val mkFCmp(Op op, u32 w, Val a, Val b) {
    if (a.isC() && b.isC()) return Val(evalOp(op, 1, 0, w, a.c, w, b.c, 0, 0));
    if (canLift(a, w, 12) && !fitsTable(a, b)) { Val k, x_, y_; splitLift(a, w, k, x_, y_); return mkIte(1, k, mkFCmp(op, w, x_, b), mkFCmp(op, w, y_, b)); }
    if (canLift(b, w, 12) && !fitsTable(a, b)) { Val k, x_, y_; splitLift(b, w, k, x_, y_); return mkIte(1, k, mkFCmp(op, w, a, x_), mkFCmp(op, w, a, y_)); }
    Expr *ea = toE(a, w), *eb = toE(b, w);
    double al, ah, bl, bh; bool an, bn;
    fiv(ea, al, ah, an, w); fiv(eb, bl, bh, bn, w);
    if (isCE(ea) && an) return Val((u64)(op == FUNO));
    if (isCE(eb) && bn) return Val((u64)(op == FUNO));
    if (op == FUNO && !an && !bn) return Val((u64)0);
    if (!an && !bn) {
        if (op == FOLT) { if (ah < bl) return Val((u64)1); if (al >= bh) return Val((u64)0); }
        if (op == FOLE) { if (ah <= bl) return Val((u64)1); if (al > bh) return Val((u64)0); }
        if (op == FOEQ) { if (ah < bl || bh < al) return Val((u64)0); }
    } else {
        if (op == FOLT && al >= bh) return Val((u64)0);
        if (op == FOLE && al > bh) return Val((u64)0);
        if (op == FOEQ && (ah < bl || bh < al)) return Val((u64)0);
    }
    if (ea == eb && !an) return Val((u64)(op == FOEQ || op == FOLE));
    DyV x, y;
    if (!((isT(ea) || isT(eb)) && prefersTable(a, b, w)) && asDy(a, w, x) && asDy(b, w, y)) {
        SI p, q; int s;
        Op io = op == FOEQ ? EQ : op == FOLT ? SLT : SLE;
        // constant on one side: compare with floor/ceil so that no precision is lost
        if (dyAlign(x, y, p, q, s)) {
            u32 nw = std::max(p.w, q.w);
            return mkCmp(io, nw, fitS(p.v, p.w, nw), fitS(q.v, q.w, nw));
        }
        if (y.cst || x.cst) {
            bool cb = y.cst;
            const DyV& v = cb ? x : y; const DyV& k = cb ? y : x;
            // compare v.n * 2^v.s with K; threshold t = K * 2^-v.s
            long double t = std::ldexp((long double)k.c, k.s - v.s);
            long double fl = floorl(t), ce = ceill(t);
            auto clampI = [&](long double z) { if (z > 1e18L) return (i64)1e18; if (z < -1e18L) return (i64)-1e18; return (i64)z; };
            SI n = siOf(v);
            auto cmpC = [&](Op o, bool nLeft, i64 c) {
                SI kk = siConst(c); u32 nw = std::max(n.w, kk.w);
                Val l = fitS(n.v, n.w, nw), r = fitS(kk.v, kk.w, nw);
                return nLeft ? mkCmp(o, nw, l, r) : mkCmp(o, nw, r, l);
            };
            if (op == FOEQ) { if (fl != ce) return Val((u64)0); return cmpC(EQ, true, clampI(fl)); }
            if (cb) { // n < t  <=> n < ceil(t);  n <= t <=> n <= floor(t)
                return op == FOLT ? cmpC(SLT, true, clampI(ce)) : cmpC(SLE, true, clampI(fl));
            } else {  // t < n <=> floor(t) < n ; t <= n <=> ceil(t) <= n
                return op == FOLT ? cmpC(SLT, false, clampI(fl)) : cmpC(SLE, false, clampI(ce));
            }
        }
    }
    return fromE(build(op, 1, ea, eb));
}
Val mkFConv(Op op, u32 ws, u32 wd, Val a) {
    if (a.isC()) return Val(evalOp(op, wd, 0, ws, a.c & maskW(ws), 0, 0, 0, 0));
    if (isT(a.e)) return fromE(build(op, wd, a.e));
    Val out; DyV x;
    switch (op) {
        case SITOFP: case UITOFP: {
            if (!gUseDyadic) break;
            SI n;
            if (op == SITOFP) { n = siExpr(a.e); }
            else {
                if (a.e->umax > (u64)DYMAX) break;
                n.v = mkZext(ws, a, std::min<u32>(64, ws + 1)); n.w = std::min<u32>(64, ws + 1); n.lo = (i64)a.e->umin; n.hi = (i64)a.e->umax;
            }
            if (n.lo < -DYMAX || n.hi > DYMAX) break;
            siNorm(n);
            if (mkDyFrom(wd, n, 0, out)) return out;
            break;
        }
        case FPTOSI: case FPTOUI: {
            if (!asDy(a, ws, x)) break;
            Val t = x.s >= 0 ? a : mkFUn(FTRUNCI, ws, a);
            DyV y;
            if (!asDy(t, ws, y)) break;
            SI n = siOf(y);
            if (y.s < 0) break;
            if (!siShl(n, y.s, n)) break;
            if (n.w > wd) n.v = mkExtract(n.w, n.v, 0, wd); else n.v = fitS(n.v, n.w, wd);
            return n.v;
        }
        case FPEXT: if (asDy(a, 32, x)) { SI n = siOf(x); if (n.lo >= -((i64)1 << 53) && n.hi <= ((i64)1 << 53) && mkDyFrom(64, n, x.s, out)) return out; }
            if (a.e->op == FPTRUNC) {} break;
        case FPTRUNC: if (asDy(a, 64, x)) { SI n = siOf(x); if (mkDyFrom(32, n, x.s, out)) return out; }
            if (a.e->op == FPEXT) return fromE(a.e->a);
            break;
        default: break;
    }
    return fromE(build(op, wd, a.e));
}
bool mkFun(MathFn fn, u32 w, Val a, Val b, Val& out) {
    bool two = fn == FN_ATAN2 || fn == FN_POW || fn == FN_FMOD || fn == FN_MINNUM || fn == FN_MAXNUM;
    if (a.isC() && (!two || b.isC())) { out = Val(evalOp(two ? FUN2 : FUN1, w, fn, w, a.c, w, b.c, 0, 0)); return true; }
    if (fn == FN_MINNUM || fn == FN_MAXNUM) {
        // number semantics, NaN ignored
        Val lt = mkFCmp(FOLT, w, a, b), an = mkFCmp(FUNO, w, a, a), bn = mkFCmp(FUNO, w, b, b);
        Val r = fn == FN_MINNUM ? mkIte(w, lt, a, b) : mkIte(w, lt, b, a);
        out = mkIte(w, an, b, mkIte(w, bn, a, r));
        return true;
    }
    Sup* S = toE(a, w)->sup;
    if (two) S = supUnion(S, toE(b, w)->sup);
    if (S->nbits > gTableBits) return false;
    out = fromE(build(two ? FUN2 : FUN1, w, toE(a, w), two ? toE(b, w) : nullptr, nullptr, fn));
    return true;
}

// ------------------------------------------------------------------ evaluation
static u64 tableIndex(const TableData& t, const Model& m) {
    u64 idx = 0; u32 o = 0;
    for (u32 v : t.vars) { idx |= (m.get(v) & maskW(gVars[v].w)) << o; o += gVars[v].w; }
    return idx;
}
u64 evalExpr(Expr* root, const Model& m) {
    if (root->op == CONST) return root->imm;
    if (root->gen == m.gen) return root->val;
    static std::vector<Expr*> st;
    size_t base = st.size();
    st.push_back(root);
    while (st.size() > base) {
        Expr* e = st.back();
        if (e->gen == m.gen) { st.pop_back(); continue; }
        u64 v;
        if (e->op == VAR) v = m.get((u32)e->imm) & maskW(e->w);
        else if (e->op == TABLE) { const TableData& t = gTables[e->imm]; v = t.at(tableIndex(t, m)); }
        else {
            bool ready = true;
            Expr* ch[3] = { e->a, e->b, e->c };
            for (int i = 0; i < 3; i++) if (ch[i] && ch[i]->op != CONST && ch[i]->gen != m.gen) { st.push_back(ch[i]); ready = false; }
            if (!ready) continue;
            auto g = [&](Expr* x) { return x ? (x->op == CONST ? x->imm : x->val) : 0; };
            v = evalOp(e->op, e->w, e->imm, e->a ? e->a->w : 0, g(e->a), e->b ? e->b->w : 0, g(e->b), e->c ? e->c->w : 0, g(e->c));
        }
        e->val = v; e->gen = m.gen;
        st.pop_back();
    }
    return root->val;
}

std::string exprStr(Expr* e, int depth) {
    char buf[64];
    if (e->op == CONST) { snprintf(buf, sizeof buf, "%lld:%u", (long long)sxt(e->imm, e->w), e->w); return buf; }
    if (e->op == VAR) return gVars[e->imm].name;
    if (depth <= 0) { snprintf(buf, sizeof buf, "#%u", e->id); return buf; }
    std::string s = "(" + std::string(opNames[e->op]);
    if (e->op == EXTRACT || e->op == DY || e->op == TABLE || e->op == RND) { snprintf(buf, sizeof buf, "[%lld]", (long long)e->imm); s += buf; }
    snprintf(buf, sizeof buf, ":%u", e->w); s += buf;
    if (e->a) s += " " + exprStr(e->a, depth - 1);
    if (e->b) s += " " + exprStr(e->b, depth - 1);
    if (e->c) s += " " + exprStr(e->c, depth - 1);
    return s + ")";
}
