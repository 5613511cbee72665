// Expressions: hash-consed bit-vector / floating-point DAG with constant folding, intervals,
// exact dyadic view of floats and finite function tables.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
#include <cstring>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

enum Op : u8 {
    CONST, VAR,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE,
    ITE, CONCAT, EXTRACT, ZEXT, SEXT,
    FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FNEG, FABS, FOEQ, FOLT, FOLE, FUNO,
    SITOFP, UITOFP, FPTOSI, FPTOUI, FPEXT, FPTRUNC, FFLOOR, FCEIL, FTRUNCI, FROUND,
    FUN1, FUN2, DY, RND, TABLE, NOPS
};
extern const char* opNames[];

enum MathFn { FN_SIN, FN_COS, FN_TAN, FN_ASIN, FN_ACOS, FN_ATAN, FN_ATAN2, FN_EXP, FN_LOG, FN_POW, FN_FMOD, FN_MINNUM, FN_MAXNUM };

// Set of variables an expression depends on (interned)
struct Sup {
    std::vector<u64> bits;
    u32 id;
    u32 nbits;          // total number of bits of all variables
    u32 count;
    bool has(u32 v) const { return (v >> 6) < bits.size() && ((bits[v >> 6] >> (v & 63)) & 1); }
    bool meets(const Sup* o) const {
        size_t n = bits.size() < o->bits.size() ? bits.size() : o->bits.size();
        for (size_t i = 0; i < n; i++) if (bits[i] & o->bits[i]) return true;
        return false;
    }
};

struct Expr {
    Op op;
    u8 w;
    bool isFP;      // has a floating-point interval
    bool fnan;
    bool hasFPTheory; // DAG contains a generic floating point node
    u32 id, hash;
    Expr *a, *b, *c;
    u64 imm;
    i64 smin, smax;
    u64 umin, umax;
    double flo, fhi;
    Sup* sup;
    u64 gen, val;
    void *zbv, *zfp;
    Expr* next;
};

struct Val {
    Expr* e;
    u64 c;
    Val() : e(nullptr), c(0) {}
    Val(u64 v) : e(nullptr), c(v) {}
    Val(Expr* x) : e(x), c(0) {}
    bool isC() const { return !e; }
};

struct VarInfo { std::string name; u32 w; u64 hi; Expr* e; };
// values are stored with 1, 4 or 8 bytes each, depending on the width
struct TableData {
    Sup* sup; std::vector<u8> raw; std::vector<u32> vars; u32 bytes; size_t n;
    TableData(Sup* s, const std::vector<u64>& v, std::vector<u32> vs, u32 w) : sup(s), vars(std::move(vs)), bytes(w <= 8 ? 1 : w <= 32 ? 4 : 8), n(v.size()) { raw.resize(n * bytes); for (size_t i = 0; i < n; i++) memcpy(&raw[i * bytes], &v[i], bytes); }
    u64 at(size_t i) const { if (bytes == 1) return raw[i]; if (bytes == 4) { u32 x; memcpy(&x, &raw[i * 4], 4); return x; } u64 x; memcpy(&x, &raw[i * 8], 8); return x; }
    std::vector<u64> values() const { std::vector<u64> r(n); for (size_t i = 0; i < n; i++) r[i] = at(i); return r; }
    bool same(const std::vector<u64>& v) const { if (v.size() != n) return false; for (size_t i = 0; i < n; i++) if (at(i) != v[i]) return false; return true; }
};

struct Model {
    std::vector<u64> v;
    u64 gen;
    u64 get(u32 var) const { return var < v.size() ? v[var] : 0; }
};
typedef std::shared_ptr<Model> ModelRef;

extern std::vector<VarInfo> gVars;
extern std::vector<TableData> gTables;
extern u32 gTableBits;     // maximal number of support bits of a finite function table
extern bool gUseDyadic;
Expr* conjTable(const std::vector<Expr*>& cs, u32 limBits);
extern u64 gNbExprs;

inline u64 maskW(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sxt(u64 v, u32 w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskW(w); return (i64)((v ^ m) - m); }

Expr* mkConst(u64 v, u32 w);
Expr* newVar(const std::string& name, u32 w, u64 hi);
Expr* toE(const Val& v, u32 w);

Val mkBin(Op op, u32 w, Val a, Val b);      // integer binary, result width w (operands width w)
Val mkCmp(Op op, u32 w, Val a, Val b);      // EQ ULT ULE SLT SLE, operand width w, result 1 bit
Val mkNot1(Val a);
Val mkAnd1(Val a, Val b);
Val mkOr1(Val a, Val b);
Val mkIte(u32 w, Val c, Val a, Val b);
Val mkConcat(u32 wa, Val a, u32 wb, Val b);
Val mkExtract(u32 wsrc, Val a, u32 lo, u32 w);
Val mkZext(u32 wsrc, Val a, u32 w);
Val mkSext(u32 wsrc, Val a, u32 w);
Val mkFBin(Op op, u32 w, Val a, Val b);
Val mkFUn(Op op, u32 w, Val a);             // FSQRT FNEG FABS FFLOOR FCEIL FTRUNCI FROUND
Val mkFCmp(Op op, u32 w, Val a, Val b);     // FOEQ FOLT FOLE FUNO
Val mkFConv(Op op, u32 wsrc, u32 wdst, Val a); // SITOFP UITOFP FPTOSI FPTOUI FPEXT FPTRUNC
// returns false when not expressible (symbolic argument with large support)
bool mkFun(MathFn fn, u32 w, Val a, Val b, Val& out);

u64 evalOp(Op op, u32 w, u64 imm, u32 wa, u64 a, u32 wb, u64 b, u32 wc, u64 c);
u64 evalExpr(Expr* e, const Model& m);
std::string exprStr(Expr* e, int depth = 4);
u32 trailingZeros(Expr* e);
