// Hash-consed bit-vector / floating-point expression DAG with simplification.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t  i64;
typedef uint32_t u32;

enum Op : uint8_t
{
    OConst, OSym, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OEq, OUlt, OUle, OSlt, OSle, OIte, OConcat, OExtract, OZExt, OSExt,
    OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq, OFUno, OFSqrt, OSI2F, OUI2F, OF2SI, OF2UI, OFExt, OFTrunc, OFRound,
    OUF
};

struct Expr
{
    Op       op;
    uint8_t  w;       // result width in bits (1..64)
    bool     undef;   // depends on an uninitialised byte
    u32      id;
    u32      hash;
    u32      sset;    // interned symbol set
    u64      c;       // constant / symbol id / extract low bit / uf id / rounding mode
    Expr*    a[3];
    u64      lo, hi;  // unsigned interval
    u64      ah1, ah2; // structural hash with the (single) symbol abstracted
};

inline u64 mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }

[[noreturn]] void die(const char* fmt, ...);

// ---------------------------------------------------------------- symbol sets
struct SymSets
{
    std::vector<std::vector<u32>>            sets;
    std::map<std::vector<u32>, u32>          idx;
    std::unordered_map<u64, u32>             unions;
    SymSets() { sets.push_back({}); idx[{}] = 0; }
    u32 intern(const std::vector<u32>& v)
    {
        auto it = idx.find(v);
        if (it != idx.end()) return it->second;
        u32 n = sets.size();
        sets.push_back(v);
        idx[v] = n;
        return n;
    }
    u32 uni(u32 a, u32 b)
    {
        if (a == b || b == 0) return a;
        if (a == 0) return b;
        if (a > b) std::swap(a, b);
        u64 k = ((u64)a << 32) | b;
        auto it = unions.find(k);
        if (it != unions.end()) return it->second;
        std::vector<u32> r;
        std::set_union(sets[a].begin(), sets[a].end(), sets[b].begin(), sets[b].end(), std::back_inserter(r));
        u32 n = intern(r);
        unions[k] = n;
        return n;
    }
    bool disjoint(u32 a, u32 b)
    {
        if (!a || !b) return true;
        if (a == b) return false;
        auto &x = sets[a], &y = sets[b];
        size_t i = 0, j = 0;
        while (i < x.size() && j < y.size())
        {
            if (x[i] == y[j]) return false;
            if (x[i] < y[j]) i++; else j++;
        }
        return true;
    }
};
extern SymSets SS;

// symbols with id >= UNDEF_BASE stand for uninitialised bytes
const u32 UNDEF_BASE = 1u << 24;

double  asD(u64 v);
u64     fromD(double d);
float   asF(u64 v);
u64     fromF(float f);

Expr* mkRaw(Op op, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, u64 imm = 0);
Expr* mkConst(u64 v, unsigned w);
Expr* mkSym(u32 id, unsigned w);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkNot(Expr* a);
Expr* mkUn(Op op, unsigned w, Expr* a, u64 imm = 0);
u64   foldBin(Op op, unsigned w, u64 a, u64 b, bool& ok);
u64   foldUn(Op op, unsigned w, unsigned aw, u64 a, u64 imm);

struct Model
{
    std::vector<u64>      v;      // by symbol id
    std::unordered_map<u32, u64> u; // uninitialised bytes
    u64 get(u32 id) const
    {
        if (id >= UNDEF_BASE) { auto it = u.find(id); return it == u.end() ? 0xA5 : it->second; }
        return id < v.size() ? v[id] : 0;
    }
    void set(u32 id, u64 x)
    {
        if (id >= UNDEF_BASE) { u[id] = x; return; }
        if (id >= v.size()) v.resize(id + 1, 0);
        v[id] = x;
    }
};
u64 evalExpr(Expr* e, const Model& m);
u64 ufHost(u64 uf, u64 a, u64 b, unsigned w);
void newEvalEpoch();
std::string exprStr(Expr* e, int depth = 6);
extern std::vector<Expr*> allExprs;
u64 hostDec(const std::string&);
// uf ids
enum { UF_STRTOD_STEP = 1, UF_STRTOD_FIN = 2 };
