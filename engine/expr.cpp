#include "expr.h"
#include <cfenv>

SymSets SS;
std::vector<Expr*> allExprs;

double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
float asF(u64 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
u64 fromF(float f) { u32 v; memcpy(&v, &f, 4); return v; }

// ---------------------------------------------------------------- interning
static std::vector<Expr*> table(1 << 20, nullptr);
static size_t tableCount = 0;
static char* arena = nullptr;
static size_t arenaLeft = 0;

static Expr* allocExpr()
{
    if (arenaLeft < sizeof(Expr))
    {
        arena = (char*)malloc(1 << 22);
        arenaLeft = 1 << 22;
    }
    Expr* e = (Expr*)arena;
    arena += sizeof(Expr);
    arenaLeft -= sizeof(Expr);
    return e;
}

static inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}

static void interval(Expr* e)
{
    u64 m = mask(e->w);
    e->lo = 0;
    e->hi = m;
    Expr *a = e->a[0], *b = e->a[1], *c = e->a[2];
    switch (e->op)
    {
    case OConst: e->lo = e->hi = e->c; break;
    case OZExt: e->lo = a->lo; e->hi = a->hi; break;
    case OExtract:
        if (e->c == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; }
        else if (e->c + e->w == a->w) { e->lo = a->lo >> e->c; e->hi = a->hi >> e->c; }
        break;
    case OConcat:
        e->lo = (a->lo << b->w) | b->lo;
        e->hi = (a->hi << b->w) | b->hi;
        break;
    case OAnd: e->hi = std::min(a->hi, b->hi); break;
    case OOr:
    {
        e->lo = std::max(a->lo, b->lo);
        u64 x = a->hi | b->hi;
        if (x) { int k = 64 - __builtin_clzll(x); e->hi = mask(k); }
        else e->hi = 0;
        break;
    }
    case OXor:
    {
        u64 x = a->hi | b->hi;
        if (x) { int k = 64 - __builtin_clzll(x); e->hi = mask(k) & m; }
        else e->hi = 0;
        break;
    }
    case OAdd:
    {
        u64 h = a->hi + b->hi;
        if (h >= a->hi && h <= m) { e->hi = h; e->lo = a->lo + b->lo; }
        else if (b->op == OConst)
        {
            // x + c where every x wraps
            u64 l = a->lo + b->c;
            u64 hh = a->hi + b->c;
            if (((l < a->lo) || l > m) && ((hh < a->hi) || hh > m)) { e->lo = l & m; e->hi = hh & m; }
        }
        break;
    }
    case OMul:
    {
        unsigned __int128 h = (unsigned __int128)a->hi * b->hi;
        if (h <= m) { e->hi = (u64)h; e->lo = a->lo * b->lo; }
        break;
    }
    case OUDiv:
        if (b->lo > 0) { e->hi = a->hi / b->lo; e->lo = a->lo / b->hi; }
        break;
    case OURem:
        if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); }
        break;
    case OLShr:
        e->hi = a->hi;
        break;
    case OIte:
        e->lo = std::min(b->lo, c->lo);
        e->hi = std::max(b->hi, c->hi);
        break;
    default: break;
    }
}

Expr* mkRaw(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u64 imm)
{
    u64 h = mix(op * 131 + w, imm);
    if (a) h = mix(h, a->id + 1);
    if (b) h = mix(h, b->id + 7);
    if (c) h = mix(h, c->id + 13);
    u32 hh = (u32)(h ^ (h >> 32));
    size_t M = table.size() - 1;
    size_t i = hh & M;
    while (Expr* e = table[i])
    {
        if (e->hash == hh && e->op == op && e->w == w && e->c == imm && e->a[0] == a && e->a[1] == b && e->a[2] == c) return e;
        i = (i + 1) & M;
    }
    Expr* e = allocExpr();
    e->op = op; e->w = w; e->id = allExprs.size(); e->hash = hh; e->c = imm;
    e->a[0] = a; e->a[1] = b; e->a[2] = c;
    e->undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
    u32 s = 0;
    if (op == OSym)
    {
        s = SS.intern({(u32)imm});
        if (imm >= UNDEF_BASE) e->undef = true;
        e->ah1 = mix(77, w); e->ah2 = mix(99, w);
    }
    else
    {
        u64 x = mix(op * 131 + w, imm), y = mix(op * 257 + w * 3 + 5, imm);
        for (Expr* k : {a, b, c}) if (k) { x = mix(x, k->ah1); y = mix(y ^ 0x1234567, k->ah2); s = SS.uni(s, k->sset); }
        e->ah1 = x; e->ah2 = y;
    }
    e->sset = s;
    interval(e);
    allExprs.push_back(e);
    table[i] = e;
    if (++tableCount * 2 > table.size())
    {
        std::vector<Expr*> nt(table.size() * 2, nullptr);
        size_t NM = nt.size() - 1;
        for (Expr* x : table) if (x) { size_t j = x->hash & NM; while (nt[j]) j = (j + 1) & NM; nt[j] = x; }
        table.swap(nt);
    }
    return e;
}

Expr* mkConst(u64 v, unsigned w) { return mkRaw(OConst, w, nullptr, nullptr, nullptr, v & mask(w)); }
Expr* mkSym(u32 id, unsigned w) { return mkRaw(OSym, w, nullptr, nullptr, nullptr, id); }

// ---------------------------------------------------------------- folding
static double rnd(double d, int mode)
{
    switch (mode)
    {
    case 0: return nearbyint(d);   // round half even
    case 1: return floor(d);
    case 2: return ceil(d);
    case 3: return trunc(d);
    default: return round(d);
    }
}

u64 foldBin(Op op, unsigned w, u64 a, u64 b, bool& ok)
{
    u64 m = mask(w);
    ok = true;
    switch (op)
    {
    case OAdd: return (a + b) & m;
    case OSub: return (a - b) & m;
    case OMul: return (a * b) & m;
    case OUDiv: if (!b) { ok = false; return 0; } return a / b;
    case OURem: if (!b) { ok = false; return 0; } return a % b;
    case OSDiv:
    {
        if (!b) { ok = false; return 0; }
        i64 x = sx(a, w), y = sx(b, w);
        if (y == -1) return (u64)(0 - (u64)x) & m;
        return (u64)(x / y) & m;
    }
    case OSRem:
    {
        if (!b) { ok = false; return 0; }
        i64 x = sx(a, w), y = sx(b, w);
        if (y == -1) return 0;
        return (u64)(x % y) & m;
    }
    case OAnd: return a & b;
    case OOr: return a | b;
    case OXor: return a ^ b;
    case OShl: return b >= w ? 0 : (a << b) & m;
    case OLShr: return b >= w ? 0 : a >> b;
    case OAShr: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
    case OEq: return a == b;
    case OUlt: return a < b;
    case OUle: return a <= b;
    case OSlt: return sx(a, w) < sx(b, w);
    case OSle: return sx(a, w) <= sx(b, w);
    case OFAdd: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case OFSub: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case OFMul: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case OFDiv: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case OFLt: return w == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case OFLe: return w == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case OFEq: return w == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case OFUno: return w == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    default: die("foldBin op %d", op);
    }
}

u64 foldUn(Op op, unsigned w, unsigned aw, u64 a, u64 imm)
{
    switch (op)
    {
    case OZExt: return a;
    case OSExt: return (u64)sx(a, aw) & mask(w);
    case OExtract: return (a >> imm) & mask(w);
    case OFSqrt: return w == 64 ? fromD(sqrt(asD(a))) : fromF(sqrtf(asF(a)));
    case OSI2F: return w == 64 ? fromD((double)sx(a, aw)) : fromF((float)sx(a, aw));
    case OUI2F: return w == 64 ? fromD((double)a) : fromF((float)a);
    case OF2SI: case OF2UI:
    {
        double d = aw == 64 ? asD(a) : (double)asF(a);
        if (std::isnan(d)) return 0;
        if (op == OF2SI)
        {
            if (d >= 9223372036854775808.0 || d < -9223372036854775808.0) return 1ULL << (w - 1);
            return (u64)(i64)d & mask(w);
        }
        if (d >= 18446744073709551616.0 || d <= -1.0) return mask(w);
        return (u64)d & mask(w);
    }
    case OFExt: return fromD((double)asF(a));
    case OFTrunc: return fromF((float)asD(a));
    case OFRound: return w == 64 ? fromD(rnd(asD(a), imm)) : fromF((float)rnd(asF(a), imm));
    default: die("foldUn op %d", op);
    }
}

// ---------------------------------------------------------------- strtod UF host side
static std::vector<std::string> ufStrs{""};
static std::unordered_map<std::string, u64> ufIdx{{"", 0}};
u64 hostDec(const std::string& s) { return fromD(strtod(s.c_str(), nullptr)); }
u64 ufHost(u64 uf, u64 a, u64 b, unsigned)
{
    if (uf == UF_STRTOD_STEP)
    {
        if (a >= ufStrs.size()) return 0x77777;
        std::string s = ufStrs[a] + (char)b;
        auto it = ufIdx.find(s);
        if (it != ufIdx.end()) return it->second;
        u64 n = ufStrs.size();
        ufStrs.push_back(s);
        ufIdx[s] = n;
        return n;
    }
    if (a >= ufStrs.size()) return 0;
    return hostDec(ufStrs[a]);
}

// ---------------------------------------------------------------- builders
Expr* mkNot(Expr* a) { return mkBin(OXor, a, mkConst(1, 1)); }

Expr* mkExtract(Expr* a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    switch (a->op)
    {
    case OConst: return mkConst(a->c >> lo, w);
    case OExtract: return mkExtract(a->a[0], lo + a->c, w);
    case OConcat:
    {
        unsigned lw = a->a[1]->w;
        if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
        if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
        return mkConcat(mkExtract(a->a[0], 0, lo + w - lw), mkExtract(a->a[1], lo, lw - lo));
    }
    case OZExt:
    {
        unsigned aw = a->a[0]->w;
        if (lo >= aw) return mkConst(0, w);
        if (lo + w <= aw) return mkExtract(a->a[0], lo, w);
        return mkZExt(mkExtract(a->a[0], lo, aw - lo), w);
    }
    case OSExt:
    {
        unsigned aw = a->a[0]->w;
        if (lo + w <= aw) return mkExtract(a->a[0], lo, w);
        if (lo == 0) return mkSExt(a->a[0], w);
        break;
    }
    case OAnd: case OOr: case OXor:
        return mkBin(a->op, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
    case OAdd: case OSub: case OMul:
        if (lo == 0) return mkBin(a->op, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
        break;
    case OIte:
        if (a->a[1]->op == OConst || a->a[2]->op == OConst)
            return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
        break;
    default: break;
    }
    return mkRaw(OExtract, w, a, nullptr, nullptr, lo);
}

Expr* mkConcat(Expr* hi, Expr* lo)
{
    unsigned w = hi->w + lo->w;
    if (w > 64) die("concat too wide");
    if (hi->op == OConst && lo->op == OConst) return mkConst((hi->c << lo->w) | lo->c, w);
    if (hi->op == OConst && hi->c == 0) return mkZExt(lo, w);
    auto adj = [](Expr* h, Expr* l) -> Expr* {
        Expr* hb = h->op == OExtract ? h->a[0] : nullptr;
        if (!hb) return nullptr;
        Expr* lb = l->op == OExtract ? l->a[0] : l;
        u64 llo = l->op == OExtract ? l->c : 0;
        if (hb == lb && llo + l->w == h->c) return mkExtract(hb, llo, h->w + l->w);
        return nullptr;
    };
    if (Expr* r = adj(hi, lo)) return r;
    // concat(x, concat(y, z)) -> try merging x with y
    if (lo->op == OConcat)
    {
        if (Expr* r = adj(hi, lo->a[0])) return mkConcat(r, lo->a[1]);
        if (hi->op == OConst && lo->a[0]->op == OConst)
            return mkConcat(mkConst((hi->c << lo->a[0]->w) | lo->a[0]->c, hi->w + lo->a[0]->w), lo->a[1]);
    }
    // right-associate
    if (hi->op == OConcat) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));
    if (hi->op == OZExt) return mkZExt(mkConcat(hi->a[0], lo), w);
    return mkRaw(OConcat, w, hi, lo);
}

Expr* mkZExt(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (a->op == OConst) return mkConst(a->c, w);
    if (a->op == OZExt) return mkZExt(a->a[0], w);
    if (a->op == OIte && a->a[1]->op == OConst && a->a[2]->op == OConst) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
    return mkRaw(OZExt, w, a);
}

Expr* mkSExt(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (a->op == OConst) return mkConst((u64)sx(a->c, a->w), w);
    if (a->op == OSExt) return mkSExt(a->a[0], w);
    if (a->op == OZExt) return mkZExt(a->a[0], w);
    if (a->hi < (1ULL << (a->w - 1))) return mkZExt(a, w);
    if (a->op == OIte && a->a[1]->op == OConst && a->a[2]->op == OConst) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
    return mkRaw(OSExt, w, a);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
    if (c->op == OConst) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1)
    {
        if (a->op == OConst && b->op == OConst) return a->c ? c : mkNot(c);
        if (a->op == OConst) return a->c ? mkBin(OOr, c, b) : mkBin(OAnd, mkNot(c), b);
        if (b->op == OConst) return b->c ? mkBin(OOr, mkNot(c), a) : mkBin(OAnd, c, a);
    }
    if (c->op == OXor && c->a[1]->op == OConst && c->a[1]->c == 1) return mkIte(c->a[0], b, a);
    if (a->op == OIte && a->a[0] == c) return mkIte(c, a->a[1], b);
    if (b->op == OIte && b->a[0] == c) return mkIte(c, a, b->a[2]);
    if (b->op == OIte && b->a[1] == a) return mkIte(mkBin(OOr, c, b->a[0]), a, b->a[2]);
    return mkRaw(OIte, a->w, c, a, b);
}

Expr* mkUn(Op op, unsigned w, Expr* a, u64 imm)
{
    if (op == OZExt) return mkZExt(a, w);
    if (op == OSExt) return mkSExt(a, w);
    if (op == OExtract) return mkExtract(a, imm, w);
    if (a->op == OConst) return mkConst(foldUn(op, w, a->w, a->c, imm), w);
    if (op == OFTrunc && a->op == OFExt) return a->a[0];
    return mkRaw(op, w, a, nullptr, nullptr, imm);
}

static bool isCmp(Op op) { return (op >= OEq && op <= OSle) || op == OFLt || op == OFLe || op == OFEq || op == OFUno; }

Expr* mkBin(Op op, Expr* a, Expr* b)
{
    unsigned w = a->w;
    if (op == OUF) die("uf");
    if (a->w != b->w) die("mkBin width mismatch op=%d %d %d", op, a->w, b->w);
    unsigned rw = isCmp(op) ? 1 : w;
    if (a->op == OConst && b->op == OConst)
    {
        bool ok;
        u64 v = foldBin(op, w, a->c, b->c, ok);
        if (ok) return mkConst(v, rw);
    }
    // commutative: constant to the right, otherwise order by id
    if (op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq || op == OFEq || op == OFAdd || op == OFMul || op == OFUno)
    {
        if (a->op == OConst || (b->op != OConst && a->id > b->id)) std::swap(a, b);
    }
    u64 m = mask(w);
    bool bc = b->op == OConst;
    switch (op)
    {
    case OAdd:
        if (bc && b->c == 0) return a;
        if (bc && a->op == OAdd && a->a[1]->op == OConst) return mkBin(OAdd, a->a[0], mkConst(a->a[1]->c + b->c, w));
        if (w == 1) return mkBin(OXor, a, b);
        if (bc && a->op == OIte && a->a[1]->op == OConst && a->a[2]->op == OConst) return mkIte(a->a[0], mkBin(OAdd, a->a[1], b), mkBin(OAdd, a->a[2], b));
        // ZExt(x) + c with no overflow in a smaller width stays as is
        break;
    case OSub:
        if (bc) return mkBin(OAdd, a, mkConst(0 - b->c, w));
        if (a == b) return mkConst(0, w);
        // (x + c) - x
        if (a->op == OAdd && a->a[0] == b) return a->a[1];
        if (a->op == OAdd && a->a[1] == b) return a->a[0];
        // x - x / c * c
        if (b->op == OMul && b->a[1]->op == OConst)
        {
            Expr *q = b->a[0], *x = a;
            if (q->op == OZExt) q = q->a[0];
            if (x->op == OZExt) x = x->a[0];
            if (q->op == OUDiv && q->a[0] == x && q->a[1]->op == OConst && q->a[1]->c == b->a[1]->c) return mkZExt(mkBin(OURem, x, q->a[1]), w);
        }
        break;
    case OMul:
        if (bc)
        {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) return mkBin(OShl, a, mkConst(__builtin_ctzll(b->c), w));
        }
        break;
    case OUDiv:
        if (bc && b->c == 1) return a;
        if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkBin(OLShr, a, mkConst(__builtin_ctzll(b->c), w));
        if (bc && a->op == OZExt && b->c <= mask(a->a[0]->w)) return mkZExt(mkBin(OUDiv, a->a[0], mkConst(b->c, a->a[0]->w)), w);
        break;
    case OURem:
        if (bc && b->c == 1) return mkConst(0, w);
        if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkBin(OAnd, a, mkConst(b->c - 1, w));
        if (bc && a->op == OZExt && b->c <= mask(a->a[0]->w)) return mkZExt(mkBin(OURem, a->a[0], mkConst(b->c, a->a[0]->w)), w);
        break;
    case OSDiv: case OSRem:
        if (a->hi < (1ULL << (w - 1)) && b->hi < (1ULL << (w - 1))) return mkBin(op == OSDiv ? OUDiv : OURem, a, b);
        break;
    case OAnd:
        if (a == b) return a;
        if (bc)
        {
            if (b->c == 0) return b;
            if (b->c == m) return a;
            if (a->hi <= b->c && ((b->c & (b->c + 1)) == 0)) return a;
            if ((b->c & (b->c + 1)) == 0) // low mask
            {
                unsigned k = __builtin_popcountll(b->c);
                return mkZExt(mkExtract(a, 0, k), w);
            }
            if (a->op == OAnd && a->a[1]->op == OConst) return mkBin(OAnd, a->a[0], mkConst(b->c & a->a[1]->c, w));
            if (a->op == OZExt)
            {
                unsigned aw = a->a[0]->w;
                return mkZExt(mkBin(OAnd, a->a[0], mkConst(b->c, aw)), w);
            }
            if (a->op == OConcat)
            {
                unsigned lw = a->a[1]->w;
                return mkConcat(mkBin(OAnd, a->a[0], mkConst(b->c >> lw, a->a[0]->w)), mkBin(OAnd, a->a[1], mkConst(b->c, lw)));
            }
            // high mask: clear low bits
            {
                u64 inv = (~b->c) & m;
                if ((inv & (inv + 1)) == 0)
                {
                    unsigned k = __builtin_popcountll(inv);
                    return mkConcat(mkExtract(a, k, w - k), mkConst(0, k));
                }
            }
        }
        if (w == 1)
        {
            if (a == mkNot(b)) return mkConst(0, 1);
            // (x == c1) & (x != c2)
        }
        break;
    case OOr:
        if (a == b) return a;
        if (bc && b->c == 0) return a;
        if (bc && b->c == m) return b;
        if (w == 1 && a == mkNot(b)) return mkConst(1, 1);
        {
            // disjoint bit ranges: zext(lo) | concat(hi, 0)
            for (int k = 0; k < 2; k++)
            {
                Expr *x = k ? b : a, *y = k ? a : b;
                if (x->op == OConcat && x->a[1]->op == OConst && x->a[1]->c == 0 && y->hi <= mask(x->a[1]->w))
                    return mkConcat(x->a[0], mkExtract(y, 0, x->a[1]->w));
                if (x->op == OZExt && x->a[0]->op == OConcat && x->a[0]->a[1]->op == OConst && x->a[0]->a[1]->c == 0 && y->hi <= mask(x->a[0]->a[1]->w))
                    return mkZExt(mkConcat(x->a[0]->a[0], mkExtract(y, 0, x->a[0]->a[1]->w)), w);
                // concat(h, concat(c, z)) style: split on low part when y fits under the top of x's known-zero tail handled by recursion
                if (x->op == OConcat && y->op == OConcat && x->a[1]->w == y->a[1]->w)
                    return mkConcat(mkBin(OOr, x->a[0], y->a[0]), mkBin(OOr, x->a[1], y->a[1]));
            }
            // generic: x is concat whose low part width covers y entirely
            for (int k = 0; k < 2; k++)
            {
                Expr *x = k ? b : a, *y = k ? a : b;
                if (x->op == OConcat && y->hi <= mask(x->a[1]->w))
                    return mkConcat(x->a[0], mkBin(OOr, x->a[1], mkExtract(y, 0, x->a[1]->w)));
                if (x->op == OZExt && y->op != OConst && y->hi <= mask(x->a[0]->w))
                    return mkZExt(mkBin(OOr, x->a[0], mkExtract(y, 0, x->a[0]->w)), w);
            }
        }
        break;
    case OXor:
        if (a == b) return mkConst(0, w);
        if (bc && b->c == 0) return a;
        if (bc && a->op == OXor && a->a[1]->op == OConst) return mkBin(OXor, a->a[0], mkConst(b->c ^ a->a[1]->c, w));
        if (w == 1 && bc) // not
        {
            switch (a->op)
            {
            case OUlt: return mkBin(OUle, a->a[1], a->a[0]);
            case OUle: return mkBin(OUlt, a->a[1], a->a[0]);
            case OSlt: return mkBin(OSle, a->a[1], a->a[0]);
            case OSle: return mkBin(OSlt, a->a[1], a->a[0]);
            default: break;
            }
        }
        break;
    case OShl:
        if (bc)
        {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
        }
        break;
    case OLShr:
        if (bc)
        {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            return mkZExt(mkExtract(a, b->c, w - b->c), w);
        }
        break;
    case OAShr:
        if (bc)
        {
            if (b->c == 0) return a;
            u64 k = b->c >= w ? w - 1 : b->c;
            return mkSExt(mkExtract(a, k, w - k), w);
        }
        break;
    case OEq:
        if (a == b) return mkConst(1, 1);
        if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
        if (w == 1)
        {
            if (bc) return b->c ? a : mkNot(a);
            break;
        }
        if (bc)
        {
            switch (a->op)
            {
            case OZExt: return mkBin(OEq, a->a[0], mkConst(b->c, a->a[0]->w));
            case OSExt:
                if (((u64)sx(b->c & mask(a->a[0]->w), a->a[0]->w) & m) == b->c) return mkBin(OEq, a->a[0], mkConst(b->c, a->a[0]->w));
                return mkConst(0, 1);
            case OAdd: if (a->a[1]->op == OConst) return mkBin(OEq, a->a[0], mkConst(b->c - a->a[1]->c, w)); break;
            case OXor: if (a->a[1]->op == OConst) return mkBin(OEq, a->a[0], mkConst(b->c ^ a->a[1]->c, w)); break;
            case OSub: if (b->c == 0) return mkBin(OEq, a->a[0], a->a[1]); break;
            case OConcat:
            {
                unsigned lw = a->a[1]->w;
                return mkBin(OAnd, mkBin(OEq, a->a[0], mkConst(b->c >> lw, a->a[0]->w)), mkBin(OEq, a->a[1], mkConst(b->c, lw)));
            }
            case OIte:
                if (a->a[1]->op == OConst || a->a[2]->op == OConst)
                    return mkIte(a->a[0], mkBin(OEq, a->a[1], b), mkBin(OEq, a->a[2], b));
                break;
            default: break;
            }
        }
        else
        {
            if (a->op == OZExt && b->op == OZExt && a->a[0]->w == b->a[0]->w) return mkBin(OEq, a->a[0], b->a[0]);
            if (a->op == OSExt && b->op == OSExt && a->a[0]->w == b->a[0]->w) return mkBin(OEq, a->a[0], b->a[0]);
            if (a->op == OAdd && b->op == OAdd && a->a[1]->op == OConst && a->a[1] == b->a[1]) return mkBin(OEq, a->a[0], b->a[0]);
        }
        break;
    case OUlt:
    case OUle:
        if (a == b) return mkConst(op == OUle, 1);
        if (op == OUlt)
        {
            if (a->hi < b->lo) return mkConst(1, 1);
            if (a->lo >= b->hi) return mkConst(0, 1);
            if (bc && b->c == 1) return mkBin(OEq, a, mkConst(0, w));
            if (a->op == OConst && a->c == 0) return mkNot(mkBin(OEq, b, mkConst(0, w)));
        }
        else
        {
            if (a->hi <= b->lo) return mkConst(1, 1);
            if (a->lo > b->hi) return mkConst(0, 1);
        }
        {
            unsigned na = a->op == OZExt ? a->a[0]->w : 0, nb = b->op == OZExt ? b->a[0]->w : 0;
            unsigned n = std::max(na, nb);
            if (n && n < w && a->hi <= mask(n) && b->hi <= mask(n)) return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n));
        }
        break;
    case OSlt:
    case OSle:
        if (a == b) return mkConst(op == OSle, 1);
        {
            u64 half = 1ULL << (w - 1);
            if (a->hi < half && b->hi < half) return mkBin(op == OSlt ? OUlt : OUle, a, b);
            bool an = a->lo >= half, bn = b->lo >= half;
            if (an && bn) return mkBin(op == OSlt ? OUlt : OUle, a, b);
            if (an && b->hi < half) return mkConst(1, 1);
            if (bn && a->hi < half) return mkConst(0, 1);
            unsigned na = a->op == OSExt ? a->a[0]->w : 0, nb = b->op == OSExt ? b->a[0]->w : 0;
            if (na && nb && na == nb) return mkBin(op, a->a[0], b->a[0]);
            if (na && bc)
            {
                i64 v = sx(b->c, w), mx = (i64)mask(na - 1), mn = -mx - 1;
                if (v > mx) return mkConst(1, 1);
                if (v < mn) return mkConst(0, 1);
                return mkBin(op, a->a[0], mkConst(b->c, na));
            }
            if (nb && a->op == OConst)
            {
                i64 v = sx(a->c, w), mx = (i64)mask(nb - 1), mn = -mx - 1;
                if (v > mx) return mkConst(0, 1);
                if (v < mn) return mkConst(1, 1);
                return mkBin(op, mkConst(a->c, nb), b->a[0]);
            }
        }
        break;
    default: break;
    }
    return mkRaw(op, rw, a, b);
}

// ---------------------------------------------------------------- evaluation
static std::vector<u32> stampv;
static std::vector<u64> memov;
static u32 epoch = 1;
void newEvalEpoch() { epoch++; }

static u64 ev(Expr* e, const Model& m)
{
    if (e->op == OConst) return e->c;
    if (e->op == OSym) return m.get((u32)e->c) & mask(e->w);
    if (stampv[e->id] == epoch) return memov[e->id];
    u64 r;
    switch (e->op)
    {
    case OIte: r = ev(e->a[0], m) ? ev(e->a[1], m) : ev(e->a[2], m); break;
    case OConcat: r = (ev(e->a[0], m) << e->a[1]->w) | ev(e->a[1], m); break;
    case OExtract: case OZExt: case OSExt: case OFSqrt: case OSI2F: case OUI2F: case OF2SI: case OF2UI: case OFExt: case OFTrunc: case OFRound:
        r = foldUn(e->op, e->w, e->a[0]->w, ev(e->a[0], m), e->c);
        break;
    case OUF: r = ufHost(e->c, ev(e->a[0], m), e->a[1] ? ev(e->a[1], m) : 0, e->w); break;
    default:
    {
        bool ok;
        u64 x = ev(e->a[0], m), y = ev(e->a[1], m);
        r = foldBin(e->op, e->a[0]->w, x, y, ok);
        if (!ok) // SMT-LIB semantics of division by zero
        {
            if (e->op == OUDiv) r = mask(e->w);
            else if (e->op == OSDiv) r = sx(x, e->w) < 0 ? 1 : mask(e->w);
            else r = x;
        }
    }
    }
    stampv[e->id] = epoch;
    memov[e->id] = r;
    return r;
}

u64 evalExpr(Expr* e, const Model& m)
{
    if (e->op == OConst) return e->c;
    if (stampv.size() < allExprs.size()) { stampv.resize(allExprs.size() * 2 + 1024, 0); memov.resize(stampv.size(), 0); }
    epoch++;
    return ev(e, m);
}

std::string exprStr(Expr* e, int depth)
{
    static const char* names[] = {"c","s","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>","a>>","==","<u","<=u","<s","<=s","ite","++","ext","zx","sx",
        "f+","f-","f*","f/","f<","f<=","f==","funo","fsqrt","si2f","ui2f","f2si","f2ui","fext","ftrunc","fround","uf"};
    char buf[64];
    if (e->op == OConst) { snprintf(buf, 64, "%llx:%d", (unsigned long long)e->c, e->w); return buf; }
    if (e->op == OSym) { snprintf(buf, 64, "S%llu:%d", (unsigned long long)e->c, e->w); return buf; }
    if (!depth) return "...";
    std::string r = "(";
    r += names[e->op];
    if (e->op == OExtract) { snprintf(buf, 64, "[%llu,%d]", (unsigned long long)e->c, e->w); r += buf; }
    for (int i = 0; i < 3 && e->a[i]; i++) r += " " + exprStr(e->a[i], depth - 1);
    return r + ")";
}
