#include "solver.h"
#include <chrono>
#include <unordered_set>
#include <z3.h>

SolverStats SST;
static Z3_context ctx;
static Z3_solver  simple, heavy, inc;
static std::unordered_map<u32, Z3_ast> incLits;
static unsigned incCount;
static unsigned   tmo;
static std::vector<Z3_ast> bvCache, fpCache;
static Z3_func_decl ufStep, ufFin;
static Z3_sort S64, S8;
static Z3_sort fpS64, fpS32;
static Z3_ast rmNE;

std::string solverVersion()
{
    unsigned a, b, c, d;
    Z3_get_version(&a, &b, &c, &d);
    return "z3 " + std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c);
}

static void onErr(Z3_context c, Z3_error_code e) { die("z3 error %s", Z3_get_error_msg(c, e)); }

void solverInit(unsigned timeoutMs)
{
    tmo = timeoutMs;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onErr);
    simple = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, simple);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 3000);
    Z3_solver_set_params(ctx, simple, p);
    inc = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, inc);
    Z3_solver_set_params(ctx, inc, p);
    heavy = nullptr;
    S64 = Z3_mk_bv_sort(ctx, 64);
    S8 = Z3_mk_bv_sort(ctx, 8);
    Z3_sort dom[2] = {S64, S8};
    ufStep = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, "strtod_step"), 2, dom, S64);
    ufFin = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, "strtod_fin"), 1, dom, S64);
    Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, ufStep));
    Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, ufFin));
    fpS64 = Z3_mk_fpa_sort_double(ctx);
    fpS32 = Z3_mk_fpa_sort_single(ctx);
    Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fpS64));
    Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fpS32));
    Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, S64));
    Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, S8));
    rmNE = Z3_mk_fpa_rne(ctx);
    Z3_inc_ref(ctx, rmNE);
}

static bool isFpOp(Op o) { return o == OFAdd || o == OFSub || o == OFMul || o == OFDiv || o == OFSqrt || o == OSI2F || o == OUI2F || o == OFExt || o == OFTrunc || o == OFRound; }

static Z3_ast bv(Expr* e);
static Z3_ast fp(Expr* e)
{
    if (fpCache.size() <= e->id) fpCache.resize(allExprs.size() + 1024, nullptr);
    if (fpCache[e->id]) return fpCache[e->id];
    Z3_ast r;
    Z3_sort s = e->w == 64 ? fpS64 : fpS32;
    switch (e->op)
    {
    case OFAdd: r = Z3_mk_fpa_add(ctx, rmNE, fp(e->a[0]), fp(e->a[1])); break;
    case OFSub: r = Z3_mk_fpa_sub(ctx, rmNE, fp(e->a[0]), fp(e->a[1])); break;
    case OFMul: r = Z3_mk_fpa_mul(ctx, rmNE, fp(e->a[0]), fp(e->a[1])); break;
    case OFDiv: r = Z3_mk_fpa_div(ctx, rmNE, fp(e->a[0]), fp(e->a[1])); break;
    case OFSqrt: r = Z3_mk_fpa_sqrt(ctx, rmNE, fp(e->a[0])); break;
    case OSI2F: r = Z3_mk_fpa_to_fp_signed(ctx, rmNE, bv(e->a[0]), s); break;
    case OUI2F: r = Z3_mk_fpa_to_fp_unsigned(ctx, rmNE, bv(e->a[0]), s); break;
    case OFExt: case OFTrunc: r = Z3_mk_fpa_to_fp_float(ctx, rmNE, fp(e->a[0]), s); break;
    case OFRound:
    {
        Z3_ast rm = e->c == 0 ? Z3_mk_fpa_rne(ctx) : e->c == 1 ? Z3_mk_fpa_rtn(ctx) : e->c == 2 ? Z3_mk_fpa_rtp(ctx) : e->c == 3 ? Z3_mk_fpa_rtz(ctx) : Z3_mk_fpa_rna(ctx);
        r = Z3_mk_fpa_round_to_integral(ctx, rm, fp(e->a[0]));
        break;
    }
    default: r = Z3_mk_fpa_to_fp_bv(ctx, bv(e), s); break;
    }
    Z3_inc_ref(ctx, r);
    if (fpCache.size() <= e->id) fpCache.resize(allExprs.size() + 1024, nullptr);
    fpCache[e->id] = r;
    return r;
}

static Z3_ast b2v(Z3_ast b) { return b; }
static Z3_ast boolOf(Expr* e);

// 1-bit expressions are Bool in z3; everything else bit-vectors
static Z3_ast bv(Expr* e)
{
    if (bvCache.size() <= e->id) bvCache.resize(allExprs.size() + 1024, nullptr);
    if (bvCache[e->id]) return bvCache[e->id];
    Z3_ast r;
    auto asBV = [&](Expr* x) -> Z3_ast { // 1-bit as BV1 where a real bit-vector is needed
        Z3_ast t = bv(x);
        if (x->w == 1) return Z3_mk_ite(ctx, t, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
        return t;
    };
    switch (e->op)
    {
    case OConst:
        if (e->w == 1) r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        else r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w));
        break;
    case OSym:
    {
        char n[32];
        snprintf(n, 32, "s%llu_%d", (unsigned long long)e->c, e->w);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w));
        break;
    }
    case OAdd: r = Z3_mk_bvadd(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OSub: r = Z3_mk_bvsub(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OMul: r = Z3_mk_bvmul(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OUDiv: r = Z3_mk_bvudiv(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OSDiv: r = Z3_mk_bvsdiv(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OURem: r = Z3_mk_bvurem(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OSRem: r = Z3_mk_bvsrem(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OAnd:
        if (e->w == 1) { Z3_ast x[2] = {bv(e->a[0]), bv(e->a[1])}; r = Z3_mk_and(ctx, 2, x); }
        else r = Z3_mk_bvand(ctx, bv(e->a[0]), bv(e->a[1]));
        break;
    case OOr:
        if (e->w == 1) { Z3_ast x[2] = {bv(e->a[0]), bv(e->a[1])}; r = Z3_mk_or(ctx, 2, x); }
        else r = Z3_mk_bvor(ctx, bv(e->a[0]), bv(e->a[1]));
        break;
    case OXor:
        if (e->w == 1) r = Z3_mk_xor(ctx, bv(e->a[0]), bv(e->a[1]));
        else r = Z3_mk_bvxor(ctx, bv(e->a[0]), bv(e->a[1]));
        break;
    case OShl: r = Z3_mk_bvshl(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OLShr: r = Z3_mk_bvlshr(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OAShr: r = Z3_mk_bvashr(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OEq: r = Z3_mk_eq(ctx, bv(e->a[0]), bv(e->a[1])); break;
    case OUlt: r = Z3_mk_bvult(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OUle: r = Z3_mk_bvule(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OSlt: r = Z3_mk_bvslt(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OSle: r = Z3_mk_bvsle(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OIte: r = Z3_mk_ite(ctx, bv(e->a[0]), bv(e->a[1]), bv(e->a[2])); break;
    case OConcat: r = Z3_mk_concat(ctx, asBV(e->a[0]), asBV(e->a[1])); break;
    case OExtract:
        r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, asBV(e->a[0]));
        if (e->w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
        break;
    case OZExt:
        if (e->a[0]->w == 1) r = Z3_mk_ite(ctx, bv(e->a[0]), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, e->w)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, e->w)));
        else r = Z3_mk_zero_ext(ctx, e->w - e->a[0]->w, bv(e->a[0]));
        break;
    case OSExt:
        if (e->a[0]->w == 1) r = Z3_mk_ite(ctx, bv(e->a[0]), Z3_mk_unsigned_int64(ctx, mask(e->w), Z3_mk_bv_sort(ctx, e->w)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, e->w)));
        else r = Z3_mk_sign_ext(ctx, e->w - e->a[0]->w, bv(e->a[0]));
        break;
    case OFLt: r = Z3_mk_fpa_lt(ctx, fp(e->a[0]), fp(e->a[1])); break;
    case OFLe: r = Z3_mk_fpa_leq(ctx, fp(e->a[0]), fp(e->a[1])); break;
    case OFEq: r = Z3_mk_fpa_eq(ctx, fp(e->a[0]), fp(e->a[1])); break;
    case OFUno:
    {
        Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, fp(e->a[0])), Z3_mk_fpa_is_nan(ctx, fp(e->a[1]))};
        r = Z3_mk_or(ctx, 2, x);
        break;
    }
    case OF2SI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->a[0]), e->w); break;
    case OF2UI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->a[0]), e->w); break;
    case OUF:
    {
        if (e->c == UF_STRTOD_STEP) { Z3_ast x[2] = {bv(e->a[0]), bv(e->a[1])}; r = Z3_mk_app(ctx, ufStep, 2, x); }
        else { Z3_ast x[1] = {bv(e->a[0])}; r = Z3_mk_app(ctx, ufFin, 1, x); }
        break;
    }
    default:
        if (isFpOp(e->op)) { r = Z3_mk_fpa_to_ieee_bv(ctx, fp(e)); break; }
        die("z3 translate op %d", e->op);
    }
    Z3_inc_ref(ctx, r);
    if (bvCache.size() <= e->id) bvCache.resize(allExprs.size() + 1024, nullptr);
    bvCache[e->id] = r;
    return r;
}

struct Cached { int res; std::vector<u64> vals; };
static std::unordered_map<u64, std::vector<std::pair<std::vector<u64>, Cached>>> cache;

static void collectUF(Expr* e, std::unordered_set<u32>& seen, std::vector<Expr*>& out, bool& fpuse)
{
    if (!seen.insert(e->id).second) return;
    for (Expr* k : e->a) if (k) collectUF(k, seen, out, fpuse);
    if (e->op == OUF) out.push_back(e);
    if (e->op >= OFAdd && e->op <= OFRound) fpuse = true;
}

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

double solverDeadline = 0; // on the clock of now(); 0: none

static int runZ3(const std::vector<Expr*>& cs, const std::vector<u32>& syms, const std::vector<uint8_t>& widths, std::vector<u64>& vals)
{
    double t0 = now();
    if (solverDeadline && t0 > solverDeadline) return -1;
    SST.z3calls++;
    static const char* dbg = getenv("VF_DEBUG_QUERIES"); // queries are shown before they are solved
    if (dbg) { fprintf(stderr, "QUERY %lu\n", (unsigned long)SST.z3calls); if (SST.z3calls >= strtoul(dbg, 0, 10)) for (Expr* e : cs) fprintf(stderr, "  %s\n", Z3_ast_to_string(ctx, bv(e))); }
    std::unordered_set<u32> seen;
    std::vector<Expr*> ufs;
    bool fpuse = false;
    for (Expr* e : cs) collectUF(e, seen, ufs, fpuse);
    int res = -1;
    Z3_solver s = simple;
    std::vector<Z3_ast> lemmas;
    for (int round = 0; round < 12; round++)
    {
        Z3_lbool r = Z3_L_UNDEF;
        bool incr = false;
        for (int attempt = 0; attempt < 2 && r == Z3_L_UNDEF; attempt++)
        {
            if (attempt == 0 && fpuse) continue;
            if (attempt == 0) s = simple;
            else
            {
                SST.fallback++;
                if (!heavy)
                {
                    heavy = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BVFP"));
                    Z3_solver_inc_ref(ctx, heavy);
                    Z3_params p = Z3_mk_params(ctx);
                    Z3_params_inc_ref(ctx, p);
                    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
                    Z3_solver_set_params(ctx, heavy, p);
                }
                s = heavy;
                if (!ufs.empty()) { s = simple; }
            }
            if (attempt == 0 && ufs.empty())
            {
                // incremental: each constraint is asserted once under a literal of its own
                incr = true;
                s = inc;
                if (incCount > 3000) { Z3_solver_reset(ctx, inc); incLits.clear(); incCount = 0; }
                std::vector<Z3_ast> as;
                for (Expr* e : cs)
                {
                    auto it = incLits.find(e->id);
                    if (it == incLits.end())
                    {
                        char n[32];
                        snprintf(n, 32, "L%u", e->id);
                        Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bool_sort(ctx));
                        Z3_inc_ref(ctx, l);
                        Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, l, bv(e)));
                        it = incLits.emplace(e->id, l).first;
                        incCount++;
                    }
                    as.push_back(it->second);
                }
                r = Z3_solver_check_assumptions(ctx, inc, as.size(), as.data());
                continue;
            }
            incr = false;
            Z3_solver_push(ctx, s);
            for (Expr* e : cs) Z3_solver_assert(ctx, s, bv(e));
            for (Z3_ast l : lemmas) Z3_solver_assert(ctx, s, l);
            r = Z3_solver_check(ctx, s);
            if (r == Z3_L_UNDEF) Z3_solver_pop(ctx, s, 1);
        }
        if (r == Z3_L_FALSE) { if (!incr) Z3_solver_pop(ctx, s, 1); res = 0; break; }
        if (r == Z3_L_UNDEF) { res = -1; break; }
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        vals.assign(syms.size(), 0);
        for (size_t i = 0; i < syms.size(); i++)
        {
            Z3_ast c = bv(mkSym(syms[i], widths[i])), v = nullptr;
            if (Z3_model_eval(ctx, m, c, true, &v) && v)
            {
                uint64_t x = 0;
                if (widths[i] == 1) x = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
                else Z3_get_numeral_uint64(ctx, v, &x);
                vals[i] = x;
            }
        }
        Z3_model_dec_ref(ctx, m);
        if (!incr) Z3_solver_pop(ctx, s, 1);
        // the model must satisfy the constraints under the host's (true) semantics
        Model hm;
        for (size_t i = 0; i < syms.size(); i++) hm.set(syms[i], vals[i]);
        bool ok = true;
        for (Expr* e : cs) if (!evalExpr(e, hm)) { ok = false; break; }
        if (ok) { res = 1; break; }
        SST.refinements++;
        if (ufs.empty()) { res = -1; break; }
        for (Expr* u : ufs)
        {
            u64 a = evalExpr(u->a[0], hm), b = u->a[1] ? evalExpr(u->a[1], hm) : 0;
            u64 hv = ufHost(u->c, a, b, u->w);
            Z3_ast app, av = Z3_mk_unsigned_int64(ctx, a, S64);
            if (u->c == UF_STRTOD_STEP) { Z3_ast x[2] = {av, Z3_mk_unsigned_int64(ctx, b, S8)}; app = Z3_mk_app(ctx, ufStep, 2, x); }
            else { Z3_ast x[1] = {av}; app = Z3_mk_app(ctx, ufFin, 1, x); }
            Z3_ast l = Z3_mk_eq(ctx, app, Z3_mk_unsigned_int64(ctx, hv, S64));
            Z3_inc_ref(ctx, l);
            lemmas.push_back(l);
        }
        res = -1;
    }
    double dt = now() - t0;
    SST.z3time += dt;
    if (dt > SST.maxtime) SST.maxtime = dt;
    return res;
}

static void symWidths(Expr* e, std::unordered_set<u32>& seen, std::map<u32, uint8_t>& out)
{
    if (!e->sset || !seen.insert(e->id).second) return;
    if (e->op == OSym) { out[(u32)e->c] = e->w; return; }
    for (Expr* k : e->a) if (k) symWidths(k, seen, out);
}

int solverCheck(const std::vector<Expr*>& csIn, Model& m)
{
    SST.queries++;
    std::vector<Expr*> cs;
    u32 sset = 0;
    for (Expr* e : csIn)
    {
        if (e->op == OConst) { if (!e->c) return 0; continue; }
        cs.push_back(e);
        sset = SS.uni(sset, e->sset);
    }
    if (cs.empty()) return 1;
    std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    auto syms = SS.sets[sset];
    std::vector<u64> key;
    bool single = syms.size() == 1;
    if (single)
    {
        std::vector<std::pair<u64, u64>> k;
        for (Expr* e : cs) k.push_back({e->ah1, e->ah2});
        std::sort(k.begin(), k.end());
        key.push_back(1);
        for (auto& p : k) { key.push_back(p.first); key.push_back(p.second); }
    }
    else
    {
        key.push_back(2);
        for (Expr* e : cs) key.push_back(e->id);
    }
    u64 h = 0x1234;
    for (u64 k : key) h = (h ^ k) * 0x9E3779B97F4A7C15ULL + (h >> 29);
    auto& bucket = cache[h];
    Cached* c = nullptr;
    for (auto& p : bucket) if (p.first == key) { c = &p.second; SST.cacheHits++; break; }
    if (!c)
    {
        std::unordered_set<u32> seen;
        std::map<u32, uint8_t> wm;
        for (Expr* e : cs) symWidths(e, seen, wm);
        std::vector<uint8_t> widths;
        for (u32 s : syms) widths.push_back(wm[s] ? wm[s] : 8);
        Cached n;
        n.res = runZ3(cs, syms, widths, n.vals);
        bucket.push_back({key, n});
        c = &bucket.back().second;
    }
    if (c->res == 1)
    {
        SST.sat++;
        for (size_t i = 0; i < syms.size(); i++) m.set(syms[i], c->vals[i]);
    }
    else if (c->res == 0) SST.unsat++;
    else SST.unknown++;
    return c->res;
}
