// llsym: bounded symbolic execution of LLVM IR with z3 as the deciding solver.
#include "expr.h"
#include "solver.h"

#include <atomic>
#include <chrono>
#include <cstdarg>
#include <deque>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;

void die(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "llsym: fatal: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    fflush(stderr);
    _exit(3);
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
static u64 optMaxInst = 30000000;
static double optTime = 600;
static unsigned optWorkers = 8;
static unsigned optSeeds = 1500;
static unsigned optSamples = 24;
static bool optLeak;
static unsigned optMemMB = 2600;
static bool optVerbose = false;
static bool optNoUninit = false;
static std::string optOut;

// ------------------------------------------------------------------ values
struct Val
{
    u64   c = 0;
    Expr* e = nullptr;
};
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val V(Expr* e)
{
    Val v;
    if (e->op == OConst) v.c = e->c; else v.e = e;
    return v;
}
static inline Val C(u64 c) { Val v; v.c = c; return v; }

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { KGlobal, KStack, KMalloc, KNew, KNewArr, KExc, KFunc };
static const char* kindName[] = {"global", "stack", "malloc", "new", "new[]", "exception", "function"};
struct Obj
{
    std::vector<uint16_t> b;      // 0..255 concrete; 0x100 uninit; 0x200 symbolic
    std::vector<Expr*>    s;      // allocated lazily
    ObjKind kind = KGlobal;
    bool    freed = false;
    bool    ro = false;
    u32     size = 0;
    u32     site = 0; // allocation site (function id)
};
typedef std::shared_ptr<Obj> ObjP;
static const u32 CH = 64;
struct Chunk { ObjP o[CH]; };

struct Mem
{
    std::vector<std::shared_ptr<Chunk>> ch;
    u32 n = 0;
    const Obj* get(u32 id) const { return id < n ? ch[id / CH]->o[id % CH].get() : nullptr; }
    Obj* wr(u32 id)
    {
        auto& c = ch[id / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        auto& o = c->o[id % CH];
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return o.get();
    }
    u32 add(ObjP o)
    {
        if (n % CH == 0) ch.push_back(std::make_shared<Chunk>());
        auto& c = ch[n / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        c->o[n % CH] = o;
        return n++;
    }
};

// ------------------------------------------------------------------ decoded code
enum DOp : uint8_t
{
    D_BIN, D_ICMP, D_FCMP, D_CAST, D_LOAD, D_STORE, D_GEP, D_ALLOCA, D_SELECT, D_BR, D_CONDBR, D_SWITCH, D_RET, D_CALL, D_EXTRACT, D_INSERT,
    D_LANDINGPAD, D_RESUME, D_UNREACHABLE, D_COPY, D_FNEG, D_EXTELT, D_INSELT, D_SHUF, D_BITCAST, D_CMPXCHG, D_RMW, D_UNSUP, D_NOP
};
struct Slot { u32 off; uint8_t w; };
struct Edge { u32 ip; std::vector<std::array<int, 2>> copies; };
struct FuncInfo;
struct DI
{
    DOp op = D_UNSUP;
    uint8_t w = 0, w2 = 0;   // operand width, result width
    uint8_t sub = 0;         // Op / predicate / cast
    bool isPtr = false;
    u32 n = 1;               // number of slots
    int dst = -1;
    int a = 0, b = 0, c = 0;
    u64 imm = 0;
    std::vector<Slot> slots;          // load/store layout, or arg layout
    std::vector<std::array<i64, 3>> gep; // operand, scale, width
    std::vector<Edge> edges;
    std::vector<u64> cases;           // switch values
    std::vector<int> args;            // first slot of each argument
    std::vector<std::vector<uint8_t>> argw;
    std::vector<uint8_t> retw;
    std::vector<u64> byval;           // byval sizes (0 = no)
    Function* callee = nullptr;
    FuncInfo* fi = nullptr;
    int builtin = -1;
    bool invoke = false;
    std::vector<std::pair<int, u64>> clauses; // kind(0 catch,1 filter), typeinfo address
    bool cleanup = false;
    Instruction* I = nullptr;
};
struct FuncInfo
{
    Function* F = nullptr;
    u32 idx = 0;
    u32 nregs = 0;
    bool decoded = false;
    std::vector<DI> code;
    std::vector<Val> consts;
    std::vector<int> argSlot;
    std::vector<std::vector<uint8_t>> argw;
    std::string name;
    bool executed = false;
};

struct Frame
{
    FuncInfo* f = nullptr;
    u32 ip = 0;
    std::vector<Val> r;
    std::vector<u32> allocas;
    u64 va = 0;       // varargs area
    int special = 0;  // 1: destructor call of a caught exception
};
typedef std::shared_ptr<Frame> FrameP;

struct SymLog { std::string name; u32 first, n; };
struct Exc { u64 obj; u64 ti; u64 dtor; int handlers; bool rethrown; };

struct State
{
    std::vector<FrameP> st;
    Mem mem;
    std::vector<Expr*> pc;
    Model model;
    u32 nsym = 0, nundef = 0;
    std::vector<SymLog> log;
    u64 icount = 0;
    std::vector<Exc> caught;       // stack of caught exceptions
    std::unordered_map<u64, Exc> excs; // live exception headers by object address
    u64 obs = 14695981039346656037ULL;
    std::vector<std::pair<Expr*, int>> obsE; // observed symbolic values (evaluated at the end)
    u32 depth = 0;
    int refs = 0;
    std::vector<std::pair<std::vector<Expr*>, Expr*>> decs; // decimal texts with a known value
    std::map<u64, Expr*> divs; // how a dividend was written in its first division: a later one of the same dividend gets the same form
};
typedef std::unique_ptr<State> StateP;

struct Violation { std::string kind, msg, where; std::vector<SymLog> log; Model model; u64 obs = 0; };
struct PathDead {};                                  // an assumption excludes the path
struct PathEnd {};                                   // path finished
struct PathViol { std::string kind, msg; };
struct PathUnsup { std::string msg; };

// the clone gets its own top frame: callers hold references into the original's
static StateP cloneState(const State& o)
{
    auto n = std::make_unique<State>(o);
    n->st.back() = std::make_shared<Frame>(*n->st.back());
    return n;
}

static Module* M;
static const DataLayout* DL;
static std::vector<std::unique_ptr<FuncInfo>> funcs;
static std::unordered_map<const Function*, FuncInfo*> fmap;
static std::unordered_map<u64, FuncInfo*> faddr;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, std::string> gname;   // address -> global name
static std::unordered_map<u64, u32> typeIds;
static Mem initMem;

// ------------------------------------------------------------------ statistics
struct Stats
{
    u64 paths = 0, forks = 0, insts = 0, infeasible = 0, asserts = 0, assertsSym = 0, assumes = 0, memChecks = 0, memSym = 0;
};
static Stats ST;
static std::map<std::string, u64> reached;
static std::set<std::string> reachDeclared;
struct Sample { std::vector<SymLog> log; Model model; u64 obs; };
static std::vector<Sample> samples;
static std::vector<Violation> violations;
static std::vector<std::string> unsupported;
static std::map<std::string, u64> unknowns;
static double deadline;
struct Shared { std::atomic<u32> next; std::atomic<u32> stop; };
static Shared* shared_;
static bool timedOut = false;

// ------------------------------------------------------------------ types
static void flat(Type* t, std::vector<uint8_t>& out, std::vector<Slot>* slots = nullptr, u64 off = 0)
{
    if (t->isIntegerTy())
    {
        unsigned w = t->getIntegerBitWidth();
        if (w > 64) throw PathUnsup{"integer wider than 64 bits"};
        out.push_back(w);
        if (slots) slots->push_back({(u32)off, (uint8_t)w});
    }
    else if (t->isPointerTy()) { out.push_back(64); if (slots) slots->push_back({(u32)off, 64}); }
    else if (t->isFloatTy()) { out.push_back(32); if (slots) slots->push_back({(u32)off, 32}); }
    else if (t->isDoubleTy()) { out.push_back(64); if (slots) slots->push_back({(u32)off, 64}); }
    else if (auto* s = dyn_cast<StructType>(t))
    {
        const StructLayout* L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), out, slots, off + L->getElementOffset(i));
    }
    else if (auto* a = dyn_cast<ArrayType>(t))
    {
        u64 es = DL->getTypeAllocSize(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), out, slots, off + i * es);
    }
    else if (auto* v = dyn_cast<FixedVectorType>(t))
    {
        u64 es = DL->getTypeStoreSize(v->getElementType());
        for (u64 i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), out, slots, off + i * es);
    }
    else if (t->isVoidTy()) {}
    else
    {
        std::string s; raw_string_ostream os(s); t->print(os);
        throw PathUnsup{"type " + os.str()};
    }
}
static u32 flatCount(Type* t) { std::vector<uint8_t> o; flat(t, o); return o.size(); }
static u32 flatIndex(Type* t, ArrayRef<unsigned> idx)
{
    u32 k = 0;
    for (unsigned i : idx)
    {
        if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) k += flatCount(s->getElementType(j)); t = s->getElementType(i); }
        else if (auto* a = dyn_cast<ArrayType>(t)) { k += i * flatCount(a->getElementType()); t = a->getElementType(); }
        else die("flatIndex");
    }
    return k;
}

// ------------------------------------------------------------------ constants
static void constSlots(const Constant* c, std::vector<Val>& out);
static u64 constInt(const Constant* c)
{
    std::vector<Val> v;
    constSlots(c, v);
    if (v.size() != 1) throw PathUnsup{"constant aggregate as scalar"};
    return v[0].c;
}
static void constSlots(const Constant* c, std::vector<Val>& out)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c))
    {
        u32 n = flatCount(t);
        for (u32 i = 0; i < n; i++) out.push_back(C(0));
        return;
    }
    if (auto* i = dyn_cast<ConstantInt>(c))
    {
        if (i->getBitWidth() > 64) throw PathUnsup{"wide constant"};
        out.push_back(C(i->getZExtValue()));
        return;
    }
    if (auto* f = dyn_cast<ConstantFP>(c)) { out.push_back(C(f->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c))
    {
        for (unsigned i = 0; i < d->getNumElements(); i++) constSlots(d->getElementAsConstant(i), out);
        return;
    }
    if (isa<ConstantAggregate>(c))
    {
        for (unsigned i = 0; i < c->getNumOperands(); i++) constSlots(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    if (auto* g = dyn_cast<GlobalValue>(c))
    {
        if (auto* ga = dyn_cast<GlobalAlias>(g)) { constSlots(ga->getAliasee(), out); return; }
        auto it = gaddr.find(g);
        if (it == gaddr.end()) throw PathUnsup{"unknown global " + g->getName().str()};
        out.push_back(C(it->second));
        return;
    }
    if (auto* e = dyn_cast<ConstantExpr>(c))
    {
        switch (e->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            APInt off(64, 0);
            if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) throw PathUnsup{"constant gep"};
            out.push_back(C(constInt(cast<Constant>(e->getOperand(0))) + off.getSExtValue()));
            return;
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast:
            constSlots(cast<Constant>(e->getOperand(0)), out);
            return;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
            out.push_back(C(constInt(cast<Constant>(e->getOperand(0))) & mask(DL->getTypeSizeInBits(t))));
            return;
        case Instruction::Add: out.push_back(C((constInt(cast<Constant>(e->getOperand(0))) + constInt(cast<Constant>(e->getOperand(1)))) & mask(DL->getTypeSizeInBits(t)))); return;
        case Instruction::Sub: out.push_back(C((constInt(cast<Constant>(e->getOperand(0))) - constInt(cast<Constant>(e->getOperand(1)))) & mask(DL->getTypeSizeInBits(t)))); return;
        case Instruction::ICmp:
        {
            u64 x = constInt(cast<Constant>(e->getOperand(0))), y = constInt(cast<Constant>(e->getOperand(1)));
            auto p = (CmpInst::Predicate)e->getPredicate();
            if (p == CmpInst::ICMP_EQ) { out.push_back(C(x == y)); return; }
            if (p == CmpInst::ICMP_NE) { out.push_back(C(x != y)); return; }
            break;
        }
        default: break;
        }
        throw PathUnsup{std::string("constant expression ") + e->getOpcodeName()};
    }
    throw PathUnsup{"constant kind"};
}

static void initBytes(Obj* o, u64 off, const Constant* c)
{
    Type* t = c->getType();
    u64 sz = DL->getTypeStoreSize(t);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (u64 i = 0; i < sz; i++) o->b[off + i] = 0; return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c))
    {
        StringRef raw = d->getRawDataValues();
        for (size_t i = 0; i < raw.size(); i++) o->b[off + i] = (uint8_t)raw[i];
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c))
    {
        const StructLayout* L = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); i++) initBytes(o, off + L->getElementOffset(i), s->getOperand(i));
        return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c))
    {
        u64 es = DL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(o, off + i * es, a->getOperand(i));
        return;
    }
    if (auto* v = dyn_cast<ConstantVector>(c))
    {
        u64 es = DL->getTypeStoreSize(v->getType()->getElementType());
        for (unsigned i = 0; i < v->getNumOperands(); i++) initBytes(o, off + i * es, v->getOperand(i));
        return;
    }
    u64 v = constInt(c);
    for (u64 i = 0; i < sz && i < 8; i++) o->b[off + i] = (uint8_t)(v >> (8 * i));
}

// ------------------------------------------------------------------ builtins
enum B
{
    B_symbolic, B_assume, B_assert, B_reach, B_observe, B_alloc, B_free, B_concrete, B_isconc, B_dec2double, B_regdec, B_hostfmt, B_cxa_alloc, B_cxa_free, B_cxa_throw,
    B_cxa_begin, B_cxa_end, B_cxa_rethrow, B_cxa_getptr, B_terminate, B_abort, B_atexit, B_guard_acq, B_guard_rel, B_purevirt, B_memcpy, B_memmove, B_memset,
    B_dyncast, B_nop, B_nop0, B_objsize, B_end, B_print, B_hoststrtod, B_fail, B_curexc, B_personality, B_sqrt, B_floor, B_ceil, B_trunc, B_fabs, B_rint, B_round, B_isfreed, B_allocinfo, B_symbolic_u64
};
static std::map<std::string, int> builtins = {
    {"vf_symbolic", B_symbolic}, {"vf_assume", B_assume}, {"vf_assert_", B_assert}, {"vf_reach", B_reach}, {"vf_observe", B_observe}, {"vf_sys_alloc", B_alloc},
    {"vf_sys_free", B_free}, {"vf_concrete", B_concrete}, {"vf_is_concrete", B_isconc}, {"vf_dec2double", B_dec2double}, {"vf_host_fmt", B_hostfmt}, {"vf_register_decimal", B_regdec},
    {"__cxa_allocate_exception", B_cxa_alloc}, {"__cxa_free_exception", B_cxa_free}, {"__cxa_throw", B_cxa_throw}, {"__cxa_begin_catch", B_cxa_begin},
    {"__cxa_end_catch", B_cxa_end}, {"__cxa_rethrow", B_cxa_rethrow}, {"__cxa_get_exception_ptr", B_cxa_getptr}, {"_ZSt9terminatev", B_terminate},
    {"__clang_call_terminate", B_terminate}, {"abort", B_abort}, {"__cxa_atexit", B_atexit}, {"__cxa_guard_acquire", B_guard_acq},
    {"__cxa_guard_release", B_guard_rel}, {"__cxa_guard_abort", B_guard_rel}, {"__cxa_pure_virtual", B_purevirt}, {"memcpy", B_memcpy}, {"memmove", B_memmove},
    {"memset", B_memset}, {"__dynamic_cast", B_dyncast}, {"vf_end", B_end}, {"vf_print", B_print}, {"vf_fail", B_fail},
    {"__memcpy_chk", B_memcpy}, {"__memmove_chk", B_memmove}, {"__memset_chk", B_memset}, {"sqrt", B_sqrt}, {"floor", B_floor}, {"ceil", B_ceil}, {"trunc", B_trunc},
    {"fabs", B_fabs}, {"rint", B_rint}, {"nearbyint", B_rint}, {"round", B_round}, {"_ZSt17__throw_bad_allocv_", B_nop}, {"vf_symbolic_u64", B_symbolic_u64},
};

// ------------------------------------------------------------------ decoding
struct Decoder
{
    FuncInfo* f;
    std::unordered_map<const Value*, int> slotOf;
    std::unordered_map<const BasicBlock*, u32> bbIp;

    int operand(const Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v))
        {
            int k = (int)f->consts.size();
            std::vector<Val> out;
            constSlots(c, out);
            if (out.empty()) out.push_back(C(0));
            f->consts.insert(f->consts.end(), out.begin(), out.end());
            return -(k + 1);
        }
        auto it = slotOf.find(v);
        if (it == slotOf.end())
        {
            if (isa<MetadataAsValue>(v)) return 0;
            if (isa<InlineAsm>(v)) throw PathUnsup{"inline asm"};
            die("no slot");
        }
        return it->second;
    }
    static unsigned width(Type* t)
    {
        std::vector<uint8_t> o;
        flat(t, o);
        return o.empty() ? 0 : o[0];
    }

    void run()
    {
        Function& F = *f->F;
        int next = 0;
        for (Argument& a : F.args())
        {
            std::vector<uint8_t> w;
            flat(a.getType(), w);
            slotOf[&a] = next;
            f->argSlot.push_back(next);
            f->argw.push_back(w);
            next += w.size();
        }
        u32 ip = 0;
        for (BasicBlock& B : F)
        {
            bbIp[&B] = ip;
            for (Instruction& I : B)
            {
                if (!I.getType()->isVoidTy())
                {
                    slotOf[&I] = next;
                    u32 n = 1;
                    try { n = flatCount(I.getType()); } catch (PathUnsup&) { n = 1; }
                    next += std::max(1u, n);
                }
                if (!isa<PHINode>(I)) ip++;
            }
        }
        f->nregs = next;
        for (BasicBlock& B : F)
            for (Instruction& I : B)
            {
                if (isa<PHINode>(I)) continue;
                DI d;
                d.I = &I;
                if (!I.getType()->isVoidTy()) d.dst = slotOf[&I];
                try { decode(I, d); }
                catch (PathUnsup& u) { d.op = D_UNSUP; }
                f->code.push_back(std::move(d));
            }
        f->decoded = true;
    }

    Edge edge(BasicBlock* from, BasicBlock* to)
    {
        Edge e;
        e.ip = bbIp[to];
        for (PHINode& p : to->phis())
        {
            int src = operand(p.getIncomingValueForBlock(from));
            u32 n = flatCount(p.getType());
            bool undef = isa<UndefValue>(p.getIncomingValueForBlock(from));
            (void)undef;
            for (u32 i = 0; i < n; i++) e.copies.push_back({slotOf[&p] + (int)i, src >= 0 ? src + (int)i : src - (int)i});
        }
        return e;
    }

    void decode(Instruction& I, DI& d)
    {
        Type* T = I.getType();
        if (auto* b = dyn_cast<BinaryOperator>(&I))
        {
            d.op = D_BIN;
            Type* et = T->getScalarType();
            d.w = width(et);
            d.n = flatCount(T);
            d.a = operand(b->getOperand(0));
            d.b = operand(b->getOperand(1));
            switch (b->getOpcode())
            {
            case Instruction::Add: d.sub = OAdd; break;
            case Instruction::Sub: d.sub = OSub; break;
            case Instruction::Mul: d.sub = OMul; break;
            case Instruction::UDiv: d.sub = OUDiv; break;
            case Instruction::SDiv: d.sub = OSDiv; break;
            case Instruction::URem: d.sub = OURem; break;
            case Instruction::SRem: d.sub = OSRem; break;
            case Instruction::And: d.sub = OAnd; break;
            case Instruction::Or: d.sub = OOr; break;
            case Instruction::Xor: d.sub = OXor; break;
            case Instruction::Shl: d.sub = OShl; break;
            case Instruction::LShr: d.sub = OLShr; break;
            case Instruction::AShr: d.sub = OAShr; break;
            case Instruction::FAdd: d.sub = OFAdd; break;
            case Instruction::FSub: d.sub = OFSub; break;
            case Instruction::FMul: d.sub = OFMul; break;
            case Instruction::FDiv: d.sub = OFDiv; break;
            default: throw PathUnsup{"binop"};
            }
            return;
        }
        if (auto* u = dyn_cast<UnaryOperator>(&I))
        {
            d.op = D_FNEG; d.w = width(T->getScalarType()); d.n = flatCount(T); d.a = operand(u->getOperand(0));
            return;
        }
        if (auto* c = dyn_cast<ICmpInst>(&I))
        {
            d.op = D_ICMP; d.w = width(c->getOperand(0)->getType()->getScalarType()); d.n = flatCount(T);
            d.a = operand(c->getOperand(0)); d.b = operand(c->getOperand(1)); d.sub = c->getPredicate();
            return;
        }
        if (auto* c = dyn_cast<FCmpInst>(&I))
        {
            d.op = D_FCMP; d.w = width(c->getOperand(0)->getType()->getScalarType()); d.n = flatCount(T);
            d.a = operand(c->getOperand(0)); d.b = operand(c->getOperand(1)); d.sub = c->getPredicate();
            return;
        }
        if (auto* c = dyn_cast<CastInst>(&I))
        {
            Type* S = c->getOperand(0)->getType();
            d.a = operand(c->getOperand(0));
            unsigned k = c->getOpcode();
            if (k == Instruction::BitCast && (S->isVectorTy() || T->isVectorTy()))
            {
                d.op = D_BITCAST;
                flat(S, d.retw);
                std::vector<uint8_t> o;
                flat(T, o);
                d.argw.push_back(o);
                return;
            }
            d.w = width(S->getScalarType());
            d.w2 = width(T->getScalarType());
            d.n = flatCount(T);
            d.op = D_CAST;
            d.sub = k;
            if (k == Instruction::BitCast || k == Instruction::PtrToInt || k == Instruction::IntToPtr || k == Instruction::AddrSpaceCast)
            {
                if (d.w == d.w2) d.op = D_COPY;
                else d.sub = d.w < d.w2 ? Instruction::ZExt : Instruction::Trunc;
            }
            return;
        }
        if (auto* l = dyn_cast<LoadInst>(&I))
        {
            d.op = D_LOAD; d.a = operand(l->getPointerOperand());
            flat(T, d.retw, &d.slots);
            d.n = d.slots.size();
            return;
        }
        if (auto* s = dyn_cast<StoreInst>(&I))
        {
            d.op = D_STORE; d.a = operand(s->getPointerOperand()); d.b = operand(s->getValueOperand());
            flat(s->getValueOperand()->getType(), d.retw, &d.slots);
            d.n = d.slots.size();
            return;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&I))
        {
            if (T->isVectorTy()) throw PathUnsup{"vector gep"};
            d.op = D_GEP;
            d.a = operand(g->getPointerOperand());
            i64 off = 0;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
            {
                Value* idx = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull())
                    off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                else
                {
                    i64 scale = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(idx)) off += scale * ci->getSExtValue();
                    else d.gep.push_back({operand(idx), scale, (i64)width(idx->getType())});
                }
            }
            d.imm = (u64)off;
            return;
        }
        if (auto* a = dyn_cast<AllocaInst>(&I))
        {
            d.op = D_ALLOCA; d.imm = DL->getTypeAllocSize(a->getAllocatedType()); d.a = operand(a->getArraySize());
            d.w = width(a->getArraySize()->getType());
            return;
        }
        if (auto* s = dyn_cast<SelectInst>(&I))
        {
            d.op = D_SELECT; d.a = operand(s->getCondition()); d.b = operand(s->getTrueValue()); d.c = operand(s->getFalseValue());
            d.n = flatCount(T);
            flat(T, d.retw);
            d.isPtr = T->isPtrOrPtrVectorTy();
            d.imm = s->getCondition()->getType()->isVectorTy();
            return;
        }
        if (auto* b = dyn_cast<BranchInst>(&I))
        {
            if (b->isUnconditional()) { d.op = D_BR; d.edges.push_back(edge(I.getParent(), b->getSuccessor(0))); return; }
            d.op = D_CONDBR; d.a = operand(b->getCondition());
            d.edges.push_back(edge(I.getParent(), b->getSuccessor(0)));
            d.edges.push_back(edge(I.getParent(), b->getSuccessor(1)));
            return;
        }
        if (auto* s = dyn_cast<SwitchInst>(&I))
        {
            d.op = D_SWITCH; d.a = operand(s->getCondition()); d.w = width(s->getCondition()->getType());
            d.edges.push_back(edge(I.getParent(), s->getDefaultDest()));
            std::map<BasicBlock*, u32> tgt;
            tgt[s->getDefaultDest()] = 0;
            for (auto& c : s->cases())
            {
                BasicBlock* t = c.getCaseSuccessor();
                if (!tgt.count(t)) { tgt[t] = d.edges.size(); d.edges.push_back(edge(I.getParent(), t)); }
                d.cases.push_back(c.getCaseValue()->getZExtValue());
                d.args.push_back(tgt[t]);
            }
            return;
        }
        if (auto* r = dyn_cast<ReturnInst>(&I))
        {
            d.op = D_RET;
            if (r->getReturnValue()) { d.a = operand(r->getReturnValue()); d.n = flatCount(r->getReturnValue()->getType()); }
            else d.n = 0;
            return;
        }
        if (isa<UnreachableInst>(&I)) { d.op = D_UNREACHABLE; return; }
        if (auto* e = dyn_cast<ExtractValueInst>(&I))
        {
            d.op = D_COPY; d.n = flatCount(T);
            int a = operand(e->getAggregateOperand());
            int k = flatIndex(e->getAggregateOperand()->getType(), e->getIndices());
            d.a = a >= 0 ? a + k : a - k;
            return;
        }
        if (auto* e = dyn_cast<InsertValueInst>(&I))
        {
            d.op = D_INSERT; d.a = operand(e->getAggregateOperand()); d.n = flatCount(T); d.b = operand(e->getInsertedValueOperand());
            d.imm = flatIndex(T, e->getIndices());
            d.c = flatCount(e->getInsertedValueOperand()->getType());
            return;
        }
        if (auto* e = dyn_cast<ExtractElementInst>(&I))
        {
            auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand());
            if (!ci) throw PathUnsup{"variable extractelement"};
            d.op = D_COPY; d.n = 1;
            int a = operand(e->getVectorOperand());
            int k = (int)ci->getZExtValue();
            d.a = a >= 0 ? a + k : a - k;
            return;
        }
        if (auto* e = dyn_cast<InsertElementInst>(&I))
        {
            auto* ci = dyn_cast<ConstantInt>(e->getOperand(2));
            if (!ci) throw PathUnsup{"variable insertelement"};
            d.op = D_INSERT; d.a = operand(e->getOperand(0)); d.n = flatCount(T); d.b = operand(e->getOperand(1)); d.imm = ci->getZExtValue(); d.c = 1;
            return;
        }
        if (auto* s = dyn_cast<ShuffleVectorInst>(&I))
        {
            d.op = D_SHUF; d.a = operand(s->getOperand(0)); d.b = operand(s->getOperand(1)); d.n = flatCount(T);
            d.imm = flatCount(s->getOperand(0)->getType());
            for (int k : s->getShuffleMask()) d.args.push_back(k);
            return;
        }
        if (auto* fz = dyn_cast<FreezeInst>(&I)) { d.op = D_COPY; d.a = operand(fz->getOperand(0)); d.n = flatCount(T); return; }
        if (isa<FenceInst>(&I)) { d.op = D_NOP; return; }
        if (auto* lp = dyn_cast<LandingPadInst>(&I))
        {
            d.op = D_LANDINGPAD; d.cleanup = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++)
            {
                if (lp->isCatch(i)) d.clauses.push_back({0, constInt(lp->getClause(i))});
                else d.clauses.push_back({1, 0});
            }
            return;
        }
        if (auto* r = dyn_cast<ResumeInst>(&I)) { d.op = D_RESUME; d.a = operand(r->getValue()); return; }
        if (auto* r = dyn_cast<AtomicRMWInst>(&I))
        {
            d.op = D_RMW; d.a = operand(r->getPointerOperand()); d.b = operand(r->getValOperand()); d.w = width(T); d.sub = r->getOperation();
            return;
        }
        if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I))
        {
            d.op = D_CMPXCHG; d.a = operand(x->getPointerOperand()); d.b = operand(x->getCompareOperand()); d.c = operand(x->getNewValOperand());
            d.w = width(x->getCompareOperand()->getType());
            return;
        }
        if (auto* cb = dyn_cast<CallBase>(&I))
        {
            d.op = D_CALL;
            if (isa<DbgInfoIntrinsic>(&I)) { d.op = D_NOP; return; }
            if (cb->isInlineAsm())
            {
                auto* ia = cast<InlineAsm>(cb->getCalledOperand());
                if (ia->getAsmString().empty()) { d.op = D_NOP; if (T->isVoidTy()) return; }
                throw PathUnsup{"inline asm"};
            }
            d.n = T->isVoidTy() ? 0 : flatCount(T);
            if (!T->isVoidTy()) flat(T, d.retw);
            for (unsigned i = 0; i < cb->arg_size(); i++)
            {
                Value* a = cb->getArgOperand(i);
                if (isa<MetadataAsValue>(a)) { d.args.push_back(0); d.argw.push_back({}); d.byval.push_back(0); continue; }
                d.args.push_back(operand(a));
                std::vector<uint8_t> w;
                flat(a->getType(), w);
                d.argw.push_back(w);
                d.byval.push_back(cb->isByValArgument(i) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
            }
            Value* cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
            if (auto* cf = dyn_cast<Function>(cv))
            {
                d.callee = cf;
                auto it = builtins.find(cf->getName().str());
                if (it != builtins.end()) d.builtin = it->second;
                else if (fmap.count(cf)) d.fi = fmap[cf];
            }
            else d.a = operand(cb->getCalledOperand());
            if (auto* iv = dyn_cast<InvokeInst>(&I))
            {
                d.invoke = true;
                d.edges.push_back(edge(I.getParent(), iv->getNormalDest()));
                d.edges.push_back(edge(I.getParent(), iv->getUnwindDest()));
            }
            return;
        }
        throw PathUnsup{I.getOpcodeName()};
    }
};

static FuncInfo* getFunc(FuncInfo* f)
{
    if (!f->decoded)
    {
        Decoder d;
        d.f = f;
        d.run();
    }
    return f;
}

// ------------------------------------------------------------------ executor
struct Exec
{
    std::deque<StateP>* out = nullptr; // forked states
    State* s = nullptr;

    // ---- helpers
    Frame& fr()
    {
        auto& p = s->st.back();
        if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
        return *p;
    }
    std::string where()
    {
        std::string r;
        int k = 0;
        for (int i = (int)s->st.size() - 1; i >= 0 && k < 14; i--, k++)
        {
            r += s->st[i]->f->name;
            if (s->st[i]->ip < s->st[i]->f->code.size())
            {
                Instruction* I = s->st[i]->f->code[s->st[i]->ip].I;
                if (I && I->getDebugLoc()) r += ":" + std::to_string(I->getDebugLoc().getLine());
            }
            r += " <- ";
        }
        return r;
    }

    // constraints sharing symbols (transitively) with e
    void slice(Expr* e, std::vector<Expr*>& outv)
    {
        u32 set = e->sset;
        std::vector<char> used(s->pc.size(), 0);
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (size_t i = 0; i < s->pc.size(); i++)
                if (!used[i] && !SS.disjoint(set, s->pc[i]->sset))
                {
                    used[i] = 1;
                    ch = true;
                    set = SS.uni(set, s->pc[i]->sset);
                }
        }
        for (size_t i = 0; i < s->pc.size(); i++) if (used[i]) outv.push_back(s->pc[i]);
    }
    // is pc && e satisfiable; on success m gets a full model
    int feasible(Expr* e, Model& m)
    {
        if (e->op == OConst) { m = s->model; return e->c ? 1 : 0; }
        if (evalExpr(e, s->model)) { m = s->model; return 1; }
        std::vector<Expr*> cs;
        slice(e, cs);
        cs.push_back(e);
        m = s->model;
        int r = solverCheck(cs, m);
        if (r < 0)
        {
            unknowns[s->st.back()->f->name]++;
        }
        return r;
    }
    void addPc(Expr* e)
    {
        if (e->op == OConst) return;
        if (e->op == OAnd && e->w == 1) { addPc(e->a[0]); addPc(e->a[1]); return; }
        for (Expr* x : s->pc) if (x == e) return;
        s->pc.push_back(e);
    }
    void checkUndef(Expr* e)
    {
        if (!e->undef || optNoUninit) return;
        // does the value really depend on uninitialised bytes? replace them by fresh symbols and compare
        std::unordered_map<u32, Expr*> memo;
        Expr* e2 = renameUndef(e, memo);
        if (e2 == e) return;
        Model m;
        Expr* diff = e->w == 1 ? mkBin(OXor, e, e2) : mkNot(mkBin(OEq, e, e2));
        int r = feasible(diff, m);
        if (r == 1) { s->model = m; throw PathViol{"uninit", "decision depends on uninitialised memory"}; }
        if (r < 0) throw PathUnsup{"solver unknown (uninit check)"};
    }
    Expr* renameUndef(Expr* e, std::unordered_map<u32, Expr*>& memo)
    {
        if (!e->undef) return e;
        auto it = memo.find(e->id);
        if (it != memo.end()) return it->second;
        Expr* r;
        if (e->op == OSym) r = mkSym((u32)e->c + (1u << 23), e->w);
        else
        {
            Expr* k[3] = {nullptr, nullptr, nullptr};
            for (int i = 0; i < 3; i++) if (e->a[i]) k[i] = renameUndef(e->a[i], memo);
            switch (e->op)
            {
            case OIte: r = mkIte(k[0], k[1], k[2]); break;
            case OConcat: r = mkConcat(k[0], k[1]); break;
            case OUF: r = mkRaw(OUF, e->w, k[0], k[1], nullptr, e->c); break;
            default: r = k[1] ? mkBin(e->op, k[0], k[1]) : mkUn(e->op, e->w, k[0], e->c);
            }
        }
        memo[e->id] = r;
        return r;
    }

    // Decide a boolean: returns the value for the current state; if both are possible the
    // other side is pushed as a new state positioned by `adj` (called on the clone).
    template <class F>
    bool decide(const Val& v, F adj)
    {
        if (!v.e) return v.c & 1;
        Expr* e = v.e;
        checkUndef(e);
        bool cur = evalExpr(e, s->model) & 1;
        Expr* oc = cur ? mkNot(e) : e;
        Model m;
        std::vector<Expr*> cs;
        slice(oc, cs);
        cs.push_back(oc);
        m = s->model;
        int r = solverCheck(cs, m);
        if (r < 0) { unknowns[s->st.back()->f->name]++; throw PathUnsup{"solver unknown"}; }
        if (r == 1)
        {
            ST.forks++;
            auto n = cloneState(*s);
            n->model = m;
            n->depth++;
            s->depth++;
            State* save = s;
            s = n.get();
            addPc(oc);
            adj(*n, !cur);
            s = save;
            out->push_back(std::move(n));
            addPc(cur ? e : mkNot(e));
        }
        return cur;
    }
    // pick a concrete value; other values are explored by states that re-execute the instruction
    u64 concretize(const Val& v, unsigned w)
    {
        if (!v.e) return v.c;
        checkUndef(v.e);
        u64 x = evalExpr(v.e, s->model);
        Expr* eq = mkBin(OEq, v.e, mkConst(x, w));
        if (eq->op == OConst) return x;
        Expr* ne = mkNot(eq);
        std::vector<Expr*> cs;
        slice(ne, cs);
        cs.push_back(ne);
        Model m = s->model;
        int r = solverCheck(cs, m);
        if (r < 0) throw PathUnsup{"solver unknown (concretize)"};
        if (r == 1)
        {
            ST.forks++;
            auto n = cloneState(*s);
            n->model = m;
            n->depth++;
            State* save = s;
            s = n.get();
            addPc(ne);
            s = save;
            out->push_back(std::move(n));
            addPc(eq);
        }
        return x;
    }

    // ---- memory
    u64 newObj(u64 size, ObjKind k, bool zero = false)
    {
        if (size > (1u << 28)) throw PathUnsup{"allocation too large"};
        auto o = std::make_shared<Obj>();
        o->size = size;
        o->kind = k;
        o->b.assign(size, zero ? 0 : 0x100);
        u32 id = s->mem.add(o);
        return (u64)id << 32;
    }
    void freeObj(u32 id)
    {
        Obj* o = s->mem.wr(id);
        o->freed = true;
        std::vector<uint16_t>().swap(o->b);
        std::vector<Expr*>().swap(o->s);
    }
    [[noreturn]] void memViol(const char* what, u64 addr, u64 n, const Obj* o)
    {
        char buf[200];
        u32 id = addr >> 32;
        if (id == 0 && (addr >> 16) == 0) { snprintf(buf, 200, "null pointer %s", what); throw PathViol{"nullderef", buf}; }
        if (!o) { snprintf(buf, 200, "wild pointer %s at %llx", what, (unsigned long long)addr); throw PathViol{"oob", buf}; }
        if (o->freed)
        {
            snprintf(buf, 200, "%s of freed %s memory", what, kindName[o->kind]);
            throw PathViol{o->kind == KStack ? "stack-use-after-return" : "use-after-free", buf};
        }
        snprintf(buf, 200, "%s of %llu byte(s) at offset %lld of a %u-byte %s object", what, (unsigned long long)n, (long long)(int)(u32)addr, o->size, kindName[o->kind]);
        throw PathViol{"oob", buf};
    }
    const Obj* chk(u64 addr, u64 n, const char* what, bool wr)
    {
        ST.memChecks++;
        u32 id = addr >> 32;
        const Obj* o = s->mem.get(id);
        if (id == 0 || !o || o->freed || (u64)(u32)addr + n > o->size || o->kind == KFunc) memViol(what, addr, n, id == 0 ? nullptr : o);
        if (wr && o->ro) throw PathViol{"write-to-const", "write to constant memory"};
        return o;
    }
    Expr* byteExpr(u32 id, const Obj*& o, u32 off)
    {
        uint16_t v = o->b[off];
        if (v < 0x100) return mkConst(v, 8);
        if (v == 0x100)
        {
            Expr* e = mkSym(UNDEF_BASE + s->nundef++, 8);
            Obj* w = s->mem.wr(id);
            if (w->s.empty()) w->s.resize(w->size, nullptr);
            w->b[off] = 0x200;
            w->s[off] = e;
            o = w;
            return e;
        }
        return o->s[off];
    }
    Val loadBytes(u64 addr, unsigned w)
    {
        unsigned n = (w + 7) / 8;
        const Obj* o = chk(addr, n, "read", false);
        u32 off = (u32)addr;
        const uint16_t* p = &o->b[off];
        u64 v = 0;
        unsigned bad = 0;
        for (unsigned i = 0; i < n; i++) { v |= (u64)(p[i] & 0xff) << (8 * i); bad |= p[i]; }
        if (bad < 0x100) return C(v & mask(w));
        Expr* e = nullptr;
        for (unsigned i = 0; i < n; i++)
        {
            Expr* b = byteExpr(addr >> 32, o, off + i);
            e = e ? mkConcat(b, e) : b;
        }
        if (w != n * 8) e = mkExtract(e, 0, w);
        return V(e);
    }
    void storeBytes(u64 addr, const Val& v, unsigned w)
    {
        unsigned n = (w + 7) / 8;
        chk(addr, n, "write", true);
        Obj* o = s->mem.wr(addr >> 32);
        u32 off = (u32)addr;
        if (!v.e)
        {
            for (unsigned i = 0; i < n; i++) o->b[off + i] = (uint8_t)(v.c >> (8 * i));
            return;
        }
        if (o->s.empty()) o->s.resize(o->size, nullptr);
        Expr* e = w == n * 8 ? v.e : mkZExt(v.e, n * 8);
        for (unsigned i = 0; i < n; i++)
        {
            Expr* b = n == 1 ? e : mkExtract(e, 8 * i, 8);
            if (b->op == OConst) o->b[off + i] = (uint8_t)b->c;
            else { o->b[off + i] = 0x200; o->s[off + i] = b; }
        }
    }
    // resolve a possibly symbolic address to a concrete one (forking), checking bounds first
    u64 resolve(const Val& a, u64 n, const char* what)
    {
        if (!a.e) return a.c;
        ST.memSym++;
        checkUndef(a.e);
        u64 x = evalExpr(a.e, s->model);
        u32 id = x >> 32;
        const Obj* o = s->mem.get(id);
        if (id && o && !o->freed && (u64)(u32)x + n <= o->size)
        {
            // can it leave this object?
            Expr* in = mkBin(OUle, mkBin(OSub, a.e, mkConst((u64)id << 32, 64)), mkConst(o->size - n, 64));
            Model m;
            int r = feasible(mkNot(in), m);
            if (r < 0) throw PathUnsup{"solver unknown (bounds)"};
            if (r == 1)
            {
                u64 y = evalExpr(a.e, m);
                const Obj* o2 = s->mem.get(y >> 32);
                if (!(y >> 32) || !o2 || o2->freed || (u64)(u32)y + n > o2->size)
                {
                    s->model = m;
                    memViol(what, y, n, (y >> 32) ? o2 : nullptr);
                }
            }
        }
        return concretize(a, 64);
    }
    Val loadSym(const Val& a, unsigned w)
    {
        // symbolic read from a constant table: build a run-merged ite chain
        unsigned n = (w + 7) / 8;
        u64 x = evalExpr(a.e, s->model);
        u32 id = x >> 32;
        const Obj* o = s->mem.get(id);
        if (id && o && !o->freed && o->ro && o->size <= 4096 && o->size >= n)
        {
            checkUndef(a.e);
            ST.memSym++;
            Expr* off = mkBin(OSub, a.e, mkConst((u64)id << 32, 64));
            Expr* in = mkBin(OUle, off, mkConst(o->size - n, 64));
            Model m;
            int r = feasible(mkNot(in), m);
            if (r < 0) throw PathUnsup{"solver unknown (bounds)"};
            if (r == 1)
            {
                u64 y = evalExpr(a.e, m);
                const Obj* o2 = s->mem.get(y >> 32);
                if (!(y >> 32) || !o2 || o2->freed || (u64)(u32)y + n > o2->size)
                {
                    s->model = m;
                    memViol("read", y, n, (y >> 32) ? o2 : nullptr);
                }
                u64 c = concretize(a, 64);
                return loadBytes(c, w);
            }
            // element stride: use alignment of the offset expression when visible, else 1
            u32 stride = 1;
            if (off->op == OConcat && off->a[1]->op == OConst) { u32 k = off->a[1]->w; if ((1u << k) >= n) stride = 1u << k; }
            else if (off->op == OZExt && off->a[0]->op == OConcat && off->a[0]->a[1]->op == OConst) { u32 k = off->a[0]->a[1]->w; if ((1u << k) >= n) stride = 1u << k; }
            u32 base = 0;
            if (stride > 1) base = off->op == OConcat ? off->a[1]->c : off->a[0]->a[1]->c;
            u32 lo = (u32)std::min<u64>(off->lo, o->size), hi = (u32)std::min<u64>(off->hi, o->size - n);
            std::vector<std::pair<u32, u64>> runs; // start offset, value
            for (u32 k = base; k + n <= o->size; k += stride)
            {
                if (k + stride <= lo && k + stride <= hi) { if (k + stride + n <= o->size) continue; }
                if (k > hi) break;
                u64 v = 0;
                for (unsigned i = 0; i < n; i++) v |= (u64)(o->b[k + i] & 0xff) << (8 * i);
                v &= mask(w);
                if (runs.empty() || runs.back().second != v) runs.push_back({k, v});
            }
            if (runs.empty()) throw PathUnsup{"empty table read"};
            Expr* e = mkConst(runs.back().second, w);
            for (int i = (int)runs.size() - 2; i >= 0; i--)
                e = mkIte(mkBin(OUlt, off, mkConst(runs[i + 1].first, 64)), mkConst(runs[i].second, w), e);
            return V(e);
        }
        u64 c = resolve(a, n, "read");
        return loadBytes(c, w);
    }
    std::string cstr(u64 a)
    {
        std::string r;
        for (u32 i = 0; i < 400; i++)
        {
            Val v = loadBytes(a + i, 8);
            u64 c = v.e ? evalExpr(v.e, s->model) : v.c;
            if (!c) break;
            r += (char)c;
        }
        return r;
    }

    void copyMem(u64 d, u64 src, u64 n, bool move)
    {
        if (!n) return;
        const Obj* so = chk(src, n, "read", false);
        chk(d, n, "write", true);
        if (!move && (d >> 32) == (src >> 32) && d != src && d < src + n && src < d + n) throw PathViol{"overlap", "memcpy with overlapping ranges"};
        u32 so_off = (u32)src, do_off = (u32)d;
        std::vector<uint16_t> tb(so->b.begin() + so_off, so->b.begin() + so_off + n);
        std::vector<Expr*> ts;
        if (!so->s.empty()) ts.assign(so->s.begin() + so_off, so->s.begin() + so_off + n);
        Obj* o = s->mem.wr(d >> 32);
        bool any = false;
        for (u64 i = 0; i < n; i++) { o->b[do_off + i] = tb[i]; any |= tb[i] == 0x200; }
        if (any)
        {
            if (o->s.empty()) o->s.resize(o->size, nullptr);
            for (u64 i = 0; i < n; i++) if (tb[i] == 0x200) o->s[do_off + i] = ts[i];
        }
    }

    // ---- register access
    Val rd(Frame& f, int i) { return i >= 0 ? f.r[i] : f.f->consts[-i - 1]; }
    Val rdk(Frame& f, int i, int k) { return i >= 0 ? f.r[i + k] : f.f->consts[-i - 1 + k]; }

    void jump(Frame& f, const Edge& e)
    {
        f.ip = e.ip;
        size_t n = e.copies.size();
        if (!n) return;
        if (n == 1) { f.r[e.copies[0][0]] = rd(f, e.copies[0][1]); return; }
        Val tmp[64];
        std::vector<Val> big;
        Val* t = tmp;
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) t[i] = rd(f, e.copies[i][1]);
        for (size_t i = 0; i < n; i++) f.r[e.copies[i][0]] = t[i];
    }

    Val bin(Op op, unsigned w, const Val& a, const Val& b)
    {
        if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem)
        {
            if (!b.e) { if (!b.c) throw PathViol{"divzero", "division by zero"}; }
            else
            {
                Model m;
                int r = feasible(mkBin(OEq, b.e, mkConst(0, w)), m);
                if (r == 1) { s->model = m; throw PathViol{"divzero", "division by zero"}; }
            }
        }
        if ((op == OShl || op == OLShr || op == OAShr) && !b.e && b.c >= w) throw PathViol{"shift", "shift amount not smaller than the operand width"};
        if ((op == OShl || op == OLShr || op == OAShr) && b.e && b.e->hi >= w)
        {
            Model m;
            int r = feasible(mkBin(OUle, mkConst(w, b.e->w), b.e), m);
            if (r == 1) { s->model = m; throw PathViol{"shift", "shift amount not smaller than the operand width"}; }
        }
        if (!a.e && !b.e)
        {
            bool ok;
            return C(foldBin(op, w, a.c, b.c, ok));
        }
        if ((op == OUDiv || op == OSDiv || op == OURem || op == OSRem) && !b.e && b.c > 1 && b.c < (1ULL << (w - 1))) return divide(op, w, X(a, w), b.c);
        return V(mkBin(op, X(a, w), X(b, w)));
    }
    bool impossible(Expr* c)
    {
        if (c->op == OConst) return !c->c;
        Model m;
        return feasible(c, m) == 0;
    }
    // Division by a constant above 1: unsigned and of the smallest width, where the path says so, so that equal values get equal terms
    Val divide(Op op, unsigned w, Expr* a, u64 c)
    {
        bool neg = false, isSigned = op == OSDiv || op == OSRem, rem = op == OURem || op == OSRem;
        u64 half = 1ULL << (w - 1);
        if (isSigned && a->hi >= half)
        {
            Expr* h = mkConst(half, w);
            if (!impossible(mkBin(OUle, h, a)))
            {
                if (!impossible(mkBin(OUlt, a, h))) return V(mkBin(op, a, mkConst(c, w)));
                neg = true;
                a = mkBin(OSub, mkConst(0, w), a);
            }
        }
        if (w == 64 && a->op != OZExt && a->op != OUDiv && a->op != OURem && c <= 0xFFFFFFFF)
        {
            auto it = s->divs.find(a->id);
            if (it == s->divs.end())
            {
                bool narrow = impossible(mkBin(OUlt, mkConst(0xFFFFFFFF, 64), a));
                it = s->divs.emplace(a->id, narrow ? mkZExt(mkExtract(a, 0, 32), 64) : a).first;
            }
            Expr* n = it->second;
            if (!neg && n != a) for (Val& v : s->st.back()->r) if (v.e == a) v = V(n);
            a = n;
        }
        Expr* r = mkBin(rem ? OURem : OUDiv, a, mkConst(c, w));
        if (neg) r = mkBin(OSub, mkConst(0, w), r);
        return V(r);
    }
    Val icmp(unsigned p, unsigned w, Val a, Val b)
    {
        Op op = OEq;
        bool sw = false, neg = false;
        switch (p)
        {
        case CmpInst::ICMP_EQ: op = OEq; break;
        case CmpInst::ICMP_NE: op = OEq; neg = true; break;
        case CmpInst::ICMP_ULT: op = OUlt; break;
        case CmpInst::ICMP_ULE: op = OUle; break;
        case CmpInst::ICMP_UGT: op = OUlt; sw = true; break;
        case CmpInst::ICMP_UGE: op = OUle; sw = true; break;
        case CmpInst::ICMP_SLT: op = OSlt; break;
        case CmpInst::ICMP_SLE: op = OSle; break;
        case CmpInst::ICMP_SGT: op = OSlt; sw = true; break;
        case CmpInst::ICMP_SGE: op = OSle; sw = true; break;
        }
        if (sw) std::swap(a, b);
        if (!a.e && !b.e)
        {
            bool ok;
            return C(foldBin(op, w, a.c, b.c, ok) ^ (neg ? 1 : 0));
        }
        Expr* e = mkBin(op, X(a, w), X(b, w));
        if (neg) e = mkNot(e);
        return V(e);
    }
    Val fcmp(unsigned p, unsigned w, const Val& a, const Val& b)
    {
        if (p == CmpInst::FCMP_FALSE) return C(0);
        if (p == CmpInst::FCMP_TRUE) return C(1);
        Expr *x = X(a, w), *y = X(b, w);
        Expr* uno = mkBin(OFUno, x, y);
        Expr *lt = mkBin(OFLt, x, y), *eq = mkBin(OFEq, x, y), *gt = mkBin(OFLt, y, x);
        Expr* r = mkConst(0, 1);
        // predicate bits: 1 eq, 2 gt, 4 lt, 8 unordered
        if ((p & 5) == 5) r = mkBin(OOr, r, mkBin(OFLe, x, y));
        else { if (p & 1) r = mkBin(OOr, r, eq); if (p & 4) r = mkBin(OOr, r, lt); }
        if (p & 2)
        {
            if (p & 1) r = mkBin(OOr, r, mkBin(OFLe, y, x)); else r = mkBin(OOr, r, gt);
        }
        if (p & 8) r = mkBin(OOr, r, uno);
        if ((p & 15) == 7) r = mkNot(uno);
        return V(r);
    }
    Val cast(unsigned k, unsigned w, unsigned w2, const Val& a)
    {
        Op op;
        switch (k)
        {
        case Instruction::Trunc: if (!a.e) return C(a.c & mask(w2)); return V(mkExtract(a.e, 0, w2));
        case Instruction::ZExt: if (!a.e) return a; return V(mkZExt(a.e, w2));
        case Instruction::SExt: if (!a.e) return C((u64)sx(a.c, w) & mask(w2)); return V(mkSExt(a.e, w2));
        case Instruction::SIToFP: op = OSI2F; break;
        case Instruction::UIToFP: op = OUI2F; break;
        case Instruction::FPToSI: op = OF2SI; break;
        case Instruction::FPToUI: op = OF2UI; break;
        case Instruction::FPExt: op = OFExt; break;
        case Instruction::FPTrunc: op = OFTrunc; break;
        default: throw PathUnsup{"cast"};
        }
        if (!a.e) return C(foldUn(op, w2, w, a.c, 0));
        return V(mkUn(op, w2, a.e));
    }

    // ---- calls
    void pushFrame(FuncInfo* f, const std::vector<std::vector<Val>>& args, u64 va)
    {
        getFunc(f);
        f->executed = true;
        if (s->st.size() > 4000) throw PathViol{"stack-overflow", "call depth exceeds 4000 frames"};
        auto n = std::make_shared<Frame>();
        n->f = f;
        n->r.resize(f->nregs);
        for (size_t i = 0; i < f->argSlot.size() && i < args.size(); i++)
            for (size_t k = 0; k < args[i].size(); k++) n->r[f->argSlot[i] + k] = args[i][k];
        n->va = va;
        s->st.push_back(n);
    }
    void advanceCall(Frame& f, const DI& d)
    {
        if (d.invoke) jump(f, d.edges[0]); else f.ip++;
    }
    void retVal(Frame& f, const DI& d, const Val& v)
    {
        if (d.dst >= 0) f.r[d.dst] = v;
        advanceCall(f, d);
    }

    // type info matching
    std::string tiName(u64 ti)
    {
        auto it = gname.find(ti);
        return it == gname.end() ? "" : it->second;
    }
    bool isBase(u64 ti, u64 target, int depth = 0)
    {
        if (ti == target) return true;
        if (depth > 8 || !ti) return false;
        std::string n = tiName(ti), t = tiName(target);
        static const std::map<std::string, std::string> stdBase = {
            {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
            {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
            {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
        if (!n.empty() && n == t) return true;
        auto sb = stdBase.find(n);
        std::string cur = n;
        while (sb != stdBase.end()) { if (sb->second == t) return true; sb = stdBase.find(sb->second); }
        const Obj* o = s->mem.get(ti >> 32);
        if (!o || o->size < 24) return false;
        u64 vt = loadBytes(ti, 64).c;
        std::string vn;
        for (u64 k : {vt, vt - 16}) if (gname.count(k)) vn = gname[k];
        if (vn.find("si_class_type_info") != std::string::npos) return isBase(loadBytes(ti + 16, 64).c, target, depth + 1);
        if (vn.find("vmi_class_type_info") != std::string::npos)
        {
            u32 n2 = (u32)loadBytes(ti + 20, 32).c;
            for (u32 i = 0; i < n2 && i < 16; i++) if (isBase(loadBytes(ti + 24 + 16 * i, 64).c, target, depth + 1)) return true;
        }
        return false;
    }
    bool clauseMatches(const DI& lp, u64 ti, u64& sel)
    {
        for (auto& c : lp.clauses)
        {
            if (c.first == 1) continue;
            if (c.second == 0 || isBase(ti, c.second))
            {
                sel = typeId(c.second);
                return true;
            }
        }
        return false;
    }
    u64 typeId(u64 ti)
    {
        auto it = typeIds.find(ti);
        if (it != typeIds.end()) return it->second;
        u32 n = typeIds.size() + 1;
        typeIds[ti] = n;
        return n;
    }
    void unwind(u64 obj, u64 ti)
    {
        // phase 1: is there a handler?
        bool found = false;
        for (int i = (int)s->st.size() - 1; i >= 0 && !found; i--)
        {
            Frame& f = *s->st[i];
            const DI& d = f.f->code[f.ip];
            if (d.op == D_CALL && d.invoke)
            {
                const DI& lp = f.f->code[d.edges[1].ip];
                u64 sel;
                if (clauseMatches(lp, ti, sel)) found = true;
            }
        }
        if (!found) throw PathViol{"terminate", "uncaught exception leads to std::terminate"};
        while (true)
        {
            if (s->st.empty()) throw PathViol{"terminate", "uncaught exception"};
            Frame& f = fr();
            const DI& d = f.f->code[f.ip];
            if (d.op == D_CALL && d.invoke)
            {
                const DI& lp = f.f->code[d.edges[1].ip];
                u64 sel = 0;
                bool m = clauseMatches(lp, ti, sel);
                if (m || lp.cleanup)
                {
                    jump(f, d.edges[1]);
                    f.r[lp.dst] = C(obj);
                    f.r[lp.dst + 1] = C(m ? sel : 0);
                    f.ip++;
                    return;
                }
            }
            popFrame();
        }
    }
    void popFrame()
    {
        Frame& f = *s->st.back();
        std::vector<u32> al = f.allocas;
        s->st.pop_back();
        for (u32 a : al) freeObj(a);
    }

    void endPath()
    {
        // leak check
        if (optLeak)
        for (u32 i = 1; i < s->mem.n; i++)
        {
            const Obj* o = s->mem.get(i);
            if (o && !o->freed && (o->kind == KMalloc || o->kind == KNew || o->kind == KNewArr || o->kind == KExc))
            {
                char buf[160];
                snprintf(buf, 160, "%u-byte %s block still allocated at the end", o->size, kindName[o->kind]);
                throw PathViol{"leak", buf};
            }
        }
        throw PathEnd{};
    }

    void freeCheck(u64 p, ObjKind k)
    {
        u32 id = p >> 32;
        const Obj* o = s->mem.get(id);
        if (!o || id == 0 || (o->kind != KMalloc && o->kind != KNew && o->kind != KNewArr)) throw PathViol{"badfree", "release of memory that is not a heap block"};
        if (o->freed) throw PathViol{"double-free", std::string("double release of a ") + kindName[o->kind] + " block"};
        if ((u32)p != 0) throw PathViol{"badfree", "release of a pointer into the middle of a block"};
        if (o->kind != k) throw PathViol{"free-mismatch", std::string("block obtained by ") + kindName[o->kind] + " released as " + kindName[k]};
        freeObj(id);
    }

    Val dec2double(u64 p, u64 n);
    Val dec2double1(std::vector<Expr*> ch);

    void doBuiltin(int b, Frame& f, const DI& d)
    {
        auto A = [&](int i) { return rd(f, d.args[i]); };
        auto P = [&](int i) { return concretize(rd(f, d.args[i]), d.argw[i][0]); }; // scalar or pointer argument, concrete
        switch (b)
        {
        case B_symbolic:
        {
            u64 n = concretize(A(1), 64);
            u64 p = P(0);
            std::string name = cstr(P(2));
            chk(p, n, "write", true);
            Obj* o = s->mem.wr(p >> 32);
            if (o->s.empty()) o->s.resize(o->size, nullptr);
            s->log.push_back({name, s->nsym, (u32)n});
            for (u64 i = 0; i < n; i++)
            {
                Expr* e = mkSym(s->nsym++, 8);
                o->b[(u32)p + i] = 0x200;
                o->s[(u32)p + i] = e;
            }
            s->model.v.resize(s->nsym, 0);
            retVal(f, d, C(0));
            return;
        }
        case B_assume:
        {
            ST.assumes++;
            Val c = A(0);
            if (!c.e) { if (!c.c) { ST.infeasible++; throw PathDead{}; } retVal(f, d, C(0)); return; }
            Expr* e = mkNot(mkBin(OEq, c.e, mkConst(0, c.e->w)));
            Model m;
            int r = feasible(e, m);
            if (r < 0) throw PathUnsup{"solver unknown (assume)"};
            if (r == 0) { ST.infeasible++; throw PathDead{}; }
            s->model = m;
            addPc(e);
            retVal(f, d, C(0));
            return;
        }
        case B_assert:
        {
            ST.asserts++;
            Val c = A(0);
            std::string msg;
            if (!c.e)
            {
                if (!c.c) throw PathViol{"assert", cstr(P(1))};
                retVal(f, d, C(0));
                return;
            }
            ST.assertsSym++;
            checkUndef(c.e);
            Expr* bad = mkBin(OEq, c.e, mkConst(0, c.e->w));
            Model m;
            int r = feasible(bad, m);
            if (r < 0) throw PathUnsup{"solver unknown (assert " + cstr(P(1)) + ")"};
            if (r == 1) { s->model = m; addPc(bad); throw PathViol{"assert", cstr(P(1))}; }
            retVal(f, d, C(0));
            return;
        }
        case B_reach: reached[cstr(P(0))]++; retVal(f, d, C(0)); return;
        case B_observe:
        {
            Val v = A(0);
            s->obsE.push_back({X(v, 64), 0});
            retVal(f, d, C(0));
            return;
        }
        case B_alloc:
        {
            u64 n = concretize(A(0), 64);
            u64 k = P(1);
            retVal(f, d, C(newObj(n, k == 0 ? KMalloc : k == 1 ? KNew : KNewArr)));
            return;
        }
        case B_free:
        {
            u64 p = concretize(A(0), 64);
            u64 k = P(1);
            if (p) freeCheck(p, k == 0 ? KMalloc : k == 1 ? KNew : KNewArr);
            retVal(f, d, C(0));
            return;
        }
        case B_objsize:
            retVal(f, d, C(0));
            return;
        case B_concrete:
        {
            u64 v = concretize(A(0), 64);
            retVal(f, d, C(v));
            return;
        }
        case B_isconc: retVal(f, d, C(A(0).e ? 0 : 1)); return;
        case B_dec2double:
        {
            u64 n = concretize(A(1), 64);
            Val v = dec2double(P(0), n);
            retVal(f, d, v);
            return;
        }
        case B_regdec: // void vf_register_decimal(const char* p, size_t n, u64 bits)
        {
            u64 n = concretize(A(1), 64);
            std::vector<Expr*> ch;
            for (u64 i = 0; i < n; i++) ch.push_back(X(loadBytes(P(0) + i, 8), 8));
            s->decs.push_back({ch, X(A(2), 64)});
            retVal(f, d, C(0));
            return;
        }
        case B_hostfmt: // int vf_host_fmt(char* buf, size_t n, const char* fmt, int prec, u64 bits, int is_double)
        {
            u64 p = P(0), n = P(1);
            std::string fmt = cstr(P(2));
            char buf[512];
            int r;
            if (P(5)) { double x = asD(P(4)); r = snprintf(buf, sizeof buf, fmt.c_str(), (int)P(3), x); }
            else r = snprintf(buf, sizeof buf, fmt.c_str(), (int)P(3), (long long)P(4));
            for (u64 i = 0; i < n && i <= (u64)r; i++) storeBytes(p + i, C((uint8_t)buf[i]), 8);
            retVal(f, d, C((u32)r));
            return;
        }
        case B_cxa_alloc: retVal(f, d, C(newObj(P(0), KExc))); return;
        case B_cxa_free:
        {
            u32 id = P(0) >> 32;
            freeObj(id);
            retVal(f, d, C(0));
            return;
        }
        case B_cxa_throw:
        {
            u64 o = P(0), ti = P(1), dt = P(2);
            s->excs[o] = Exc{o, ti, dt, 0, false};
            unwind(o, ti);
            return;
        }
        case B_cxa_begin:
        {
            u64 o = P(0);
            Exc& e = s->excs[o];
            e.handlers++;
            e.rethrown = false;
            s->caught.push_back(e);
            retVal(f, d, C(o));
            return;
        }
        case B_cxa_getptr: retVal(f, d, A(0)); return;
        case B_cxa_end:
        {
            if (s->caught.empty()) throw PathViol{"terminate", "__cxa_end_catch without exception"};
            u64 o = s->caught.back().obj;
            s->caught.pop_back();
            Exc& e = s->excs[o];
            e.handlers--;
            advanceCall(f, d);
            if (e.handlers == 0 && !e.rethrown)
            {
                u64 dt = e.dtor;
                s->excs.erase(o);
                auto it = faddr.find(dt);
                if (dt && it != faddr.end() && !it->second->F->isDeclaration())
                {
                    pushFrame(it->second, {{C(o)}}, 0);
                    s->st.back()->special = 1;
                    s->st.back()->va = o;
                }
                else freeObj(o >> 32);
            }
            return;
        }
        case B_cxa_rethrow:
        {
            if (s->caught.empty()) throw PathViol{"terminate", "rethrow without exception"};
            u64 o = s->caught.back().obj;
            s->excs[o].rethrown = true;
            unwind(o, s->excs[o].ti);
            return;
        }
        case B_terminate: throw PathViol{"terminate", "std::terminate called"};
        case B_abort: throw PathViol{"abort", "abort called"};
        case B_purevirt: throw PathViol{"purevirtual", "pure virtual call"};
        case B_atexit: retVal(f, d, C(0)); return;
        case B_guard_acq:
        {
            Val v = loadBytes(P(0), 8);
            retVal(f, d, C(v.c ? 0 : 1));
            return;
        }
        case B_guard_rel: storeBytes(P(0), C(1), 8); retVal(f, d, C(0)); return;
        case B_memcpy: case B_memmove:
        {
            u64 n = concretize(A(2), 64);
            if (!n) { retVal(f, d, A(0)); return; }
            u64 dst = resolve(A(0), n, "write"), src = resolve(A(1), n, "read");
            copyMem(dst, src, n, b == B_memmove);
            retVal(f, d, C(dst));
            return;
        }
        case B_memset:
        {
            u64 n = concretize(A(2), 64);
            if (!n) { retVal(f, d, A(0)); return; }
            u64 dst = resolve(A(0), n, "write");
            Val v = A(1);
            if (v.e) v = V(mkExtract(v.e, 0, 8)); else v.c &= 0xff;
            chk(dst, n, "write", true);
            Obj* o = s->mem.wr(dst >> 32);
            for (u64 i = 0; i < n; i++)
            {
                if (!v.e) o->b[(u32)dst + i] = (uint16_t)v.c;
                else
                {
                    if (o->s.empty()) o->s.resize(o->size, nullptr);
                    o->b[(u32)dst + i] = 0x200;
                    o->s[(u32)dst + i] = v.e;
                }
            }
            retVal(f, d, C(dst));
            return;
        }
        case B_end: endPath();
        case B_fail: throw PathViol{"fail", cstr(P(0))};
        case B_print:
            fprintf(stderr, "vf_print: %s %s\n", cstr(P(0)).c_str(), A(1).e ? (exprStr(A(1).e) + " = " + std::to_string(evalExpr(A(1).e, s->model))).c_str() : std::to_string(P(1)).c_str());
            retVal(f, d, C(0));
            return;
        case B_sqrt: retVal(f, d, V(mkUn(OFSqrt, 64, X(A(0), 64)))); return;
        case B_floor: retVal(f, d, V(mkUn(OFRound, 64, X(A(0), 64), 1))); return;
        case B_ceil: retVal(f, d, V(mkUn(OFRound, 64, X(A(0), 64), 2))); return;
        case B_trunc: retVal(f, d, V(mkUn(OFRound, 64, X(A(0), 64), 3))); return;
        case B_rint: retVal(f, d, V(mkUn(OFRound, 64, X(A(0), 64), 0))); return;
        case B_round: retVal(f, d, V(mkUn(OFRound, 64, X(A(0), 64), 4))); return;
        case B_fabs: retVal(f, d, V(mkBin(OAnd, X(A(0), 64), mkConst(~(1ULL << 63), 64)))); return;
        case B_dyncast:
        {
            // ptr, src type, dst type, hint : single-inheritance style down-cast
            u64 p = P(0);
            if (!p) { retVal(f, d, C(0)); return; }
            u64 vt = loadBytes(p, 64).c;
            i64 top = (i64)loadBytes(vt - 16, 64).c;
            u64 ti = loadBytes(vt - 8, 64).c;
            u64 whole = p + top;
            i64 off = 0;
            if (findBase(ti, P(2), 0, off)) retVal(f, d, C(whole + off)); else retVal(f, d, C(0));
            return;
        }
        case B_nop: case B_nop0: retVal(f, d, C(0)); return;
        }
        throw PathUnsup{"builtin"};
    }
    bool findBase(u64 ti, u64 target, i64 off, i64& res)
    {
        if (ti == target) { res = off; return true; }
        const Obj* o = s->mem.get(ti >> 32);
        if (!o || o->size < 24) return false;
        u64 vt = loadBytes(ti, 64).c;
        std::string vn;
        for (u64 k : {vt, vt - 16}) if (gname.count(k)) vn = gname[k];
        if (vn.find("vmi_class") != std::string::npos)
        {
            u32 n2 = (u32)loadBytes(ti + 20, 32).c;
            for (u32 i = 0; i < n2 && i < 16; i++)
            {
                u64 fl = loadBytes(ti + 32 + 16 * i, 64).c;
                if (findBase(loadBytes(ti + 24 + 16 * i, 64).c, target, off + ((i64)fl >> 8), res)) return true;
            }
            return false;
        }
        if (vn.find("si_class") != std::string::npos) return findBase(loadBytes(ti + 16, 64).c, target, off, res);
        return false;
    }

    void doIntrinsic(Frame& f, const DI& d)
    {
        auto A = [&](int i) { return rd(f, d.args[i]); };
        auto W = [&](int i) -> unsigned { return d.argw[i][0]; };
        Intrinsic::ID id = d.callee->getIntrinsicID();
        auto each = [&](auto fn) {
            for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = fn(k);
            advanceCall(f, d);
        };
        switch (id)
        {
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove:
        {
            u64 n = concretize(A(2), 64);
            if (n)
            {
                u64 dst = resolve(A(0), n, "write"), src = resolve(A(1), n, "read");
                copyMem(dst, src, n, true);
            }
            advanceCall(f, d);
            return;
        }
        case Intrinsic::memset: doBuiltin(B_memset, f, d); return;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start:
        case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::prefetch:
        case Intrinsic::dbg_assign: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
            if (d.dst >= 0) f.r[d.dst] = C(0);
            advanceCall(f, d);
            return;
        case Intrinsic::stacksave: retVal(f, d, C(0)); return;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation:
            retVal(f, d, A(0));
            return;
        case Intrinsic::is_constant: retVal(f, d, C(0)); return;
        case Intrinsic::objectsize: retVal(f, d, C(A(1).c ? 0 : ~0ULL)); return;
        case Intrinsic::trap: case Intrinsic::ubsantrap: throw PathViol{"trap", "trap executed"};
        case Intrinsic::eh_typeid_for: retVal(f, d, C(typeId(A(0).c))); return;
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
            each([&](u32 k) {
                Val x = rdk(f, d.args[0], k), y = rdk(f, d.args[1], k);
                unsigned p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
                Val c = icmp(p, W(0), x, y);
                if (!c.e) return c.c ? x : y;
                return V(mkIte(c.e, X(x, W(0)), X(y, W(0))));
            });
            return;
        case Intrinsic::abs:
            each([&](u32 k) {
                Val x = rdk(f, d.args[0], k);
                Val c = icmp(CmpInst::ICMP_SLT, W(0), x, C(0));
                Val ng = bin(OSub, W(0), C(0), x);
                if (!c.e) return c.c ? ng : x;
                return V(mkIte(c.e, X(ng, W(0)), X(x, W(0))));
            });
            return;
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
        {
            unsigned w = W(0);
            Val x = A(0), y = A(1), r, o;
            bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
            Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? OAdd : mul ? OMul : OSub;
            r = bin(op, w, x, y);
            if (!x.e && !y.e)
            {
                __int128 a, b2, t;
                bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
                a = sg ? (__int128)sx(x.c, w) : (__int128)x.c;
                b2 = sg ? (__int128)sx(y.c, w) : (__int128)y.c;
                if (mul && !sg)
                {
                    unsigned __int128 u = (unsigned __int128)x.c * y.c;
                    o = C(u > mask(w));
                }
                else
                {
                    t = op == OAdd ? a + b2 : op == OSub ? a - b2 : a * b2;
                    o = C(sg ? t != (__int128)sx((u64)t & mask(w), w) : (t < 0 || t > (__int128)mask(w)));
                }
            }
            else if (mul)
            {
                if (w > 32 && !(X(x, w)->hi < (1ULL << 32) && X(y, w)->hi < (1ULL << 32) && id == Intrinsic::umul_with_overflow))
                {
                    // division based check with a concrete factor
                    if (id == Intrinsic::umul_with_overflow && (!x.e || !y.e))
                    {
                        u64 k = x.e ? y.c : x.c;
                        Expr* v = x.e ? x.e : y.e;
                        o = k ? V(mkBin(OUlt, mkConst(mask(w) / k, w), v)) : C(0);
                    }
                    else throw PathUnsup{"symbolic multiplication overflow"};
                }
                else if (id == Intrinsic::umul_with_overflow)
                {
                    if (w > 32) o = C(0);
                    else o = V(mkNot(mkBin(OEq, mkBin(OMul, mkZExt(X(x, w), 2 * w), mkZExt(X(y, w), 2 * w)), mkZExt(X(r, w), 2 * w))));
                }
                else o = V(mkNot(mkBin(OEq, mkBin(OMul, mkSExt(X(x, w), 2 * w), mkSExt(X(y, w), 2 * w)), mkSExt(X(r, w), 2 * w))));
            }
            else if (id == Intrinsic::uadd_with_overflow) o = V(mkBin(OUlt, X(r, w), X(x, w)));
            else if (id == Intrinsic::usub_with_overflow) o = V(mkBin(OUlt, X(x, w), X(y, w)));
            else
            {
                Expr *xn = mkBin(OSlt, X(x, w), mkConst(0, w)), *yn = mkBin(OSlt, X(y, w), mkConst(0, w)), *rn = mkBin(OSlt, X(r, w), mkConst(0, w));
                if (id == Intrinsic::sadd_with_overflow) o = V(mkBin(OAnd, mkBin(OEq, xn, yn), mkBin(OXor, xn, rn)));
                else o = V(mkBin(OAnd, mkBin(OXor, xn, yn), mkBin(OXor, xn, rn)));
            }
            f.r[d.dst] = r;
            f.r[d.dst + 1] = o;
            advanceCall(f, d);
            return;
        }
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat:
            each([&](u32 k) {
                unsigned w = W(0);
                Expr *x = X(rdk(f, d.args[0], k), w), *y = X(rdk(f, d.args[1], k), w);
                if (id == Intrinsic::usub_sat) return V(mkIte(mkBin(OUlt, x, y), mkConst(0, w), mkBin(OSub, x, y)));
                Expr* r = mkBin(OAdd, x, y);
                return V(mkIte(mkBin(OUlt, r, x), mkConst(mask(w), w), r));
            });
            return;
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap:
            each([&](u32 k) {
                unsigned w = W(0);
                Val x = rdk(f, d.args[0], k);
                if (!x.e)
                {
                    u64 v = x.c;
                    if (id == Intrinsic::ctpop) return C(__builtin_popcountll(v));
                    if (id == Intrinsic::ctlz) return C(v ? w - (64 - __builtin_clzll(v)) : w);
                    if (id == Intrinsic::cttz) return C(v ? __builtin_ctzll(v) : w);
                    u64 r = 0;
                    for (unsigned i = 0; i < w / 8; i++) r |= ((v >> (8 * i)) & 0xff) << (w - 8 - 8 * i);
                    return C(r);
                }
                Expr* e = x.e;
                if (id == Intrinsic::bswap)
                {
                    Expr* r = mkExtract(e, 0, 8);
                    for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(e, 8 * i, 8));
                    return V(r);
                }
                if (id == Intrinsic::ctpop)
                {
                    Expr* r = mkConst(0, w);
                    for (unsigned i = 0; i < w; i++) r = mkBin(OAdd, r, mkZExt(mkExtract(e, i, 1), w));
                    return V(r);
                }
                Expr* r = mkConst(w, w);
                for (unsigned i = 0; i < w; i++)
                {
                    unsigned bit = id == Intrinsic::ctlz ? i : w - 1 - i;
                    r = mkIte(mkExtract(e, bit, 1), mkConst(id == Intrinsic::ctlz ? w - 1 - bit : bit, w), r);
                }
                return V(r);
            });
            return;
        case Intrinsic::fshl: case Intrinsic::fshr:
            each([&](u32 k) {
                unsigned w = W(0);
                Val sh = rdk(f, d.args[2], k);
                u64 n = concretize(sh, w) % w;
                Expr *x = X(rdk(f, d.args[0], k), w), *y = X(rdk(f, d.args[1], k), w);
                if (id == Intrinsic::fshr) n = (w - n) % w, n = n ? n : w;
                if (n == w) return V(y);
                if (!n) return V(x);
                return V(mkConcat(mkExtract(x, 0, w - n), mkExtract(y, w - n, n)));
            });
            return;
        case Intrinsic::fabs:
            each([&](u32 k) { unsigned w = W(0); return bin(OAnd, w, rdk(f, d.args[0], k), C(mask(w - 1))); });
            return;
        case Intrinsic::copysign:
            each([&](u32 k) {
                unsigned w = W(0);
                Val m = bin(OAnd, w, rdk(f, d.args[0], k), C(mask(w - 1)));
                Val g = bin(OAnd, w, rdk(f, d.args[1], k), C(1ULL << (w - 1)));
                return bin(OOr, w, m, g);
            });
            return;
        case Intrinsic::sqrt: each([&](u32 k) { return V(mkUn(OFSqrt, W(0), X(rdk(f, d.args[0], k), W(0)))); }); return;
        case Intrinsic::floor: each([&](u32 k) { return V(mkUn(OFRound, W(0), X(rdk(f, d.args[0], k), W(0)), 1)); }); return;
        case Intrinsic::ceil: each([&](u32 k) { return V(mkUn(OFRound, W(0), X(rdk(f, d.args[0], k), W(0)), 2)); }); return;
        case Intrinsic::trunc: each([&](u32 k) { return V(mkUn(OFRound, W(0), X(rdk(f, d.args[0], k), W(0)), 3)); }); return;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: each([&](u32 k) { return V(mkUn(OFRound, W(0), X(rdk(f, d.args[0], k), W(0)), 0)); }); return;
        case Intrinsic::round: each([&](u32 k) { return V(mkUn(OFRound, W(0), X(rdk(f, d.args[0], k), W(0)), 4)); }); return;
        case Intrinsic::fmuladd:
            each([&](u32 k) { unsigned w = W(0); Expr* p = mkBin(OFMul, X(rdk(f, d.args[0], k), w), X(rdk(f, d.args[1], k), w)); return V(mkBin(OFAdd, p, X(rdk(f, d.args[2], k), w))); });
            return;
        case Intrinsic::minnum: case Intrinsic::maxnum:
            each([&](u32 k) {
                unsigned w = W(0);
                Expr *x = X(rdk(f, d.args[0], k), w), *y = X(rdk(f, d.args[1], k), w);
                Expr* c = id == Intrinsic::minnum ? mkBin(OFLt, x, y) : mkBin(OFLt, y, x);
                return V(mkIte(mkBin(OFUno, x, x), y, mkIte(mkBin(OFUno, y, y), x, mkIte(c, x, y))));
            });
            return;
        case Intrinsic::is_fpclass:
        {
            unsigned w = W(0);
            u64 t = A(1).c;
            Expr* x = X(A(0), w);
            unsigned mb = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8;
            Expr *mant = mkExtract(x, 0, mb), *ex = mkExtract(x, mb, eb), *sg = mkExtract(x, w - 1, 1);
            Expr *e1 = mkBin(OEq, ex, mkConst(mask(eb), eb)), *e0 = mkBin(OEq, ex, mkConst(0, eb)), *m0 = mkBin(OEq, mant, mkConst(0, mb));
            Expr* r = mkConst(0, 1);
            auto add = [&](Expr* c) { r = mkBin(OOr, r, c); };
            Expr *ng = sg, *ps = mkNot(sg);
            if (t & 3) add(mkBin(OAnd, e1, mkNot(m0)));
            if (t & 4) add(mkBin(OAnd, ng, mkBin(OAnd, e1, m0)));
            if (t & 8) add(mkBin(OAnd, ng, mkBin(OAnd, mkNot(e1), mkNot(e0))));
            if (t & 16) add(mkBin(OAnd, ng, mkBin(OAnd, e0, mkNot(m0))));
            if (t & 32) add(mkBin(OAnd, ng, mkBin(OAnd, e0, m0)));
            if (t & 64) add(mkBin(OAnd, ps, mkBin(OAnd, e0, m0)));
            if (t & 128) add(mkBin(OAnd, ps, mkBin(OAnd, e0, mkNot(m0))));
            if (t & 256) add(mkBin(OAnd, ps, mkBin(OAnd, mkNot(e1), mkNot(e0))));
            if (t & 512) add(mkBin(OAnd, ps, mkBin(OAnd, e1, m0)));
            retVal(f, d, V(r));
            return;
        }
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor:
        {
            unsigned w = d.argw[0][0];
            Val r = rdk(f, d.args[0], 0);
            Op op = id == Intrinsic::vector_reduce_add ? OAdd : id == Intrinsic::vector_reduce_or ? OOr : id == Intrinsic::vector_reduce_and ? OAnd : OXor;
            for (u32 k = 1; k < d.argw[0].size(); k++) r = bin(op, w, r, rdk(f, d.args[0], k));
            retVal(f, d, r);
            return;
        }
        case Intrinsic::vastart:
        {
            u64 p = A(0).c;
            storeBytes(p, C(48), 32);
            storeBytes(p + 4, C(176), 32);
            storeBytes(p + 8, C(f.va), 64);
            storeBytes(p + 16, C(0), 64);
            advanceCall(f, d);
            return;
        }
        case Intrinsic::vacopy: copyMem(concretize(A(0), 64), concretize(A(1), 64), 24, true); advanceCall(f, d); return;
        default:
        {
            std::string n = d.callee->getName().str();
            if (doTarget(n, f, d)) return;
            throw PathUnsup{"intrinsic " + n};
        }
        }
    }
    bool doTarget(const std::string& n, Frame& f, const DI& d)
    {
        // a few SSE intrinsics
        auto lane = [&](int a, u32 k) { return rdk(f, d.args[a], k); };
        if (n == "llvm.x86.sse.min.ss" || n == "llvm.x86.sse.max.ss" || n == "llvm.x86.sse.min.ps" || n == "llvm.x86.sse.max.ps")
        {
            bool mn = n.find("min") != std::string::npos, ps = n.back() == 's' && n[n.size() - 2] == 'p';
            for (u32 k = 0; k < 4; k++)
            {
                Val x = lane(0, k);
                if (k == 0 || ps)
                {
                    Expr *a = X(x, 32), *b = X(lane(1, k), 32);
                    f.r[d.dst + k] = V(mkIte(mn ? mkBin(OFLt, a, b) : mkBin(OFLt, b, a), a, b));
                }
                else f.r[d.dst + k] = x;
            }
            advanceCall(f, d);
            return true;
        }
        if (n == "llvm.x86.sse.cvttss2si" || n == "llvm.x86.sse.cvtss2si")
        {
            Expr* x = X(lane(0, 0), 32);
            if (n == "llvm.x86.sse.cvtss2si") x = mkUn(OFRound, 32, x, 0);
            Expr* lo = mkBin(OFLe, mkConst(fromF(-2147483648.0f), 32), x);
            Expr* hi = mkBin(OFLt, x, mkConst(fromF(2147483648.0f), 32));
            f.r[d.dst] = V(mkIte(mkBin(OAnd, lo, hi), mkUn(OF2SI, 32, x), mkConst(0x80000000u, 32)));
            advanceCall(f, d);
            return true;
        }
        if (n == "llvm.x86.sse2.cvttps2dq" || n == "llvm.x86.sse2.cvtps2dq")
        {
            for (u32 k = 0; k < 4; k++)
            {
                Expr* x = X(lane(0, k), 32);
                if (n == "llvm.x86.sse2.cvtps2dq") x = mkUn(OFRound, 32, x, 0);
                Expr* lo = mkBin(OFLe, mkConst(fromF(-2147483648.0f), 32), x);
                Expr* hi = mkBin(OFLt, x, mkConst(fromF(2147483648.0f), 32));
                f.r[d.dst + k] = V(mkIte(mkBin(OAnd, lo, hi), mkUn(OF2SI, 32, x), mkConst(0x80000000u, 32)));
            }
            advanceCall(f, d);
            return true;
        }
        if (n == "llvm.x86.sse.movmsk.ps")
        {
            Expr* r = mkConst(0, 28);
            for (int k = 3; k >= 0; k--) r = mkConcat(r, mkExtract(X(lane(0, k), 32), 31, 1));
            f.r[d.dst] = V(r);
            advanceCall(f, d);
            return true;
        }
        if (n.rfind("llvm.x86.sse.comi", 0) == 0 || n.rfind("llvm.x86.sse.ucomi", 0) == 0)
        {
            Val x = lane(0, 0), y = lane(1, 0);
            std::string o = n.substr(n.find("comi") + 4, 2);
            unsigned p = o == "eq" ? CmpInst::FCMP_OEQ : o == "lt" ? CmpInst::FCMP_OLT : o == "le" ? CmpInst::FCMP_OLE : o == "gt" ? CmpInst::FCMP_OGT : o == "ge" ? CmpInst::FCMP_OGE : CmpInst::FCMP_UNE;
            f.r[d.dst] = V(mkZExt(X(fcmp(p, 32, x, y), 1), 32));
            advanceCall(f, d);
            return true;
        }
        if (n.rfind("llvm.x86.sse2.packss", 0) == 0 || n.rfind("llvm.x86.sse2.packus", 0) == 0)
        {
            bool us = n.find("packus") != std::string::npos;
            unsigned w = n.find("dw.128") != std::string::npos ? 32 : 16, h = w / 2, cnt = 128 / w;
            int64_t lo = us ? 0 : -(1LL << (h - 1)), hi = us ? (1LL << h) - 1 : (1LL << (h - 1)) - 1;
            std::vector<Val> out;
            for (int a = 0; a < 2; a++)
                for (u32 k = 0; k < cnt; k++)
                {
                    Expr* x = X(lane(a, k), w);
                    Expr *l = mkConst((u64)lo & mask(w), w), *u = mkConst((u64)hi & mask(w), w);
                    Expr* r = mkIte(mkBin(OSlt, x, l), l, mkIte(mkBin(OSlt, u, x), u, x));
                    out.push_back(V(mkExtract(r, 0, h)));
                }
            for (u32 k = 0; k < out.size(); k++) f.r[d.dst + k] = out[k];
            advanceCall(f, d);
            return true;
        }
        if (n == "llvm.x86.sse.cmp.ss" || n == "llvm.x86.sse.cmp.ps")
        {
            static const unsigned P[8] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD};
            unsigned p = P[lane(2, 0).c & 7];
            for (u32 k = 0; k < 4; k++)
                f.r[d.dst + k] = k == 0 || n.back() != 's' || n[n.size() - 2] == 'p' ? V(mkSExt(X(fcmp(p, 32, lane(0, k), lane(1, k)), 1), 32)) : lane(0, k);
            advanceCall(f, d);
            return true;
        }
        return false;
    }

    void call(Frame& f, const DI& d)
    {
        if (d.builtin >= 0) { doBuiltin(d.builtin, f, d); return; }
        FuncInfo* t = d.fi;
        if (d.callee && d.callee->isIntrinsic()) { doIntrinsic(f, d); return; }
        if (!d.callee)
        {
            u64 a = concretize(rd(f, d.a), 64);
            auto it = faddr.find(a);
            if (it == faddr.end())
            {
                if (a == 0) throw PathViol{"nullcall", "call through a null pointer"};
                throw PathViol{"badcall", "call through a pointer that is not a function"};
            }
            t = it->second;
            auto bi = builtins.find(t->F->getName().str());
            if (bi != builtins.end()) { doBuiltin(bi->second, f, d); return; }
        }
        if (!t || t->F->isDeclaration())
        {
            std::string n = (t ? t->F : d.callee)->getName().str();
            // destructors of standard exception classes and the like carry no state we track
            if (n.find("_ZNSt9bad_alloc") == 0 || n.find("_ZNSt9exception") == 0 || n.find("_ZNSt12length_error") == 0 || n.find("_ZNSt11logic_error") == 0 ||
                n.find("_ZNSt13runtime_error") == 0 || n.find("_ZNSt12out_of_range") == 0 || n.find("_ZNSt16invalid_argument") == 0 || n.find("_ZNSt8ios_base4Init") == 0)
            { retVal(f, d, C(0)); return; }
            throw PathUnsup{"external function " + n};
        }
        std::vector<std::vector<Val>> args;
        std::vector<u64> bv;
        size_t np = t->F->arg_size();
        for (size_t i = 0; i < d.args.size() && i < np; i++)
        {
            std::vector<Val> v;
            for (size_t k = 0; k < d.argw[i].size(); k++) v.push_back(rdk(f, d.args[i], k));
            if (d.byval[i])
            {
                u64 o = newObj(d.byval[i], KStack);
                copyMem(o, v[0].c, d.byval[i], true);
                v[0] = C(o);
                bv.push_back(o >> 32);
            }
            args.push_back(v);
        }
        u64 va = 0;
        if (t->F->isVarArg())
        {
            u64 n = d.args.size() - np;
            va = newObj(std::max<u64>(8, n * 8), KStack);
            for (size_t i = np; i < d.args.size(); i++)
                for (size_t k = 0; k < d.argw[i].size() && k < 1; k++)
                {
                    Val v = rdk(f, d.args[i], k);
                    if (v.e && v.e->w < 64) v = V(mkZExt(v.e, 64));
                    storeBytes(va + (i - np) * 8, v, 64);
                }
            bv.push_back(va >> 32);
        }
        pushFrame(t, args, va);
        Frame& nf = fr();
        for (u64 b : bv) nf.allocas.push_back(b);
    }

    void doRet(Frame& f, const DI& d)
    {
        std::vector<Val> v;
        for (u32 k = 0; k < d.n; k++) v.push_back(rdk(f, d.a, k));
        int special = f.special;
        u64 va = f.va;
        popFrame();
        if (s->st.empty()) endPath();
        if (special == 1) { freeObj(va >> 32); return; }
        if (special == 2) return;
        Frame& c = fr();
        const DI& cd = c.f->code[c.ip];
        for (u32 k = 0; k < v.size() && cd.dst >= 0; k++) c.r[cd.dst + k] = v[k];
        advanceCall(c, cd);
    }

    void step();
    // run until the path ends (exception) or a fork happened (BFS mode)
    void run(bool bfs)
    {
        size_t base = out->size();
        u64 chk = 0;
        while (true)
        {
            step();
            if (bfs && out->size() > base) return;
            if ((++chk & 0x3fff) == 0)
            {
                if (now() > deadline) { timedOut = true; throw PathUnsup{"time limit"}; }
                if (shared_ && shared_->stop.load()) throw PathUnsup{"stopped"};
            }
        }
    }
};

void Exec::step()
{
    Frame& f = fr();
    const DI& d = f.f->code[f.ip];
    ST.insts++;
    if (++s->icount > optMaxInst) throw PathViol{"nontermination", "instruction limit per path exceeded"};
    switch (d.op)
    {
    case D_NOP: f.ip++; if (d.dst >= 0) f.r[d.dst] = C(0); return;
    case D_BIN:
        for (u32 k = 0; k < d.n; k++)
        {
            Val v = bin((Op)d.sub, d.w, rdk(f, d.a, k), rdk(f, d.b, k));
            f.r[d.dst + k] = v;
        }
        f.ip++;
        return;
    case D_FNEG:
        for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = bin(OXor, d.w, rdk(f, d.a, k), C(1ULL << (d.w - 1)));
        f.ip++;
        return;
    case D_ICMP:
        for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = icmp(d.sub, d.w, rdk(f, d.a, k), rdk(f, d.b, k));
        f.ip++;
        return;
    case D_FCMP:
        for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = fcmp(d.sub, d.w, rdk(f, d.a, k), rdk(f, d.b, k));
        f.ip++;
        return;
    case D_CAST:
        for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = cast(d.sub, d.w, d.w2, rdk(f, d.a, k));
        f.ip++;
        return;
    case D_COPY:
        for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = rdk(f, d.a, k);
        f.ip++;
        return;
    case D_INSERT:
    {
        std::vector<Val> t;
        for (u32 k = 0; k < d.n; k++) t.push_back(rdk(f, d.a, k));
        for (int k = 0; k < d.c; k++) t[d.imm + k] = rdk(f, d.b, k);
        for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = t[k];
        f.ip++;
        return;
    }
    case D_SHUF:
    {
        std::vector<Val> t;
        for (u32 k = 0; k < d.n; k++)
        {
            int m = d.args[k];
            if (m < 0) t.push_back(C(0));
            else if ((u64)m < d.imm) t.push_back(rdk(f, d.a, m));
            else t.push_back(rdk(f, d.b, m - d.imm));
        }
        for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = t[k];
        f.ip++;
        return;
    }
    case D_BITCAST:
    {
        // flatten to bits, then regroup
        std::vector<std::pair<Expr*, unsigned>> parts;
        std::vector<Expr*> bits8;
        for (u32 k = 0; k < d.retw.size(); k++)
        {
            Expr* e = X(rdk(f, d.a, k), d.retw[k]);
            if (d.retw[k] % 8) throw PathUnsup{"bitcast of sub-byte vector"};
            for (unsigned i = 0; i < d.retw[k] / 8; i++) bits8.push_back(mkExtract(e, 8 * i, 8));
        }
        size_t pos = 0;
        for (u32 k = 0; k < d.argw[0].size(); k++)
        {
            unsigned nb = d.argw[0][k] / 8;
            if (d.argw[0][k] % 8) throw PathUnsup{"bitcast to sub-byte vector"};
            Expr* e = bits8[pos];
            for (unsigned i = 1; i < nb; i++) e = mkConcat(bits8[pos + i], e);
            pos += nb;
            f.r[d.dst + k] = V(e);
        }
        f.ip++;
        return;
    }
    case D_LOAD:
    {
        Val a = rd(f, d.a);
        if (d.slots.size() == 1)
        {
            f.r[d.dst] = a.e ? loadSym(a, d.slots[0].w) : loadBytes(a.c, d.slots[0].w);
            f.ip++;
            return;
        }
        u64 p = a.c;
        if (a.e) { Slot l = d.slots.back(); p = resolve(a, l.off + (l.w + 7) / 8, "read"); }
        for (size_t k = 0; k < d.slots.size(); k++) f.r[d.dst + k] = loadBytes(p + d.slots[k].off, d.slots[k].w);
        f.ip++;
        return;
    }
    case D_STORE:
    {
        Val a = rd(f, d.a);
        u64 p = a.c;
        if (d.slots.empty()) { f.ip++; return; }
        if (a.e) { Slot l = d.slots.back(); p = resolve(a, l.off + (l.w + 7) / 8, "write"); }
        for (size_t k = 0; k < d.slots.size(); k++) storeBytes(p + d.slots[k].off, rdk(f, d.b, k), d.slots[k].w);
        f.ip++;
        return;
    }
    case D_GEP:
    {
        Val v = rd(f, d.a);
        if (!v.e) v.c += d.imm; else v = V(mkBin(OAdd, v.e, mkConst(d.imm, 64)));
        for (auto& g : d.gep)
        {
            Val i = rd(f, (int)g[0]);
            if (!i.e && !v.e) v.c += (u64)(sx(i.c, g[2]) * g[1]);
            else
            {
                Expr* ie = mkSExt(X(i, g[2]), 64);
                v = V(mkBin(OAdd, X(v, 64), mkBin(OMul, ie, mkConst(g[1], 64))));
            }
        }
        f.r[d.dst] = v;
        f.ip++;
        return;
    }
    case D_ALLOCA:
    {
        u64 n = concretize(rd(f, d.a), d.w);
        u64 o = newObj(n * d.imm, KStack);
        f.allocas.push_back(o >> 32);
        f.r[d.dst] = C(o);
        f.ip++;
        return;
    }
    case D_SELECT:
    {
        if (d.imm)
        {
            for (u32 k = 0; k < d.n; k++)
            {
                Val c = rdk(f, d.a, k), t = rdk(f, d.b, k), e = rdk(f, d.c, k);
                f.r[d.dst + k] = !c.e ? (c.c & 1 ? t : e) : V(mkIte(c.e, X(t, d.retw[k]), X(e, d.retw[k])));
            }
            f.ip++;
            return;
        }
        Val c = rd(f, d.a);
        if (!c.e)
        {
            int src = (c.c & 1) ? d.b : d.c;
            for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = rdk(f, src, k);
            f.ip++;
            return;
        }
        if (!d.isPtr)
        {
            for (u32 k = 0; k < d.n; k++) f.r[d.dst + k] = V(mkIte(c.e, X(rdk(f, d.b, k), d.retw[k]), X(rdk(f, d.c, k), d.retw[k])));
            f.ip++;
            return;
        }
        auto set = [&](bool v) {
            Frame& g = fr();
            const DI& dd = g.f->code[g.ip];
            int src = v ? dd.b : dd.c;
            for (u32 k = 0; k < dd.n; k++) g.r[dd.dst + k] = rdk(g, src, k);
            g.ip++;
        };
        bool v = decide(c, [&](State&, bool b) { set(b); });
        set(v);
        return;
    }
    case D_BR: jump(f, d.edges[0]); return;
    case D_CONDBR:
    {
        Val c = rd(f, d.a);
        if (!c.e) { jump(f, d.edges[(c.c & 1) ? 0 : 1]); return; }
        bool v = decide(c, [&](State&, bool b) {
            Frame& g = fr();
            jump(g, g.f->code[g.ip].edges[b ? 0 : 1]);
        });
        Frame& g = fr();
        jump(g, g.f->code[g.ip].edges[v ? 0 : 1]);
        return;
    }
    case D_SWITCH:
    {
        Val c = rd(f, d.a);
        if (!c.e)
        {
            u32 e = 0;
            for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == c.c) { e = d.args[i]; break; }
            jump(f, d.edges[e]);
            return;
        }
        checkUndef(c.e);
        // conditions per target
        std::vector<Expr*> cond(d.edges.size(), nullptr);
        Expr* any = mkConst(0, 1);
        for (size_t i = 0; i < d.cases.size(); i++)
        {
            Expr* q = mkBin(OEq, c.e, mkConst(d.cases[i], d.w));
            any = mkBin(OOr, any, q);
            int t = d.args[i];
            cond[t] = cond[t] ? mkBin(OOr, cond[t], q) : q;
        }
        cond[0] = cond[0] ? mkBin(OOr, cond[0], mkNot(any)) : mkNot(any);
        int cur = -1;
        for (size_t t = 0; t < cond.size(); t++) if (cond[t] && evalExpr(cond[t], s->model)) { cur = t; break; }
        std::vector<std::pair<int, Model>> others;
        for (size_t t = 0; t < cond.size(); t++)
        {
            if (!cond[t] || (int)t == cur) continue;
            Model m;
            int r = feasible(cond[t], m);
            if (r < 0) throw PathUnsup{"solver unknown (switch)"};
            if (r == 1) others.push_back({(int)t, m});
        }
        for (auto& o : others)
        {
            ST.forks++;
            auto n = cloneState(*s);
            n->model = o.second;
            n->depth++;
            State* save = s;
            s = n.get();
            addPc(cond[o.first]);
            Frame& g = fr();
            jump(g, g.f->code[g.ip].edges[o.first]);
            s = save;
            out->push_back(std::move(n));
        }
        if (!others.empty()) addPc(cond[cur]);
        Frame& g = fr();
        jump(g, g.f->code[g.ip].edges[cur]);
        return;
    }
    case D_RET: doRet(f, d); return;
    case D_CALL: call(f, d); return;
    case D_RESUME:
    {
        u64 o = rd(f, d.a).c;
        auto it = s->excs.find(o);
        if (it == s->excs.end()) throw PathUnsup{"resume of unknown exception"};
        u64 ti = it->second.ti;
        popFrame();
        unwind(o, ti);
        return;
    }
    case D_UNREACHABLE: throw PathViol{"unreachable", "control reaches unreachable code"};
    case D_RMW:
    {
        u64 p = resolve(rd(f, d.a), d.w / 8, "write");
        Val o = loadBytes(p, d.w), v = rd(f, d.b), n;
        switch (d.sub)
        {
        case AtomicRMWInst::Add: n = bin(OAdd, d.w, o, v); break;
        case AtomicRMWInst::Sub: n = bin(OSub, d.w, o, v); break;
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::And: n = bin(OAnd, d.w, o, v); break;
        case AtomicRMWInst::Or: n = bin(OOr, d.w, o, v); break;
        default: throw PathUnsup{"atomicrmw"};
        }
        storeBytes(p, n, d.w);
        f.r[d.dst] = o;
        f.ip++;
        return;
    }
    case D_CMPXCHG:
    {
        u64 p = resolve(rd(f, d.a), d.w / 8, "write");
        Val o = loadBytes(p, d.w), e = rd(f, d.b);
        if (o.e || e.e) throw PathUnsup{"symbolic cmpxchg"};
        if (o.c == e.c) storeBytes(p, rd(f, d.c), d.w);
        f.r[d.dst] = o;
        f.r[d.dst + 1] = C(o.c == e.c);
        f.ip++;
        return;
    }
    case D_LANDINGPAD: throw PathUnsup{"landingpad reached directly"};
    default:
    {
        std::string m;
        raw_string_ostream os(m);
        d.I->print(os);
        throw PathUnsup{"instruction " + os.str()};
    }
    }
}

// Value of a decimal literal given as bytes. Grammar has been checked by the caller:
// digits [. digits] [e[+-]digits], no sign. Exact for <=15 significant digits and |exp10|<=22,
// for texts produced by the snprintf model, and for concrete text; otherwise an
// uninterpreted function of the text (same text, same value).
Val Exec::dec2double(u64 p, u64 n)
{
    std::vector<Expr*> ch;
    bool conc = true;
    std::string str;
    for (u64 i = 0; i < n; i++)
    {
        Val v = loadBytes(p + i, 8);
        if (v.e) conc = false; else str += (char)v.c;
        ch.push_back(X(v, 8));
    }
    if (conc) return C(hostDec(str));
    std::vector<Expr*> ch0 = ch;
    // text made by the snprintf model (rt_sym.cpp): its value was registered with it
    // also: texts met before that this path makes equal (the same text, the same value)
    for (auto& r : s->decs)
        if (r.first == ch) return V(r.second);
    for (auto& r : s->decs)
    {
        if (r.first.size() != ch.size()) continue;
        Expr* diff = mkConst(0, 1);
        for (size_t i = 0; i < ch.size(); i++)
        {
            Expr* low = mkConst(0x20, 8); // e and E mean the same
            diff = mkBin(OOr, diff, mkNot(mkBin(OEq, mkBin(OOr, ch[i], low), mkBin(OOr, r.first[i], low))));
            if (diff->op == OConst && diff->c) break;
        }
        if (diff->op == OConst && diff->c) continue;
        if (diff->op == OConst) return V(r.second);
        Model m;
        if (feasible(diff, m) == 0) return V(r.second);
    }
    Val res = dec2double1(ch);
    s->decs.push_back({ch0, X(res, 64)});
    return res;
}

Val Exec::dec2double1(std::vector<Expr*> ch)
{
    u64 n = ch.size();
    // Clinger fast path
    {
        std::vector<Expr*> digs;
        int fracDigits = 0;
        bool ok = true, dot = false;
        size_t i = 0;
        for (; i < n; i++)
        {
            if (ch[i]->op == OConst && ch[i]->c == '.') { if (dot) ok = false; dot = true; continue; }
            if (ch[i]->op == OConst && (ch[i]->c == 'e' || ch[i]->c == 'E')) break;
            if (ch[i]->op == OConst && !(ch[i]->c >= '0' && ch[i]->c <= '9')) { ok = false; break; }
            if (ch[i]->op != OConst)
            {
                // the path condition decides what this byte is
                u64 cv = evalExpr(ch[i], s->model);
                Model m;
                Expr* isd = mkBin(OUle, mkBin(OAdd, ch[i], mkConst((u64)(-48), 8)), mkConst(9, 8));
                if (cv >= '0' && cv <= '9') { if (feasible(mkNot(isd), m) != 0) { ok = false; break; } }
                else
                {
                    if (feasible(mkNot(mkBin(OEq, ch[i], mkConst(cv, 8))), m) != 0)
                    {
                        Expr* ise = mkBin(OOr, mkBin(OEq, ch[i], mkConst('e', 8)), mkBin(OEq, ch[i], mkConst('E', 8)));
                        if ((cv == 'e' || cv == 'E') && feasible(mkNot(ise), m) == 0) { ch[i] = mkConst('e', 8); break; }
                        ok = false;
                        break;
                    }
                    ch[i] = mkConst(cv, 8);
                    i--;
                    continue;
                }
            }
            digs.push_back(ch[i]);
            if (dot) fracDigits++;
        }
        int ex = 0;
        if (ok && i < n)
        {
            // exponent must be concrete on this path
            i++;
            bool neg = false;
            auto cval = [&](size_t k, u64& v) -> bool {
                if (ch[k]->op == OConst) { v = ch[k]->c; return true; }
                v = evalExpr(ch[k], s->model);
                Model m;
                return feasible(mkNot(mkBin(OEq, ch[k], mkConst(v, 8))), m) == 0;
            };
            u64 c = 0;
            if (i < n && cval(i, c) && (c == '+' || c == '-')) { neg = c == '-'; i++; }
            if (i >= n) ok = false;
            for (; i < n && ok; i++)
            {
                u64 v;
                if (!cval(i, v) || v < '0' || v > '9' || ex > 10000) { ok = false; break; }
                ex = ex * 10 + (int)(v - '0');
            }
            if (neg) ex = -ex;
        }
        if (ok && !digs.empty() && digs.size() <= 15)
        {
            int e10 = ex - fracDigits;
            Expr* v = mkConst(0, 64);
            for (Expr* q : digs) v = mkBin(OAdd, mkBin(OMul, v, mkConst(10, 64)), mkBin(OAdd, mkZExt(q, 64), mkConst((u64)(-48), 64)));
            if (e10 >= -22 && e10 <= 22)
            {
                // narrow the integer so the conversion stays small
                unsigned bits = 4;
                u64 maxv = 9;
                for (size_t k = 1; k < digs.size(); k++) maxv = maxv * 10 + 9;
                while (mask(bits) < maxv) bits++;
                Expr* nv = mkExtract(v, 0, bits);
                Expr* d = mkUn(OUI2F, 64, nv);
                static const double p10[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
                if (e10 > 0) d = mkBin(OFMul, d, mkConst(fromD(p10[e10]), 64));
                else if (e10 < 0) d = mkBin(OFDiv, d, mkConst(fromD(p10[-e10]), 64));
                return V(d);
            }
        }
    }
    Expr* st = mkConst(0, 64);
    for (Expr* c : ch)
    {
        if (st->op == OConst && c->op == OConst) st = mkConst(ufHost(UF_STRTOD_STEP, st->c, c->c, 64), 64);
        else st = mkRaw(OUF, 64, st, c, nullptr, UF_STRTOD_STEP);
    }
    return V(mkRaw(OUF, 64, st, nullptr, nullptr, UF_STRTOD_FIN));
}

// ------------------------------------------------------------------ module loading
static void loadModule(const char* path)
{
    static LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(path, err, ctx);
    if (!m) { err.print("llsym", errs()); die("cannot read %s", path); }
    M = m.release();
    DL = &M->getDataLayout();
    initMem.add(std::make_shared<Obj>()); // object 0: null page
    initMem.wr(0)->freed = true;
    for (Function& F : *M)
    {
        auto fi = std::make_unique<FuncInfo>();
        fi->F = &F;
        fi->idx = funcs.size();
        fi->name = F.getName().str();
        auto o = std::make_shared<Obj>();
        o->kind = KFunc;
        o->size = 0;
        u64 a = (u64)initMem.add(o) << 32;
        gaddr[&F] = a;
        faddr[a] = fi.get();
        fmap[&F] = fi.get();
        funcs.push_back(std::move(fi));
    }
    for (GlobalVariable& g : M->globals())
    {
        auto o = std::make_shared<Obj>();
        o->kind = KGlobal;
        u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
        if (!g.hasInitializer()) sz = std::max<u64>(sz, 256);
        o->size = sz;
        o->b.assign(sz, 0);
        u64 a = (u64)initMem.add(o) << 32;
        gaddr[&g] = a;
        gname[a] = g.getName().str();
    }
    for (GlobalVariable& g : M->globals())
    {
        if (!g.hasInitializer()) continue;
        if (g.getName().starts_with("llvm.")) continue;
        Obj* o = initMem.wr(gaddr[&g] >> 32);
        try { initBytes(o, 0, g.getInitializer()); }
        catch (PathUnsup& u) { fprintf(stderr, "llsym: warning: global %s: %s\n", g.getName().str().c_str(), u.msg.c_str()); }
        o->ro = g.isConstant();
    }
}

static u64 finalObs(State& s)
{
    u64 h = 14695981039346656037ULL;
    for (auto& o : s.obsE)
    {
        u64 v = evalExpr(o.first, s.model);
        for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 0xff; h *= 1099511628211ULL; }
    }
    return h;
}

static std::string hexOf(const SymLog& l, const Model& m)
{
    std::string r;
    char b[4];
    for (u32 i = 0; i < l.n; i++) { snprintf(b, 4, "%02x", (unsigned)m.get(l.first + i)); r += b; }
    return r;
}

// explore one state to completion; forks go to q
static bool exploreOne(StateP sp, std::deque<StateP>& q, bool bfs)
{
    Exec ex;
    ex.out = &q;
    ex.s = sp.get();
    try
    {
        ex.run(bfs);
        q.push_back(std::move(sp)); // BFS: forked, continue later
        return true;
    }
    catch (PathDead&)
    {
    }
    catch (PathEnd&)
    {
        ST.paths++;
        if (samples.size() < optSamples) samples.push_back({sp->log, sp->model, finalObs(*sp)});
        else if ((ST.paths * 2654435761u % 1024) < 4) samples[(ST.paths * 40503u) % optSamples] = {sp->log, sp->model, finalObs(*sp)};
    }
    catch (PathViol& v)
    {
        ST.paths++;
        Violation x;
        x.kind = v.kind;
        x.msg = v.msg;
        x.where = ex.where();
        x.log = sp->log;
        x.model = sp->model;
        x.obs = finalObs(*sp);
        violations.push_back(x);
        // alternative witnesses for the same path (other models)
        for (int k = 0; k < 12 && sp->nsym; k++)
        {
            u32 sy = (k * 7 + 3) % sp->nsym;
            Model m;
            Expr* e = mkNot(mkBin(OEq, mkSym(sy, 8), mkConst(sp->model.get(sy), 8)));
            int r = 0;
            try { r = ex.feasible(e, m); } catch (...) {}
            if (r == 1) { Violation y = x; y.model = m; violations.push_back(y); sp->model = m; }
        }
        if (shared_) shared_->stop = 1;
        return false;
    }
    catch (PathUnsup& u)
    {
        if (u.msg != "stopped" && now() > deadline) { timedOut = true; u.msg = "time limit"; }
        if (u.msg != "stopped")
        {
            if (unsupported.size() < 50) unsupported.push_back(u.msg + " @ " + ex.where());
        }
        if (u.msg == "stopped" || u.msg == "time limit") return false;
    }
    return true;
}

static std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

static void writeResult(FILE* f)
{
    fprintf(f, "{\n");
    fprintf(f, "\"paths\":%llu,\"forks\":%llu,\"insts\":%llu,\"infeasible\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"assumes\":%llu,\"mem_checks\":%llu,\"mem_symbolic\":%llu,\n",
            (unsigned long long)ST.paths, (unsigned long long)ST.forks, (unsigned long long)ST.insts, (unsigned long long)ST.infeasible, (unsigned long long)ST.asserts,
            (unsigned long long)ST.assertsSym, (unsigned long long)ST.assumes, (unsigned long long)ST.memChecks, (unsigned long long)ST.memSym);
    fprintf(f, "\"queries\":%llu,\"z3_calls\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"fallback\":%llu,\"refinements\":%llu,\"z3_time\":%.3f,\"z3_max\":%.3f,\n",
            (unsigned long long)SST.queries, (unsigned long long)SST.z3calls, (unsigned long long)SST.cacheHits, (unsigned long long)SST.sat, (unsigned long long)SST.unsat,
            (unsigned long long)SST.unknown, (unsigned long long)SST.fallback, (unsigned long long)SST.refinements, SST.z3time, SST.maxtime);
    fprintf(f, "\"timed_out\":%s,\n", timedOut ? "true" : "false");
    fprintf(f, "\"reached\":{");
    bool first = true;
    for (auto& r : reached) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(r.first).c_str(), (unsigned long long)r.second); first = false; }
    fprintf(f, "},\n\"functions\":[");
    first = true;
    for (auto& x : funcs) if (x->executed) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(x->name).c_str()); first = false; }
    fprintf(f, "],\n\"unsupported\":[");
    first = true;
    for (auto& u : unsupported) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(u).c_str()); first = false; }
    fprintf(f, "],\n\"samples\":[");
    first = true;
    auto vec = [&](const std::vector<SymLog>& log, const Model& m) {
        fprintf(f, "[");
        for (size_t i = 0; i < log.size(); i++) fprintf(f, "%s[\"%s\",\"%s\"]", i ? "," : "", esc(log[i].name).c_str(), hexOf(log[i], m).c_str());
        fprintf(f, "]");
    };
    for (auto& s : samples)
    {
        fprintf(f, "%s{\"obs\":\"%016llx\",\"in\":", first ? "" : ",\n", (unsigned long long)s.obs);
        vec(s.log, s.model);
        fprintf(f, "}");
        first = false;
    }
    fprintf(f, "],\n\"violations\":[");
    first = true;
    for (auto& v : violations)
    {
        fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"in\":", first ? "" : ",\n", esc(v.kind).c_str(), esc(v.msg).c_str(), esc(v.where).c_str());
        vec(v.log, v.model);
        fprintf(f, "}");
        first = false;
    }
    fprintf(f, "]\n}\n");
}

static int mainReal(int argc, char** argv)
{
    const char* bc = nullptr;
    std::string entry = "vf_main";
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--time") optTime = atof(val().c_str());
        else if (a == "--workers") optWorkers = atoi(val().c_str());
        else if (a == "--seeds") optSeeds = atoi(val().c_str());
        else if (a == "--max-inst") optMaxInst = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--samples") optSamples = atoi(val().c_str());
        else if (a == "--out") optOut = val();
        else if (a == "--entry") entry = val();
        else if (a == "--leak") optLeak = true;
        else if (a == "--mem") optMemMB = atoi(val().c_str());
        else if (a == "--no-uninit") optNoUninit = true;
        else if (a == "-v") optVerbose = true;
        else bc = argv[i];
    }
    if (!bc || optOut.empty()) die("usage: llsym --out PREFIX [--time S] file.bc");
    double t0 = now();
    deadline = t0 + optTime;
    solverDeadline = deadline;
    loadModule(bc);
    shared_ = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shared_->next = 0;
    shared_->stop = 0;
    solverInit(60000);

    auto init = std::make_unique<State>();
    init->mem = initMem;
    Function* E = M->getFunction(entry);
    if (!E || E->isDeclaration()) die("no entry %s", entry.c_str());
    {
        // entry frame first; constructors are pushed above it and return into it
        Exec ex;
        ex.s = init.get();
        ex.pushFrame(fmap[E], {}, 0);
        std::vector<Function*> ctors;
        if (GlobalVariable* gc = M->getGlobalVariable("llvm.global_ctors"))
            if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (unsigned i = 0; i < ca->getNumOperands(); i++)
                    if (auto* f = dyn_cast<Function>(ca->getOperand(i)->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
        for (int i = (int)ctors.size() - 1; i >= 0; i--)
        {
            ex.pushFrame(fmap[ctors[i]], {}, 0);
            init->st.back()->special = 2;
        }
    }
    std::deque<StateP> q;
    q.push_back(std::move(init));
    bool go = true;
    double bfsEnd = now() + std::min(30.0, optTime / 4);
    while (!q.empty() && go && q.size() < optSeeds && now() < bfsEnd && !(q.size() >= 2 * optWorkers && now() - t0 > 1.0))
    {
        StateP s = std::move(q.front());
        q.pop_front();
        go = exploreOne(std::move(s), q, true);
    }
    if (optVerbose) fprintf(stderr, "bfs: %zu seeds, %llu paths, %.1fs\n", q.size(), (unsigned long long)ST.paths, now() - t0);
    if (!go || q.empty() || !violations.empty())
    {
        FILE* f = fopen((optOut + ".0").c_str(), "w");
        writeResult(f);
        fclose(f);
        return 0;
    }
    {
        FILE* f = fopen((optOut + ".0").c_str(), "w");
        writeResult(f);
        fclose(f);
    }
    ST = Stats();
    SolverStats keep = SST;
    (void)keep;
    SST = SolverStats();
    reached.clear();
    samples.clear();
    unsupported.clear();
    unsigned W = std::min<unsigned>(optWorkers, q.size());
    std::vector<pid_t> pids;
    for (unsigned w = 0; w < W; w++)
    {
        pid_t p = fork();
        if (p < 0) die("fork");
        if (p == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit rl = {(rlim_t)optMemMB << 20, (rlim_t)optMemMB << 20};
            setrlimit(RLIMIT_DATA, &rl);
            std::deque<StateP> stack;
            bool ok = true;
            while (ok)
            {
                u32 i = shared_->next.fetch_add(1);
                if (i >= q.size() || shared_->stop) break;
                // spread: visit seeds in a strided order
                stack.push_back(std::move(q[i]));
                while (!stack.empty() && ok)
                {
                    StateP s = std::move(stack.back());
                    stack.pop_back();
                    ok = exploreOne(std::move(s), stack, false);
                }
            }
            if (timedOut) shared_->stop = 1;
            FILE* f = fopen((optOut + "." + std::to_string(w + 1)).c_str(), "w");
            writeResult(f);
            fclose(f);
            _exit(0);
        }
        pids.push_back(p);
    }
    int bad = 0;
    for (pid_t p : pids)
    {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { bad++; shared_->stop = 1; fprintf(stderr, "llsym: worker ended abnormally (status %x)\n", st); }
    }
    if (optVerbose) fprintf(stderr, "done %.1fs\n", now() - t0);
    return bad ? 3 : 0;
}

#include <thread>
#include <pthread.h>
struct Args { int c; char** v; int r; };
static void* thr(void* p) { Args* a = (Args*)p; a->r = mainReal(a->c, a->v); return nullptr; }
int main(int argc, char** argv)
{
    // large stack for recursive expression walks
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t t;
    Args a{argc, argv, 0};
    if (pthread_create(&t, &at, thr, &a)) die("thread");
    pthread_join(t, nullptr);
    fflush(nullptr);
    _exit(a.r);
}
