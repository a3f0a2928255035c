// Simulated MPI and MPI-IO on top of the scheduler in sim.cc.
#include "mpi.h"
#include "sim.hh"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>

using std::string;
using std::vector;
using sim::S;

enum Basic { B_NONE, B_CHAR, B_SCHAR, B_UCHAR, B_SHORT, B_USHORT, B_INT, B_UINT, B_LONG, B_ULONG,
             B_LLONG, B_ULLONG, B_FLOAT, B_DOUBLE, B_LDOUBLE, B_BOOL, B_DINT, B_FINT, B_LINT, B_2INT };

struct sim_type {
    bool builtin = false, committed = false, freed = false;
    int owner = -1;
    vector<std::pair<MPI_Aint, size_t>> segs;
    MPI_Aint lb = 0, extent = 0;
    size_t size = 0;
    Basic basic = B_NONE;
    size_t bsize = 1;
    MPI_Aint tlb() const { MPI_Aint m = 0; bool f = true; for (auto& s : segs) if (f || s.first < m) { m = s.first; f = false; } return m; }
    MPI_Aint tub() const { MPI_Aint m = 0; bool f = true; for (auto& s : segs) { MPI_Aint e = s.first + MPI_Aint(s.second); if (f || e > m) { m = e; f = false; } } return m; }
};
struct sim_op { int k; MPI_User_function* fn = nullptr; bool builtin = true; bool freed = false; int owner = -1; };
struct sim_errh { int k; };
struct sim_errh sim_errh_return_obj = {0}, sim_errh_fatal_obj = {1};
struct sim_info { int owner; bool freed = false; std::map<string, string> kv; };

namespace {

sim_type* mk(Basic b, size_t n)
{
    auto* t = new sim_type;
    t->builtin = t->committed = true;
    t->segs = {{0, n}};
    t->extent = MPI_Aint(n);
    t->size = n;
    t->basic = b;
    t->bsize = n;
    return t;
}
struct DI { double v; int i; };
struct FI { float v; int i; };
struct LI { long v; int i; };
struct II { int v; int i; };
}  // namespace

struct sim_type *sim_t_char = mk(B_CHAR, 1), *sim_t_schar = mk(B_SCHAR, 1), *sim_t_uchar = mk(B_UCHAR, 1),
    *sim_t_byte = mk(B_UCHAR, 1), *sim_t_short = mk(B_SHORT, 2), *sim_t_ushort = mk(B_USHORT, 2),
    *sim_t_int = mk(B_INT, 4), *sim_t_uint = mk(B_UINT, 4), *sim_t_long = mk(B_LONG, 8),
    *sim_t_ulong = mk(B_ULONG, 8), *sim_t_llong = mk(B_LLONG, 8), *sim_t_ullong = mk(B_ULLONG, 8),
    *sim_t_float = mk(B_FLOAT, 4), *sim_t_double = mk(B_DOUBLE, 8), *sim_t_ldouble = mk(B_LDOUBLE, sizeof(long double)),
    *sim_t_bool = mk(B_BOOL, 1), *sim_t_double_int = mk(B_DINT, sizeof(DI)), *sim_t_float_int = mk(B_FINT, sizeof(FI)),
    *sim_t_long_int = mk(B_LINT, sizeof(LI)), *sim_t_2int = mk(B_2INT, sizeof(II)), *sim_t_packed = mk(B_UCHAR, 1),
    *sim_t_i8 = mk(B_SCHAR, 1), *sim_t_u8 = mk(B_UCHAR, 1), *sim_t_i16 = mk(B_SHORT, 2), *sim_t_u16 = mk(B_USHORT, 2),
    *sim_t_i32 = mk(B_INT, 4), *sim_t_u32 = mk(B_UINT, 4), *sim_t_i64 = mk(B_LONG, 8), *sim_t_u64 = mk(B_ULONG, 8),
    *sim_t_aint = mk(B_LONG, 8), *sim_t_offset = mk(B_LLONG, 8), *sim_t_wchar = mk(B_INT, 4);

static sim_op opobj[14] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {11}, {12}, {13}};
struct sim_op *sim_op_sum = &opobj[0], *sim_op_prod = &opobj[1], *sim_op_max = &opobj[2], *sim_op_min = &opobj[3],
    *sim_op_land = &opobj[4], *sim_op_lor = &opobj[5], *sim_op_lxor = &opobj[6], *sim_op_band = &opobj[7],
    *sim_op_bor = &opobj[8], *sim_op_bxor = &opobj[9], *sim_op_maxloc = &opobj[10], *sim_op_minloc = &opobj[11],
    *sim_op_replace = &opobj[12], *sim_op_noop = &opobj[13];

namespace {
struct Inst {
    string op, sig;
    vector<char> arrived;
    vector<vector<unsigned char>> data;
    vector<vector<int>> ints;
    vector<MPI_Aint> longs;
    int narr = 0, nleft = 0;
    bool loose = false;
    bool decided = false;
    uint32_t fmask = 0;
    sim::FaultKind fk = sim::F_READ;
    int fcode = 0;
    std::shared_ptr<void> shared;
    bool applied = false;
    bool all() const { return narr == int(arrived.size()); }
};
struct Ctx {
    int id;
    string name;
    vector<int> members;
    vector<uint64_t> seq;
    std::map<uint64_t, std::shared_ptr<Inst>> insts;
    int local(int wr) const { for (size_t i = 0; i < members.size(); i++) if (members[i] == wr) return int(i); return -1; }
};
using CtxP = std::shared_ptr<Ctx>;
int ctx_id = 0;
vector<CtxP> all_ctx;
CtxP new_ctx(const string& name, const vector<int>& m)
{
    auto c = std::make_shared<Ctx>();
    c->id = ++ctx_id;
    c->name = name;
    c->members = m;
    c->seq.assign(m.size(), 0);
    all_ctx.push_back(c);
    return c;
}
}  // namespace

struct sim_comm { int kind; CtxP ctx; int owner = -1; bool freed = false; };
struct sim_comm sim_comm_world_obj = {1, nullptr}, sim_comm_self_obj = {2, nullptr};

namespace {
CtxP world_ctx;
vector<CtxP> self_ctx;

struct Reg {
    std::unordered_set<void*> known, live;
    void add(void* p) { known.insert(p); live.insert(p); }
    void del(void* p) { live.erase(p); }
};
Reg rcomm, rtype, rreq, rwin, rinfo, rfile, rop;
std::map<int, sim::Census> cens;
vector<char> inited, finalized;
}  // namespace

namespace sim {
int n_init = 0, n_finalize = 0;
}

static int me() { return sim::rank(); }

static bool in_mpi_ok(const char* op)
{
    int r = me();
    if (r < 0) return true;
    if (size_t(r) < inited.size()) {
        if (!inited[size_t(r)]) sim::violation("mpi-before-init", string(op) + " called before MPI_Init");
        if (finalized[size_t(r)]) sim::violation("mpi-after-finalize", string(op) + " called after MPI_Finalize");
    }
    return true;
}
static void misuse(const string& m) { sim::violation("mpi-misuse", "rank " + std::to_string(me()) + ": " + m); }

static CtxP ctx_of(MPI_Comm c, const char* op)
{
    in_mpi_ok(op);
    if (c == MPI_COMM_WORLD) {
        if (!world_ctx) { // outside a run (single process)
            world_ctx = new_ctx("world", {0});
        }
        return world_ctx;
    }
    if (c == MPI_COMM_SELF) {
        size_t r = size_t(me() < 0 ? 0 : me());
        if (self_ctx.size() <= r) self_ctx.resize(r + 1);
        if (!self_ctx[r]) self_ctx[r] = new_ctx("self", {int(r)});
        return self_ctx[r];
    }
    if (!c || !rcomm.known.count(c)) { misuse(string(op) + " on an invalid communicator"); return nullptr; }
    if (c->freed) { misuse(string(op) + " on a freed communicator"); return nullptr; }
    if (c->owner != me()) { misuse(string(op) + " on a communicator handle of another process"); return nullptr; }
    return c->ctx;
}
static sim_type* type_of(MPI_Datatype t, const char* op, bool need_commit = true)
{
    if (!t) { misuse(string(op) + " with MPI_DATATYPE_NULL"); return sim_t_byte; }
    if (t->builtin) return t;
    if (!rtype.known.count(t)) { misuse(string(op) + " with an invalid datatype"); return sim_t_byte; }
    if (t->freed) { misuse(string(op) + " with a freed datatype"); return sim_t_byte; }
    if (need_commit && !t->committed) { misuse(string(op) + " with an uncommitted datatype"); return sim_t_byte; }
    return t;
}
static size_t check_count(int n, const char* op)
{
    if (n < 0) { misuse(string(op) + " with negative count " + std::to_string(n)); return 0; }
    return size_t(n);
}

static vector<unsigned char> pack(const void* buf, size_t n, const sim_type* t)
{
    vector<unsigned char> out(n * t->size);
    size_t o = 0;
    auto* b = static_cast<const unsigned char*>(buf);
    if (t->segs.size() == 1 && t->segs[0].first == 0 && MPI_Aint(t->segs[0].second) == t->extent) {
        if (!out.empty()) memcpy(out.data(), b, out.size());
        return out;
    }
    for (size_t i = 0; i < n; i++)
        for (auto& s : t->segs) {
            memcpy(out.data() + o, b + MPI_Aint(i) * t->extent + s.first, s.second);
            o += s.second;
        }
    return out;
}
// unpack at most len bytes
static void unpack(void* buf, size_t n, const sim_type* t, const unsigned char* in, size_t len)
{
    auto* b = static_cast<unsigned char*>(buf);
    size_t o = 0;
    for (size_t i = 0; i < n && o < len; i++)
        for (auto& s : t->segs) {
            size_t k = std::min(s.second, len - o);
            if (k) memcpy(b + MPI_Aint(i) * t->extent + s.first, in + o, k);
            o += k;
            if (o >= len) break;
        }
}
static void poison(void* buf, size_t n, const sim_type* t)
{
    auto* b = static_cast<unsigned char*>(buf);
    for (size_t i = 0; i < n; i++)
        for (auto& s : t->segs) memset(b + MPI_Aint(i) * t->extent + s.first, 0xA5, s.second);
}

// ---------------------------------------------------------- collectives core
static std::shared_ptr<Inst> coll_enter(const CtxP& c, const string& op, const string& sig)
{
    sim::yield(op.c_str());
    int l = c->local(me() < 0 ? 0 : me());
    if (l < 0) { misuse(op + " by a process outside the communicator"); }
    uint64_t q = c->seq[size_t(l)]++;
    auto& p = c->insts[q];
    sim::ev("%s %s#%llu %s", op.c_str(), c->name.c_str(), (unsigned long long)q, sig.c_str());
    if (!p) {
        p = std::make_shared<Inst>();
        p->op = op;
        p->sig = sig;
        p->arrived.assign(c->members.size(), 0);
        p->data.resize(c->members.size());
        p->ints.resize(c->members.size());
        p->longs.assign(c->members.size(), 0);
        if (sim::cfg.loose && c->members.size() > 1) p->loose = S.chance(2, 3);
    } else if (p->op != op || p->sig != sig) {
        sim::violation("collective-mismatch", "rank " + std::to_string(me()) + " calls " + op + " " + sig
            + " as collective #" + std::to_string(q) + " of " + c->name + " where another process called "
            + p->op + " " + p->sig);
    }
    p->arrived[size_t(l)] = 1;
    p->narr++;
    return p;
}
static void coll_wait(const CtxP& c, const std::shared_ptr<Inst>& p, std::function<bool(Inst&)> need)
{
    auto q = p;
    sim::block(p->op + " on " + c->name, [q, need] { return q->all() || (q->loose && need(*q)); });
    if (!p->all()) sim::fault_counts[sim::F_LOOSE]++;
}
static void coll_leave(const CtxP& c, const std::shared_ptr<Inst>& p)
{
    if (++p->nleft == int(p->arrived.size())) {
        for (auto i = c->insts.begin(); i != c->insts.end(); ++i)
            if (i->second == p) { c->insts.erase(i); break; }
    }
}
static bool need_all(Inst& i) { return i.all(); }
static bool need_none(Inst&) { return true; }

template<typename T> static void red(int k, T* a, const T* b, size_t n)
{
    for (size_t i = 0; i < n; i++) switch (k) {
        case 0: a[i] = T(a[i] + b[i]); break;
        case 1: a[i] = T(a[i] * b[i]); break;
        case 2: a[i] = b[i] > a[i] ? b[i] : a[i]; break;
        case 3: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
        case 4: a[i] = T(a[i] && b[i]); break;
        case 5: a[i] = T(a[i] || b[i]); break;
        case 6: a[i] = T((!a[i]) != (!b[i])); break;
        default: misuse("reduction operator not defined for this type"); }
}
template<typename T> static void redi(int k, T* a, const T* b, size_t n)
{
    for (size_t i = 0; i < n; i++) switch (k) {
        case 7: a[i] = T(a[i] & b[i]); break;
        case 8: a[i] = T(a[i] | b[i]); break;
        case 9: a[i] = T(a[i] ^ b[i]); break;
        default: red(k, a + i, b + i, 1); }
}
template<typename T> static void redl(int k, T* a, const T* b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        if (k == 10) { if (b[i].v > a[i].v || (b[i].v == a[i].v && b[i].i < a[i].i)) a[i] = b[i]; }
        else if (k == 11) { if (b[i].v < a[i].v || (b[i].v == a[i].v && b[i].i < a[i].i)) a[i] = b[i]; }
        else misuse("reduction operator not defined for pair types");
    }
}
static void reduce_into(MPI_Op op, sim_type* t, vector<unsigned char>& a, const vector<unsigned char>& b)
{
    if (!op) { misuse("reduction with MPI_OP_NULL"); return; }
    if (op->fn) {
        int n = int(a.size() / (t->size ? t->size : 1));
        MPI_Datatype d = t;
        vector<unsigned char> tmp = b;
        op->fn(const_cast<unsigned char*>(b.data()), a.data(), &n, &d);
        return;
    }
    if (op->k == 12) { a = b; return; }
    if (op->k == 13) return;
    size_t n = a.size() / t->bsize;
#define R(B, T, F) case B: F(op->k, reinterpret_cast<T*>(a.data()), reinterpret_cast<const T*>(b.data()), n); break;
    switch (t->basic) {
        R(B_CHAR, char, redi) R(B_SCHAR, signed char, redi) R(B_UCHAR, unsigned char, redi)
        R(B_SHORT, short, redi) R(B_USHORT, unsigned short, redi) R(B_INT, int, redi) R(B_UINT, unsigned, redi)
        R(B_LONG, long, redi) R(B_ULONG, unsigned long, redi) R(B_LLONG, long long, redi)
        R(B_ULLONG, unsigned long long, redi) R(B_FLOAT, float, red) R(B_DOUBLE, double, red)
        R(B_LDOUBLE, long double, red) R(B_BOOL, unsigned char, redi) R(B_DINT, DI, redl) R(B_FINT, FI, redl)
        R(B_LINT, LI, redl) R(B_2INT, II, redl)
        default: misuse("reduction on a derived datatype");
    }
#undef R
}

// ------------------------------------------------------------- init & misc --
extern "C" {
int MPI_Init(int*, char***)
{
    sim::mpi_touched();
    int r = me() < 0 ? 0 : me();
    if (size_t(r) >= inited.size()) { inited.resize(size_t(r) + 1, 0); finalized.resize(size_t(r) + 1, 0); }
    if (inited[size_t(r)] && sim::cfg.world_is_managed) sim::violation("mpi-double-init", "MPI_Init called twice");
    inited[size_t(r)] = 1;
    sim::n_init++;
    sim::ev("MPI_Init");
    return MPI_SUCCESS;
}
int MPI_Init_thread(int* a, char*** b, int req, int* prov) { if (prov) *prov = req; return MPI_Init(a, b); }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int* f)
{
    sim::mpi_touched();
    size_t r = size_t(me() < 0 ? 0 : me());
    *f = r < inited.size() ? inited[r] : !sim::cfg.world_is_managed;
    return MPI_SUCCESS;
}
int MPI_Finalized(int* f) { size_t r = size_t(me() < 0 ? 0 : me()); *f = r < finalized.size() ? finalized[r] : 0; return MPI_SUCCESS; }
int MPI_Finalize(void)
{
    int r = me() < 0 ? 0 : me();
    if (size_t(r) < finalized.size()) {
        if (!inited[size_t(r)]) sim::violation("mpi-before-init", "MPI_Finalize without MPI_Init");
        if (finalized[size_t(r)]) sim::violation("mpi-double-finalize", "MPI_Finalize called twice");
        finalized[size_t(r)] = 1;
    }
    sim::n_finalize++;
    sim::ev("MPI_Finalize");
    return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) { sim::ev("MPI_Abort"); sim::rank_exit(code ? code : 1); }
double MPI_Wtime(void) { return 1000.0 + sim::outcome.simtime + (me() >= 0 ? 0.25 * double((uint32_t(me()) * 2654435761u) % 7) : 0); }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_processor_name(char* n, int* l) { *l = snprintf(n, 64, "simnode%d", me()); return 0; }
int MPI_Get_library_version(char* v, int* l) { *l = snprintf(v, 64, "simmpi 1.0"); return 0; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Error_string(int e, char* s, int* l) { *l = snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error class %d", e); return 0; }
int MPI_Error_class(int e, int* c) { *c = e; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { return 0; }
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler) { return 0; }
int MPI_Errhandler_free(MPI_Errhandler* h) { *h = nullptr; return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { *static_cast<void**>(p) = malloc(size_t(n)); return 0; }
int MPI_Free_mem(void* p) { free(p); return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = MPI_Aint(p); return 0; }

// ------------------------------------------------------------------- comms --
int MPI_Comm_rank(MPI_Comm c, int* r) { auto x = ctx_of(c, "MPI_Comm_rank"); *r = x->local(me() < 0 ? 0 : me()); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { auto x = ctx_of(c, "MPI_Comm_size"); *n = int(x->members.size()); return 0; }
}
static MPI_Comm new_handle(const CtxP& x)
{
    auto* h = new sim_comm{0, x, me(), false};
    rcomm.add(h);
    cens[me()].comm++;
    return h;
}
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o)
{
    auto x = ctx_of(c, "MPI_Comm_dup");
    auto p = coll_enter(x, "Comm_dup", "");
    coll_wait(x, p, need_all);
    if (!p->shared) p->shared = new_ctx(x->name + ".dup", x->members);
    *o = new_handle(std::static_pointer_cast<Ctx>(p->shared));
    coll_leave(x, p);
    return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o)
{
    auto x = ctx_of(c, "MPI_Comm_split");
    auto p = coll_enter(x, "Comm_split", "");
    size_t l = size_t(x->local(me()));
    p->ints[l] = {color, key};
    coll_wait(x, p, need_all);
    if (!p->shared) {
        auto m = std::make_shared<std::map<int, CtxP>>();
        std::map<int, vector<std::pair<int, size_t>>> groups;
        for (size_t i = 0; i < x->members.size(); i++)
            if (p->ints[i][0] != MPI_UNDEFINED) groups[p->ints[i][0]].push_back({p->ints[i][1], i});
        for (auto& g : groups) {
            std::stable_sort(g.second.begin(), g.second.end(), [](auto& a, auto& b) { return a.first < b.first; });
            vector<int> mem;
            for (auto& e : g.second) mem.push_back(x->members[e.second]);
            (*m)[g.first] = new_ctx(x->name + ".split" + std::to_string(g.first), mem);
        }
        p->shared = m;
    }
    auto m = std::static_pointer_cast<std::map<int, CtxP>>(p->shared);
    *o = color == MPI_UNDEFINED ? MPI_COMM_NULL : new_handle((*m)[color]);
    coll_leave(x, p);
    return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* o) { return MPI_Comm_split(c, 0, key, o); }
int MPI_Comm_free(MPI_Comm* c)
{
    auto x = ctx_of(*c, "MPI_Comm_free");
    if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) { misuse("freeing a predefined communicator"); return MPI_ERR_COMM; }
    auto p = coll_enter(x, "Comm_free", "");
    coll_wait(x, p, need_none);
    coll_leave(x, p);
    (*c)->freed = true;
    rcomm.del(*c);
    cens[me()].comm--;
    *c = MPI_COMM_NULL;
    return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r)
{
    auto x = ctx_of(a, "MPI_Comm_compare"), y = ctx_of(b, "MPI_Comm_compare");
    if (x == y) *r = MPI_IDENT;
    else if (x->members == y->members) *r = MPI_CONGRUENT;
    else {
        auto p = x->members, q = y->members;
        std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
        *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
    }
    return 0;
}
}

// --------------------------------------------------------------------- p2p --
struct sim_req {
    int owner;
    int kind;               // 0 send, 1 recv, 2 other
    bool done = false, freed = false, cancelled = false, inact = false;
    MPI_Status st{};
    // recv
    void* buf = nullptr; size_t n = 0; sim_type t; int src = 0, tag = 0; CtxP ctx; int lrank = 0;
    bool matched = false;
    string what;
};
namespace {
struct Msg {
    CtxP ctx; int src, dst, tag;    // local ranks in ctx
    bool eager;
    vector<unsigned char> data;     // eager
    const void* buf; size_t n; sim_type t; // rendezvous
    sim_req* sreq;
    size_t bytes;
};
using MsgP = std::shared_ptr<Msg>;
struct Chan { std::deque<MsgP> q; };
std::map<std::tuple<int, int, int>, Chan> chans;             // (ctx, src, dst)
std::map<std::pair<int, int>, std::deque<MsgP>> unexpected;  // (ctx, dst) arrived
std::map<std::pair<int, int>, std::deque<sim_req*>> posted;  // (ctx, dst)

sim_req* new_req(int kind, const string& what)
{
    auto* r = new sim_req;
    r->owner = me();
    r->kind = kind;
    r->what = what;
    rreq.add(r);
    cens[me()].req++;
    return r;
}
void free_req(sim_req* r)
{
    if (r->freed) return;
    r->freed = true;
    rreq.del(r);
    cens[r->owner].req--;
}
void complete_match(sim_req* r, const MsgP& m)
{
    r->matched = true;
    r->st.MPI_SOURCE = m->src;
    r->st.MPI_TAG = m->tag;
    r->st.MPI_ERROR = 0;
    r->st._ucount = m->bytes;
    if (m->bytes > r->n * r->t.size)
        sim::violation("message-truncated", "rank " + std::to_string(r->owner) + " receives " + std::to_string(m->bytes)
            + " bytes into a buffer of " + std::to_string(r->n * r->t.size));
    auto fin = [r, m] {
        if (!m->eager) {
            auto d = pack(m->buf, m->n, &m->t);
            unpack(r->buf, r->n, &r->t, d.data(), d.size());
            m->sreq->done = true;
        } else unpack(r->buf, r->n, &r->t, m->data.data(), m->data.size());
        r->done = true;
    };
    if (sim::rank() >= -1 && S.chance(1, 2)) {
        sim::fault_counts[sim::F_REORDER]++;
        sim::add_action(r->owner, "complete receive on rank " + std::to_string(r->owner), nullptr, fin);
    } else fin();
}
bool matches(sim_req* r, const MsgP& m)
{
    return (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}
void deliver(const MsgP& m)
{
    auto& ps = posted[{m->ctx->id, m->dst}];
    for (auto i = ps.begin(); i != ps.end(); ++i)
        if (matches(*i, m)) {
            auto* r = *i;
            ps.erase(i);
            complete_match(r, m);
            return;
        }
    unexpected[{m->ctx->id, m->dst}].push_back(m);
}
sim_req* do_send(const void* buf, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, int mode, const char* op)
{
    auto x = ctx_of(c, op);
    size_t cnt = check_count(n, op);
    auto* t = type_of(dt, op);
    sim::yield(op);
    auto* r = new_req(0, string(op) + " to " + std::to_string(dst));
    if (dst == MPI_PROC_NULL) { r->done = true; return r; }
    if (dst < 0 || dst >= int(x->members.size())) { misuse(string(op) + " to invalid rank " + std::to_string(dst)); return r; }
    auto m = std::make_shared<Msg>();
    m->ctx = x; m->src = x->local(me()); m->dst = dst; m->tag = tag;
    m->bytes = cnt * t->size;
    bool sync = mode == 1;
    bool rdv = sync || (mode != 2 && sim::cfg.rendezvous && S.chance(1, 2));
    m->eager = !rdv;
    m->sreq = r;
    if (rdv) {
        sim::fault_counts[sim::F_RENDEZVOUS]++;
        m->buf = buf; m->n = cnt; m->t = *t;
    } else {
        m->data = pack(buf, cnt, t);
        sim::mix(m->data.data(), m->data.size());
        r->done = true;
    }
    sim::ev("%s %s %d->%d tag %d %zu bytes%s", op, x->name.c_str(), m->src, dst, tag, m->bytes, rdv ? " (rendezvous)" : "");
    auto key = std::make_tuple(x->id, m->src, dst);
    chans[key].q.push_back(m);
    sim::add_action(me(), "deliver message " + std::to_string(m->src) + "->" + std::to_string(dst),
        [key, m] { auto& q = chans[key].q; return !q.empty() && q.front() == m; },
        [key] { auto m2 = chans[key].q.front(); chans[key].q.pop_front(); deliver(m2); });
    return r;
}
sim_req* do_recv(void* buf, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, const char* op)
{
    auto x = ctx_of(c, op);
    size_t cnt = check_count(n, op);
    auto* t = type_of(dt, op);
    sim::yield(op);
    auto* r = new_req(1, string(op) + " from " + std::to_string(src));
    if (src == MPI_PROC_NULL) { r->done = true; r->st.MPI_SOURCE = MPI_PROC_NULL; return r; }
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= int(x->members.size()))) { misuse(string(op) + " from invalid rank " + std::to_string(src)); return r; }
    r->buf = buf; r->n = cnt; r->t = *t; r->src = src; r->tag = tag; r->ctx = x; r->lrank = x->local(me());
    poison(buf, cnt, t);
    sim::ev("%s %s from %d tag %d cap %zu", op, x->name.c_str(), src, tag, cnt * t->size);
    auto& un = unexpected[{x->id, r->lrank}];
    for (auto i = un.begin(); i != un.end(); ++i)
        if (matches(r, *i)) {
            auto m = *i;
            un.erase(i);
            complete_match(r, m);
            return r;
        }
    posted[{x->id, r->lrank}].push_back(r);
    return r;
}
sim_req* req_ok(MPI_Request q, const char* op)
{
    if (!rreq.known.count(q)) { misuse(string(op) + " on an uninitialised request handle"); return nullptr; }
    if (q->freed) { misuse(string(op) + " on a completed and freed request handle"); return nullptr; }
    if (q->owner != me()) { misuse(string(op) + " on a request of another process"); return nullptr; }
    return q;
}
void fin_req(MPI_Request* q, MPI_Status* st)
{
    if (st) { int e = st->MPI_ERROR; *st = (*q)->st; st->MPI_ERROR = e; st->MPI_ERROR = 0; }
    free_req(*q);
    *q = MPI_REQUEST_NULL;
}
}  // namespace

extern "C" {
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { *q = do_send(b, n, t, d, tag, c, 0, "Isend"); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { *q = do_send(b, n, t, d, tag, c, 1, "Issend"); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) { *q = do_recv(b, n, t, s, tag, c, "Irecv"); return 0; }
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
    in_mpi_ok("MPI_Wait");
    if (*q == MPI_REQUEST_NULL) { if (st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; } return 0; }
    auto* r = req_ok(*q, "MPI_Wait");
    sim::yield("Wait");
    sim::block("Wait for " + r->what, [r] { return r->done; });
    fin_req(q, st);
    return 0;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st)
{
    in_mpi_ok("MPI_Waitall");
    for (int i = 0; i < n; i++) if (q[i]) req_ok(q[i], "MPI_Waitall");
    for (int i = 0; i < n; i++) MPI_Wait(&q[i], st ? &st[i] : nullptr);
    return 0;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st)
{
    in_mpi_ok("MPI_Waitany");
    vector<sim_req*> rs;
    bool any = false;
    for (int i = 0; i < n; i++) { rs.push_back(q[i] ? req_ok(q[i], "MPI_Waitany") : nullptr); any = any || q[i]; }
    if (!any) { *idx = MPI_UNDEFINED; return 0; }
    sim::yield("Waitany");
    sim::block("Waitany", [rs] { for (auto* r : rs) if (r && r->done) return true; return false; });
    vector<int> ok;
    for (int i = 0; i < n; i++) if (rs[size_t(i)] && rs[size_t(i)]->done) ok.push_back(i);
    int k = ok[S.draw(uint32_t(ok.size()))];
    *idx = k;
    fin_req(&q[k], st);
    return 0;
}
int MPI_Waitsome(int n, MPI_Request* q, int* cnt, int* idx, MPI_Status* st)
{
    int i;
    MPI_Waitany(n, q, &i, st);
    if (i == MPI_UNDEFINED) { *cnt = MPI_UNDEFINED; return 0; }
    *cnt = 1; idx[0] = i;
    return 0;
}
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st)
{
    in_mpi_ok("MPI_Test");
    if (*q == MPI_REQUEST_NULL) { *f = 1; return 0; }
    auto* r = req_ok(*q, "MPI_Test");
    sim::yield("Test");
    if (r->done) { *f = 1; fin_req(q, st); }
    else { *f = 0; sim::poll_failed(); }
    return 0;
}
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* st)
{
    sim::yield("Testall");
    bool all = true;
    for (int i = 0; i < n; i++) if (q[i] && !req_ok(q[i], "MPI_Testall")->done) all = false;
    *f = all;
    if (!all) { sim::poll_failed(); return 0; }
    for (int i = 0; i < n; i++) if (q[i]) fin_req(&q[i], st ? &st[i] : nullptr);
    return 0;
}
int MPI_Testany(int n, MPI_Request* q, int* idx, int* f, MPI_Status* st)
{
    sim::yield("Testany");
    bool any = false;
    for (int i = 0; i < n; i++) if (q[i]) {
        any = true;
        if (req_ok(q[i], "MPI_Testany")->done) { *idx = i; *f = 1; fin_req(&q[i], st); return 0; }
    }
    *idx = MPI_UNDEFINED; *f = !any;
    if (any) sim::poll_failed();
    return 0;
}
int MPI_Request_free(MPI_Request* q) { if (*q) free_req(req_ok(*q, "MPI_Request_free")); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request* q)
{
    auto* r = req_ok(*q, "MPI_Cancel");
    if (r->kind == 1 && !r->matched) {
        auto& ps = posted[{r->ctx->id, r->lrank}];
        ps.erase(std::remove(ps.begin(), ps.end(), r), ps.end());
        r->done = true; r->cancelled = true; r->st._cancelled = 1;
    }
    return 0;
}
int MPI_Test_cancelled(const MPI_Status* s, int* f) { *f = s->_cancelled; return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype dt, int* n)
{
    auto* t = type_of(dt, "MPI_Get_count");
    if (t->size == 0) *n = 0;
    else if (s->_ucount % t->size) *n = MPI_UNDEFINED;
    else *n = int(s->_ucount / t->size);
    return 0;
}
int MPI_Get_elements(const MPI_Status* s, MPI_Datatype dt, int* n) { auto* t = type_of(dt, "MPI_Get_elements"); *n = int(s->_ucount / (t->bsize ? t->bsize : 1)); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q = do_send(b, n, t, d, tag, c, 0, "Send"); return MPI_Wait(&q, nullptr); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q = do_send(b, n, t, d, tag, c, 2, "Bsend"); return MPI_Wait(&q, nullptr); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q = do_send(b, n, t, d, tag, c, 1, "Ssend"); return MPI_Wait(&q, nullptr); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { MPI_Request q = do_recv(b, n, t, s, tag, c, "Recv"); return MPI_Wait(&q, st); }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* stt)
{
    MPI_Request q[2] = {do_recv(rb, rn, rt, s, rtag, c, "Sendrecv(recv)"), nullptr};
    q[1] = do_send(sb, sn, st, d, stag, c, 0, "Sendrecv(send)");
    MPI_Wait(&q[0], stt);
    return MPI_Wait(&q[1], nullptr);
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype dt, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status* st)
{
    auto* t = type_of(dt, "MPI_Sendrecv_replace");
    auto tmp = pack(b, size_t(n), t);
    MPI_Request q[2];
    q[1] = do_send(tmp.data(), int(tmp.size()), MPI_BYTE, d, stag, c, 2, "Sendrecv_replace(send)");
    q[0] = do_recv(b, n, dt, s, rtag, c, "Sendrecv_replace(recv)");
    MPI_Wait(&q[0], st);
    return MPI_Wait(&q[1], nullptr);
}
static MsgP find_probe(const CtxP& x, int src, int tag)
{
    for (auto& m : unexpected[{x->id, x->local(me())}])
        if ((src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) return m;
    return nullptr;
}
static void fill_probe(const MsgP& m, MPI_Status* st)
{
    if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_ucount = m->bytes; st->_cancelled = 0; }
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st)
{
    auto x = ctx_of(c, "MPI_Probe");
    int r = x->local(me());
    sim::yield("Probe");
    sim::block("Probe", [x, s, tag, r] {
        for (auto& m : unexpected[{x->id, r}])
            if ((s == MPI_ANY_SOURCE || s == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) return true;
        return false; });
    fill_probe(find_probe(x, s, tag), st);
    return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st)
{
    auto x = ctx_of(c, "MPI_Iprobe");
    sim::yield("Iprobe");
    auto m = find_probe(x, s, tag);
    *f = m != nullptr;
    if (m) fill_probe(m, st); else sim::poll_failed();
    return 0;
}
}

// -------------------------------------------------------------- collectives -
static string bsig(size_t bytes) { return "bytes=" + std::to_string(bytes); }

extern "C" {
int MPI_Barrier(MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Barrier");
    auto p = coll_enter(x, "Barrier", "");
    coll_wait(x, p, need_all);
    coll_leave(x, p);
    return 0;
}
}
static MPI_Request async_coll(const CtxP& x, const std::shared_ptr<Inst>& p, const string& what, std::function<void()> fin)
{
    auto* r = new_req(2, what);
    sim::add_action(me(), what, [p] { return p->all(); }, [r, fin, x, p] { if (fin) fin(); r->done = true; coll_leave(x, p); });
    return r;
}
extern "C" {
int MPI_Ibarrier(MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Ibarrier");
    auto p = coll_enter(x, "Ibarrier", "");
    *q = async_coll(x, p, "Ibarrier", nullptr);
    return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Bcast");
    auto* t = type_of(dt, "MPI_Bcast");
    size_t cnt = check_count(n, "MPI_Bcast");
    if (root < 0 || root >= int(x->members.size())) { misuse("MPI_Bcast with invalid root"); return MPI_ERR_ROOT; }
    auto p = coll_enter(x, "Bcast", "root=" + std::to_string(root) + " " + bsig(cnt * t->size));
    int l = x->local(me());
    if (l == root) p->data[size_t(l)] = pack(b, cnt, t);
    coll_wait(x, p, [root](Inst& i) { return i.arrived[size_t(root)] != 0; });
    if (l != root) unpack(b, cnt, t, p->data[size_t(root)].data(), p->data[size_t(root)].size());
    coll_leave(x, p);
    return 0;
}
int MPI_Gatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, int root, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Gatherv");
    int l = x->local(me());
    auto p = coll_enter(x, "Gatherv", "root=" + std::to_string(root));
    if (l == root && sb == MPI_IN_PLACE) {
        auto* t = type_of(rt, "MPI_Gatherv");
        p->data[size_t(l)] = pack(static_cast<char*>(rb) + rd[l] * t->extent, size_t(rn[l]), t);
    } else p->data[size_t(l)] = pack(sb, check_count(sn, "MPI_Gatherv"), type_of(st, "MPI_Gatherv"));
    coll_wait(x, p, [l, root](Inst& i) { return l != root || i.all(); });
    if (l == root) {
        auto* t = type_of(rt, "MPI_Gatherv");
        for (size_t i = 0; i < x->members.size(); i++) {
            if (p->data[i].size() > size_t(rn[i]) * t->size) { misuse("MPI_Gatherv receive count too small"); return MPI_ERR_TRUNCATE; }
            unpack(static_cast<char*>(rb) + rd[i] * t->extent, size_t(rn[i]), t, p->data[i].data(), p->data[i].size());
        }
    }
    coll_leave(x, p);
    return 0;
}
int MPI_Gather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Gather");
    vector<int> n, d;
    for (int i = 0; i < int(x->members.size()); i++) { n.push_back(rn); d.push_back(i * rn); }
    return MPI_Gatherv(sb, sn, st, rb, n.data(), d.data(), rt, root, c);
}
int MPI_Scatterv(const void* sb, const int* sn, const int* sd, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Scatterv");
    int l = x->local(me());
    auto p = coll_enter(x, "Scatterv", "root=" + std::to_string(root));
    if (l == root) {
        auto* t = type_of(st, "MPI_Scatterv");
        for (size_t i = 0; i < x->members.size(); i++)
            p->data[i] = pack(static_cast<const char*>(sb) + sd[i] * t->extent, size_t(sn[i]), t);
    }
    coll_wait(x, p, [root](Inst& i) { return i.arrived[size_t(root)] != 0; });
    if (rb != MPI_IN_PLACE) {
        auto* t = type_of(rt, "MPI_Scatterv");
        auto& d = p->data[size_t(l)];
        if (d.size() > size_t(rn) * t->size) { misuse("MPI_Scatterv truncation"); return MPI_ERR_TRUNCATE; }
        unpack(rb, size_t(rn), t, d.data(), d.size());
    }
    coll_leave(x, p);
    return 0;
}
int MPI_Scatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Scatter");
    vector<int> n, d;
    for (int i = 0; i < int(x->members.size()); i++) { n.push_back(sn); d.push_back(i * sn); }
    return MPI_Scatterv(sb, n.data(), d.data(), st, rb, rn, rt, root, c);
}
int MPI_Allgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Allgatherv");
    int l = x->local(me());
    auto* t = type_of(rt, "MPI_Allgatherv");
    auto p = coll_enter(x, "Allgatherv", "");
    if (sb == MPI_IN_PLACE) p->data[size_t(l)] = pack(static_cast<char*>(rb) + rd[l] * t->extent, size_t(rn[l]), t);
    else p->data[size_t(l)] = pack(sb, check_count(sn, "MPI_Allgatherv"), type_of(st, "MPI_Allgatherv"));
    coll_wait(x, p, need_all);
    for (size_t i = 0; i < x->members.size(); i++) {
        if (p->data[i].size() != size_t(rn[i]) * t->size)
            sim::violation("collective-mismatch", "MPI_Allgatherv: rank " + std::to_string(i) + " contributes " + std::to_string(p->data[i].size()) + " bytes, expected " + std::to_string(size_t(rn[i]) * t->size));
        unpack(static_cast<char*>(rb) + rd[i] * t->extent, size_t(rn[i]), t, p->data[i].data(), p->data[i].size());
    }
    coll_leave(x, p);
    return 0;
}
static int allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Allgather");
    int l = x->local(me() < 0 ? 0 : me());
    auto* t = type_of(rt, "MPI_Allgather");
    size_t blk = check_count(rn, "MPI_Allgather") * t->size;
    auto p = coll_enter(x, q ? "Iallgather" : "Allgather", bsig(blk));
    if (sb == MPI_IN_PLACE) p->data[size_t(l)] = pack(static_cast<char*>(rb) + l * rn * t->extent, size_t(rn), t);
    else p->data[size_t(l)] = pack(sb, check_count(sn, "MPI_Allgather"), type_of(st, "MPI_Allgather"));
    if (p->data[size_t(l)].size() != blk) sim::violation("collective-mismatch", "MPI_Allgather send and receive sizes differ");
    sim::mix(p->data[size_t(l)].data(), blk);
    size_t n = x->members.size();
    auto fin = [=] { for (size_t i = 0; i < n; i++) unpack(static_cast<char*>(rb) + MPI_Aint(i) * rn * t->extent, size_t(rn), t, p->data[i].data(), blk); };
    if (q) { *q = async_coll(x, p, "Iallgather", fin); return 0; }
    coll_wait(x, p, need_all);
    fin();
    coll_leave(x, p);
    return 0;
}
int MPI_Allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) { return allgather(sb, sn, st, rb, rn, rt, c, nullptr); }
int MPI_Iallgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { return allgather(sb, sn, st, rb, rn, rt, c, q); }
int MPI_Alltoallv(const void* sb, const int* sn, const int* sd, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Alltoallv");
    size_t l = size_t(x->local(me()));
    auto p = coll_enter(x, "Alltoallv", "");
    auto* t = type_of(st, "MPI_Alltoallv");
    auto* u = type_of(rt, "MPI_Alltoallv");
    auto& v = p->data[l];
    p->ints[l].clear();
    for (size_t i = 0; i < x->members.size(); i++) {
        auto d = pack(static_cast<const char*>(sb) + sd[i] * t->extent, size_t(sn[i]), t);
        p->ints[l].push_back(int(v.size()));
        v.insert(v.end(), d.begin(), d.end());
    }
    p->ints[l].push_back(int(v.size()));
    coll_wait(x, p, need_all);
    for (size_t i = 0; i < x->members.size(); i++) {
        size_t b = size_t(p->ints[i][l]), e = size_t(p->ints[i][l + 1]);
        if (e - b != size_t(rn[i]) * u->size) sim::violation("collective-mismatch", "MPI_Alltoall(v) block sizes differ");
        unpack(static_cast<char*>(rb) + rd[i] * u->extent, size_t(rn[i]), u, p->data[i].data() + b, e - b);
    }
    coll_leave(x, p);
    return 0;
}
int MPI_Alltoall(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Alltoall");
    vector<int> a, b, d, e;
    for (int i = 0; i < int(x->members.size()); i++) { a.push_back(sn); b.push_back(i * sn); d.push_back(rn); e.push_back(i * rn); }
    return MPI_Alltoallv(sb, a.data(), b.data(), st, rb, d.data(), e.data(), rt, c);
}
}
static string rsig(size_t cnt, sim_type* t, MPI_Op op, int root)
{
    return "count=" + std::to_string(cnt) + " type=" + std::to_string(int(t->basic)) + "/" + std::to_string(t->size) + " op=" + std::to_string(op ? op->k : -1) + (root >= 0 ? " root=" + std::to_string(root) : "");
}
static int reduce_gen(const char* name, int mode, const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c, MPI_Request* q = nullptr)
{
    // mode 0 reduce, 1 allreduce, 2 scan, 3 exscan
    auto x = ctx_of(c, name);
    auto* t = type_of(dt, name);
    size_t cnt = check_count(n, name);
    int l = x->local(me() < 0 ? 0 : me());
    auto p = coll_enter(x, name, rsig(cnt, t, op, mode == 0 ? root : -1));
    p->data[size_t(l)] = pack(sb == MPI_IN_PLACE ? rb : sb, cnt, t);
    sim::mix(p->data[size_t(l)].data(), p->data[size_t(l)].size());
    auto fin = [=] {
        size_t lo = 0, hi = x->members.size();
        if (mode == 2) hi = size_t(l) + 1;
        if (mode == 3) hi = size_t(l);
        if (mode == 0 && l != root) return;
        if (hi <= lo) return;
        auto a = p->data[lo];
        for (size_t i = lo + 1; i < hi; i++) reduce_into(op, t, a, p->data[i]);
        unpack(rb, cnt, t, a.data(), a.size());
    };
    if (q) { *q = async_coll(x, p, name, fin); return 0; }
    coll_wait(x, p, [mode, l, root](Inst& i) {
        if (mode == 1) return i.all();
        if (mode == 0) return l != root || i.all();
        for (int k = 0; k < l; k++) if (!i.arrived[size_t(k)]) return false;
        return true;
    });
    fin();
    coll_leave(x, p);
    return 0;
}
extern "C" {
int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduce_gen("Reduce", 0, sb, rb, n, t, op, root, c); }
int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_gen("Allreduce", 1, sb, rb, n, t, op, -1, c); }
int MPI_Iallreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q) { return reduce_gen("Iallreduce", 1, sb, rb, n, t, op, -1, c, q); }
int MPI_Scan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_gen("Scan", 2, sb, rb, n, t, op, -1, c); }
int MPI_Exscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_gen("Exscan", 3, sb, rb, n, t, op, -1, c); }
int MPI_Reduce_scatter_block(const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Reduce_scatter_block");
    auto* t = type_of(dt, "MPI_Reduce_scatter_block");
    size_t N = x->members.size();
    vector<unsigned char> tmp(size_t(n) * N * t->size);
    reduce_gen("Reduce_scatter_block", 1, sb, tmp.data(), n * int(N), dt, op, -1, c);
    unpack(rb, size_t(n), t, tmp.data() + size_t(n) * t->size * size_t(x->local(me())), size_t(n) * t->size);
    return 0;
}
int MPI_Ibcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Ibcast");
    auto* t = type_of(dt, "MPI_Ibcast");
    size_t cnt = check_count(n, "MPI_Ibcast");
    auto p = coll_enter(x, "Ibcast", "root=" + std::to_string(root) + " " + bsig(cnt * t->size));
    int l = x->local(me());
    if (l == root) p->data[size_t(l)] = pack(b, cnt, t);
    *q = async_coll(x, p, "Ibcast", [=] { if (l != root) unpack(b, cnt, t, p->data[size_t(root)].data(), p->data[size_t(root)].size()); });
    return 0;
}
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* o) { auto* p = new sim_op{100, f, false, false, me()}; rop.add(p); cens[me()].op++; *o = p; return 0; }
int MPI_Op_free(MPI_Op* o) { if (!*o || (*o)->builtin || (*o)->freed) { misuse("MPI_Op_free of an invalid operation"); return MPI_ERR_OP; } (*o)->freed = true; cens[me()].op--; *o = nullptr; return 0; }

// ------------------------------------------------------------------- types --
}
static void finish_type(sim_type* t)
{
    // merge adjacent segments, keep order
    vector<std::pair<MPI_Aint, size_t>> m;
    for (auto& s : t->segs) {
        if (!s.second) continue;
        if (!m.empty() && m.back().first + MPI_Aint(m.back().second) == s.first) m.back().second += s.second;
        else m.push_back(s);
    }
    t->segs.swap(m);
    t->size = 0;
    for (auto& s : t->segs) t->size += s.second;
    t->lb = t->tlb();
    t->extent = t->tub() - t->lb;
}
static sim_type* new_type(const sim_type* base)
{
    auto* t = new sim_type;
    t->owner = me();
    t->basic = base ? base->basic : B_NONE;
    t->bsize = base ? base->bsize : 1;
    rtype.add(t);
    cens[me()].type++;
    return t;
}
static void add_block(sim_type* t, const sim_type* b, MPI_Aint disp, size_t n)
{
    for (size_t i = 0; i < n; i++)
        for (auto& s : b->segs) {
            MPI_Aint o = disp + MPI_Aint(i) * b->extent + s.first;
            if (!t->segs.empty() && t->segs.back().first + MPI_Aint(t->segs.back().second) == o) t->segs.back().second += s.second;
            else t->segs.push_back({o, s.second});
        }
}
extern "C" {
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* r)
{
    in_mpi_ok("MPI_Type_create_hindexed");
    auto* b = type_of(o, "MPI_Type_create_hindexed", false);
    check_count(n, "MPI_Type_create_hindexed");
    auto* t = new_type(b);
    for (int i = 0; i < n; i++) add_block(t, b, d[i], check_count(bl[i], "MPI_Type_create_hindexed"));
    finish_type(t);
    *r = t;
    return 0;
}
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* r)
{
    vector<int> b(size_t(n > 0 ? n : 0), bl);
    return MPI_Type_create_hindexed(n, b.data(), d, o, r);
}
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype* r)
{
    vector<int> b(check_count(n, "MPI_Type_create_hvector"), bl);
    vector<MPI_Aint> d;
    for (int i = 0; i < n; i++) d.push_back(i * st);
    return MPI_Type_create_hindexed(n, b.data(), d.data(), o, r);
}
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype* r) { auto* b = type_of(o, "MPI_Type_vector", false); return MPI_Type_create_hvector(n, bl, st * b->extent, o, r); }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* r) { MPI_Aint z = 0; return MPI_Type_create_hindexed(1, &n, &z, o, r); }
int MPI_Type_indexed(int n, const int* bl, const int* d, MPI_Datatype o, MPI_Datatype* r)
{
    auto* b = type_of(o, "MPI_Type_indexed", false);
    vector<MPI_Aint> dd;
    for (int i = 0; i < n; i++) dd.push_back(d[i] * b->extent);
    return MPI_Type_create_hindexed(n, bl, dd.data(), o, r);
}
int MPI_Type_create_indexed_block(int n, int bl, const int* d, MPI_Datatype o, MPI_Datatype* r)
{
    vector<int> b(size_t(n > 0 ? n : 0), bl);
    return MPI_Type_indexed(n, b.data(), d, o, r);
}
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* d, const MPI_Datatype* o, MPI_Datatype* r)
{
    auto* t = new_type(nullptr);
    for (int i = 0; i < n; i++) add_block(t, type_of(o[i], "MPI_Type_create_struct", false), d[i], size_t(bl[i]));
    finish_type(t);
    *r = t;
    return 0;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* r)
{
    auto* b = type_of(o, "MPI_Type_create_resized", false);
    auto* t = new_type(b);
    t->segs = b->segs; t->size = b->size; t->lb = lb; t->extent = ext;
    *r = t;
    return 0;
}
int MPI_Type_create_subarray(int nd, const int* sz, const int* sub, const int* st, int order, MPI_Datatype o, MPI_Datatype* r)
{
    auto* b = type_of(o, "MPI_Type_create_subarray", false);
    auto* t = new_type(b);
    vector<int> s(sz, sz + nd), u(sub, sub + nd), f(st, st + nd);
    if (order == MPI_ORDER_FORTRAN) { std::reverse(s.begin(), s.end()); std::reverse(u.begin(), u.end()); std::reverse(f.begin(), f.end()); }
    size_t total = 1, all = 1;
    for (int i = 0; i < nd; i++) { total *= size_t(u[size_t(i)]); all *= size_t(s[size_t(i)]); }
    for (size_t k = 0; k < total; k++) {
        size_t rem = k, off = 0, mul = 1;
        for (int i = nd - 1; i >= 0; i--) {
            off += (rem % size_t(u[size_t(i)]) + size_t(f[size_t(i)])) * mul;
            rem /= size_t(u[size_t(i)]);
            mul *= size_t(s[size_t(i)]);
        }
        add_block(t, b, MPI_Aint(off) * b->extent, 1);
    }
    finish_type(t);
    t->lb = 0; t->extent = MPI_Aint(all) * b->extent;
    *r = t;
    return 0;
}
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* r)
{
    auto* b = type_of(o, "MPI_Type_dup", false);
    auto* t = new_type(b);
    t->segs = b->segs; t->size = b->size; t->lb = b->lb; t->extent = b->extent; t->committed = b->committed;
    *r = t;
    return 0;
}
int MPI_Type_commit(MPI_Datatype* t) { type_of(*t, "MPI_Type_commit", false)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype* t)
{
    in_mpi_ok("MPI_Type_free");
    auto* p = type_of(*t, "MPI_Type_free", false);
    if (p->builtin) { misuse("MPI_Type_free of a predefined datatype"); return MPI_ERR_TYPE; }
    p->freed = true;
    rtype.del(p);
    cens[p->owner].type--;
    *t = MPI_DATATYPE_NULL;
    return 0;
}
int MPI_Type_size(MPI_Datatype t, int* s) { *s = int(type_of(t, "MPI_Type_size", false)->size); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { auto* p = type_of(t, "MPI_Type_get_extent", false); *lb = p->lb; *e = p->extent; return 0; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e)
{
    in_mpi_ok("MPI_Type_get_true_extent");
    auto* p = type_of(t, "MPI_Type_get_true_extent", false);
    *lb = p->tlb(); *e = p->tub() - p->tlb();
    return 0;
}

// -------------------------------------------------------------------- info --
int MPI_Info_create(MPI_Info* i) { in_mpi_ok("MPI_Info_create"); auto* p = new sim_info{me()}; rinfo.add(p); cens[me()].info++; *i = p; return 0; }
static sim_info* info_ok(MPI_Info i, const char* op)
{
    if (!i || !rinfo.known.count(i)) { misuse(string(op) + " on an invalid info"); return nullptr; }
    if (i->freed) { misuse(string(op) + " on a freed info"); return nullptr; }
    return i;
}
int MPI_Info_set(MPI_Info i, const char* k, const char* v) { info_ok(i, "MPI_Info_set")->kv[k] = v; return 0; }
int MPI_Info_get(MPI_Info i, const char* k, int n, char* v, int* f)
{
    auto* p = info_ok(i, "MPI_Info_get");
    auto j = p->kv.find(k);
    *f = j != p->kv.end();
    if (*f) snprintf(v, size_t(n) + 1, "%s", j->second.c_str());
    return 0;
}
int MPI_Info_delete(MPI_Info i, const char* k) { info_ok(i, "MPI_Info_delete")->kv.erase(k); return 0; }
int MPI_Info_get_nkeys(MPI_Info i, int* n) { *n = int(info_ok(i, "MPI_Info_get_nkeys")->kv.size()); return 0; }
int MPI_Info_dup(MPI_Info i, MPI_Info* o) { auto kv = info_ok(i, "MPI_Info_dup")->kv; MPI_Info_create(o); (*o)->kv = kv; return 0; }
int MPI_Info_free(MPI_Info* i)
{
    auto* p = info_ok(*i, "MPI_Info_free");
    p->freed = true;
    rinfo.del(p);
    cens[p->owner].info--;
    *i = MPI_INFO_NULL;
    return 0;
}
}

// --------------------------------------------------------------------- RMA --
namespace {
struct WOp { int origin, target; int kind; const void* ob; void* rb; size_t on, rn, tn; sim_type ot, rt, tt; MPI_Aint disp; MPI_Op op; bool done = false; uint64_t act = 0, act2 = 0; sim_req* req = nullptr; };
struct WShared {
    CtxP ctx;
    vector<unsigned char*> base; vector<MPI_Aint> size; vector<int> unit; vector<char> owned, freed_, isopen;
    struct Lk { int excl = -1; std::set<int> shared; };
    vector<Lk> lk;
    std::set<std::pair<int, int>> held;    // (origin, target)
    std::set<int> all;                     // lock_all origins
    vector<int> fence;                     // fence count per rank
    vector<std::shared_ptr<WOp>> pend;
};
}  // namespace
struct sim_win { std::shared_ptr<WShared> s; int owner; int l; bool freed = false; };

static sim_win* win_ok(MPI_Win w, const char* op)
{
    in_mpi_ok(op);
    if (!w || !rwin.known.count(w)) { misuse(string(op) + " on an invalid window"); return nullptr; }
    if (w->freed) { misuse(string(op) + " on a freed window"); return nullptr; }
    if (w->owner != me()) { misuse(string(op) + " on a window handle of another process"); return nullptr; }
    return w;
}
namespace sim { void remove_action(uint64_t id); }
static void apply_wop(const std::shared_ptr<WShared>& s, const std::shared_ptr<WOp>& o)
{
    if (o->done) return;
    o->done = true;
    if (o->act2) sim::remove_action(o->act2);
    unsigned char* tb = s->base[size_t(o->target)] + o->disp * s->unit[size_t(o->target)];
    if (o->kind == 0) {
        auto d = pack(o->ob, o->on, &o->ot);
        unpack(tb, o->tn, &o->tt, d.data(), d.size());
    } else if (o->kind == 1) {
        auto d = pack(tb, o->tn, &o->tt);
        unpack(o->rb, o->rn, &o->rt, d.data(), d.size());
    } else {
        auto d = pack(tb, o->tn, &o->tt);
        if (o->rb) unpack(o->rb, o->rn, &o->rt, d.data(), d.size());
        if (o->op->k != 13) {
            auto v = pack(o->ob, o->on, &o->ot);
            reduce_into(o->op, &o->tt, d, v);
            unpack(tb, o->tn, &o->tt, d.data(), d.size());
        }
    }
    for (size_t i = 0; i < s->pend.size(); i++) if (s->pend[i] == o) { s->pend.erase(s->pend.begin() + long(i)); break; }
    if (o->req) o->req->done = true;
}
/// What a process may see of a Put which is under way: a part of the bytes.
static void tear_wop(const std::shared_ptr<WOp>& o, const std::shared_ptr<WShared>& s)
{
    unsigned char* tb = s->base[size_t(o->target)] + o->disp * s->unit[size_t(o->target)];
    auto now = pack(tb, o->tn, &o->tt), d = pack(o->ob, o->on, &o->ot);
    if (d.size() < 2 || now.size() != d.size()) return;
    size_t k = 1 + S.draw(uint32_t(d.size() - 1));
    std::copy(d.begin(), d.begin() + long(k), now.begin());
    unpack(tb, o->tn, &o->tt, now.data(), now.size());
}
static void flush_wops(const std::shared_ptr<WShared>& s, int origin, int target)
{
    vector<std::shared_ptr<WOp>> v;
    for (auto& o : s->pend) if (o->origin == origin && (target < 0 || o->target == target)) v.push_back(o);
    while (!v.empty()) {
        size_t k = v.size() > 1 ? S.draw(uint32_t(v.size())) : 0;
        // accumulate operations from one origin stay in program order
        if (v[k]->kind == 2) for (size_t i = 0; i < k; i++) if (v[i]->kind == 2 && v[i]->target == v[k]->target) { k = i; break; }
        sim::remove_action(v[k]->act);
        apply_wop(s, v[k]);
        v.erase(v.begin() + long(k));
    }
}
static int queue_wop(MPI_Win w, std::shared_ptr<WOp> o, const char* name)
{
    auto* h = win_ok(w, name);
    auto s = h->s;
    sim::yield(name);
    o->origin = h->l;
    if (o->target == MPI_PROC_NULL) { if (o->req) o->req->done = true; return 0; }
    if (o->target < 0 || o->target >= int(s->base.size())) { misuse(string(name) + " to invalid rank"); return MPI_ERR_RANK; }
    bool epoch = s->held.count({h->l, o->target}) || s->all.count(h->l) || s->fence[size_t(h->l)] > 0;
    if (!epoch) sim::violation("rma-no-epoch", string(name) + " by rank " + std::to_string(me()) + " outside an access epoch");
    // range check
    MPI_Aint lo = o->disp * s->unit[size_t(o->target)];
    MPI_Aint b = 0, e = 0;
    if (o->tn && o->tt.size) { b = lo + o->tt.tlb(); e = lo + MPI_Aint(o->tn - 1) * o->tt.extent + o->tt.tub(); }
    if (o->tn && o->tt.size && (b < 0 || e > s->size[size_t(o->target)] || s->freed_[size_t(o->target)]))
        sim::violation("rma-range", string(name) + " by rank " + std::to_string(me()) + " touches bytes [" + std::to_string(b) + "," + std::to_string(e)
            + ") of the window of rank " + std::to_string(o->target) + " which has " + std::to_string(s->size[size_t(o->target)]) + " bytes");
    sim::ev("%s rank %d disp %ld n %zu", name, o->target, long(o->disp), o->tn);
    if (o->kind != 0 && o->rb) poison(o->rb, o->rn, &o->rt);
    s->pend.push_back(o);
    sim::fault_counts[sim::F_RMADELAY]++;
    auto enabled = [s, o] {
        if (o->kind != 2) return true;
        for (auto& q : s->pend) { if (q == o) return true; if (q->kind == 2 && q->origin == o->origin && q->target == o->target) return false; }
        return true; };
    o->act = sim::add_action(me(), string("apply ") + name + " " + std::to_string(o->origin) + "->" + std::to_string(o->target), enabled, [s, o] { apply_wop(s, o); });
    if (o->kind == 0) {
        o->act2 = sim::add_action(me(), string("begin ") + name + " " + std::to_string(o->origin) + "->" + std::to_string(o->target), [] { return true; },
            [s, o] { o->act2 = 0; if (!o->done) tear_wop(o, s); });
    }
    return 0;
}
extern "C" {
static int win_make(void* base, MPI_Aint size, int unit, MPI_Comm c, MPI_Win* w, bool alloc, void** out)
{
    auto x = ctx_of(c, "MPI_Win_create");
    size_t l = size_t(x->local(me()));
    auto p = coll_enter(x, alloc ? "Win_allocate" : "Win_create", "");
    if (size < 0) misuse("MPI_Win_create with negative size");
    if (!p->shared) {
        auto s = std::make_shared<WShared>();
        size_t n = x->members.size();
        s->ctx = new_ctx("win", x->members);
        s->base.assign(n, nullptr); s->size.assign(n, 0); s->unit.assign(n, 1); s->owned.assign(n, 0); s->freed_.assign(n, 0);
        s->lk.resize(n); s->fence.assign(n, 0);
        p->shared = s;
    }
    auto s = std::static_pointer_cast<WShared>(p->shared);
    if (alloc) { base = malloc(size_t(size)); *out = base; memset(base, 0xA5, size_t(size)); }
    s->base[l] = static_cast<unsigned char*>(base); s->size[l] = size; s->unit[l] = unit; s->owned[l] = alloc;
    coll_wait(x, p, need_all);
    coll_leave(x, p);
    auto* h = new sim_win{s, me(), int(l), false};
    rwin.add(h);
    cens[me()].win++;
    *w = h;
    return 0;
}
int MPI_Win_create(void* b, MPI_Aint sz, int unit, MPI_Info, MPI_Comm c, MPI_Win* w) { return win_make(b, sz, unit, c, w, false, nullptr); }
int MPI_Win_allocate(MPI_Aint sz, int unit, MPI_Info, MPI_Comm c, void* bp, MPI_Win* w) { return win_make(nullptr, sz, unit, c, w, true, static_cast<void**>(bp)); }
int MPI_Win_free(MPI_Win* w)
{
    auto* h = win_ok(*w, "MPI_Win_free");
    auto s = h->s;
    for (auto& k : s->held) if (k.first == h->l) misuse("MPI_Win_free while holding a lock");
    auto p = coll_enter(s->ctx, "Win_free", "");
    coll_wait(s->ctx, p, need_all);
    flush_wops(s, h->l, -1);
    coll_leave(s->ctx, p);
    if (s->owned[size_t(h->l)]) free(s->base[size_t(h->l)]);
    s->freed_[size_t(h->l)] = 1;
    h->freed = true;
    rwin.del(h);
    cens[me()].win--;
    *w = MPI_WIN_NULL;
    return 0;
}
int MPI_Win_lock(int type, int target, int as, MPI_Win w)
{
    auto* h = win_ok(w, "MPI_Win_lock");
    auto s = h->s;
    sim::yield("Win_lock");
    int l = h->l;
    if (target < 0 || target >= int(s->base.size())) { misuse("MPI_Win_lock of invalid rank"); return MPI_ERR_RANK; }
    if (s->held.count({l, target})) misuse("MPI_Win_lock of a rank already locked by this process");
    auto* k = &s->lk[size_t(target)];
    if (!(as & MPI_MODE_NOCHECK)) {
        if (type == MPI_LOCK_EXCLUSIVE) {
            sim::block("Win_lock(exclusive)", [k] { return k->excl < 0 && k->shared.empty(); });
            k->excl = l;
        } else {
            sim::block("Win_lock(shared)", [k] { return k->excl < 0; });
            k->shared.insert(l);
        }
    }
    sim::ev("Win_lock %d", target);
    s->held.insert({l, target});
    return 0;
}
int MPI_Win_unlock(int target, MPI_Win w)
{
    auto* h = win_ok(w, "MPI_Win_unlock");
    auto s = h->s;
    sim::yield("Win_unlock");
    if (!s->held.count({h->l, target})) { misuse("MPI_Win_unlock without lock"); return MPI_ERR_RMA_SYNC; }
    flush_wops(s, h->l, target);
    sim::ev("Win_unlock %d", target);
    s->held.erase({h->l, target});
    auto& k = s->lk[size_t(target)];
    if (k.excl == h->l) k.excl = -1;
    k.shared.erase(h->l);
    return 0;
}
int MPI_Win_lock_all(int as, MPI_Win w)
{
    auto* h = win_ok(w, "MPI_Win_lock_all");
    auto s = h->s;
    sim::yield("Win_lock_all");
    int l = h->l;
    if (!(as & MPI_MODE_NOCHECK)) {
        sim::block("Win_lock_all", [s] { for (auto& k : s->lk) if (k.excl >= 0) return false; return true; });
        for (auto& k : s->lk) k.shared.insert(l);
    }
    s->all.insert(l);
    return 0;
}
int MPI_Win_unlock_all(MPI_Win w)
{
    auto* h = win_ok(w, "MPI_Win_unlock_all");
    auto s = h->s;
    sim::yield("Win_unlock_all");
    if (!s->all.count(h->l)) { misuse("MPI_Win_unlock_all without lock_all"); return MPI_ERR_RMA_SYNC; }
    flush_wops(s, h->l, -1);
    s->all.erase(h->l);
    for (auto& k : s->lk) k.shared.erase(h->l);
    return 0;
}
int MPI_Win_flush(int t, MPI_Win w) { auto* h = win_ok(w, "MPI_Win_flush"); sim::yield("Win_flush"); flush_wops(h->s, h->l, t); return 0; }
int MPI_Win_flush_all(MPI_Win w) { auto* h = win_ok(w, "MPI_Win_flush_all"); sim::yield("Win_flush_all"); flush_wops(h->s, h->l, -1); return 0; }
int MPI_Win_flush_local(int t, MPI_Win w) { return MPI_Win_flush(t, w); }
int MPI_Win_flush_local_all(MPI_Win w) { return MPI_Win_flush_all(w); }
int MPI_Win_fence(int as, MPI_Win w)
{
    auto* h = win_ok(w, "MPI_Win_fence");
    auto s = h->s;
    flush_wops(s, h->l, -1);
    auto p = coll_enter(s->ctx, "Win_fence", "");
    coll_wait(s->ctx, p, need_all);
    coll_leave(s->ctx, p);
    if (as & MPI_MODE_NOSUCCEED) s->fence[size_t(h->l)] = 0;
    else s->fence[size_t(h->l)]++;
    return 0;
}
int MPI_Win_sync(MPI_Win w) { win_ok(w, "MPI_Win_sync"); sim::yield("Win_sync"); return 0; }
int MPI_Put(const void* ob, int on, MPI_Datatype ot, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w)
{
    auto o = std::make_shared<WOp>();
    o->kind = 0; o->ob = ob; o->on = check_count(on, "MPI_Put"); o->ot = *type_of(ot, "MPI_Put"); o->target = target; o->disp = disp; o->tn = check_count(tn, "MPI_Put"); o->tt = *type_of(tt, "MPI_Put"); o->rb = nullptr; o->op = nullptr;
    return queue_wop(w, o, "Put");
}
int MPI_Get(void* ob, int on, MPI_Datatype ot, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w)
{
    auto o = std::make_shared<WOp>();
    o->kind = 1; o->rb = ob; o->rn = check_count(on, "MPI_Get"); o->rt = *type_of(ot, "MPI_Get"); o->target = target; o->disp = disp; o->tn = check_count(tn, "MPI_Get"); o->tt = *type_of(tt, "MPI_Get"); o->ob = nullptr; o->op = nullptr;
    return queue_wop(w, o, "Get");
}
int MPI_Get_accumulate(const void* ob, int on, MPI_Datatype ot, void* rb, int rn, MPI_Datatype rt, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w)
{
    auto o = std::make_shared<WOp>();
    o->kind = 2; o->ob = ob; o->on = size_t(on); if (op != MPI_NO_OP) o->ot = *type_of(ot, "MPI_Accumulate"); o->rb = rb; o->rn = size_t(rn); if (rb) o->rt = *type_of(rt, "MPI_Accumulate");
    o->target = target; o->disp = disp; o->tn = size_t(tn); o->tt = *type_of(tt, "MPI_Accumulate"); o->op = op;
    return queue_wop(w, o, "Accumulate");
}
int MPI_Accumulate(const void* ob, int on, MPI_Datatype ot, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w) { return MPI_Get_accumulate(ob, on, ot, nullptr, 0, nullptr, target, disp, tn, tt, op, w); }
int MPI_Fetch_and_op(const void* ob, void* rb, MPI_Datatype t, int target, MPI_Aint disp, MPI_Op op, MPI_Win w) { return MPI_Get_accumulate(ob, 1, t, rb, 1, t, target, disp, 1, t, op, w); }
}

// ---------------------------------------------------------------- files -----
namespace {
struct FOpen {
    CtxP ctx; string name; std::shared_ptr<sim::FNode> node; int amode; int nopen = 0; bool resized = false;
};
struct WItem { uint64_t off; vector<unsigned char> d; uint64_t act = 0; };
}  // namespace
struct sim_file {
    std::shared_ptr<FOpen> o; int owner; bool freed = false;
    MPI_Offset disp = 0; sim_type ftype; size_t esize = 1; MPI_Offset pos = 0; int atom = 0;
    std::deque<std::shared_ptr<WItem>> cache;
};
namespace {
int io_fault_count = 0, io_calls = 0;
bool fault_on(sim::FaultKind k) { return (sim::cfg.fault_mask >> k) & 1u; }
bool draw_fault(sim::FaultKind k, const string& name)
{
    if (!fault_on(k)) return false;
    if (io_fault_count >= sim::cfg.fault_max) return false;
    if (!sim::cfg.fault_path.empty() && name.find(sim::cfg.fault_path) == string::npos) return false;
    if (io_calls++ < sim::cfg.fault_skip) return false;
    if (!S.chance(sim::cfg.fault_num, sim::cfg.fault_den)) return false;
    io_fault_count++;
    return true;
}
void record_fault(sim::FaultKind k, const string& op, const string& name, int code)
{
    sim::fault_counts[k]++;
    sim::faults.push_back({sim::outcome.steps, me(), k, op, name, code, code != 0});
    sim::ev("FAULT %s in %s on %s -> %d", sim::fault_names[k], op.c_str(), name.c_str(), code);
}
int fault_code(sim::FaultKind k)
{
    switch (k) {
        case sim::F_OPEN: { static const int c[] = {MPI_ERR_NO_SUCH_FILE, MPI_ERR_ACCESS, MPI_ERR_IO}; return c[S.draw(3)]; }
        case sim::F_WRITE_NOSPC: return S.draw(2) ? MPI_ERR_QUOTA : MPI_ERR_NO_SPACE;
        default: return MPI_ERR_IO;
    }
}
// Fault decision for one rank of a collective file operation (drawn once per instance).
int coll_fault(const CtxP& c, const std::shared_ptr<Inst>& p, const vector<sim::FaultKind>& kinds, const string& op, const string& name, bool all_ranks)
{
    if (!p->decided) {
        p->decided = true;
        for (auto k : kinds) if (draw_fault(k, name)) {
            p->fk = k;
            p->fcode = fault_code(k);
            uint32_t full = (1u << c->members.size()) - 1u;
            uint32_t scope = all_ranks ? 0 : S.draw(3);
            if (scope == 0) p->fmask = full;
            else if (scope == 1) p->fmask = 1u << S.draw(uint32_t(c->members.size()));
            else { p->fmask = S.draw(full) + 1u; }
            break;
        }
    }
    int l = c->local(me());
    if (p->fmask >> l & 1u) { record_fault(p->fk, op, name, p->fcode); return p->fcode; }
    return 0;
}
void apply_write(const std::shared_ptr<FOpen>& o, uint64_t off, const unsigned char* d, size_t n)
{
    if (!n) return;
    if (off + n > (o->node->sparse ? 1ull << 56 : 1ull << 31)) { sim::violation("runaway-file-size", "write at offset " + std::to_string(off) + " of " + o->name); return; }
    o->node->write(off, d, n);
    o->node->writes++;
}
void flush_front(sim_file* f)
{
    auto i = f->cache.front();
    f->cache.pop_front();
    apply_write(f->o, i->off, i->d.data(), i->d.size());
}
void flush_cache(sim_file* f)
{
    while (!f->cache.empty()) {
        sim::remove_action(f->cache.front()->act);
        flush_front(f);
    }
}
// logical byte range of the view -> file segments
vector<std::pair<uint64_t, size_t>> map_view(sim_file* f, uint64_t lo, size_t n)
{
    vector<std::pair<uint64_t, size_t>> r;
    const auto& t = f->ftype;
    if (!n) return r;
    if (t.size == 0) return r;  // as ROMIO: nothing is transferred, no error
    uint64_t tile = lo / t.size, in = lo % t.size;
    while (n) {
        for (auto& s : t.segs) {
            if (in >= s.second) { in -= s.second; continue; }
            size_t k = std::min(n, size_t(s.second - in));
            long long off = f->disp + (long long)tile * t.extent + s.first + (long long)in;
            if (off < 0) { misuse("file access at a negative offset"); return r; }
            if (!r.empty() && r.back().first + r.back().second == uint64_t(off)) r.back().second += k;
            else r.push_back({uint64_t(off), k});
            n -= k;
            in = 0;
            if (!n) break;
        }
        tile++;
    }
    return r;
}
sim_file* file_ok(MPI_File f, const char* op, int& err)
{
    in_mpi_ok(op);
    err = 0;
    if (!f) { err = MPI_ERR_FILE; return nullptr; }
    if (!rfile.known.count(f)) { misuse(string(op) + " on an invalid file handle"); return nullptr; }
    if (f->freed) { misuse(string(op) + " on a closed file"); return nullptr; }
    if (f->owner != me()) { misuse(string(op) + " on a file handle of another process"); return nullptr; }
    return f;
}
size_t do_read_data(sim_file* f, uint64_t lo, void* buf, size_t cnt, sim_type* t)
{
    flush_cache(f);
    size_t bytes = cnt * t->size;
    auto segs = map_view(f, lo, bytes);
    vector<unsigned char> d;
    d.reserve(bytes);
    for (auto& s : segs) {
        auto& v = *f->o->node;
        size_t av = s.first >= v.size() ? 0 : std::min(s.second, size_t(v.size() - s.first));
        d.resize(d.size() + av);
        v.read(s.first, d.data() + d.size() - av, av);
        if (av < s.second) break;
    }
    unpack(buf, cnt, t, d.data(), d.size());
    return d.size();
}
// limit: bytes that reach the file (torn write)
void do_write_data(sim_file* f, uint64_t lo, const vector<unsigned char>& d, size_t limit)
{
    auto segs = map_view(f, lo, d.size());
    size_t o = 0;
    for (auto& s : segs) {
        size_t k = s.second;
        if (o >= limit) break;
        k = std::min(k, limit - o);
        // split at a random point
        vector<std::pair<size_t, size_t>> pieces = {{0, k}};
        if (k > 1 && S.chance(1, 6)) {
            size_t c = 1 + S.draw(uint32_t(k - 1));
            pieces = {{0, c}, {c, k - c}};
            sim::fault_counts[sim::F_TEAR]++;
        }
        for (auto& pc : pieces) {
            auto it = std::make_shared<WItem>();
            it->off = s.first + pc.first;
            it->d.assign(d.begin() + long(o + pc.first), d.begin() + long(o + pc.first + pc.second));
            if (sim::cfg.wcache && S.chance(1, 2)) {
                sim::fault_counts[sim::F_CACHE]++;
                f->cache.push_back(it);
                auto ff = f;
                it->act = sim::add_action(f->owner, "write-back " + f->o->name + " by rank " + std::to_string(f->owner),
                    [ff, it] { return !ff->cache.empty() && ff->cache.front() == it; }, [ff] { flush_front(ff); });
            } else {
                flush_cache(f);
                apply_write(f->o, it->off, it->d.data(), it->d.size());
                if (pieces.size() > 1) sim::yield("write piece");
            }
        }
        o += s.second;
    }
}
void set_status(MPI_Status* st, size_t n)
{
    if (st) { memset(st, 0, sizeof *st); st->_ucount = n; }
}
int rw(MPI_File fh, uint64_t lo, void* buf, int n, MPI_Datatype dt, MPI_Status* st, bool write, bool all, size_t* moved, const char* op)
{
    int err;
    auto* f = file_ok(fh, op, err);
    if (!f) return err;
    auto* t = type_of(dt, op);
    size_t cnt = check_count(n, op);
    size_t bytes = cnt * t->size;
    std::shared_ptr<Inst> p;
    auto o = f->o;
    if (write && (o->amode & MPI_MODE_RDONLY)) { /* still take part in the collective */ }
    vector<unsigned char> d;
    if (all) {
        p = coll_enter(o->ctx, op, "");
        sim::ev("%s %s at %llu bytes %zu", op, o->name.c_str(), (unsigned long long)lo, bytes);
    } else {
        sim::yield(op);
        sim::ev("%s %s at %llu bytes %zu", op, o->name.c_str(), (unsigned long long)lo, bytes);
    }
    int code = 0;
    vector<sim::FaultKind> kinds = write ? vector<sim::FaultKind>{sim::F_WRITE_EIO, sim::F_WRITE_NOSPC} : vector<sim::FaultKind>{sim::F_READ};
    if (all) code = coll_fault(o->ctx, p, kinds, op, o->name, false);
    else if (bytes) for (auto k : kinds) if (draw_fault(k, o->name)) { code = fault_code(k); record_fault(k, op, o->name, code); break; }
    if (write && (o->amode & MPI_MODE_RDONLY)) code = code ? code : MPI_ERR_READ_ONLY;
    if (!write && (o->amode & MPI_MODE_WRONLY)) code = code ? code : MPI_ERR_ACCESS;
    if (write) { d = pack(buf, cnt, t); sim::mix(d.data(), d.size()); }
    if (all && p->loose == false) coll_wait(o->ctx, p, need_all);
    else if (all) sim::yield("collective I/O");
    size_t done = bytes;
    if (write) {
        size_t limit = d.size();
        if (code) { limit = d.empty() ? 0 : S.draw(uint32_t(d.size())); if (code == MPI_ERR_READ_ONLY) limit = 0; }
        do_write_data(f, lo, d, limit);
        done = limit;
        set_status(st, done);
    } else {
        if (!code) {
            done = do_read_data(f, lo, buf, cnt, t);
        } else {
            done = 0;
            if (bytes && code != MPI_ERR_ACCESS && S.chance(1, 2)) {
                // part of the data arrived before the error
                size_t part = S.draw(uint32_t(cnt ? cnt : 1));
                if (part) do_read_data(f, lo, buf, part, t);
            }
        }
        set_status(st, done);
    }
    if (code && st) st->MPI_ERROR = code;
    if (moved) *moved = done;
    if (all) {
        if (!p->all()) sim::fault_counts[sim::F_LOOSE]++;
        coll_leave(o->ctx, p);
    }
    return code;
}
}  // namespace

extern "C" {
int MPI_File_open(MPI_Comm c, const char* name, int amode, MPI_Info, MPI_File* fh)
{
    auto x = ctx_of(c, "MPI_File_open");
    *fh = MPI_FILE_NULL;
    auto p = coll_enter(x, "File_open", string(name) + " mode=" + std::to_string(amode));
    coll_wait(x, p, need_all);
    int code = coll_fault(x, p, {sim::F_OPEN}, "File_open", name, true);
    int modes = !!(amode & MPI_MODE_RDONLY) + !!(amode & MPI_MODE_WRONLY) + !!(amode & MPI_MODE_RDWR);
    if (modes != 1) code = code ? code : MPI_ERR_AMODE;
    if (!code && !p->shared) {
        auto i = sim::fs.files.find(name);
        if (i == sim::fs.files.end()) {
            if (!(amode & MPI_MODE_CREATE)) p->fcode = -MPI_ERR_NO_SUCH_FILE;
            else { sim::fs.put(name); }
        } else if (amode & MPI_MODE_EXCL) p->fcode = -MPI_ERR_FILE_EXISTS;
        if (p->fcode >= 0) {
            auto o = std::make_shared<FOpen>();
            o->ctx = new_ctx(string("file:") + name, x->members);
            o->name = name;
            o->node = sim::fs.files[name];
            o->amode = amode;
            p->shared = o;
        }
    }
    if (!code && !p->shared) code = p->fcode < 0 ? -p->fcode : MPI_ERR_IO;
    if (!code) {
        auto o = std::static_pointer_cast<FOpen>(p->shared);
        o->nopen++;
        auto* f = new sim_file;
        f->o = o;
        f->owner = me();
        f->ftype = *sim_t_byte;
        rfile.add(f);
        cens[me()].file++;
        *fh = f;
    }
    coll_leave(x, p);
    sim::ev("File_open %s -> %d", name, code);
    return code;
}
int MPI_File_close(MPI_File* fh)
{
    int err;
    auto* f = file_ok(*fh, "MPI_File_close", err);
    if (!f) return err;
    auto o = f->o;
    auto p = coll_enter(o->ctx, "File_close", "");
    int code = coll_fault(o->ctx, p, {sim::F_CLOSE}, "File_close", o->name, false);
    if (code && !f->cache.empty()) {
        // deferred write-back failed: the cached tail is lost
        sim::fault_counts[sim::F_SHORT]++;
        while (!f->cache.empty()) { sim::remove_action(f->cache.back()->act); f->cache.pop_back(); }
    }
    flush_cache(f);
    coll_wait(o->ctx, p, need_none);
    f->freed = true;
    rfile.del(f);
    cens[me()].file--;
    if (--o->nopen == 0 && (o->amode & MPI_MODE_DELETE_ON_CLOSE)) sim::fs.files.erase(o->name);
    coll_leave(o->ctx, p);
    *fh = MPI_FILE_NULL;
    return code;
}
int MPI_File_delete(const char* name, MPI_Info) { sim::yield("File_delete"); sim::ev("File_delete %s", name); return sim::fs.files.erase(name) ? 0 : MPI_ERR_NO_SUCH_FILE; }
int MPI_File_set_size(MPI_File fh, MPI_Offset sz)
{
    int err;
    auto* f = file_ok(fh, "MPI_File_set_size", err);
    if (!f) return err;
    auto o = f->o;
    auto p = coll_enter(o->ctx, "File_set_size", "size=" + std::to_string(sz));
    flush_cache(f);
    int code = coll_fault(o->ctx, p, {sim::F_SETSIZE}, "File_set_size", o->name, false);
    if (sz < 0) code = MPI_ERR_ARG;
    if (sz > (o->node->sparse ? 1ll << 56 : 1ll << 31)) { sim::violation("runaway-file-size", "set_size to " + std::to_string(sz)); }
    int l = o->ctx->local(me());
    bool dead = p->fmask != 0; // a failing resize leaves the old size
    if (!p->loose) coll_wait(o->ctx, p, need_all);
    if (!code && !dead && !p->applied && (l == 0 || !p->loose || p->all())) {
        p->applied = true;
        o->node->resize(size_t(sz));
    }
    if (p->loose) coll_wait(o->ctx, p, [](Inst& i) { return i.applied || i.fmask != 0; });
    coll_leave(o->ctx, p);
    return code;
}
int MPI_File_preallocate(MPI_File fh, MPI_Offset sz)
{
    int err;
    auto* f = file_ok(fh, "MPI_File_preallocate", err);
    if (!f) return err;
    auto p = coll_enter(f->o->ctx, "File_preallocate", "size=" + std::to_string(sz));
    coll_wait(f->o->ctx, p, need_all);
    if (f->o->node->size() < size_t(sz)) f->o->node->resize(size_t(sz));
    coll_leave(f->o->ctx, p);
    return 0;
}
int MPI_File_get_size(MPI_File fh, MPI_Offset* sz)
{
    int err;
    auto* f = file_ok(fh, "MPI_File_get_size", err);
    if (!f) return err;
    sim::yield("File_get_size");
    flush_cache(f);
    if (draw_fault(sim::F_GETSIZE, f->o->name)) { record_fault(sim::F_GETSIZE, "File_get_size", f->o->name, MPI_ERR_IO); return MPI_ERR_IO; }
    *sz = MPI_Offset(f->o->node->size());
    sim::ev("File_get_size %s = %lld", f->o->name.c_str(), (long long)*sz);
    return 0;
}
int MPI_File_get_amode(MPI_File fh, int* m) { int e; auto* f = file_ok(fh, "MPI_File_get_amode", e); if (!f) return e; *m = f->o->amode; return 0; }
int MPI_File_set_info(MPI_File fh, MPI_Info)
{
    int e; auto* f = file_ok(fh, "MPI_File_set_info", e);
    if (!f) return e;
    auto p = coll_enter(f->o->ctx, "File_set_info", "");
    coll_wait(f->o->ctx, p, need_none);
    coll_leave(f->o->ctx, p);
    return 0;
}
int MPI_File_get_info(MPI_File fh, MPI_Info* i) { int e; auto* f = file_ok(fh, "MPI_File_get_info", e); if (!f) return e; return MPI_Info_create(i); }
int MPI_File_set_view(MPI_File fh, MPI_Offset disp, MPI_Datatype et, MPI_Datatype ft, const char*, MPI_Info)
{
    int err;
    auto* f = file_ok(fh, "MPI_File_set_view", err);
    if (!f) return err;
    auto* e = type_of(et, "MPI_File_set_view");
    auto* t = type_of(ft, "MPI_File_set_view");
    auto o = f->o;
    auto p = coll_enter(o->ctx, "File_set_view", "etype=" + std::to_string(e->size));
    int code = coll_fault(o->ctx, p, {sim::F_SETVIEW}, "File_set_view", o->name, true);
    coll_wait(o->ctx, p, need_none);
    coll_leave(o->ctx, p);
    if (code) return code;
    // filetype displacements must be non-negative and monotonically nondecreasing
    MPI_Aint lastp = 0;
    for (auto& s : t->segs) {
        if (s.first < 0 || s.first < lastp) { sim::probe("non-monotonic-view"); return MPI_ERR_ARG; }
        lastp = s.first;
    }
    f->disp = disp;
    f->ftype = *t;
    f->esize = e->size;
    f->pos = 0;
    return 0;
}
int MPI_File_get_view(MPI_File fh, MPI_Offset* d, MPI_Datatype* e, MPI_Datatype* t, char* rep)
{
    int err;
    auto* f = file_ok(fh, "MPI_File_get_view", err);
    if (!f) return err;
    *d = f->disp; *e = MPI_BYTE; *t = MPI_BYTE;
    strcpy(rep, "native");
    return 0;
}
#define LO(f, off) (uint64_t(off) * ((f) && rfile.known.count(f) ? (f)->esize : 1))
int MPI_File_read_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return rw(f, LO(f, o), b, n, t, s, false, false, nullptr, "File_read_at"); }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return rw(f, LO(f, o), b, n, t, s, false, true, nullptr, "File_read_at_all"); }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return rw(f, LO(f, o), const_cast<void*>(b), n, t, s, true, false, nullptr, "File_write_at"); }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return rw(f, LO(f, o), const_cast<void*>(b), n, t, s, true, true, nullptr, "File_write_at_all"); }
static int rw_pos(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s, bool write, bool all, const char* op)
{
    if (!f || !rfile.known.count(f)) return MPI_ERR_FILE;
    uint64_t lo = uint64_t(f->pos) * f->esize;
    size_t m = 0;
    int e = rw(f, lo, b, n, t, s, write, all, &m, op);
    f->pos += MPI_Offset(m / (f->esize ? f->esize : 1));
    return e;
}
int MPI_File_read(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { return rw_pos(f, b, n, t, s, false, false, "File_read"); }
int MPI_File_read_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { return rw_pos(f, b, n, t, s, false, true, "File_read_all"); }
int MPI_File_write(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return rw_pos(f, const_cast<void*>(b), n, t, s, true, false, "File_write"); }
int MPI_File_write_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return rw_pos(f, const_cast<void*>(b), n, t, s, true, true, "File_write_all"); }
int MPI_File_iread_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype dt, MPI_Request* q)
{
    int err;
    auto* h = file_ok(f, "MPI_File_iread_at", err);
    if (!h) return err;
    auto* t = type_of(dt, "MPI_File_iread_at");
    auto* r = new_req(2, "File_iread_at");
    uint64_t lo = LO(f, o);
    poison(b, size_t(n), t);
    sim::add_action(me(), "complete iread", nullptr, [=] { r->st._ucount = do_read_data(h, lo, b, size_t(n), t); r->done = true; });
    *q = r;
    return 0;
}
int MPI_File_iwrite_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype dt, MPI_Request* q)
{
    int err;
    auto* h = file_ok(f, "MPI_File_iwrite_at", err);
    if (!h) return err;
    auto* t = type_of(dt, "MPI_File_iwrite_at");
    auto* r = new_req(2, "File_iwrite_at");
    uint64_t lo = LO(f, o);
    sim::add_action(me(), "complete iwrite", nullptr, [=] {
        auto d = pack(b, size_t(n), t);
        size_t k = 0;
        for (auto& s : map_view(h, lo, d.size())) { apply_write(h->o, s.first, d.data() + k, s.second); k += s.second; }
        r->st._ucount = d.size(); r->done = true; });
    *q = r;
    return 0;
}
int MPI_File_seek(MPI_File f, MPI_Offset o, int wh)
{
    int e; auto* h = file_ok(f, "MPI_File_seek", e);
    if (!h) return e;
    if (wh == MPI_SEEK_SET) h->pos = o;
    else if (wh == MPI_SEEK_CUR) h->pos += o;
    else h->pos = MPI_Offset(h->o->node->size() / (h->esize ? h->esize : 1)) + o;
    return 0;
}
int MPI_File_get_position(MPI_File f, MPI_Offset* o) { int e; auto* h = file_ok(f, "MPI_File_get_position", e); if (!h) return e; *o = h->pos; return 0; }
int MPI_File_sync(MPI_File f)
{
    int e; auto* h = file_ok(f, "MPI_File_sync", e);
    if (!h) return e;
    auto p = coll_enter(h->o->ctx, "File_sync", "");
    flush_cache(h);
    coll_wait(h->o->ctx, p, need_none);
    coll_leave(h->o->ctx, p);
    return 0;
}
int MPI_File_set_atomicity(MPI_File f, int a) { int e; auto* h = file_ok(f, "MPI_File_set_atomicity", e); if (!h) return e; h->atom = a; return 0; }
int MPI_File_get_atomicity(MPI_File f, int* a) { int e; auto* h = file_ok(f, "MPI_File_get_atomicity", e); if (!h) return e; *a = h->atom; return 0; }
int MPI_File_get_type_extent(MPI_File, MPI_Datatype t, MPI_Aint* x) { *x = type_of(t, "MPI_File_get_type_extent", false)->extent; return 0; }
int MPI_File_get_byte_offset(MPI_File f, MPI_Offset o, MPI_Offset* d)
{
    int e; auto* h = file_ok(f, "MPI_File_get_byte_offset", e);
    if (!h) return e;
    auto v = map_view(h, uint64_t(o) * h->esize, 1);
    *d = v.empty() ? 0 : MPI_Offset(v[0].first);
    return 0;
}
}

// ------------------------------------------------- less common calls --------
struct sim_group { vector<int> m; };          // world ranks
struct sim_msg { MsgP m; };
extern "C" {
int MPI_Iallgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Iallgatherv");
    int l = x->local(me());
    auto* t = type_of(rt, "MPI_Iallgatherv");
    auto p = coll_enter(x, "Iallgatherv", "");
    if (sb == MPI_IN_PLACE) p->data[size_t(l)] = pack(static_cast<char*>(rb) + rd[l] * t->extent, size_t(rn[l]), t);
    else p->data[size_t(l)] = pack(sb, check_count(sn, "MPI_Iallgatherv"), type_of(st, "MPI_Iallgatherv"));
    vector<int> N(rn, rn + x->members.size()), D(rd, rd + x->members.size());
    *q = async_coll(x, p, "Iallgatherv", [=] {
        for (size_t i = 0; i < N.size(); i++) unpack(static_cast<char*>(rb) + D[i] * t->extent, size_t(N[i]), t, p->data[i].data(), p->data[i].size()); });
    return 0;
}
int MPI_Igatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Igatherv");
    int l = x->local(me());
    auto p = coll_enter(x, "Igatherv", "root=" + std::to_string(root));
    auto* t = l == root ? type_of(rt, "MPI_Igatherv") : nullptr;
    if (l == root && sb == MPI_IN_PLACE) p->data[size_t(l)] = pack(static_cast<char*>(rb) + rd[l] * t->extent, size_t(rn[l]), t);
    else p->data[size_t(l)] = pack(sb, check_count(sn, "MPI_Igatherv"), type_of(st, "MPI_Igatherv"));
    vector<int> N, D;
    if (l == root) { N.assign(rn, rn + x->members.size()); D.assign(rd, rd + x->members.size()); }
    *q = async_coll(x, p, "Igatherv", [=] {
        for (size_t i = 0; i < N.size(); i++) unpack(static_cast<char*>(rb) + D[i] * t->extent, size_t(N[i]), t, p->data[i].data(), p->data[i].size()); });
    return 0;
}
int MPI_Igather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Igather");
    vector<int> n, d;
    for (int i = 0; i < int(x->members.size()); i++) { n.push_back(rn); d.push_back(i * rn); }
    return MPI_Igatherv(sb, sn, st, rb, n.data(), d.data(), rt, root, c, q);
}
int MPI_Iscatterv(const void* sb, const int* sn, const int* sd, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Iscatterv");
    int l = x->local(me());
    auto p = coll_enter(x, "Iscatterv", "root=" + std::to_string(root));
    if (l == root) {
        auto* t = type_of(st, "MPI_Iscatterv");
        for (size_t i = 0; i < x->members.size(); i++) p->data[i] = pack(static_cast<const char*>(sb) + sd[i] * t->extent, size_t(sn[i]), t);
        // one piece per process: kept by position, so nothing of the root's own entry is overwritten
    }
    auto* u = rb == MPI_IN_PLACE ? nullptr : type_of(rt, "MPI_Iscatterv");
    *q = async_coll(x, p, "Iscatterv", [=] { if (u) unpack(rb, size_t(rn), u, p->data[size_t(l)].data(), p->data[size_t(l)].size()); });
    return 0;
}
int MPI_Iscatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Iscatter");
    vector<int> n, d;
    for (int i = 0; i < int(x->members.size()); i++) { n.push_back(sn); d.push_back(i * sn); }
    return MPI_Iscatterv(sb, n.data(), d.data(), st, rb, rn, rt, root, c, q);
}
int MPI_Ialltoallv(const void* sb, const int* sn, const int* sd, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Ialltoallv");
    size_t l = size_t(x->local(me()));
    auto p = coll_enter(x, "Ialltoallv", "");
    auto* t = type_of(st, "MPI_Ialltoallv");
    auto* u = type_of(rt, "MPI_Ialltoallv");
    auto& v = p->data[l];
    p->ints[l].clear();
    for (size_t i = 0; i < x->members.size(); i++) {
        auto d = pack(static_cast<const char*>(sb) + sd[i] * t->extent, size_t(sn[i]), t);
        p->ints[l].push_back(int(v.size()));
        v.insert(v.end(), d.begin(), d.end());
    }
    p->ints[l].push_back(int(v.size()));
    vector<int> N(rn, rn + x->members.size()), D(rd, rd + x->members.size());
    *q = async_coll(x, p, "Ialltoallv", [=] {
        for (size_t i = 0; i < N.size(); i++) {
            size_t b = size_t(p->ints[i][l]), e = size_t(p->ints[i][l + 1]);
            unpack(static_cast<char*>(rb) + D[i] * u->extent, size_t(N[i]), u, p->data[i].data() + b, e - b);
        } });
    return 0;
}
int MPI_Ialltoall(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* q)
{
    auto x = ctx_of(c, "MPI_Ialltoall");
    vector<int> a, b, d, e;
    for (int i = 0; i < int(x->members.size()); i++) { a.push_back(sn); b.push_back(i * sn); d.push_back(rn); e.push_back(i * rn); }
    return MPI_Ialltoallv(sb, a.data(), b.data(), st, rb, d.data(), e.data(), rt, c, q);
}
int MPI_Ireduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* q) { return reduce_gen("Ireduce", 0, sb, rb, n, t, op, root, c, q); }
int MPI_Iscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q) { return reduce_gen("Iscan", 2, sb, rb, n, t, op, -1, c, q); }
int MPI_Iexscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q) { return reduce_gen("Iexscan", 3, sb, rb, n, t, op, -1, c, q); }
int MPI_Reduce_scatter(const void* sb, void* rb, const int* n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
    auto x = ctx_of(c, "MPI_Reduce_scatter");
    auto* t = type_of(dt, "MPI_Reduce_scatter");
    size_t tot = 0, off = 0, l = size_t(x->local(me()));
    for (size_t i = 0; i < x->members.size(); i++) { if (i == l) off = tot; tot += check_count(n[i], "MPI_Reduce_scatter"); }
    vector<unsigned char> tmp(tot * t->size);
    if (sb == MPI_IN_PLACE) sb = rb;
    reduce_gen("Reduce_scatter", 1, sb, tmp.data(), int(tot), dt, op, -1, c);
    unpack(rb, size_t(n[l]), t, tmp.data() + off * t->size, size_t(n[l]) * t->size);
    return 0;
}
int MPI_Reduce_local(const void* a, void* b, int n, MPI_Datatype dt, MPI_Op op)
{
    auto* t = type_of(dt, "MPI_Reduce_local");
    auto x = pack(a, check_count(n, "MPI_Reduce_local"), t), y = pack(b, size_t(n), t);
    reduce_into(op, t, x, y);
    unpack(b, size_t(n), t, x.data(), x.size());
    return 0;
}
int MPI_Testsome(int n, MPI_Request* q, int* cnt, int* idx, MPI_Status* st)
{
    sim::yield("Testsome");
    bool any = false;
    *cnt = 0;
    for (int i = 0; i < n; i++) if (q[i]) {
        any = true;
        if (req_ok(q[i], "MPI_Testsome")->done) { fin_req(&q[i], st ? &st[*cnt] : nullptr); idx[(*cnt)++] = i; }
    }
    if (!any) *cnt = MPI_UNDEFINED;
    else if (!*cnt) sim::poll_failed();
    return 0;
}
int MPI_Request_get_status(MPI_Request q, int* f, MPI_Status* st)
{
    if (q == MPI_REQUEST_NULL) { *f = 1; return 0; }
    auto* r = req_ok(q, "MPI_Request_get_status");
    sim::yield("Request_get_status");
    *f = r->done;
    if (!r->done) sim::poll_failed();
    else if (st) *st = r->st;
    return 0;
}
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message* o, MPI_Status* st)
{
    auto x = ctx_of(c, "MPI_Mprobe");
    MPI_Status q;
    MPI_Probe(s, tag, c, &q);
    auto m = find_probe(x, s, tag);
    auto& u = unexpected[{x->id, x->local(me())}];
    u.erase(std::find(u.begin(), u.end(), m));
    if (st) *st = q;
    *o = new sim_msg{m};
    return 0;
}
int MPI_Improbe(int s, int tag, MPI_Comm c, int* f, MPI_Message* o, MPI_Status* st)
{
    MPI_Iprobe(s, tag, c, f, st);
    return *f ? MPI_Mprobe(s, tag, c, o, st) : 0;
}
int MPI_Imrecv(void* b, int n, MPI_Datatype dt, MPI_Message* m, MPI_Request* q)
{
    auto* r = new_req(1, "Imrecv");
    r->buf = b; r->n = check_count(n, "MPI_Imrecv"); r->t = *type_of(dt, "MPI_Imrecv"); r->ctx = (*m)->m->ctx;
    poison(b, r->n, &r->t);
    complete_match(r, (*m)->m);
    delete *m;
    *m = nullptr;
    *q = r;
    return 0;
}
int MPI_Mrecv(void* b, int n, MPI_Datatype dt, MPI_Message* m, MPI_Status* st) { MPI_Request q; MPI_Imrecv(b, n, dt, m, &q); return MPI_Wait(&q, st); }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int* s) { *s = n * int(type_of(t, "MPI_Pack_size")->size); return 0; }
int MPI_Pack(const void* b, int n, MPI_Datatype dt, void* o, int sz, int* pos, MPI_Comm)
{
    auto d = pack(b, check_count(n, "MPI_Pack"), type_of(dt, "MPI_Pack"));
    if (size_t(*pos) + d.size() > size_t(sz)) { misuse("MPI_Pack past the end of the buffer"); return MPI_ERR_TRUNCATE; }
    if (!d.empty()) memcpy(static_cast<char*>(o) + *pos, d.data(), d.size());
    *pos += int(d.size());
    return 0;
}
int MPI_Unpack(const void* i, int sz, int* pos, void* b, int n, MPI_Datatype dt, MPI_Comm)
{
    auto* t = type_of(dt, "MPI_Unpack");
    size_t k = check_count(n, "MPI_Unpack") * t->size;
    if (size_t(*pos) + k > size_t(sz)) { misuse("MPI_Unpack past the end of the buffer"); return MPI_ERR_TRUNCATE; }
    unpack(b, size_t(n), t, static_cast<const unsigned char*>(i) + *pos, k);
    *pos += int(k);
    return 0;
}
// groups and names
static struct sim_group empty_group{};
struct sim_group* sim_group_empty = &empty_group;
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { *g = new sim_group{ctx_of(c, "MPI_Comm_group")->members}; return 0; }
int MPI_Group_size(MPI_Group g, int* n) { *n = int(g->m.size()); return 0; }
int MPI_Group_rank(MPI_Group g, int* r)
{
    *r = MPI_UNDEFINED;
    for (size_t i = 0; i < g->m.size(); i++) if (g->m[i] == me()) *r = int(i);
    return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) { auto* h = new sim_group; for (int i = 0; i < n; i++) h->m.push_back(g->m.at(size_t(r[i]))); *o = h; return 0; }
int MPI_Group_excl(MPI_Group g, int n, const int* r, MPI_Group* o)
{
    auto* h = new sim_group;
    for (int i = 0; i < int(g->m.size()); i++) if (std::find(r, r + n, i) == r + n) h->m.push_back(g->m[size_t(i)]);
    *o = h;
    return 0;
}
int MPI_Group_range_incl(MPI_Group g, int n, int (*r)[3], MPI_Group* o)
{
    auto* h = new sim_group;
    for (int i = 0; i < n; i++) for (int k = r[i][0]; r[i][2] > 0 ? k <= r[i][1] : k >= r[i][1]; k += r[i][2]) h->m.push_back(g->m.at(size_t(k)));
    *o = h;
    return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* r, MPI_Group b, int* o)
{
    for (int i = 0; i < n; i++) {
        auto k = std::find(b->m.begin(), b->m.end(), a->m.at(size_t(r[i])));
        o[i] = k == b->m.end() ? MPI_UNDEFINED : int(k - b->m.begin());
    }
    return 0;
}
int MPI_Group_free(MPI_Group* g) { if (*g != sim_group_empty) delete *g; *g = MPI_GROUP_NULL; return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* o)
{
    int r;
    MPI_Group_rank(g, &r);
    return MPI_Comm_split(c, r == MPI_UNDEFINED ? MPI_UNDEFINED : 1 + g->m[0], r == MPI_UNDEFINED ? 0 : r, o);
}
int MPI_Comm_set_name(MPI_Comm c, const char*) { ctx_of(c, "MPI_Comm_set_name"); return 0; }
int MPI_Comm_get_name(MPI_Comm c, char* n, int* l) { *l = snprintf(n, MPI_MAX_OBJECT_NAME, "%s", ctx_of(c, "MPI_Comm_get_name")->name.c_str()); return 0; }
int MPI_Comm_test_inter(MPI_Comm c, int* f) { ctx_of(c, "MPI_Comm_test_inter"); *f = 0; return 0; }
int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info, MPI_Comm* o) { return MPI_Comm_dup(c, o); }
int MPI_Comm_get_attr(MPI_Comm, int k, void* v, int* f)
{
    static int ub = 0x7fffffff;
    *f = k == MPI_TAG_UB;
    if (*f) *static_cast<int**>(v) = &ub;
    return 0;
}
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler* h) { *h = MPI_ERRORS_RETURN; return 0; }
int MPI_File_get_errhandler(MPI_File, MPI_Errhandler* h) { *h = MPI_ERRORS_RETURN; return 0; }
int MPI_Is_thread_main(int* f) { *f = 1; return 0; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count* n) { *n = MPI_Count(type_of(t, "MPI_Type_size_x", false)->size); return 0; }
int MPI_Type_get_extent_x(MPI_Datatype t, MPI_Count* l, MPI_Count* e) { auto* x = type_of(t, "MPI_Type_get_extent_x", false); *l = x->lb; *e = x->extent; return 0; }
int MPI_Get_elements_x(const MPI_Status* s, MPI_Datatype dt, MPI_Count* n) { auto* t = type_of(dt, "MPI_Get_elements_x"); *n = MPI_Count(s->_ucount / (t->bsize ? t->bsize : 1)); return 0; }
int MPI_Type_set_name(MPI_Datatype, const char*) { return 0; }
int MPI_Win_set_name(MPI_Win, const char*) { return 0; }
int MPI_Info_get_valuelen(MPI_Info i, const char* k, int* n, int* f)
{
    auto* p = info_ok(i, "MPI_Info_get_valuelen");
    auto j = p->kv.find(k);
    *f = j != p->kv.end();
    if (*f) *n = int(j->second.size());
    return 0;
}
int MPI_Info_get_nthkey(MPI_Info i, int n, char* k)
{
    auto* p = info_ok(i, "MPI_Info_get_nthkey");
    auto j = p->kv.begin();
    std::advance(j, n);
    snprintf(k, MPI_MAX_INFO_KEY, "%s", j->first.c_str());
    return 0;
}
// one-sided calls with a request
int MPI_Rput(const void* ob, int on, MPI_Datatype ot, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w, MPI_Request* q)
{
    auto o = std::make_shared<WOp>();
    o->kind = 0; o->ob = ob; o->on = check_count(on, "MPI_Rput"); o->ot = *type_of(ot, "MPI_Rput"); o->target = target; o->disp = disp; o->tn = check_count(tn, "MPI_Rput"); o->tt = *type_of(tt, "MPI_Rput"); o->rb = nullptr; o->op = nullptr;
    *q = o->req = new_req(2, "Rput");
    return queue_wop(w, o, "Rput");
}
int MPI_Rget(void* ob, int on, MPI_Datatype ot, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w, MPI_Request* q)
{
    auto o = std::make_shared<WOp>();
    o->kind = 1; o->rb = ob; o->rn = check_count(on, "MPI_Rget"); o->rt = *type_of(ot, "MPI_Rget"); o->target = target; o->disp = disp; o->tn = check_count(tn, "MPI_Rget"); o->tt = *type_of(tt, "MPI_Rget"); o->ob = nullptr; o->op = nullptr;
    *q = o->req = new_req(2, "Rget");
    return queue_wop(w, o, "Rget");
}
int MPI_Raccumulate(const void* ob, int on, MPI_Datatype ot, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request* q)
{
    auto o = std::make_shared<WOp>();
    o->kind = 2; o->ob = ob; o->on = check_count(on, "MPI_Raccumulate"); o->ot = *type_of(ot, "MPI_Raccumulate"); o->rb = nullptr; o->rn = 0; o->target = target; o->disp = disp; o->tn = size_t(tn); o->tt = *type_of(tt, "MPI_Raccumulate"); o->op = op;
    *q = o->req = new_req(2, "Raccumulate");
    return queue_wop(w, o, "Raccumulate");
}
// files: nonblocking at the individual pointer, collective nonblocking, split collective
static int file_async(MPI_File f, bool own, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Request* q, bool write, bool all)
{
    MPI_Status st;
    memset(&st, 0, sizeof st);
    const char* op = write ? (all ? "File_iwrite_all" : "File_iwrite") : (all ? "File_iread_all" : "File_iread");
    int e = own ? rw_pos(f, b, n, t, &st, write, all, op) : rw(f, LO(f, o), b, n, t, &st, write, all, nullptr, op);
    if (e) { *q = MPI_REQUEST_NULL; return e; }
    auto* r = new_req(2, op);
    r->st = st;
    sim::add_action(me(), op, nullptr, [r] { r->done = true; });
    *q = r;
    return 0;
}
int MPI_File_iread(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Request* q) { return file_async(f, true, 0, b, n, t, q, false, false); }
int MPI_File_iwrite(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Request* q) { return file_async(f, true, 0, const_cast<void*>(b), n, t, q, true, false); }
int MPI_File_iread_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Request* q) { return file_async(f, true, 0, b, n, t, q, false, true); }
int MPI_File_iwrite_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Request* q) { return file_async(f, true, 0, const_cast<void*>(b), n, t, q, true, true); }
int MPI_File_iread_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Request* q) { return file_async(f, false, o, b, n, t, q, false, true); }
int MPI_File_iwrite_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Request* q) { return file_async(f, false, o, const_cast<void*>(b), n, t, q, true, true); }
static std::map<MPI_File, MPI_Status> split_st;
int MPI_File_read_at_all_begin(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t) { MPI_Status s{}; int e = rw(f, LO(f, o), b, n, t, &s, false, true, nullptr, "File_read_at_all"); split_st[f] = s; return e; }
int MPI_File_write_at_all_begin(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t) { MPI_Status s{}; int e = rw(f, LO(f, o), const_cast<void*>(b), n, t, &s, true, true, nullptr, "File_write_at_all"); split_st[f] = s; return e; }
int MPI_File_read_all_begin(MPI_File f, void* b, int n, MPI_Datatype t) { MPI_Status s{}; int e = rw_pos(f, b, n, t, &s, false, true, "File_read_all"); split_st[f] = s; return e; }
int MPI_File_write_all_begin(MPI_File f, const void* b, int n, MPI_Datatype t) { MPI_Status s{}; int e = rw_pos(f, const_cast<void*>(b), n, t, &s, true, true, "File_write_all"); split_st[f] = s; return e; }
int MPI_File_read_at_all_end(MPI_File f, void*, MPI_Status* s) { if (s) *s = split_st[f]; return 0; }
int MPI_File_write_at_all_end(MPI_File f, const void*, MPI_Status* s) { if (s) *s = split_st[f]; return 0; }
int MPI_File_read_all_end(MPI_File f, void*, MPI_Status* s) { if (s) *s = split_st[f]; return 0; }
int MPI_File_write_all_end(MPI_File f, const void*, MPI_Status* s) { if (s) *s = split_st[f]; return 0; }
}

namespace sim {
Census census(int r) { return cens[r]; }
std::vector<std::string> unmatched()
{
    vector<string> v;
    for (auto& c : all_ctx)
        for (auto& i : c->insts) {
            if (i.second->all()) continue;
            string s = i.second->op + " #" + std::to_string(i.first) + " on " + c->name + " entered only by ranks";
            for (size_t k = 0; k < i.second->arrived.size(); k++) if (i.second->arrived[k]) s += " " + std::to_string(c->members[k]);
            v.push_back(s);
        }
    for (auto& c : chans) if (!c.second.q.empty()) v.push_back("message in flight never delivered");
    for (auto& u : unexpected) for (auto& m : u.second)
        v.push_back("message " + std::to_string(m->src) + "->" + std::to_string(m->dst) + " tag " + std::to_string(m->tag) + " on " + m->ctx->name + " never received");
    for (auto& p : posted) if (!p.second.empty()) v.push_back("receive posted by rank " + std::to_string(p.second.front()->owner) + " never matched");
    return v;
}
void mpi_job_killed()
{
    // Each process's unflushed writes are partly lost; the last surviving one may be torn.
    vector<void*> v(rfile.live.begin(), rfile.live.end());
    vector<sim_file*> fsx;
    for (auto* p : v) fsx.push_back(static_cast<sim_file*>(p));
    std::sort(fsx.begin(), fsx.end(), [](sim_file* a, sim_file* b) {
        return std::make_pair(a->owner, a->o->ctx->id) < std::make_pair(b->owner, b->o->ctx->id); });
    for (auto* f : fsx) {
        if (f->cache.empty()) continue;
        size_t keep = S.draw(uint32_t(f->cache.size() + 1));
        for (size_t i = 0; i < keep; i++) flush_front(f);
        if (!f->cache.empty() && S.chance(1, 2)) {
            auto it = f->cache.front();
            size_t part = it->d.empty() ? 0 : S.draw(uint32_t(it->d.size()));
            apply_write(f->o, it->off, it->d.data(), part);
        }
        f->cache.clear();
        fault_counts[F_SHORT]++;
    }
}
void mpi_reset()
{
    chans.clear(); unexpected.clear(); posted.clear(); all_ctx.clear(); self_ctx.clear();
    rcomm = rtype = rreq = rwin = rinfo = rfile = rop = Reg();
    cens.clear();
    n_init = n_finalize = 0;
    vector<int> m;
    for (int i = 0; i < cfg.nranks; i++) m.push_back(i);
    world_ctx = new_ctx("world", m);
    inited.assign(size_t(cfg.nranks), cfg.world_is_managed ? 0 : 1);
    finalized.assign(size_t(cfg.nranks), 0);
    io_fault_count = io_calls = 0;
}
}  // namespace sim
