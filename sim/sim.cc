#include "sim.hh"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <streambuf>
#include <sys/mman.h>
#include <ucontext.h>
#include <getopt.h>
#include <cxxabi.h>
#include <exception>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

namespace __cxxabiv1 {
struct __cxa_eh_globals { void* caught; unsigned int uncaught; };
}

namespace sim {

// ---------------------------------------------------------------- choices ---
static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void Rng::reseed(uint64_t seed) { s[0] = splitmix(seed); s[1] = splitmix(seed); }
uint64_t Rng::next()
{
    uint64_t a = s[0], b = s[1], r = a + b;
    b ^= a;
    s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s[1] = (b << 37) | (b >> 27);
    return r >> 8;
}
uint32_t Choices::draw(uint32_t n)
{
    uint32_t v;
    if (n == 0) n = 1;
    if (replay) v = out.size() < in.size() ? in[out.size()] % n : 0;
    else v = rng.below(n);
    out.push_back(v);
    return v;
}
uint32_t Choices::pick(const std::vector<uint32_t>& w)
{
    uint32_t v = 0, n = uint32_t(w.size());
    if (n == 0) { n = 1; }
    if (replay) v = out.size() < in.size() ? in[out.size()] % n : 0;
    else {
        uint64_t t = 0;
        for (auto x : w) t += x;
        if (t) {
            uint64_t r = rng.next() % t;
            while (r >= w[v]) r -= w[v++];
        }
    }
    out.push_back(v);
    return v;
}
bool Choices::chance(uint32_t num, uint32_t den)
{
    uint32_t v;
    if (replay) v = out.size() < in.size() ? (in[out.size()] != 0) : 0;
    else v = rng.below(den) < num;
    out.push_back(v);
    return v;
}
Choices W, S;

const char* fault_names[F_NKINDS] = {
    "open_error", "read_error", "write_eio_torn", "write_enospc_torn", "set_size_error",
    "get_size_error", "close_error", "set_view_error", "job_kill", "rank_stall",
    "write_cached", "write_split", "rendezvous_send", "late_completion", "rma_delayed",
    "loose_collective", "clock_skew", "short_write_lost_cache", "stream_open_error"};

Config cfg;
Outcome outcome;
std::vector<Violation> violations;
std::vector<FaultEvent> faults;
uint64_t fault_counts[F_NKINDS];
std::map<std::string, uint64_t> probes;
std::vector<std::string> rank_err, rank_out;
bool verbose = false;
uint64_t hash = 0xcbf29ce484222325ULL, sched_hash = 0xcbf29ce484222325ULL;
long knob_mem = 0, knob_chunk = 0, knob_block = 0;
FS fs;

void probe(const std::string& n) { probes[n]++; }

std::vector<unsigned char>& FS::put(const std::string& n)
{
    auto& p = files[n];
    if (!p) { p = std::make_shared<FNode>(); p->sparse = sparse; }
    return p->data;
}
static const uint64_t PAGE = 4096;
void FNode::resize(uint64_t n)
{
    if (!sparse) { data.resize(size_t(n), 0); return; }
    if (n < length) {
        pages.erase(pages.lower_bound((n + PAGE - 1) / PAGE), pages.end());
        auto i = pages.find(n / PAGE);
        if (i != pages.end()) std::fill(i->second.begin() + long(n % PAGE), i->second.end(), 0);
    }
    length = n;
}
void FNode::write(uint64_t off, const unsigned char* d, size_t n)
{
    if (size() < off + n) resize(off + n);
    if (!sparse) { memcpy(data.data() + off, d, n); return; }
    while (n) {
        auto& pg = pages[off / PAGE];
        if (pg.empty()) pg.resize(PAGE, 0);
        size_t k = std::min<uint64_t>(n, PAGE - off % PAGE);
        memcpy(&pg[off % PAGE], d, k);
        off += k; d += k; n -= k;
    }
}
void FNode::read(uint64_t off, unsigned char* d, size_t n) const
{
    if (!sparse) { memcpy(d, data.data() + off, n); return; }
    while (n) {
        auto i = pages.find(off / PAGE);
        size_t k = std::min<uint64_t>(n, PAGE - off % PAGE);
        if (i == pages.end()) memset(d, 0, k);
        else memcpy(d, &i->second[off % PAGE], k);
        off += k; d += k; n -= k;
    }
}
uint64_t FNode::first_nonzero(uint64_t lo, uint64_t hi) const
{
    if (!sparse) { for (; lo < hi && !data[lo]; lo++) { } return lo; }
    for (auto i = pages.lower_bound(lo / PAGE); i != pages.end() && i->first * PAGE < hi; ++i)
        for (uint64_t k = 0; k < PAGE; k++) {
            uint64_t at = i->first * PAGE + k;
            if (at >= lo && at < hi && i->second[k]) return at;
        }
    return hi;
}
std::vector<unsigned char> FS::get(const std::string& n) const
{
    auto i = files.find(n);
    return i == files.end() ? std::vector<unsigned char>() : i->second->data;
}

void mix(const void* p, size_t n)
{
    auto* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { hash ^= c[i]; hash *= 0x100000001b3ULL; }
}

// ------------------------------------------------------------------ fibers --
static const size_t STACK = 1u << 20;
enum State { READY, BLOCKED, DONE };
struct Fiber {
    int rank = 0;
    State st = READY;
    bool polled = false;
    ucontext_t ctx;
    char* stack = nullptr;
    std::string what;
    std::function<bool()> rdy;
    void* fake = nullptr;
    __cxxabiv1::__cxa_eh_globals eh{nullptr, 0};
    int g_optind = 0; char* g_optarg = nullptr; int g_opterr = 1, g_optopt = 0;
};
static std::vector<std::unique_ptr<Fiber>> fibers;
static Fiber* cur = nullptr;
static Fiber* last = nullptr;
static ucontext_t main_ctx;
static __cxxabiv1::__cxa_eh_globals main_eh{nullptr, 0};
static void* main_fake = nullptr;
static const void* main_bottom = nullptr;
static size_t main_size = 0;
static std::function<void(int)> body;
static bool stop_run = false;
static std::vector<Action> actions;
static uint64_t action_id = 0;
static bool in_run = false;

int rank() { return cur ? cur->rank : -1; }
int nranks() { return cfg.nranks; }
long step() { return outcome.steps; }

void ev(const char* fmt, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n >= int(sizeof b)) n = sizeof b - 1;
    int r = rank();
    mix(&r, sizeof r);
    mix(b, size_t(n));
    if (verbose) dprintf(1, "  %6ld r%-2d %s\n", outcome.steps, r, b);
}

static void swap_eh(__cxxabiv1::__cxa_eh_globals& save, __cxxabiv1::__cxa_eh_globals& load)
{
    auto* g = reinterpret_cast<__cxxabiv1::__cxa_eh_globals*>(abi::__cxa_get_globals());
    save = *g;
    *g = load;
}

static void to_main(bool dying)
{
    Fiber* f = cur;
    f->g_optind = optind; f->g_optarg = optarg; f->g_opterr = opterr; f->g_optopt = optopt;
    swap_eh(f->eh, main_eh);
    cur = nullptr;
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(dying ? nullptr : &f->fake, main_bottom, main_size);
#endif
    (void)dying;
    swapcontext(&f->ctx, &main_ctx);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(f->fake, &main_bottom, &main_size);
#endif
}
static void to_fiber(Fiber* f)
{
    cur = f;
    last = f;
    optind = f->g_optind; optarg = f->g_optarg; opterr = f->g_opterr; optopt = f->g_optopt;
    swap_eh(main_eh, f->eh);
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(&main_fake, f->stack, STACK);
#endif
    swapcontext(&main_ctx, &f->ctx);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
    cur = nullptr;
}
static void tramp()
{
    Fiber* f = cur;
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
    try {
        body(f->rank);
        rank_end();
    }
    catch (const std::exception& e) {
        note_violation("uncaught-exception", std::string("rank ") + std::to_string(f->rank) + ": " + e.what());
        stop_run = true;
    }
    f->st = DONE;
    ev("rank done");
    to_main(true);
    abort();
}

void note_violation(const std::string& cls, const std::string& detail)
{
    ev("VIOLATION %s: %s", cls.c_str(), detail.c_str());
    violations.push_back({cls, detail});
}
void violation(const std::string& cls, const std::string& detail)
{
    note_violation(cls, detail);
    if (cur) {
        stop_run = true;
        outcome.end = END_VIOLATION;
        cur->st = BLOCKED;
        cur->rdy = [] { return false; };
        cur->what = "stopped by violation";
        to_main(false);
        abort();
    }
}
void rank_exit(int code)
{
    if (!cur) _Exit(code);
    ev("exit(%d)", code);
    if (code == 0) {
        cur->st = DONE;
    } else {
        outcome.end = END_EXIT;
        outcome.exit_rank = cur->rank;
        outcome.exit_code = code;
        stop_run = true;
        cur->st = DONE;
    }
    to_main(true);
    abort();
}
void yield(const char* what)
{
    if (!cur) return;
    cur->what = what;
    cur->st = READY;
    to_main(false);
}
static long idle_polls = 0;   // unsuccessful polls since something other than a process happened
void poll_failed()
{
    if (!cur) return;
    idle_polls++;
    cur->polled = true;
    cur->st = READY;
    to_main(false);
}
void block(const std::string& what, std::function<bool()> rdy)
{
    if (!cur) return;
    cur->what = what;
    cur->rdy = std::move(rdy);
    cur->st = BLOCKED;
    to_main(false);
    cur->rdy = nullptr;
}
uint64_t add_action(int owner, const std::string& what, std::function<bool()> enabled, std::function<void()> fn)
{
    actions.push_back({++action_id, owner, what, std::move(enabled), std::move(fn)});
    return action_id;
}
void remove_action(uint64_t id)
{
    for (size_t i = 0; i < actions.size(); i++)
        if (actions[i].id == id) { actions.erase(actions.begin() + long(i)); return; }
}
int rank_faults(int r)
{
    int n = 0;
    for (auto& f : faults)
        if (f.rank == r && f.surfaced) n++;
    return n;
}

void swarm_config(int nr)
{
    cfg.nranks = nr;
    cfg.policy = int(S.draw(4));
    cfg.weight.assign(size_t(nr), 8);
    if (S.chance(1, 2))
        for (auto& w : cfg.weight) w = 1u << S.draw(7);
    static const uint32_t aw[] = {8, 1, 3, 40, 0};
    cfg.action_weight = aw[S.draw(5)];
    cfg.loose = S.chance(2, 3);
    cfg.wcache = S.chance(1, 2);
    cfg.rendezvous = S.chance(1, 2);
    cfg.stall = S.chance(1, 4);
    cfg.stall_rank = int(S.draw(uint32_t(nr)));
    cfg.stall_from = S.draw(200);
    cfg.stall_len = 50 + S.draw(300);
}

static bool runnable(Fiber* f)
{
    if (f->st == READY) return true;
    if (f->st == BLOCKED) return f->rdy && f->rdy();
    return false;
}

static std::vector<uint32_t> prio;

uint64_t incarnation = 0;
End run(int nr, std::function<void(int)> fn)
{
    cfg.nranks = nr;
    incarnation++;
    outcome.end = END_OK;
    outcome.blocked.clear();
    stop_run = false;
    body = std::move(fn);
    // Abandon fibers of an earlier incarnation (a killed job): nothing of them
    // may run again, their memory is simply left.
    for (auto& f : fibers) f.release();
    fibers.clear();
    actions.clear();
    cur = nullptr;
    last = nullptr;
    if (rank_err.size() < size_t(nr)) rank_err.resize(size_t(nr));
    if (rank_out.size() < size_t(nr)) rank_out.resize(size_t(nr));
    while (cfg.weight.size() < size_t(nr)) cfg.weight.push_back(8);
    for (int r = 0; r < nr; r++) {
        auto f = std::make_unique<Fiber>();
        f->rank = r;
        f->stack = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack;
        f->ctx.uc_stack.ss_size = STACK;
        f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, tramp, 0);
        fibers.push_back(std::move(f));
    }
    prio.assign(size_t(nr), 0);
    for (int r = 0; r < nr; r++) prio[size_t(r)] = 1 + S.draw(100);
    const long start = outcome.steps;
    long kill_at = cfg.kill_step < 0 ? -1 : start + cfg.kill_step;
    struct Cand { Fiber* f; size_t a; };
    std::vector<Cand> cand, late;
    std::vector<uint32_t> w, lw;
    bool stalled_noted = false;
    idle_polls = 0;
    in_run = true;
    while (!stop_run) {
        cand.clear(); late.clear(); w.clear(); lw.clear();
        bool alldone = true;
        auto addf = [&](Fiber* f) {
            uint32_t wt = cfg.weight[size_t(f->rank)];
            if (cfg.policy == 3) wt = prio[size_t(f->rank)] * prio[size_t(f->rank)];
            if (cfg.policy == 2 && f == last) wt = wt * 30 + 1;
            if (cfg.stall && f->rank == cfg.stall_rank && outcome.steps - start >= cfg.stall_from
                && outcome.steps - start < cfg.stall_from + cfg.stall_len) {
                wt = 0;
                if (!stalled_noted) { fault_counts[F_STALL]++; stalled_noted = true; }
            }
            if (f->polled) { late.push_back({f, 0}); lw.push_back(wt > 1 ? wt / 2 : wt); }
            else { cand.push_back({f, 0}); w.push_back(wt); }
        };
        if (last && last->st != DONE && runnable(last)) addf(last);
        for (auto& f : fibers) {
            if (f->st != DONE) alldone = false;
            if (f.get() == last) continue;
            if (f->st != DONE && runnable(f.get())) addf(f.get());
        }
        if (alldone) {
            // let pending actions drain (deterministically, in order)
            bool any = false;
            for (size_t i = 0; i < actions.size();) {
                if (!actions[i].enabled || actions[i].enabled()) {
                    auto a = std::move(actions[i]);
                    actions.erase(actions.begin() + long(i));
                    a.fn();
                    any = true;
                } else i++;
            }
            if (!any) break;
            continue;
        }
        for (size_t i = 0; i < actions.size(); i++) {
            if (!actions[i].enabled || actions[i].enabled()) {
                cand.push_back({nullptr, i});
                // a process that polls must not keep everything else from happening
                const uint32_t aw = idle_polls > 8 * nr ? std::max(cfg.action_weight, 8u) : cfg.action_weight;
                w.push_back(cfg.policy == 3 ? aw * 300 : aw);
            }
        }
        for (size_t i = 0; i < late.size(); i++) { cand.push_back(late[i]); w.push_back(lw[i]); }
        if (cand.empty()) {
            outcome.end = END_DEADLOCK;
            break;
        }
        outcome.steps++;
        if (outcome.steps - start > cfg.max_steps) { outcome.end = END_STEPS; break; }
        if (kill_at >= 0 && outcome.steps >= kill_at) {
            outcome.end = END_KILLED;
            fault_counts[F_KILL]++;
            ev("JOB KILLED");
            break;
        }
        uint32_t i = S.pick(w);
        outcome.simtime += 1e-6 * double(1 + (hash & 0xff));
        if (cfg.policy == 3 && (outcome.steps & 31) == 0)
            prio[S.draw(uint32_t(nr))] = 1 + S.draw(100);
        Cand c = cand[i];
        if (c.f) {
            for (auto& f : fibers) if (f.get() != c.f) f->polled = false;
            c.f->polled = false;
            int code = c.f->rank;
            sched_hash = (sched_hash ^ uint64_t(code + 1)) * 0x100000001b3ULL;
            c.f->st = READY;
            to_fiber(c.f);
        } else {
            sched_hash = (sched_hash ^ uint64_t(100 + c.a)) * 0x100000001b3ULL;
            auto a = std::move(actions[c.a]);
            actions.erase(actions.begin() + long(c.a));
            ev("action %s", a.what.c_str());
            for (auto& f : fibers) f->polled = false;
            idle_polls = 0;
            a.fn();
        }
    }
    in_run = false;
    for (auto& f : fibers)
        outcome.blocked.push_back(f->st == DONE ? "done" : f->what);
    if (outcome.end == END_KILLED || outcome.end == END_EXIT) mpi_job_killed();
    actions.clear();
    for (auto& f : fibers) {
        if (f->st == DONE && f->stack) {
#ifdef SIM_ASAN
            ASAN_UNPOISON_MEMORY_REGION(f->stack, STACK);
#endif
            munmap(f->stack, STACK); f->stack = nullptr;
        }
    }
    return outcome.end;
}

// Per-rank capture of std::cerr / std::cout
struct RankBuf : std::streambuf {
    std::vector<std::string>* to;
    explicit RankBuf(std::vector<std::string>* t) : to(t) {}
    int overflow(int c) override
    {
        if (c == EOF) return 0;
        if (cur && size_t(cur->rank) < to->size() && (*to)[size_t(cur->rank)].size() < 65536)
            (*to)[size_t(cur->rank)].push_back(char(c));
        return c;
    }
};
static RankBuf errbuf(&rank_err), outbuf(&rank_out);
void capture_streams()
{
    std::cerr.rdbuf(&errbuf);
    std::cout.rdbuf(&outbuf);
}

std::string Census::str() const
{
    char b[200];
    snprintf(b, sizeof b, "requests=%d types=%d files=%d windows=%d infos=%d comms=%d ops=%d", req, type, file, win, info, comm, op);
    return b;
}
}  // namespace sim
