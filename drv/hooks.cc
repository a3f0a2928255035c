// Link-time seams: process exit, glob, debug files, FFT planning, and the
// library's compile-time limits.
#include "sim.hh"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fnmatch.h>
#include <glob.h>
#include <unistd.h>
#include <vector>
#include <fftw3.h>

extern long knob_blocks, knob_no_fopen;

extern "C" {
size_t exseisdat_simulation_limit(const char* name, size_t value)
{
    long k = 0;
    if (!strcmp(name, "mpiio")) k = sim::knob_chunk;
    else if (!strcmp(name, "flow") || !strcmp(name, "4d") || !strcmp(name, "filemake")) k = sim::knob_mem;
    else if (!strcmp(name, "makerep")) k = sim::knob_block;
    else if (!strcmp(name, "makerep_blocks")) k = knob_blocks;
    return k > 0 ? size_t(k) : value;
}

void __real_exit(int);
void __wrap_exit(int code)
{
    if (sim::rank() >= 0) { sim::rank_end(); sim::rank_exit(code); }
    __real_exit(code);
    abort();
}
void __wrap__Exit(int code)
{
    if (sim::rank() >= 0) sim::rank_exit(code);
    _exit(code);
}

// In jobs where the library initialises MPI (cfg.world_is_managed) every rank
// is a process of its own as far as MPI's life time goes: a function-local
// static whose construction asks or tells MPI something is constructed once per
// rank, and its destructor runs when that rank ends.
static bool per_rank() { return sim::rank() >= 0 && sim::cfg.world_is_managed; }
struct Guarding { void* g; bool mpi; };
struct RankStatics {
    std::set<void*> done;
    std::vector<Guarding> open;
    bool after_mpi = false;    // the last thing constructed was such a static
    std::vector<std::pair<void (*)(void*), void*>> handlers;
};
static std::map<int, RankStatics>* statics;
static uint64_t statics_inc = 0;
static RankStatics& mine()
{
    if (!statics) statics = new std::map<int, RankStatics>;
    if (statics_inc != sim::incarnation) { statics->clear(); statics_inc = sim::incarnation; }
    return (*statics)[sim::rank()];
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __real___cxa_atexit(void (*)(void*), void*, void*);
int __wrap___cxa_guard_acquire(void* g)
{
    if (!per_rank()) return __real___cxa_guard_acquire(g);
    RankStatics& m = mine();
    if (*static_cast<char*>(g) || m.done.count(g)) return 0;
    m.after_mpi = false;
    m.open.push_back({g, false});
    return 1;
}
void __wrap___cxa_guard_release(void* g)
{
    if (!per_rank()) return __real___cxa_guard_release(g);
    RankStatics& m = mine();
    bool mpi = !m.open.empty() && m.open.back().mpi;
    if (!m.open.empty()) m.open.pop_back();
    if (mpi) m.done.insert(g);
    else *static_cast<char*>(g) = 1;
    m.after_mpi = mpi;
}
void __wrap___cxa_guard_abort(void* g)
{
    if (!per_rank()) return __real___cxa_guard_abort(g);
    RankStatics& m = mine();
    if (!m.open.empty()) m.open.pop_back();
}
int __wrap___cxa_atexit(void (*f)(void*), void* a, void* d)
{
    if (per_rank()) {
        RankStatics& m = mine();
        if (m.after_mpi || (!m.open.empty() && m.open.back().mpi)) { m.handlers.push_back({f, a}); m.after_mpi = false; return 0; }
    }
    return __real___cxa_atexit(f, a, d);
}
int __real_atexit(void (*)());
int __wrap_atexit(void (*f)())
{
    if (!per_rank()) return __real_atexit(f);
    mine().handlers.push_back({[](void* p) { reinterpret_cast<void (*)()>(p)(); }, reinterpret_cast<void*>(f)});
    return 0;
}

// glob over the simulated file system
int __wrap_glob(const char* pattern, int, int (*)(const char*, int), glob_t* g)
{
    sim::yield("glob");
    sim::ev("glob %s", pattern);
    std::vector<std::string> m;
    for (auto& f : sim::fs.files)
        if (fnmatch(pattern, f.first.c_str(), FNM_PATHNAME | FNM_PERIOD) == 0) m.push_back(f.first);
    memset(g, 0, sizeof *g);
    if (m.empty()) return GLOB_NOMATCH;
    g->gl_pathc = m.size();
    g->gl_pathv = static_cast<char**>(calloc(m.size() + 1, sizeof(char*)));
    for (size_t i = 0; i < m.size(); i++) g->gl_pathv[i] = strdup(m[i].c_str());
    return 0;
}
void __wrap_globfree(glob_t* g)
{
    for (size_t i = 0; i < g->gl_pathc; i++) free(g->gl_pathv[i]);
    free(g->gl_pathv);
    memset(g, 0, sizeof *g);
}

FILE* __real_fopen(const char*, const char*);
int __real_fclose(FILE*);
struct Stream { int rank; std::string name; char* data; size_t size; };
static std::map<FILE*, Stream*>* open_files;
FILE* __wrap_fopen(const char* n, const char* m)
{
    if (sim::rank() < 0) return __real_fopen(n, m);
    // debug output files of the 4D utility: kept with the simulated files,
    // they never reach the real disk
    bool fail = (knob_no_fopen >> sim::rank()) & 1;
    sim::ev("fopen %s%s", n, fail ? " fails" : "");
    if (fail) { sim::fault_counts[sim::F_STREAM]++; errno = ENOENT; return nullptr; }
    Stream* s = new Stream{sim::rank(), n, nullptr, 0};
    FILE* f = open_memstream(&s->data, &s->size);
    if (!open_files) open_files = new std::map<FILE*, Stream*>;
    (*open_files)[f] = s;
    return f;
}
int __wrap_fclose(FILE* f)
{
    Stream* s = nullptr;
    if (sim::rank() >= 0 && open_files && open_files->count(f)) { s = (*open_files)[f]; open_files->erase(f); }
    int rc = __real_fclose(f);
    if (s) {
        sim::fs.put(s->name) = std::vector<unsigned char>(s->data, s->data + s->size);
        free(s->data);
        delete s;
    }
    return rc;
}

// every simulated process parses its own command line
int __real_getopt(int, char* const*, const char*);
int __wrap_getopt(int argc, char* const* argv, const char* opts)
{
    if (sim::rank() < 0) return __real_getopt(argc, argv, opts);
    static uint64_t inc = 0;
    static std::map<int, int> at;   // optind of each process; all options are separate words
    if (inc != sim::incarnation) { at.clear(); inc = sim::incarnation; }
    auto it = at.find(sim::rank());
    optind = it == at.end() ? 0 : it->second;
    int c = __real_getopt(argc, argv, opts);
    at[sim::rank()] = optind;
    return c;
}

// FFT planning by measurement times the machine and overwrites both arrays
// unless the process has planned the same transform before: keep the documented
// effect on the data, without the timing.
static void fft_plan(unsigned flags, int n, int kind, void* a, size_t na, void* b, size_t nb)
{
    if (flags & (FFTW_ESTIMATE | FFTW_WISDOM_ONLY)) return;
    static std::set<std::vector<int>> known;
    static uint64_t inc = 0;
    if (sim::rank() < 0) return;
    if (inc != sim::incarnation) { known.clear(); inc = sim::incarnation; }
    if (!known.insert({sim::rank(), n, kind}).second) return;
    sim::probe("fft planned by measurement");
    memset(a, 0, na);
    memset(b, 0, nb);
}
fftwf_plan __real_fftwf_plan_dft_r2c_1d(int, float*, fftwf_complex*, unsigned);
fftwf_plan __real_fftwf_plan_dft_c2r_1d(int, fftwf_complex*, float*, unsigned);
fftwf_plan __real_fftwf_plan_dft_1d(int, fftwf_complex*, fftwf_complex*, int, unsigned);
fftwf_plan __wrap_fftwf_plan_dft_r2c_1d(int n, float* a, fftwf_complex* b, unsigned f)
{
    fft_plan(f, n, 0, a, size_t(n) * sizeof *a, b, size_t(n / 2 + 1) * sizeof *b);
    return __real_fftwf_plan_dft_r2c_1d(n, a, b, FFTW_ESTIMATE);
}
fftwf_plan __wrap_fftwf_plan_dft_c2r_1d(int n, fftwf_complex* a, float* b, unsigned f)
{
    fft_plan(f, n, 1, a, size_t(n / 2 + 1) * sizeof *a, b, size_t(n) * sizeof *b);
    return __real_fftwf_plan_dft_c2r_1d(n, a, b, FFTW_ESTIMATE);
}
fftwf_plan __wrap_fftwf_plan_dft_1d(int n, fftwf_complex* a, fftwf_complex* b, int s, unsigned f)
{
    fft_plan(f, n, 2 + s, a, size_t(n) * sizeof *a, b, size_t(n) * sizeof *b);
    return __real_fftwf_plan_dft_1d(n, a, b, s, FFTW_ESTIMATE);
}
}
namespace sim {
void mpi_touched() { if (per_rank()) for (auto& g : mine().open) g.mpi = true; }
void rank_end()
{
    if (!per_rank()) return;
    RankStatics& m = mine();
    while (!m.handlers.empty()) {
        auto h = m.handlers.back();
        m.handlers.pop_back();
        h.first(h.second);
    }
}
int stdio_open() { return open_files ? int(open_files->size()) : 0; }
}

// streams of the utilities, see fstreams.hh
namespace sim {
bool stream_open(const std::string& name, bool out)
{
    bool fail = (knob_no_fopen >> rank()) & 1;
    ev("open stream %s for %s%s", name.c_str(), out ? "writing" : "reading", fail ? " fails" : "");
    yield("stream open");
    if (out && fail) { fault_counts[F_STREAM]++; return false; }
    if (!out) return fs.has(name);
    fs.put(name).clear();
    return true;
}
void stream_write(const std::string& name, unsigned long long at, const std::string& d)
{
    ev("write %zu bytes to stream %s at %llu", d.size(), name.c_str(), at);
    yield("stream write");
    auto f = fs.files.find(name);
    if (f == fs.files.end()) return;      // removed
    std::vector<unsigned char>& b = f->second->data;
    if (b.size() < at + d.size()) b.resize(at + d.size());
    memcpy(&b[at], d.data(), d.size());
}
std::string stream_read(const std::string& name)
{
    auto b = fs.get(name);
    return std::string(b.begin(), b.end());
}
}
