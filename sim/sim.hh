// Deterministic simulator core: choice streams, fibers, scheduler, faults, log.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices ---
struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    void reseed(uint64_t seed);
    uint64_t next();
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : uint32_t(next() % n); }
};

/// A recorded stream of bounded choices.  Generation draws from the PRNG;
/// replay takes them from a list (0 = simplest choice once it is exhausted).
struct Choices {
    Rng rng;
    bool replay = false;
    std::vector<uint32_t> in;
    std::vector<uint32_t> out;
    uint32_t draw(uint32_t n);                       // uniform in [0,n)
    uint32_t pick(const std::vector<uint32_t>& w);   // weighted index
    bool chance(uint32_t num, uint32_t den);         // 0 = no
    /// lo..hi inclusive, simplest = lo
    long range(long lo, long hi) { return lo + long(draw(uint32_t(hi - lo + 1))); }
};
extern Choices W;  ///< workload
extern Choices S;  ///< schedule, delays and faults

// ----------------------------------------------------------------- config ---
enum FaultKind {
    F_OPEN = 0, F_READ, F_WRITE_EIO, F_WRITE_NOSPC, F_SETSIZE, F_GETSIZE, F_CLOSE,
    F_SETVIEW, F_KILL, F_STALL, F_CACHE, F_TEAR, F_RENDEZVOUS, F_REORDER, F_RMADELAY,
    F_LOOSE, F_SKEW, F_SHORT, F_STREAM, F_NKINDS
};
extern const char* fault_names[F_NKINDS];

struct Config {
    int nranks          = 1;
    int policy          = 0;      // scheduler policy
    std::vector<uint32_t> weight; // per-rank speed
    uint32_t action_weight = 8;
    bool loose          = false;  // collectives need not synchronise
    bool wcache         = false;  // writes may stay in a rank-local cache until close/sync
    bool eager          = true;   // sends may be buffered
    bool rendezvous     = false;  // sends may block until matched
    bool stall          = false;  // one rank is stalled for a stretch of steps
    int stall_rank = 0; long stall_from = 0, stall_len = 0;
    // I/O faults
    uint32_t fault_mask = 0;      // enabled FaultKinds (I/O)
    uint32_t fault_num = 0, fault_den = 1;
    int fault_max       = 0;      // at most this many I/O faults
    int fault_skip      = 0;      // leave the first n eligible I/O calls alone
    std::string fault_path;       // substring filter on the file name
    long kill_step      = -1;     // kill the whole job at this scheduler step
    long max_steps      = 3000000;
    bool world_is_managed = false; // library initialises MPI itself
};
extern Config cfg;
/// Fill the scheduling part of cfg from the S stream (swarm configuration).
void swarm_config(int nranks);

// ----------------------------------------------------------------- result ---
enum End { END_OK = 0, END_DEADLOCK, END_STEPS, END_KILLED, END_EXIT, END_VIOLATION };
struct FaultEvent {
    long step; int rank; FaultKind kind; std::string op, file; int code; bool surfaced;
};
struct Outcome {
    End end = END_OK;
    int exit_rank = -1, exit_code = 0;
    long steps = 0;
    double simtime = 0;
    std::vector<std::string> blocked;   // what each unfinished rank waits for
};
struct Violation { std::string cls, detail; };

extern Outcome outcome;
extern std::vector<Violation> violations;
extern std::vector<FaultEvent> faults;
extern uint64_t fault_counts[F_NKINDS];
extern std::map<std::string, uint64_t> probes;
extern std::vector<std::string> rank_err;   // captured std::cerr of each rank
extern std::vector<std::string> rank_out;   // captured std::cout of each rank

void probe(const std::string& name);
/// Report a violation.  In a rank: ends the run.
void violation(const std::string& cls, const std::string& detail);
void note_violation(const std::string& cls, const std::string& detail); // does not end the run

// -------------------------------------------------------------------- log ---
extern bool verbose;
extern uint64_t hash;
extern uint64_t sched_hash;   // hash of the interleaving only (op kinds and ranks)
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(const void* p, size_t n);

// ------------------------------------------------------------------ ranks ---
int rank();                  ///< world rank of the running fiber (-1 outside)
int nranks();
long step();
void yield(const char* what);                                   ///< scheduling point
void block(const std::string& what, std::function<bool()> rdy); ///< wait until rdy
void poll_failed();          ///< the running rank polled without success
[[noreturn]] void rank_exit(int code);
void rank_end();             ///< run what the process registered for its end
void mpi_touched();          ///< the rank asked about or started MPI
int stdio_open();            ///< files opened with fopen and not closed
int rank_faults(int r);      ///< I/O faults that surfaced at rank r so far

/// Run fn(rank) on nranks simulated processes.  May be called several times
/// per simulated history (a restart); the file system survives in between.
extern uint64_t incarnation;   ///< number of jobs run so far
End run(int nranks, std::function<void(int)> fn);

struct Action { uint64_t id; int owner; std::string what; std::function<bool()> enabled; std::function<void()> fn; };
void remove_action(uint64_t id);
void capture_streams();
uint64_t add_action(int owner, const std::string& what, std::function<bool()> enabled, std::function<void()> fn);

// ------------------------------------------------------------ file system ---
/// A file.  A sparse one keeps only the pages which were written, so it can be
/// far longer than memory.
struct FNode {
    std::vector<unsigned char> data;
    uint64_t writes = 0;
    bool sparse = false;
    std::map<uint64_t, std::vector<unsigned char>> pages;
    uint64_t length = 0;
    uint64_t size() const { return sparse ? length : data.size(); }
    void resize(uint64_t n);
    void write(uint64_t off, const unsigned char* d, size_t n);
    /// n bytes from off, all of them inside the file
    void read(uint64_t off, unsigned char* d, size_t n) const;
    /// first non-zero byte in [lo, hi), or hi
    uint64_t first_nonzero(uint64_t lo, uint64_t hi) const;
};
struct FS {
    bool sparse = false;   ///< new files are sparse
    std::map<std::string, std::shared_ptr<FNode>> files;
    std::vector<unsigned char>& put(const std::string& n);
    bool has(const std::string& n) const { return files.count(n) != 0; }
    std::vector<unsigned char> get(const std::string& n) const;
};
extern FS fs;

// --------------------------------------------------------------- handles ----
struct Census { int req = 0, type = 0, file = 0, win = 0, info = 0, comm = 0, op = 0; 
    int total() const { return req + type + file + win + info + comm + op; }
    std::string str() const; };
Census census(int rank);
extern int n_init, n_finalize;
std::vector<std::string> unmatched();  // collectives / messages left incomplete
void mpi_reset();      // forget all MPI state (between job incarnations)
void mpi_job_killed(); // apply/lose cached writes
/// Override the per-run knobs read by the hooks in /repo (0 = default)
extern long knob_mem, knob_chunk, knob_block;

}  // namespace sim
