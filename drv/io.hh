// Parallel I/O plans shared by several properties.
#pragma once
#include "drv.hh"

enum { K_BOTH = 0, K_HDR = 1, K_TRC = 2 };
struct WOp {
    int kind = K_BOTH;
    bool list = false;
    std::vector<std::vector<size_t>> share;  // per rank: trace positions, increasing
    size_t skip = 0;                         // leading unused Param entries
};
struct WPlan {
    std::string name = "out.segy";
    size_t nt = 0;          // traces the plan may touch
    size_t ns = 0;
    int interval = 0;
    std::string text;
    std::string pretext;    // meta != 0: text and interval the file is given first
    int preinterval = 0;
    double unit = 1e-6;     // what the interval of the file counts
    int meta = 0;           // 1 the final ones before the operations, 2 after them
    std::vector<WOp> ops;
    double frac = 0;        // what the interval exceeds a whole number of units by
    long prens = -1;        // sample count the file is given first (-1: none)
    int explicit_when = 0;  // 0 no, 1 before the writes, 2 after, 3 before the sample count is known
    size_t explicit_nt = 0;
    uint64_t salt = 0;
    bool coll = true;
    bool direct = false;    // through WriteDirect / makeFile (default options)
    bool has_prefill = false;
    Bytes prefill;
    // far files: trace t of the plan is trace far(t) of the file
    size_t base = 0, split = 0;
    size_t far(size_t t) const { return t < split ? t : base + t; }
    // owner of each byte range, -1 = nobody
    std::vector<int> oh, os;
    size_t furthest() const;
    size_t final_nt() const;
    std::string describe() const;
};
struct WOpts { int max_nt = 24, max_ns = 12, max_ops = 4; bool allow_prefill = true; bool allow_lists = true; };
WPlan gen_wplan(int nr, const WOpts& o = WOpts());
Hdr plan_hdr(const WPlan& p, size_t op, size_t t);
float plan_smp(const WPlan& p, size_t op, size_t t, size_t k);
/// The write calls rank r of nr makes; serial==true: one process makes the
/// calls of everybody.  after_op is called between operations.
void do_wplan(const WPlan& p, std::shared_ptr<P::ExSeis> piol, int r, int nr, bool serial,
              std::function<void(size_t)> after_op = nullptr);
/// What the file must contain, byte for byte (independent model).
Bytes model_bytes(const WPlan& p, const Bytes* header_from = nullptr);
std::shared_ptr<P::WriteInterface> open_writer(const WPlan& p, std::shared_ptr<P::ExSeisPIOL> piol, MPI_Comm c = MPI_COMM_WORLD);
/// random per-call transfer limit that admits traces of ns samples
void draw_chunk(size_t ns);
SegY gen_segy(size_t nt, size_t ns, uint64_t salt, int format, bool ends = true);

struct ROp {
    int kind = K_BOTH;
    int mode = 0;        // 0 contiguous, 1 increasing list, 2 unordered list
    std::vector<std::vector<size_t>> want;   // per rank positions (list modes)
    std::vector<size_t> off, sz;             // per rank (contiguous)
    size_t skip = 0;
    int rule = 0;        // what the parameter structure holds: 0 the default, else see rop_rule()
    size_t base = 0, split = 0;              // as for WPlan
    size_t far(size_t t) const { return t < split ? t : base + t; }
};
struct RPlan { std::vector<ROp> ops; std::string describe() const; };
RPlan gen_rplan(int nr, size_t nt, int max_ops = 3, bool past_end = true);
/// Execute the reads of rank r and check what arrives against the model.
/// Returns an empty string or the first difference.
std::string do_rop(const ROp& op, const SegY& f, P::ReadInterface* file, int r, bool with_data_checks = true);

/// A job that writes two files and reads a third while file operations fail.
struct FJob { WPlan a, b; SegY in; RPlan rp; bool coll_r, direct_r; int order; uint32_t salt; };
FJob gen_fjob(int nr);
void start_fjob(const FJob& j, int nr);
void fault_job(const FJob& j, int r, int nr, bool check);
void draw_io_faults(bool read_job);
bool log_names(const P::ExSeis& piol, const std::string& name);
size_t faults_at(int r, const std::string& file);
std::string first_fault(int r, const std::string& file);
