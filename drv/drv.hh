// Shared pieces of the simulation driver: independent SEG-Y model, job runner,
// library helpers.
#pragma once
#include "sim.hh"

#include "ExSeisDat/PIOL.hh"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ObjectSEGY.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/WriteSEGY.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/PIOL/param_utils.hh"

#include <cstdio>
#include <functional>
#include <memory>
#include <numeric>
#include <string>
#include <vector>

using sim::S;
using sim::W;
typedef std::vector<unsigned char> Bytes;
namespace P = exseis::PIOL;

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------ SEG-Y model ---
enum { C_XS, C_YS, C_XR, C_YR, C_XC, C_YC };
struct Hdr {
    int32_t tn = 0, off = 0, il = 0, xl = 0;
    double c[6] = {0, 0, 0, 0, 0, 0};
    double e[7] = {0, 0, 0, 0, 0, 0, 0};  // elevations (no default rule has them)
    int16_t misc = 0;  // marker in a byte range no default rule covers (bytes 29-30)
    bool same(const Hdr& o, bool with_misc = false) const;
    std::string str() const;
};
struct Trc { Hdr h; std::vector<float> s; };
struct SegY {
    size_t ns = 0;
    int interval = 0;     // microseconds
    int format = 5;       // 5 = IEEE, 1 = IBM
    std::string text;     // <= 3200
    bool ebcdic = false;
    std::vector<Trc> t;
};
constexpr size_t HO = 3600, MD = 240;
inline size_t dosz(size_t ns) { return MD + 4 * ns; }
void put16(unsigned char* p, int v);
void put32(unsigned char* p, int64_t v);
int get16(const unsigned char* p);
int32_t get32(const unsigned char* p);
void put_f32(unsigned char* p, float v);
float get_f32(const unsigned char* p);
void put_ibm(unsigned char* p, float v);
float get_ibm(const unsigned char* p);
void enc_hdr(unsigned char* p, const Hdr& h, int scal_style = 0);
Hdr dec_hdr(const unsigned char* p);
Bytes encode(const SegY& f);
/// Decode a file; false (with why) if its structure is inconsistent.
bool decode(const Bytes& b, SegY& f, std::string& why);
/// First difference of two decoded files, empty if same.
std::string diff_traces(const std::vector<Trc>& got, const std::vector<Trc>& want, bool cmp_samples = true, double tol = 0);
std::string diff_bytes(const Bytes& got, const Bytes& want, size_t ns);

/// Random header / samples (deterministic function of the arguments).
Hdr gen_hdr(uint64_t salt, size_t i);
float gen_smp(uint64_t salt, size_t i, size_t k);
float end_smp(uint64_t salt, size_t trace, size_t sample);  // with infinities, NaNs, denormals...
uint64_t h64(uint64_t a, uint64_t b = 0, uint64_t c = 0);

// ------------------------------------------------------------ the library ---
void set_prm(P::Param* p, size_t i, const Hdr& h);
Hdr get_prm(const P::Param* p, size_t i);
/// Value of every default field for comparing "untouched"
struct Job {
    std::string name;
    sim::End end = sim::END_OK;
};
/// One incarnation of a job on nr ranks.  Reports hang, livelock, unexpected
/// exit and unmatched communication as violations unless told otherwise.
enum { J_ALLOW_EXIT = 1, J_ALLOW_KILL = 2, J_NO_UNMATCHED = 4 };
bool run_job(const char* name, int nr, std::function<void(int)> fn, int flags = 0);
/// Run fn with the plain serial configuration (1 rank, no faults, no races,
/// default limits), keeping and restoring the current one.
bool run_serial(const char* name, std::function<void(int)> fn, int flags = 0);
/// true once a violation was reported
bool failed();
void sample(const std::string& s);   ///< describe the generated case
void nontrivial();                   ///< the case exercised the property
extern std::string sample_text;
extern bool is_nontrivial;
extern long knob_blocks;             // "makerep_blocks"
extern const char* cur_prop;

std::shared_ptr<P::ExSeis> new_piol(MPI_Comm c = MPI_COMM_WORLD);
/// Divide n items over nr ranks in a random way; returns owner per item.
std::vector<int> random_owners(size_t n, int nr);
/// Contiguous random split: nr+1 cut points
std::vector<size_t> random_cuts(size_t n, int nr);
/// draw number of ranks 1..maxr, biased
int draw_ranks(int maxr = 6, int minr = 1);
/// draw whether this run is one of the few with far more data than usual
bool big(uint32_t one_in = 48);

struct Scenario { const char* prop; const char* name; void (*fn)(); int weight; };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* p, const char* n, void (*f)(), int w = 1) { scenarios().push_back({p, n, f, w}); } };
#define SCENARIO(prop, name, weight) \
    static void scen_##prop##_##name(); \
    static Reg reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); \
    static void scen_##prop##_##name()
