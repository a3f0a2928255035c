#include "drv.hh"
#include <cstdarg>
#include <cmath>
#include <limits>

std::string fmt(const char* f, ...)
{
    char b[2000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
uint64_t h64(uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t x = a * 0x9e3779b97f4a7c15ULL + b * 0xc2b2ae3d27d4eb4fULL + c * 0x165667b19e3779f9ULL + 0x27d4eb2f165667c5ULL;
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
    return x;
}
void put16(unsigned char* p, int v) { p[0] = (unsigned char)(v >> 8); p[1] = (unsigned char)v; }
void put32(unsigned char* p, int64_t v) { for (int i = 0; i < 4; i++) p[i] = (unsigned char)(uint32_t(v) >> (24 - 8 * i)); }
int get16(const unsigned char* p) { return int16_t((p[0] << 8) | p[1]); }
int32_t get32(const unsigned char* p) { return int32_t((uint32_t(p[0]) << 24) | (uint32_t(p[1]) << 16) | (uint32_t(p[2]) << 8) | p[3]); }
void put_f32(unsigned char* p, float v) { uint32_t u; memcpy(&u, &v, 4); put32(p, int64_t(u)); }
float get_f32(const unsigned char* p) { uint32_t u = uint32_t(get32(p)); float v; memcpy(&v, &u, 4); return v; }
void put_ibm(unsigned char* p, float v)
{
    uint32_t u = 0;
    if (v != 0) {
        uint32_t s = v < 0 ? 0x80000000u : 0;
        double a = std::fabs(double(v));
        int e = 64;
        while (a >= 1) { a /= 16; e++; }
        while (a < 1.0 / 16) { a *= 16; e--; }
        u = s | (uint32_t(e) << 24) | uint32_t(a * 16777216.0);
    }
    put32(p, int64_t(u));
}
float get_ibm(const unsigned char* p)
{
    uint32_t u = uint32_t(get32(p));
    double m = double(u & 0xffffffu) / 16777216.0;
    int e = int((u >> 24) & 0x7f) - 64;
    double v = m * std::pow(16.0, e);
    return float(u >> 31 ? -v : v);
}

bool Hdr::same(const Hdr& o, bool m) const
{
    if (tn != o.tn || off != o.off || il != o.il || xl != o.xl) return false;
    if (m && misc != o.misc) return false;
    for (int i = 0; m && i < 7; i++) if (!(std::fabs(e[i] - o.e[i]) <= 1e-9 * std::max(1.0, std::fabs(e[i])))) return false;
    for (int i = 0; i < 6; i++)
        if (!(std::fabs(c[i] - o.c[i]) <= 1e-9 * std::max(1.0, std::fabs(c[i])))) return false;
    return true;
}
std::string Hdr::str() const
{
    std::string s;
    for (double v : e) if (v != 0) { s = fmt(" elev=(%.6g,%.6g,%.6g,%.6g,%.6g,%.6g,%.6g)", e[0], e[1], e[2], e[3], e[4], e[5], e[6]); break; }
    return fmt("{tn=%d off=%d il=%d xl=%d src=(%.6g,%.6g) rcv=(%.6g,%.6g) cmp=(%.6g,%.6g) misc=%d", tn, off, il, xl, c[0], c[1], c[2], c[3], c[4], c[5], misc) + s + "}";
}
static const int cloc[6] = {73, 77, 81, 85, 181, 185};
static const int eloc[7] = {41, 45, 49, 53, 57, 61, 65};
void enc_hdr(unsigned char* p, const Hdr& h, int style)
{
    memset(p, 0, MD);
    // style 0: scale by 1/100 when there are fractions, style 1: always 1/100
    bool frac = style == 1;
    for (double v : h.c) if (v != std::floor(v)) frac = true;
    put32(p + 4, h.tn);
    put16(p + 28, h.misc);
    put32(p + 36, h.off);
    bool efrac = false;
    for (double v : h.e) if (v != std::floor(v)) efrac = true;
    put16(p + 68, efrac ? -10 : 1);
    for (int i = 0; i < 7; i++) put32(p + eloc[i] - 1, std::llround(h.e[i] * (efrac ? 10 : 1)));
    put16(p + 70, frac ? -100 : 1);
    for (int i = 0; i < 6; i++) put32(p + cloc[i] - 1, std::llround(h.c[i] * (frac ? 100 : 1)));
    put32(p + 188, h.il);
    put32(p + 192, h.xl);
}
Hdr dec_hdr(const unsigned char* p)
{
    Hdr h;
    h.tn = get32(p + 4);
    h.misc = int16_t(get16(p + 28));
    h.off = get32(p + 36);
    int sc = get16(p + 70);
    double f = sc == 0 ? 1.0 : sc > 0 ? double(sc) : -1.0 / sc;
    for (int i = 0; i < 6; i++) h.c[i] = f * get32(p + cloc[i] - 1);
    sc = get16(p + 68);
    f = sc == 0 ? 1.0 : sc > 0 ? double(sc) : -1.0 / sc;
    for (int i = 0; i < 7; i++) h.e[i] = f * get32(p + eloc[i] - 1);
    h.il = get32(p + 188);
    h.xl = get32(p + 192);
    return h;
}
static const unsigned char a2e_tab[] = {
    0x40,0x5a,0x7f,0x7b,0x5b,0x6c,0x50,0x7d,0x4d,0x5d,0x5c,0x4e,0x6b,0x60,0x4b,0x61,
    0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0x7a,0x5e,0x4c,0x7e,0x6e,0x6f,
    0x7c,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,
    0xd7,0xd8,0xd9,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9};
Bytes encode(const SegY& f)
{
    Bytes b(HO + f.t.size() * dosz(f.ns), 0);
    for (size_t i = 0; i < f.text.size() && i < 3200; i++) {
        unsigned char ch = (unsigned char)f.text[i];
        b[i] = f.ebcdic ? (ch >= 32 && ch <= 'Z' ? a2e_tab[ch - 32] : 0x40) : ch;
    }
    put16(&b[3216], f.interval);
    put16(&b[3220], int(f.ns));
    put16(&b[3224], f.format);
    put16(&b[3254], 1);
    put16(&b[3500], 0x0100);
    put16(&b[3502], 1);
    put16(&b[3504], 0);
    for (size_t i = 0; i < f.t.size(); i++) {
        unsigned char* p = &b[HO + i * dosz(f.ns)];
        enc_hdr(p, f.t[i].h);
        for (size_t k = 0; k < f.ns; k++)
            (f.format == 1 ? put_ibm : put_f32)(p + MD + 4 * k, f.t[i].s[k]);
    }
    return b;
}
bool decode(const Bytes& b, SegY& f, std::string& why)
{
    f = SegY();
    if (b.size() < HO) { why = fmt("file has only %zu bytes", b.size()); return false; }
    f.text.assign(b.begin(), b.begin() + 3200);
    f.interval = get16(&b[3216]);
    int ns = get16(&b[3220]);
    f.format = get16(&b[3224]);
    if (ns < 0) { why = fmt("negative sample count %d", ns); return false; }
    f.ns = size_t(ns);
    if ((b.size() - HO) % dosz(f.ns)) { why = fmt("length %zu is not a file header plus whole traces of %d samples", b.size(), ns); return false; }
    size_t nt = (b.size() - HO) / dosz(f.ns);
    f.t.resize(nt);
    for (size_t i = 0; i < nt; i++) {
        const unsigned char* p = &b[HO + i * dosz(f.ns)];
        f.t[i].h = dec_hdr(p);
        f.t[i].s.resize(f.ns);
        for (size_t k = 0; k < f.ns; k++) f.t[i].s[k] = (f.format == 1 ? get_ibm : get_f32)(p + MD + 4 * k);
    }
    return true;
}
std::string diff_traces(const std::vector<Trc>& g, const std::vector<Trc>& w, bool smp, double tol)
{
    if (g.size() != w.size()) return fmt("has %zu traces instead of %zu", g.size(), w.size());
    for (size_t i = 0; i < g.size(); i++) {
        if (!g[i].h.same(w[i].h)) return fmt("trace %zu has header %s instead of %s", i, g[i].h.str().c_str(), w[i].h.str().c_str());
        if (!smp) continue;
        if (g[i].s.size() != w[i].s.size()) return fmt("trace %zu has %zu samples instead of %zu", i, g[i].s.size(), w[i].s.size());
        for (size_t k = 0; k < g[i].s.size(); k++) {
            float a = g[i].s[k], b = w[i].s[k];
            if (memcmp(&a, &b, 4) == 0) continue;
            if (std::fabs(double(a) - b) <= tol * std::max(1.0, std::fabs(double(b)))) continue;
            return fmt("trace %zu sample %zu is %.9g instead of %.9g", i, k, double(a), double(b));
        }
    }
    return "";
}
std::string diff_bytes(const Bytes& g, const Bytes& w, size_t ns)
{
    size_t n = std::min(g.size(), w.size());
    size_t nd = 0, first = 0;
    for (size_t i = 0; i < n; i++)
        if (g[i] != w[i]) { if (!nd) first = i; nd++; }
    std::string r;
    if (nd) {
        std::string where = first < HO ? fmt("file header byte %zu", first)
            : fmt("trace %zu %s byte %zu", (first - HO) / dosz(ns), (first - HO) % dosz(ns) < MD ? "header" : "sample", (first - HO) % dosz(ns));
        r = fmt("%zu bytes differ, first at %zu (%s): %02x instead of %02x", nd, first, where.c_str(), g[first], w[first]);
    }
    if (g.size() != w.size()) r += fmt("%slength %zu instead of %zu", r.empty() ? "" : "; ", g.size(), w.size());
    return r;
}
Hdr gen_hdr(uint64_t salt, size_t i)
{
    Hdr h;
    h.tn = int32_t(h64(salt, i, 1) % 2000000) - 1000000;
    h.off = int32_t(h64(salt, i, 2) % 20000) - (h64(salt, 8) & 1 ? 10000 : 0);
    h.il = int32_t(h64(salt, i, 3) % 100000) - 50000;
    h.xl = int32_t(h64(salt, i, 4) % 100000) - 50000;
    bool frac = h64(salt, i, 5) & 1;
    for (unsigned k = 0; k < 6; k++) {
        double v = double(h64(salt, i, 10 + k) % 400000) - 200000;
        if (frac) v += double(h64(salt, i, 20 + k) % 4) * 0.25;
        h.c[k] = v;
    }
    if (h64(salt, i, 6) % 8 == 0) {
        // the ends of what the fields can hold
        static const int32_t ends[6] = {std::numeric_limits<int32_t>::max(), std::numeric_limits<int32_t>::min(), -std::numeric_limits<int32_t>::max(), 0, -1, 1};
        int32_t* f[4] = {&h.tn, &h.off, &h.il, &h.xl};
        for (unsigned k = 0; k < 4; k++) if (h64(salt, i, 50 + k) & 1) *f[k] = ends[h64(salt, i, 60 + k) % 6];
        if (!frac) for (unsigned k = 0; k < 6; k++) if (h64(salt, i, 70 + k) % 4 == 0) h.c[k] = double(ends[h64(salt, i, 80 + k) % 6]);
    }
    return h;
}
float end_smp(uint64_t salt, size_t i, size_t k)
{
    // mostly ordinary samples, and every kind of special one
    static const uint32_t ends[16] = {0x7f800000, 0xff800000, 0x7fc00000, 0xffc12345, 0x7f800001, 0x7f7fffff, 0xff7fffff, 0x00000001, 0x80000001,
        0x00800000, 0x807fffff, 0x00000000, 0x80000000, 0x3f800001, 0x01020304, 0xfffefdfc};
    if (h64(salt, 9) % 4 || h64(salt, i, 3000 + k) % 3) return gen_smp(salt, i, k);
    float v;
    memcpy(&v, &ends[h64(salt, i, 2000 + k) % 16], 4);
    return v;
}
float gen_smp(uint64_t salt, size_t i, size_t k)
{
    uint64_t h = h64(salt, i, 1000 + k);
    float v = float(int(h % 16001) - 8000) / 8.0f;
    return v;
}

// --------------------------------------------------------------- library ----
static const P::Meta cm[6] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp};
// fields which the rule of the structure does not hold are left out (zero)
static bool holds(const P::Param* p, P::Meta m) { return p->r->translate.count(m) != 0; }
void set_prm(P::Param* p, size_t i, const Hdr& h)
{
    using namespace P::param_utils;
    auto whole = [&](P::Meta m, int32_t v) { if (holds(p, m)) setPrm(i, m, exseis::utils::Integer(v), p); };
    for (int k = 0; k < 6; k++) if (holds(p, cm[k])) setPrm(i, cm[k], exseis::utils::Floating_point(h.c[k]), p);
    whole(PIOL_META_tn, h.tn);
    whole(PIOL_META_Offset, h.off);
    whole(PIOL_META_il, h.il);
    whole(PIOL_META_xl, h.xl);
}
Hdr get_prm(const P::Param* p, size_t i)
{
    using namespace P::param_utils;
    Hdr h;
    auto whole = [&](P::Meta m) { return holds(p, m) ? int32_t(getPrm<exseis::utils::Integer>(i, m, p)) : 0; };
    for (int k = 0; k < 6; k++) h.c[k] = holds(p, cm[k]) ? getPrm<exseis::utils::Floating_point>(i, cm[k], p) : 0;
    h.tn = whole(PIOL_META_tn);
    h.off = whole(PIOL_META_Offset);
    h.il = whole(PIOL_META_il);
    h.xl = whole(PIOL_META_xl);
    return h;
}
std::shared_ptr<P::ExSeis> new_piol(MPI_Comm c) { return P::ExSeis::New(PIOL_VERBOSITY_NONE, c); }

// ---------------------------------------------------------------- running ---
std::string sample_text;
bool is_nontrivial = false;
long knob_blocks = 0, knob_no_fopen = 0;
const char* cur_prop = "";
bool failed() { return !sim::violations.empty(); }
void sample(const std::string& s) { sample_text += s; if (sim::verbose) printf("# %s\n", s.c_str()); }
void nontrivial() { is_nontrivial = true; }

bool run_job(const char* name, int nr, std::function<void(int)> fn, int flags)
{
    if (failed()) return false;
    sim::cfg.nranks = nr;
    sim::mpi_reset();
    sim::ev("job %s on %d ranks", name, nr);
    if (sim::verbose) fflush(stdout);
    sim::End e = sim::run(nr, std::move(fn));
    if (failed()) return false;
    auto waits = [] {
        std::string s;
        for (size_t i = 0; i < sim::outcome.blocked.size(); i++) s += fmt(" [rank %zu: %s]", i, sim::outcome.blocked[i].c_str());
        return s;
    };
    if (e == sim::END_DEADLOCK) sim::note_violation("hang", fmt("job '%s' cannot continue:%s", name, waits().c_str()));
    else if (e == sim::END_STEPS) sim::note_violation("livelock", fmt("job '%s' makes no progress within %ld steps:%s", name, sim::cfg.max_steps, waits().c_str()));
    else if (e == sim::END_EXIT && !(flags & J_ALLOW_EXIT))
        sim::note_violation("unexpected-exit", fmt("job '%s': rank %d terminated the program with code %d: %s", name, sim::outcome.exit_rank, sim::outcome.exit_code,
            sim::rank_err.empty() ? "" : sim::rank_err[size_t(sim::outcome.exit_rank)].substr(0, 400).c_str()));
    else if (e == sim::END_OK && !(flags & J_NO_UNMATCHED)) {
        auto u = sim::unmatched();
        if (!u.empty()) sim::note_violation("unmatched-communication", fmt("job '%s': %s (%zu in all)", name, u[0].c_str(), u.size()));
    }
    return !failed();
}
bool run_serial(const char* name, std::function<void(int)> fn, int flags)
{
    auto save = sim::cfg;
    long m = sim::knob_mem, c = sim::knob_chunk, b = sim::knob_block, bl = knob_blocks;
    sim::cfg = sim::Config();
    sim::cfg.weight.assign(1, 8);
    sim::knob_mem = sim::knob_chunk = sim::knob_block = knob_blocks = 0;
    bool ok = run_job(name, 1, std::move(fn), flags);
    sim::cfg = save;
    sim::knob_mem = m; sim::knob_chunk = c; sim::knob_block = b; knob_blocks = bl;
    return ok;
}
std::vector<size_t> random_cuts(size_t n, int nr)
{
    std::vector<size_t> c(size_t(nr) + 1, 0);
    c[size_t(nr)] = n;
    int style = int(W.draw(4));
    for (int r = 1; r < nr; r++) {
        if (style == 0) c[size_t(r)] = n * size_t(r) / size_t(nr);
        else if (style == 3) c[size_t(r)] = W.draw(2) ? n : 0;
        else c[size_t(r)] = W.draw(uint32_t(n + 1));
    }
    std::sort(c.begin(), c.end());
    return c;
}
std::vector<int> random_owners(size_t n, int nr)
{
    std::vector<int> o(n, 0);
    int style = int(W.draw(5));
    if (style == 0 || style == 1) {
        auto c = random_cuts(n, nr);
        for (int r = 0; r < nr; r++) for (size_t i = c[size_t(r)]; i < c[size_t(r) + 1]; i++) o[i] = r;
    } else if (style == 2) {
        for (size_t i = 0; i < n; i++) o[i] = int(i % size_t(nr));
    } else if (style == 3) {
        for (size_t i = 0; i < n; i++) o[i] = int(W.draw(uint32_t(nr)));
    } else {
        int r = int(W.draw(uint32_t(nr)));
        for (size_t i = 0; i < n; i++) o[i] = r;
    }
    return o;
}
bool big(uint32_t one_in) { return W.draw(one_in) == one_in - 1; }
int draw_ranks(int maxr, int minr)
{
    int w = int(W.draw(8));
    int n;
    if (w < 2) n = 2;
    else if (w < 4) n = 3;
    else n = minr + int(W.draw(uint32_t(maxr - minr + 1)));
    if (n < minr) n = minr;
    if (n > maxr) n = maxr;
    if (w == 7 && maxr >= 5 && W.draw(8) == 7) n = maxr + 1 + int(W.draw(8));
    return n;
}
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
