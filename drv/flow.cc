// Processing flows: single-trace flows (C11), gather flows and velocity models
// (C12), extremes over a set of files (C08).
#include "util.hh"

#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/ReadModel.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/PIOL/operations/sort.hh"
#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
#include <complex>
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"

#include <algorithm>
#include <iostream>
#include <sstream>
#include <cmath>
#include <limits>

int concatenate_main(int, char**);
int segsort_main(int, char**);
int radon_main(int, char**);

namespace U = exseis::utils;
namespace F = exseis::Flow;
namespace pu = P::param_utils;
using U::Floating_point;
using U::Integer;

std::vector<Hdr> keyed_headers(size_t n, uint64_t salt, int style, int spread);
std::vector<double> sort_key(int type, const Hdr& h);
extern const int sort_types[9];

// ------------------------------------------------------------- references ---
static float square_taper(float w, float ramp) { float x = w / (ramp + 1); return x * x; }
static float peak_gain(const float* s, size_t n, float target, size_t center)
{
    float m = 0;
    for (size_t i = 0; i < n; i++) m = std::max(m, std::fabs(s[i]));
    return target / (m + float(center));
}
static const U::Taper_function tapers[4] = {&U::linear_taper, &U::cosine_taper, &U::cosine_square_taper, &square_taper};
static const U::Gain_function gains[5] = {&U::rectangular_RMS_gain, &U::triangular_RMS_gain, &U::mean_abs_gain, &U::median_gain, &peak_gain};

// The weights and gains as documented, in double precision.
static double ref_weight(int f, double w, double ramp)
{
    const double c = (1 + std::cos(M_PI * (w - ramp) / ramp)) / 2;
    switch (f) {
        case 0: return w / ramp;
        case 1: return c;
        case 2: return c * c;
        default: return double(square_taper(float(w), float(ramp)));
    }
}
/// rel: bound of the relative error of the gain when the samples are only
/// known to within err (and sums are made in single precision).
static double ref_gain(int f, const float* s, const double* err, size_t n, double target, size_t center, double& rel)
{
    double sum = 0, used = 0, e = 0, m = 0;
    const double half = double(std::max(center, n - 1 - center));
    for (size_t i = 0; i < n; i++) {
        if (s[i] != 0) used++;
        const double d = std::fabs(double(i) - double(center)), x = s[i], w = f == 1 ? (1 - d / half) * (1 - d / half) : 1;
        if (f < 2) { sum += x * x * w; e += 2 * std::fabs(x) * err[i] + 3e-7 * double(n) * x * x * w; }
        else { sum += x; e += err[i] + 3e-7 * double(n) * std::fabs(x); }
        m = std::max(m, err[i] + 3e-7 * std::fabs(x));
    }
    used = std::max(1.0, used);
    rel = e / std::fabs(sum);
    switch (f) {
        case 0:
        case 1: return target / std::sqrt(sum / used);
        case 2: return target / (std::fabs(sum) / used);
        case 3: {
            std::vector<double> v(s, s + n);
            std::sort(v.begin(), v.end());
            const double med = n % 2 ? v[n / 2] : (v[n / 2] + v[std::min(n / 2 + 1, n - 1)]) / 2;
            rel = m / std::fabs(med);
            return target / med;
        }
        default: {
            const double g = double(peak_gain(s, n, float(target), center));
            rel = m * std::fabs(g / target);
            return g;
        }
    }
}
static void ref_taper(std::vector<float>& s, std::vector<double>& err, int f, size_t l, size_t r)
{
    size_t z = 0;
    while (z < s.size() && s[z] == 0) z++;
    size_t n = s.size() - z;
    l = std::min(l, n);
    r = std::min(r, n);
    auto weigh = [&](size_t k, double w) { s[k] = float(s[k] * w); err[k] = err[k] * w + 1e-6 * std::fabs(s[k]); };
    for (size_t j = 0; j < l; j++) weigh(z + j, ref_weight(f, double(j + 1), double(l)));
    for (size_t j = 0; j < r; j++) weigh(z + n - r + j, ref_weight(f, double(r - j), double(r)));
}
static void ref_agc(std::vector<float>& s, std::vector<double>& err, int f, size_t w, float target)
{
    size_t half = w / 2;
    std::vector<double> g(s.size()), rel(s.size());
    for (size_t j = 0; j < s.size(); j++) {
        size_t lo = j < half ? 0 : j - half, hi = std::min(s.size() - 1, j + half);
        g[j] = ref_gain(f, &s[lo], &err[lo], hi - lo + 1, target, j - lo, rel[j]);
    }
    for (size_t j = 0; j < s.size(); j++) {
        s[j] = float(s[j] * g[j]);
        err[j] = std::fabs(g[j]) * err[j] + (rel[j] + 1e-6) * std::fabs(double(s[j]));
        if (!(rel[j] < 0.05)) err[j] = INFINITY;   // too close to a division by nothing
    }
}

// Butterworth filter in double precision: zeros, poles and gain of the analogue
// prototype, moved to the band, then the bilinear transform.
using cd = std::complex<double>;
static std::vector<double> poly_of(const std::vector<cd>& roots)     // highest power first
{
    std::vector<cd> p(1, 1.0);
    for (cd r : roots) {
        p.push_back(0);
        for (size_t i = p.size() - 1; i > 0; i--) p[i] -= r * p[i - 1];
    }
    std::vector<double> q;
    for (cd c : p) q.push_back(c.real());
    return q;
}
static void ref_design(int type, size_t N, double fs, double f1, double f2, std::vector<double>& b, std::vector<double>& a)
{
    double w1 = 4 * std::tan(M_PI * f1 / fs), w2 = 4 * std::tan(M_PI * f2 / fs);
    std::vector<cd> z, p;
    cd k = 1;
    for (size_t i = 0; i < N; i++) {
        cd q = std::polar(1.0, M_PI * (0.5 + (2.0 * double(i) + 1) / (2.0 * double(N))));   // left half of the unit circle
        if (type == 0) { p.push_back(w1 * q); k *= w1; }
        else if (type == 1) { p.push_back(w1 / q); z.push_back(0); k /= -q; }
        else {
            double bw = w2 - w1, c2 = w1 * w2;
            cd h = type == 2 ? q * bw / 2.0 : bw / 2.0 / q, d = std::sqrt(h * h - c2);
            p.push_back(h + d);
            p.push_back(h - d);
            if (type == 2) { z.push_back(0); k *= bw; }
            else { z.push_back(cd(0, std::sqrt(c2))); z.push_back(cd(0, -std::sqrt(c2))); k /= -q; }
        }
    }
    for (cd& x : z) { k *= 4.0 - x; x = (4.0 + x) / (4.0 - x); }
    for (cd& x : p) { k /= 4.0 - x; x = (4.0 + x) / (4.0 - x); }
    while (z.size() < p.size()) z.push_back(-1);
    b = poly_of(z);
    a = poly_of(p);
    for (double& x : b) x *= k.real();
}
// direct form II transposed, started as if the first value had been there for ever
static std::vector<double> ref_iir(const std::vector<double>& b, const std::vector<double>& a, const std::vector<double>& x)
{
    size_t n = b.size() - 1;
    double sb = 0, sa = 0;
    for (double v : b) sb += v;
    for (double v : a) sa += v;
    double y0 = sb / sa * x[0];                      // the response to a constant
    std::vector<double> st(n + 1), y;
    for (size_t k = n; k-- > 0;) st[k] = st[k + 1] + b[k + 1] * x[0] - a[k + 1] * y0;
    for (double v : x) {
        double o = b[0] * v + st[0];
        for (size_t k = 0; k < n; k++) st[k] = st[k + 1] + b[k + 1] * v - a[k + 1] * o;
        y.push_back(o);
    }
    return y;
}
static double order_of(double pass, double stop, double fs)      // 3 dB at the first, 20 dB at the second corner
{
    return 0.5 * std::log((std::pow(10, 2) - 1) / (std::pow(10, 0.3) - 1)) / std::fabs(std::log(std::tan(M_PI * stop / fs) / std::tan(M_PI * pass / fs)));
}
static void ref_filter(std::vector<float>& s, std::vector<double>& err, const struct FOp& o);

// --------------------------------------------------------------- the flow ---
enum { OP_SORT, OP_SORTFN, OP_TAPER, OP_AGC, OP_FILTER, OP_TEXT, OP_MINMAX };
struct FOp {
    int kind = 0;
    int type = 0;         // sort type / function index / filter type
    size_t a = 0, b = 0;
    float v = 0;
    std::vector<float> corners;
    float fs = 250;
    size_t win = 0, centre = 0;
    bool by_corners = false;   // the order is chosen by the library
    int dmn = 0, pad = 0;
    std::string text;
    std::string str() const
    {
        switch (kind) {
            case OP_SORT: return fmt(" sort(%d)", type);
            case OP_SORTFN: return fmt(" sortfn(%d)", type);
            case OP_TAPER: return fmt(" taper(%d,%zu,%zu)", type, a, b);
            case OP_AGC: return fmt(" agc(%d,%zu)", type, a);
            case OP_FILTER: return fmt(" filter(%d,%d,%d,%s%zu,%zu@%zu)", type, dmn, pad, by_corners ? "by corners, order " : "", a, win, centre);
            case OP_TEXT: return " text";
            default: return " minmax";
        }
    }
};
struct FFile { std::string name; SegY f; int cls; };
struct FlowCase {
    std::vector<FFile> files;             // in the order in which they are added
    std::vector<std::string> patterns;    // add() calls
    std::vector<FOp> ops;
    std::string prefix;
    bool via_ctor = false;                // pattern given to the constructor, written by the destructor
    bool fields = false;                  // only the default header fields, no copy of the whole header
    bool handles = false;                 // opened files are added instead of patterns
    size_t block = 0;
    std::string describe() const
    {
        std::string s = fmt("%zu files:", files.size());
        for (auto& f : files) s += fmt(" %s(%zux%zu@%d f%d)", f.name.c_str(), f.f.t.size(), f.f.ns, f.f.interval, f.f.format);
        for (auto& o : ops) s += o.str();
        s += fmt(" ->%s%s%s%s block %zu", prefix.c_str(), via_ctor ? " by destructor" : "", fields ? " default fields" : "", handles ? " opened files" : "", block);
        return s;
    }
};
static bool fn_less(int which, const Hdr& a, const Hdr& b)
{
    switch (which) {
        case 0: return a.il < b.il;
        case 1: return a.tn > b.tn;
        case 2: return (a.tn & 1) < (b.tn & 1);
        default: return a.c[C_XC] > b.c[C_XC];
    }
}
static P::CompareP fn_comp(int which)
{
    switch (which) {
        case 0: return [](const P::Param* p, size_t i, size_t j) { return pu::getPrm<Integer>(i, PIOL_META_il, p) < pu::getPrm<Integer>(j, PIOL_META_il, p); };
        case 1: return [](const P::Param* p, size_t i, size_t j) { return pu::getPrm<Integer>(i, PIOL_META_tn, p) > pu::getPrm<Integer>(j, PIOL_META_tn, p); };
        case 2: return [](const P::Param* p, size_t i, size_t j) { return (pu::getPrm<Integer>(i, PIOL_META_tn, p) & 1) < (pu::getPrm<Integer>(j, PIOL_META_tn, p) & 1); };
        default: return [](const P::Param* p, size_t i, size_t j) { return pu::getPrm<Floating_point>(i, PIOL_META_xCmp, p) > pu::getPrm<Floating_point>(j, PIOL_META_xCmp, p); };
    }
}
static std::shared_ptr<P::Rule> fn_rule(int which)
{
    // only what the comparison needs
    switch (which) {
        case 0: return std::make_shared<P::Rule>(std::initializer_list<P::Meta>{PIOL_META_il}, false);
        case 1:
        case 2: return std::make_shared<P::Rule>(std::initializer_list<P::Meta>{PIOL_META_tn}, false);
        default: return std::make_shared<P::Rule>(std::initializer_list<P::Meta>{PIOL_META_xCmp, PIOL_META_yCmp}, false);
    }
}
static std::string text_like(uint64_t salt, size_t n)
{
    std::string t;
    for (size_t i = 0; i < n; i++) t += char('A' + char(h64(salt, i, 77) % 26));
    return t;
}
static void gen_files(FlowCase& c, size_t max_files, size_t max_nt, size_t min_ns, size_t max_ns, bool zeros, bool ends = false)
{
    if (big()) max_nt *= 12, max_ns = std::min<size_t>(max_ns, min_ns + 2);
    size_t ncls = 1 + W.pick({3, 2, 1});
    std::vector<std::pair<size_t, int>> cls;
    for (size_t i = 0; i < ncls; i++) {
        size_t ns = size_t(W.range(long(min_ns), long(max_ns)));
        int inc = 1 + int(W.draw(9000));
        if (W.draw(12) == 11) inc = W.draw(2) ? 9001 + int(W.draw(23767)) : -1 - int(W.draw(32768));
        if (i && W.draw(2)) ns = cls[0].first;            // same length, other interval
        else if (i && W.draw(2)) inc = cls[0].second;     // same interval, other length
        cls.push_back({ns, inc});
    }
    size_t nf = 1 + W.draw(uint32_t(max_files));
    uint64_t salt = 1 + W.draw(100000);
    int style = int(W.pick({4, 1, 1, 1}));
    int spread = 1 + int(W.draw(W.draw(2) ? 3 : 50));
    std::vector<size_t> nts;
    size_t total = 0;
    for (size_t i = 0; i < nf; i++) {
        nts.push_back(W.draw(6) == 5 ? W.draw(3) : W.draw(uint32_t(max_nt + 1)));
        total += nts.back();
    }
    auto hs = keyed_headers(total, salt, style, spread);
    // the trace number identifies the trace
    for (size_t i = 0; i < total; i++) { hs[i].tn = int32_t(i); hs[i].misc = int16_t(h64(salt, i, 9) % 3000); }
    if (W.draw(2))
        for (size_t i = 0; i < total; i++)
            for (unsigned k = 0; k < 7; k++) hs[i].e[k] = double(h64(salt, i, 40 + k) % 9000) / (h64(salt, i, 39) % 3 ? 2 : 1) - 2000;
    std::vector<size_t> perm(total);
    std::iota(perm.begin(), perm.end(), 0);
    size_t at = 0;
    size_t groups = 1 + W.draw(2);
    for (size_t i = 0; i < nf; i++) {
        auto& k = cls[W.draw(uint32_t(ncls))];
        FFile ff;
        ff.f = gen_segy(nts[i], k.first, salt + 1000 * i, W.draw(4) == 3 ? 1 : 5, ends);
        ff.f.interval = k.second;
        for (size_t j = 0; j < nts[i]; j++) {
            ff.f.t[j].h = hs[at++];
            for (size_t z = 0; z < k.first; z++)
                if (!ends && ff.f.t[j].s[z] == 0) ff.f.t[j].s[z] = 1;
            if (zeros) {
                uint64_t h = h64(salt, at, 5);
                size_t nz = h % 4 == 0 ? k.first : h % 4 == 1 ? h / 4 % (k.first + 1) : 0;
                for (size_t z = 0; z < nz; z++) ff.f.t[j].s[z] = 0;
            }
        }
        static const char* ext[4] = {"segy", "sgy", "SGY", "SEGY"};
        size_t g = i * groups / nf;
        ff.name = fmt("%c%c%zu.%s", g ? 'q' : 'p', char('a' + char(h64(salt, i, 3) % 5)), i, ext[W.draw(4) == 3 ? W.draw(4) : 0]);
        c.files.push_back(ff);
    }
    for (size_t g = 0; g < groups; g++) {
        bool any = false;
        for (auto& f : c.files) any |= f.name[0] == (g ? 'q' : 'p');
        if (any) c.patterns.push_back(g ? "q*" : "p*");
    }
    std::sort(c.files.begin(), c.files.end(), [](const FFile& a, const FFile& b) { return a.name < b.name; });
    if (c.patterns.size() == 2 && W.draw(2)) {
        std::swap(c.patterns[0], c.patterns[1]);
        std::stable_partition(c.files.begin(), c.files.end(), [](const FFile& a) { return a.name[0] == 'q'; });
    }
    for (auto& f : c.files) sim::fs.put(f.name) = encode(f.f);
    // files which match the pattern but are not SEG-Y files
    if (W.draw(3) == 2) sim::fs.put(std::string(1, c.patterns[0][0]) + "aa.txt") = Bytes(10, 'x');
}
static FOp gen_op(size_t min_ns, bool filters, bool agc)
{
    FOp o;
    for (;;) {
        o.kind = int(W.pick({4, 2, 3, 2, 4, 1}));
        if (o.kind == OP_AGC && (!agc || min_ns < 4)) continue;
        if (o.kind == OP_TAPER && min_ns < 2) continue;
        if (o.kind == OP_FILTER && (!filters || min_ns < 30)) continue;
        break;
    }
    switch (o.kind) {
        case OP_SORT: o.type = int(W.draw(9)); break;
        case OP_SORTFN: o.type = int(W.draw(4)); break;
        case OP_TAPER:
            o.type = int(W.draw(4));
            o.a = W.draw(uint32_t(min_ns));
            o.b = W.draw(uint32_t(min_ns));
            break;
        case OP_AGC:
            o.type = int(W.draw(5));
            o.a = 1 + W.draw(uint32_t(min_ns - 2));
            if (o.a % 2 == 0 && o.a + 1 >= min_ns) o.a--;
            o.v = 1 + float(W.draw(8)) / 4;
            break;
        case OP_FILTER:
            o.type = int(W.draw(4));
            o.dmn = int(W.draw(2));
            o.pad = int(W.draw(4));
            o.fs = W.pick({3, 1, 1}) == 0 ? 250.f : W.draw(2) ? 30.f : 1000.f;
            {
                float u = o.fs / 250;
                o.corners = {u * (20.f + float(W.draw(20))), o.type >= 2 ? u * (60.f + float(W.draw(30))) : 0.f};
                o.a = 1 + W.draw(2);
                if (W.draw(3) == 2) {
                    float lo = 1 - 0.01f * float(20 + W.draw(40)), hi = 1 + 0.01f * float(20 + W.draw(30));
                    std::vector<float> c4;
                    double n = 0;
                    float f1 = o.corners[0], f2 = o.corners[1];
                    switch (o.type) {
                        case 0: c4 = {f1, f1 * hi * 1.4f}; n = order_of(c4[0], c4[1], o.fs); break;
                        case 1: c4 = {f1 * lo, f1}; n = order_of(c4[1], c4[0], o.fs); break;
                        case 2: c4 = {f1 * lo * 0.6f, f1, f2, f2 * hi * 1.25f}; n = std::max(order_of(c4[1], c4[0], o.fs), order_of(c4[2], c4[3], o.fs)); break;
                        default: c4 = {f1, f1 * (0.7f + hi), f2 * lo, f2}; n = std::max(order_of(c4[0], c4[1], o.fs), order_of(c4[3], c4[2], o.fs)); break;
                    }
                    if (std::is_sorted(c4.begin(), c4.end()) && c4.back() < 0.45f * o.fs && n < 3.95 && std::fabs(n - std::round(n)) > 0.01 && size_t(std::ceil(n)) * (o.type >= 2 ? 2 : 1) <= 6) {
                        o.by_corners = true;
                        o.b = W.draw(4) == 3;     // the caller need not sort them
                        if (o.type >= 2) sim::probe("band by corners");
                        o.a = size_t(std::ceil(n));
                        o.corners = c4;
                    }
                }
            }
            if (W.draw(3) == 2) {
                size_t need = 3 * (o.a * (o.type >= 2 ? 2 : 1) + 1) + 2;
                if (need < min_ns) {
                    o.win = size_t(W.range(long(need), long(min_ns)));
                    size_t half = (o.win - (o.win % 2 ? 0 : 1)) / 2;
                    if (W.draw(2)) o.centre = size_t(W.range(long(half), long(min_ns - 1 - half)));
                    else if (W.draw(2)) o.win = 0;
                }
            }
            break;
        case OP_TEXT: o.text = text_like(1 + W.draw(1000), W.draw(3) == 2 ? 3200 : 1 + W.draw(200)); break;
    }
    return o;
}
static const P::FltrType ftypes[4] = {P::FltrType::Lowpass, P::FltrType::Highpass, P::FltrType::Bandpass, P::FltrType::Bandstop};
static const P::FltrDmn fdmns[2] = {P::FltrDmn::Time, P::FltrDmn::Freq};
static const P::PadType fpads[4] = {P::PadType::Zero, P::PadType::Symmetric, P::PadType::Replicate, P::PadType::Cyclic};
static void apply_ref(const FOp& o, std::vector<float>& s, std::vector<double>& err)
{
    err.resize(s.size());
    if (o.kind == OP_TAPER) ref_taper(s, err, o.type, o.a, o.b);
    else if (o.kind == OP_AGC) ref_agc(s, err, o.type, o.a, o.v);
    else if (o.kind == OP_FILTER) ref_filter(s, err, o);
}
static const double ftol = 3e-4;   // single-precision recursion

static std::vector<double> filtered(const std::vector<double>& b, const std::vector<double>& a, const std::vector<double>& x, const FOp& o, double turn)
{
    size_t w = x.size();
    std::vector<double> y(w);
    if (o.dmn == 0) {
        size_t pad = 3 * b.size();
        std::vector<double> l(pad), r(pad), t;
        for (size_t j = 0; j < pad; j++) {
            switch (o.pad) {
                case 0: break;
                case 1: l[pad - 1 - j] = x[j + 1]; r[j] = x[w - 2 - j]; break;
                case 2: l[pad - 1 - j] = x[0]; r[j] = x[w - 1]; break;
                default: l[pad - 1 - j] = x[w - 1 - j]; r[j] = x[j]; break;
            }
        }
        t = l;
        t.insert(t.end(), x.begin(), x.end());
        t.insert(t.end(), r.begin(), r.end());
        t = ref_iir(b, a, t);
        std::reverse(t.begin(), t.end());
        t = ref_iir(b, a, t);
        std::reverse(t.begin(), t.end());
        for (size_t i = 0; i < w; i++) y[i] = t[pad + i];
    }
    else {
        // the response is taken at the angles fs * bin / samples, and its parts' magnitudes multiply the spectrum
        std::vector<cd> F(w / 2 + 1);
        for (size_t i = 0; i < F.size(); i++) {
            for (size_t k = 0; k < w; k++) F[i] += x[k] * std::polar(1.0, -2 * M_PI * double(i * k % w) / double(w));
            cd nb = 0, na = 0;
            for (size_t j = 0; j < b.size(); j++) {
                cd v = std::polar(1.0, -turn * double(o.fs) * double(i * j) / double(w));
                nb += b[j] * v;
                na += a[j] * v;
            }
            cd H = nb / na;
            F[i] *= cd(std::fabs(H.real()), std::fabs(H.imag()));
        }
        for (size_t k = 0; k < w; k++) {
            y[k] = F[0].real();
            for (size_t i = 1; i < F.size(); i++) y[k] += 2 * (F[i] * std::polar(1.0, 2 * M_PI * double(i * k % w) / double(w))).real();
            y[k] /= double(w);
        }
    }
    return y;
}
static void ref_filter(std::vector<float>& s, std::vector<double>& err, const FOp& o)
{
    double f1 = o.corners[0], f2 = o.type >= 2 ? o.corners[1] : 0;
    if (o.by_corners) switch (o.type) {
        case 0: break;
        case 1: f1 = o.corners[1]; break;
        case 2: f1 = o.corners[1]; f2 = o.corners[2]; break;
        default: f1 = o.corners[0]; f2 = o.corners[3]; break;
    }
    std::vector<double> b, a;
    ref_design(o.type, o.a, o.fs, f1, f2, b, a);
    size_t w = o.win ? o.win : s.size();
    if (w % 2 == 0) w--;
    size_t from = (o.centre ? o.centre : s.size() / 2) - w / 2;
    std::vector<double> x(s.begin() + long(from), s.begin() + long(from + w)), y(w);
    double big = 0, e = 0;
    for (size_t i = 0; i < w; i++) { big = std::max(big, std::fabs(x[i])); e += err[from + i]; }
    y = filtered(b, a, x, o, 1);
    // Coefficients and angles are single-precision numbers: what changing
    // them by a few units in the last place makes of the result is no error.
    std::vector<double> slack(w);
    for (unsigned k = 0; k < 6; k++) {
        auto jiggle = [&](unsigned n) { return (double(h64(k, n) % 2001) / 1000 - 1) * 1e-6; };
        auto pb = b, pa = a;
        for (size_t i = 0; i < b.size(); i++) {
            pb[i] *= 1 + jiggle(unsigned(2 * i));
            pa[i] *= 1 + jiggle(unsigned(2 * i + 1));
        }
        auto py = filtered(pb, pa, x, o, 1 + jiggle(99) / 4);
        for (size_t i = 0; i < w; i++) slack[i] = std::max(slack[i], std::fabs(py[i] - y[i]));
    }
    double sl = 4 * *std::max_element(slack.begin(), slack.end());
    for (size_t i = 0; i < w; i++) { s[from + i] = float(y[i]); err[from + i] = 10 * e + ftol * big + sl; }
}
static void do_op(const FOp& o, F::Set& set)
{
    switch (o.kind) {
        case OP_SORT: set.sort(P::SortType(sort_types[o.type])); break;
        case OP_SORTFN:
            if (o.pad) set.sort(fn_rule(o.type), fn_comp(o.type));
            else set.sort(fn_comp(o.type));
            break;
        case OP_TAPER: set.taper(tapers[o.type], o.a, o.b); break;
        case OP_AGC: set.AGC(gains[o.type], o.a, o.v); break;
        case OP_FILTER:
            if (o.by_corners) set.temporalFilter(ftypes[o.type], fdmns[o.dmn], fpads[o.pad], o.fs, o.b ? std::vector<float>(o.corners.rbegin(), o.corners.rend()) : o.corners, o.win, o.centre);
            else if (o.type < 2 && o.a == 2) set.temporalFilter(ftypes[o.type], fdmns[o.dmn], fpads[o.pad], o.fs, o.a, o.corners[0], o.win, o.centre);
            else set.temporalFilter(ftypes[o.type], fdmns[o.dmn], fpads[o.pad], o.fs, o.a, o.corners, o.win, o.centre);
            break;
        case OP_TEXT: set.text(o.text); break;
    }
}
struct Expect {
    bool fields = false; std::string name; size_t ns; int interval; std::vector<Trc> t; std::vector<std::vector<double>> err; const FOp* sort = nullptr;
    bool any = false;                     // in any order (an earlier output of the set was sorted)
};
static std::string out_name(const std::string& prefix, size_t ns, double inc) { return prefix + std::to_string(ns) + "_" + std::to_string(inc) + ".segy"; }
static std::vector<Expect> expectation(const FlowCase& c)
{
    std::map<std::pair<size_t, double>, std::vector<const FFile*>> cls;
    for (auto& f : c.files) cls[{f.f.ns, double(f.f.interval) * 1e-6}].push_back(&f);
    std::vector<Expect> v;
    bool short_used = false;
    for (auto& k : cls) {
        Expect e;
        e.ns = k.first.first;
        e.interval = k.second[0]->f.interval;
        e.fields = c.fields;
        if (k.second.size() == 1 && !short_used) { e.name = c.prefix + ".segy"; short_used = true; }
        else e.name = out_name(c.prefix, e.ns, Floating_point(e.interval) * Floating_point(1e-6));
        for (auto* f : k.second)
            for (auto& t : f->f.t) {
                Trc x = t;
                if (f->f.format == 1)
                    for (auto& s : x.s) { unsigned char b[4]; put_ibm(b, s); s = get_ibm(b); }
                if (c.fields) { x.h.misc = 0; for (int q = 0; q < 6; q++) x.h.e[q] = 0; }   // a sort may bring the last one
                e.t.push_back(x);
            }
        e.err.resize(e.t.size());
        for (auto& o : c.ops) {
            if (o.kind == OP_SORT || o.kind == OP_SORTFN) e.sort = &o;
            else for (size_t i = 0; i < e.t.size(); i++) apply_ref(o, e.t[i].s, e.err[i]);
        }
        v.push_back(e);
    }
    return v;
}
static std::string same_samples(const std::vector<float>& g, const std::vector<float>& w, const std::vector<double>& err = {}, bool exact = false)
{
    double m = 0;
    for (float x : w) if (std::isfinite(x)) m = std::max(m, std::fabs(double(x)));
    for (size_t k = 0; k < w.size(); k++) {
        bool copied = exact && (err.empty() || err[k] == 0);
        if (memcmp(&g[k], &w[k], 4) == 0 || g[k] == w[k] || (!copied && std::isnan(g[k]) && std::isnan(w[k]))) continue;
        // samples nothing was done to are copies
        double tol = copied ? 0 : 1e-5 * m + 1e-37 + (err.empty() ? 0 : 2 * err[k]);
        if (std::fabs(double(g[k]) - w[k]) <= tol) continue;
        if (!err.empty() && !(err[k] < INFINITY)) continue;
        return fmt("sample %zu is %.9g instead of %.9g", k, double(g[k]), double(w[k]));
    }
    return "";
}
static void check_expect(const Expect& e, const std::string& text)
{
    const char* cls = "flow-output-wrong";
    if (!sim::fs.has(e.name)) return sim::note_violation("flow-output-missing", "no file " + e.name);
    SegY g;
    std::string why;
    if (!decode(sim::fs.get(e.name), g, why)) return sim::note_violation(cls, e.name + ": " + why);
    if (g.ns != e.ns || g.interval != e.interval || g.format != 5)
        return sim::note_violation(cls, fmt("%s has %zu samples every %d us (format %d) instead of %zu every %d us", e.name.c_str(), g.ns, g.interval, g.format, e.ns, e.interval));
    if (g.text.substr(0, text.size()) != text) return sim::note_violation("flow-text-wrong", e.name + ": the text header is '" + g.text.substr(0, 40) + "' instead of '" + text.substr(0, 40) + "'");
    if (g.t.size() != e.t.size()) return sim::note_violation(cls, fmt("%s has %zu traces instead of %zu", e.name.c_str(), g.t.size(), e.t.size()));
    std::map<int, size_t> where;
    for (size_t i = 0; i < e.t.size(); i++) where[e.t[i].h.tn] = i;
    std::vector<int> seen(e.t.size(), 0);
    for (size_t i = 0; i < g.t.size(); i++) {
        auto it = where.find(g.t[i].h.tn);
        if (it == where.end()) return sim::note_violation(cls, fmt("%s trace %zu (%s) is not a trace of the input", e.name.c_str(), i, g.t[i].h.str().c_str()));
        size_t id = it->second;
        if (seen[id]++) return sim::note_violation(cls, fmt("%s trace %zu repeats input trace %zu", e.name.c_str(), i, id));
        if (!e.sort && !e.any && id != i) return sim::note_violation(cls, fmt("%s trace %zu is input trace %zu", e.name.c_str(), i, id));
        Hdr eh = e.t[id].h;
        if (e.fields && g.t[i].h.e[6] == 0) eh.e[6] = 0;
        if (!g.t[i].h.same(eh, true)) return sim::note_violation(cls, fmt("%s trace %zu (input %zu) has header %s instead of %s", e.name.c_str(), i, id, g.t[i].h.str().c_str(), e.t[id].h.str().c_str()));
        std::string d = same_samples(g.t[i].s, e.t[id].s, e.err.empty() ? std::vector<double>() : e.err[id], true);
        if (!d.empty()) return sim::note_violation("flow-samples-wrong", fmt("%s trace %zu (input %zu): ", e.name.c_str(), i, id) + d);
        if (i && e.sort) {
            const Hdr &a = g.t[i - 1].h, &b = g.t[i].h;
            bool bad = e.sort->kind == OP_SORT ? sort_key(sort_types[e.sort->type], b) < sort_key(sort_types[e.sort->type], a) : fn_less(e.sort->type, b, a);
            if (bad) return sim::note_violation("flow-order-wrong", fmt("%s traces %zu (%s) and %zu (%s) are out of order for%s", e.name.c_str(), i - 1, a.str().c_str(), i, b.str().c_str(), e.sort->str().c_str()));
        }
    }
}
static void draw_block(FlowCase& c, size_t max_ns)
{
    static const size_t b[6] = {0, 1, 2, 3, 5, 9};
    c.block = b[W.draw(6)];
    sim::knob_mem = c.block ? long(c.block * (1500 + 12 * max_ns)) : 0;
    draw_chunk(max_ns);
}
static size_t max_ns_of(const FlowCase& c) { size_t m = 0; for (auto& f : c.files) m = std::max(m, f.f.ns); return m; }
static size_t min_ns_of(const FlowCase& c) { size_t m = size_t(-1); for (auto& f : c.files) m = std::min(m, f.f.ns); return m; }

SCENARIO(C11, flow, 5)
{
    int nr = draw_ranks(6, 1);
    FlowCase c;
    bool longer = W.draw(3) == 2;
    bool zeros = W.draw(4) == 3;
    bool ends = !longer && !zeros && W.draw(4) == 3;      // any bits as samples
    gen_files(c, 4, longer ? 8 : 14, longer ? 30 : W.draw(3), longer ? 50 : 12, zeros, ends);
    size_t no = W.draw(5);
    for (size_t i = 0; i < no; i++) c.ops.push_back(gen_op(min_ns_of(c), !ends, !zeros && !ends && std::none_of(c.ops.begin(), c.ops.end(), [](const FOp& o) { return o.kind == OP_FILTER; })));
    for (auto& o : c.ops) if (o.kind == OP_SORTFN) o.pad = int(W.draw(2));
    c.prefix = W.draw(2) ? "out" : "res_x";
    c.via_ctor = c.patterns.size() == 1 && W.draw(3) == 2;
    c.fields = W.draw(4) == 3;
    c.handles = !c.via_ctor && W.draw(4) == 3;
    bool summary = W.draw(6) == 5;
    draw_block(c, max_ns_of(c));
    auto want = expectation(c);
    // looking for extremes of any fields does not change what is written
    static const P::Meta em[] = {PIOL_META_xSrc, PIOL_META_yRcv, PIOL_META_il, PIOL_META_Offset, PIOL_META_WtrDepRcv, PIOL_META_xCmp, PIOL_META_RGElev, PIOL_META_tnl};
    std::vector<std::pair<P::Meta, P::Meta>> ext;
    size_t ext_at = W.draw(uint32_t(no + 1));
    if (W.draw(4) == 3)
        for (size_t i = 0, n = 1 + W.draw(2); i < n; i++) { P::Meta a = em[W.draw(8)]; ext.push_back({a, em[W.draw(8)]}); }
    if (W.draw(3) == 2) sim::fs.put(want[W.draw(uint32_t(want.size()))].name) = Bytes(W.draw(9000), 0x5a);   // something is there already
    std::string ed;
    for (auto& e : ext) ed += fmt(" extremes(%d,%d)@%zu", int(e.first), int(e.second), ext_at);
    sample(fmt("%d ranks, ", nr) + c.describe() + ed);
    sim::swarm_config(nr);
    auto before = sim::fs.files;
    std::map<std::string, Bytes> in;
    for (auto& f : c.files) in[f.name] = sim::fs.get(f.name);
    std::vector<std::vector<std::string>> names(static_cast<size_t>(nr));
    std::string prefix = c.prefix;
    auto job = [&](int r) {
            auto piol = new_piol();
            std::unique_ptr<F::Set> set;
            auto rule = c.fields ? std::make_shared<P::Rule>(true, true) : std::make_shared<P::Rule>(std::initializer_list<P::Meta>{PIOL_META_COPY});
            if (c.via_ctor && c.fields) set.reset(new F::Set(piol, c.patterns[0], prefix, rule));
            else if (c.via_ctor) set.reset(new F::Set(piol, c.patterns[0], prefix));
            else {
                if (c.fields) set.reset(new F::Set(piol, rule));
                else set.reset(new F::Set(piol));
                if (c.handles) for (auto& f : c.files) set->add(P::makeFile<P::ReadSEGY>(piol, f.name));
                else for (auto& p : c.patterns) set->add(p);
            }
            for (size_t k = 0; k <= c.ops.size(); k++) {
                P::CoordElem mm[4];
                if (k == ext_at) for (auto& e : ext) set->getMinMax(e.first, e.second, mm);
                if (k < c.ops.size()) do_op(c.ops[k], *set);
            }
            if (summary) set->summary();
            if (!c.via_ctor) names[size_t(r)] = set->output(prefix);
            set.reset();
            if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
    };
    if (!run_job("flow", nr, job)) return;
    size_t total = 0;
    for (auto& e : want) total += e.t.size();
    if (total) nontrivial();
    std::string text = "ExSeisPIOL: Set layer output\n";
    for (auto& o : c.ops) if (o.kind == OP_TEXT) text = o.text;
    std::vector<std::string> wn;
    for (auto& e : want) { check_expect(e, text); wn.push_back(e.name); if (failed()) return; }
    std::sort(wn.begin(), wn.end());
    if (!c.via_ctor)
        for (int r = 0; r < nr; r++) {
            auto n = names[size_t(r)];
            std::sort(n.begin(), n.end());
            if (n != wn) { std::string s; for (auto& x : names[size_t(r)]) s += " " + x; return sim::note_violation("flow-names-wrong", fmt("rank %d is told the output files are%s", r, s.c_str())); }
        }
    for (auto& f : in) if (sim::fs.get(f.first) != f.second) return sim::note_violation("input-modified", f.first);
    for (auto& f : sim::fs.files)
        if (!before.count(f.first) && std::find(wn.begin(), wn.end(), f.first) == wn.end()) return sim::note_violation("flow-stray-file", "the flow left a file " + f.first);
    // Once more by one process: also equal traces come in the same order.
    // (Comparisons of the user leave the order of equal traces open.)
    if (W.draw(3) != 2 || std::any_of(c.ops.begin(), c.ops.end(), [](const FOp& o) { return o.kind == OP_SORTFN; })) return;
    prefix = "alone";
    if (!run_serial("the flow by one process", job)) return;
    for (auto& e : want) {
        std::string name = prefix + e.name.substr(c.prefix.size());
        if (!sim::fs.has(name)) return sim::note_violation("flow-output-missing", "no file " + name + " when one process runs the flow");
        std::string d = diff_bytes(sim::fs.get(e.name), sim::fs.get(name), e.ns);
        if (!d.empty()) return sim::note_violation("flow-differs-from-serial", fmt("%s written by %d processes differs from what one process writes: ", e.name.c_str(), nr) + d);
    }
}


/// A set which is written several times, with files and steps added in between
SCENARIO(C11, reuse, 1)
{
    int nr = draw_ranks(5, 1);
    FlowCase c;
    gen_files(c, 4, 10, W.draw(3), 12, false);
    size_t np = 2 + W.draw(2);
    struct Phase { FlowCase c; std::vector<Expect> want; std::string text; bool minmax; };
    std::vector<Phase> ph;
    std::string text = "ExSeisPIOL: Set layer output\n", d;
    std::vector<FFile> sofar;
    bool sorted = false, fn = false;
    size_t given = 0;
    for (size_t k = 0; k < np; k++) {
        Phase p;
        if (k == 0 || (given < c.patterns.size() && W.draw(3) != 2)) {
            p.c.patterns.push_back(c.patterns[given++]);
            for (auto& f : c.files) if (f.name[0] == p.c.patterns[0][0]) sofar.push_back(f);
        }
        p.c.files = sofar;
        p.c.prefix = fmt("o%zu_", k);
        for (size_t i = 0, n = W.draw(3); i < n; i++) p.c.ops.push_back(gen_op(min_ns_of(p.c), false, true));
        for (auto& o : p.c.ops) if (o.kind == OP_SORTFN) o.pad = int(W.draw(2));
        p.minmax = W.draw(5) == 4;
        ph.push_back(p);
    }
    draw_block(c, max_ns_of(c));
    for (auto& p : ph) {
        p.c.block = c.block;
        p.want = expectation(p.c);
        bool now = false;
        for (auto& o : p.c.ops) {
            if (o.kind == OP_TEXT) text = o.text;
            if (o.kind == OP_SORT || o.kind == OP_SORTFN) now = true;
            if (o.kind == OP_SORTFN) fn = true;
        }
        for (auto& e : p.want) e.any = sorted;
        sorted |= now;
        p.text = text;
        d += (d.empty() ? "" : " | ") + p.c.describe();
        if (p.minmax) d += " after extremes";
    }
    sample(fmt("%d ranks, ", nr) + d);
    sim::swarm_config(nr);
    std::string pre;
    auto job = [&](int) {
        auto piol = new_piol();
        F::Set set(piol);
        for (auto& p : ph) {
            for (auto& q : p.c.patterns) set.add(q);
            for (auto& o : p.c.ops) do_op(o, set);
            P::CoordElem mm[4];
            if (p.minmax) set.getMinMax(PIOL_META_xSrc, PIOL_META_ySrc, mm);
            set.output(pre + p.c.prefix);
        }
        if (piol->log->isErr()) sim::violation("spurious-error", "an error is reported although nothing failed");
    };
    if (!run_job("a set written several times", nr, job)) return;
    nontrivial();
    for (auto& p : ph)
        for (auto& e : p.want) { check_expect(e, p.text); if (failed()) return; }
    if (fn || W.draw(2)) return;
    pre = "alone_";
    if (!run_serial("the same by one process", job)) return;
    for (auto& p : ph)
        for (auto& e : p.want) {
            if (!sim::fs.has(pre + e.name)) return sim::note_violation("flow-output-missing", "no file " + pre + e.name + " when one process runs the flow");
            std::string x = diff_bytes(sim::fs.get(e.name), sim::fs.get(pre + e.name), e.ns);
            if (!x.empty()) return sim::note_violation("flow-differs-from-serial", fmt("%s written by %d processes differs from what one process writes: ", e.name.c_str(), nr) + x);
        }
}

// -------------------------------------------------------------------- C15 ---
// concatenate and segsort through their own main(): one pattern, one prefix
static void flow_utility(bool sort)
{
    int nr = draw_ranks(6, 1);
    FlowCase c;
    gen_files(c, 4, 14, W.draw(3), 12, false, true);
    std::map<std::string, Bytes> in;
    for (auto& f : c.files) in[f.name] = sim::fs.get(f.name);
    c.patterns.resize(1);
    char first = c.patterns[0][0];
    c.files.erase(std::remove_if(c.files.begin(), c.files.end(), [first](const FFile& f) { return f.name[0] != first; }), c.files.end());
    c.prefix = W.draw(2) ? "out" : "res_x";
    draw_block(c, max_ns_of(c));
    std::vector<std::string> args = {"-i", c.patterns[0], "-o", c.prefix};
    std::string text = sort ? "ExSeisPIOL: Set layer output\n" : "Concatenated with ExSeisPIOL";
    if (sort) {
        FOp o;
        o.kind = OP_SORT;
        o.type = int(W.draw(9));
        for (int i = 0; i < 9; i++) if (W.draw(4) == 3 && sort_types[i] == int(PIOL_SORTTYPE_SrcRcv)) o.type = i;
        if (sort_types[o.type] != int(PIOL_SORTTYPE_SrcRcv) || W.draw(2)) { args.push_back("-t"); args.push_back(fmt("%d", sort_types[o.type])); }
        c.ops.push_back(o);
    } else if (W.draw(2)) {
        text = text_like(1 + W.draw(1000), 1 + W.draw(300));
        args.push_back("-m");
        args.push_back(text);
    }
    // -p: process 0 asks the user whether to go on
    static std::stringbuf answer;
    bool refuse = false;
    if (!sort && W.draw(4) == 3) {
        static const char* say[] = {"y\n", "  y", "n\n", "", "no y\n"};
        size_t k = W.draw(5);
        refuse = k >= 2;
        answer.str(say[k]);
        std::cin.rdbuf(&answer);
        args.insert(args.begin(), "-p");
    }
    auto want = expectation(c);
    if (W.draw(3) == 2) sim::fs.put(want[W.draw(uint32_t(want.size()))].name) = Bytes(W.draw(9000), 0x5a);
    sample(fmt("%d ranks, ", nr) + c.describe());
    sim::swarm_config(nr);
    auto before = sim::fs.files;
    std::map<std::string, Bytes> was;
    for (auto& f : before) was[f.first] = sim::fs.get(f.first);
    if (!run_util(sort ? "segsort" : "concatenate", nr, sort ? segsort_main : concatenate_main, args, refuse ? J_ALLOW_EXIT : 0)) return;
    if (refuse) {
        // nothing may be touched
        nontrivial();
        if (sim::fs.files.size() != before.size()) return sim::note_violation("flow-stray-file", "files appear although the user said no");
        for (auto& f : was)
            if (sim::fs.get(f.first) != f.second) return sim::note_violation("input-modified", f.first + " although the user said no");
        return;
    }
    for (auto& e : want) {
        if (e.t.size()) nontrivial();
        check_expect(e, text);
        if (failed()) return;
    }
    for (auto& f : in) if (sim::fs.get(f.first) != f.second) return sim::note_violation("input-modified", f.first);
    for (auto& f : sim::fs.files)
        if (!before.count(f.first) && std::none_of(want.begin(), want.end(), [&](const Expect& e) { return e.name == f.first; })) return sim::note_violation("flow-stray-file", "the utility left a file " + f.first);
    if (!sort || W.draw(3) != 2) return;
    // equal traces come in the same order when one process sorts them
    args[3] = "alone";
    if (!run_serial("segsort by one process", [&](int) {
            std::vector<std::string> a(1, "segsort");
            a.insert(a.end(), args.begin(), args.end());
            std::vector<char*> v;
            for (auto& x : a) v.push_back(&x[0]);
            v.push_back(nullptr);
            int rc = segsort_main(int(a.size()), v.data());
            if (rc != 0) sim::violation("utility-failed", fmt("segsort returns %d", rc));
        })) return;
    for (auto& e : want) {
        std::string name = args[3] + e.name.substr(c.prefix.size());
        if (!sim::fs.has(name)) return sim::note_violation("flow-output-missing", "no file " + name + " when one process sorts");
        std::string d = diff_bytes(sim::fs.get(e.name), sim::fs.get(name), e.ns);
        if (!d.empty()) return sim::note_violation("flow-differs-from-serial", fmt("%s written by %d processes differs from what one process writes: ", e.name.c_str(), nr) + d);
    }
}
SCENARIO(C15, concatenate, 2) { flow_utility(false); }
SCENARIO(C15, segsort, 2) { flow_utility(true); }

// -------------------------------------------------------------------- C08 ---
SCENARIO(C08, set_minmax, 1)
{
    int nr = draw_ranks(5, 1);
    FlowCase c;
    gen_files(c, 3, 10, 0, 4, false);
    int style = int(W.draw(5));
    uint64_t salt = 1 + W.draw(10000);
    size_t at = 0, total = 0;
    for (auto& f : c.files) {
        for (auto& t : f.f.t) {
            for (unsigned k = 0; k < 6; k++) {
                uint64_t h = h64(salt, at, k);
                t.h.c[k] = style == 0 ? double(h % 2001) - 1000 : style == 1 ? -1.0 - double(h % 5) : style == 2 ? 1.0 + double(h % 3) : style == 4 ? 33554433.0 + double(h % 5) : double(h % 3) - 1;
            }
            at++;
        }
        total += f.f.t.size();
        sim::fs.put(f.name) = encode(f.f);
    }
    static const P::Meta pairs[5][2] = {{PIOL_META_xSrc, PIOL_META_ySrc}, {PIOL_META_xRcv, PIOL_META_yRcv}, {PIOL_META_xCmp, PIOL_META_yCmp}, {PIOL_META_il, PIOL_META_Offset}, {PIOL_META_tn, PIOL_META_xl}};
    int pr = int(W.draw(5));
    auto field = [pr](const Hdr& h, int k) { return pr < 3 ? h.c[2 * pr + k] : pr == 3 ? double(k ? h.off : h.il) : double(k ? h.xl : h.tn); };
    bool use_fn = pr < 3 && W.draw(2), sorted = W.draw(3) == 2;
    sample(fmt("%d ranks, extremes of pair %d over ", nr, pr) + c.describe());
    sim::swarm_config(nr);
    std::vector<std::array<P::CoordElem, 4>> res(static_cast<size_t>(nr));
    if (!run_job("set extremes", nr, [&](int r) {
            auto piol = new_piol();
            auto rule = std::make_shared<P::Rule>(std::initializer_list<P::Meta>{PIOL_META_COPY, PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp});
            F::Set set(piol, use_fn ? rule : std::make_shared<P::Rule>(std::initializer_list<P::Meta>{PIOL_META_COPY}));
            for (auto& p : c.patterns) set.add(p);
            if (sorted) set.sort(PIOL_SORTTYPE_SrcRcv);
            P::Meta m1 = pairs[pr][0], m2 = pairs[pr][1];
            auto& o = res[size_t(r)];
            if (use_fn)
                set.getMinMax([m1](const P::Param& a) { return pu::getPrm<Floating_point>(0LU, m1, &a); },
                              [m2](const P::Param& a) { return pu::getPrm<Floating_point>(0LU, m2, &a); }, o.data());
            else set.getMinMax(m1, m2, o.data());
        })) return;
    if (!total) return;
    if (nr > 1) nontrivial();
    double e[4] = {INFINITY, -INFINITY, INFINITY, -INFINITY};
    for (auto& f : c.files)
        for (auto& t : f.f.t)
            for (int k = 0; k < 2; k++) {
                e[2 * k] = std::min(e[2 * k], field(t.h, k));
                e[2 * k + 1] = std::max(e[2 * k + 1], field(t.h, k));
            }
    for (int r = 0; r < nr; r++)
        for (int k = 0; k < 4; k++) {
            auto& m = res[size_t(r)][size_t(k)];
            if (m.val != e[k]) return sim::note_violation("wrong-extreme", fmt("rank %d: extreme %d of the set is reported as %.17g instead of %.17g", r, k, double(m.val), e[k]));
            bool hit = false;
            for (auto& f : c.files) hit |= m.num < f.f.t.size() && field(f.f.t[m.num].h, k / 2) == e[k];
            if (!hit) return sim::note_violation("wrong-extreme-trace", fmt("rank %d: extreme %d of the set (%.17g) is attributed to trace %zu, which in no file has it", r, k, e[k], m.num));
            if (m.val != res[0][size_t(k)].val || m.num != res[0][size_t(k)].num) return sim::note_violation("different-answers", fmt("set extremes: rank %d gets %.17g (trace %zu), rank 0 %.17g (trace %zu)", r, double(m.val), m.num, double(res[0][size_t(k)].val), res[0][size_t(k)].num));
        }
}

// -------------------------------------------------------------------- C12 ---
struct Grid {
    int il0, xl0, dil, dxl;
    size_t nil, nxl;
    int il(size_t g) const { return il0 + dil * int(g / nxl); }
    int xl(size_t g) const { return xl0 + dxl * int(g % nxl); }
    size_t n() const { return nil * nxl; }
};
static Grid draw_grid(size_t max_side)
{
    Grid g;
    g.nil = 1 + W.draw(uint32_t(max_side));
    g.nxl = 1 + W.draw(uint32_t(max_side));
    g.il0 = int(W.range(-20, 40));
    g.xl0 = int(W.range(-20, 40));
    g.dil = 1 + int(W.draw(3));
    g.dxl = 1 + int(W.draw(3));
    if (W.draw(5) == 4) g.dil = -g.dil;
    if (W.draw(5) == 4) g.dxl = -g.dxl;
    return g;
}
static SegY model_file(const Grid& g, size_t ns, int interval, uint64_t salt, double lo, double hi, int format)
{
    SegY f = gen_segy(g.n(), ns, salt, format);
    f.interval = interval;
    for (size_t i = 0; i < g.n(); i++) {
        f.t[i].h.il = g.il(i);
        f.t[i].h.xl = g.xl(i);
        for (size_t k = 0; k < ns; k++) f.t[i].s[k] = float(lo + (hi - lo) * double(h64(salt, i, 500 + k) % 1024) / 1024);
    }
    return f;
}
static float as_stored(float v, int format)
{
    if (format != 1) return v;
    unsigned char b[4];
    put_ibm(b, v);
    return get_ibm(b);
}
// Gathers of a survey over the grid: runs of traces with one location
struct GRun { size_t g; size_t n; };
static std::vector<GRun> draw_gathers(const Grid& g, size_t max, size_t max_len)
{
    std::vector<GRun> v;
    size_t k = 1 + W.draw(uint32_t(max));
    int style = int(W.draw(3));
    for (size_t i = 0; i < k; i++) {
        size_t at = style == 0 ? i % g.n() : W.draw(uint32_t(g.n()));
        size_t n = 1 + W.draw(uint32_t(max_len));
        if (!v.empty() && v.back().g == at) v.back().n += n;
        else v.push_back({at, n});
    }
    return v;
}
static SegY gather_file(const Grid& g, const std::vector<GRun>& runs, size_t ns, int interval, uint64_t salt, int format)
{
    size_t nt = 0;
    for (auto& r : runs) nt += r.n;
    SegY f = gen_segy(nt, ns, salt, format);
    f.interval = interval;
    size_t at = 0;
    for (auto& r : runs)
        for (size_t i = 0; i < r.n; i++, at++) { f.t[at].h.il = g.il(r.g); f.t[at].h.xl = g.xl(r.g); }
    return f;
}
SCENARIO(C12, model, 2)
{
    int nr = draw_ranks(6, 1);
    Grid g = draw_grid(5);
    size_t vns = 1 + W.draw(6);
    int fm = W.draw(4) == 3 ? 1 : 5;
    uint64_t salt = 1 + W.draw(10000);
    SegY vm = model_file(g, vns, 1000, salt, -50, 50, fm);
    auto runs = draw_gathers(g, 10, 4);
    SegY f = gather_file(g, runs, 1, 1000, salt + 7, 5);
    sim::fs.put("vm.segy") = encode(vm);
    sim::fs.put("in.segy") = encode(f);
    size_t G = runs.size();
    bool list = W.draw(2);
    auto cuts = random_cuts(G, nr);
    std::vector<std::vector<size_t>> want(static_cast<size_t>(nr));
    for (int r = 0; r < nr; r++) {
        if (list) { size_t k = W.draw(uint32_t(G + 3)); for (size_t i = 0; i < k; i++) want[size_t(r)].push_back(W.draw(uint32_t(G))); }
        else for (size_t i = cuts[size_t(r)]; i < cuts[size_t(r) + 1]; i++) want[size_t(r)].push_back(i);
    }
    bool direct = !list && W.draw(2);
    draw_chunk(vns);
    std::string d;
    for (int r = 0; r < nr; r++) { d += " |"; for (size_t x : want[size_t(r)]) d += fmt(" %zu", x); }
    sample(fmt("%d ranks, model %zux%zu (il %d by %d, xl %d by %d) %zu samples, %zu gathers, asks%s", nr, g.nil, g.nxl, g.il0, g.dil, g.xl0, g.dxl, vns, G, d.c_str()));
    sim::swarm_config(nr);
    if (!run_job("model", nr, [&](int r) {
            auto piol = new_piol();
            auto in = P::makeFile<P::ReadSEGY>(piol, "in.segy");
            auto ga = P::getIlXlGathers(piol.get(), in.get());
            if (ga.size() != G) sim::violation("model-wrong-values", fmt("rank %d sees %zu gathers instead of %zu", r, size_t(ga.size()), G));
            auto& w = want[size_t(r)];
            std::vector<float> got;
            size_t ns;
            if (direct) {
                P::ReadModel m(piol, "vm.segy");
                ns = m.readNs();
                got = m.readModel(w.empty() ? 0 : w[0], w.size(), ga);
            } else {
                auto m = P::makeFile<P::ReadSEGYModel>(piol, "vm.segy");
                ns = m->readNs();
                got = list ? m->readModel(w.size(), w.data(), ga) : m->readModel(w.empty() ? 0 : w[0], w.size(), ga);
            }
            if (ns != vns || got.size() != w.size() * vns) sim::violation("model-wrong-values", fmt("rank %d gets %zu values of %zu samples", r, got.size(), ns));
            for (size_t i = 0; i < w.size(); i++)
                for (size_t k = 0; k < vns; k++) {
                    float x = as_stored(vm.t[runs[w[i]].g].s[k], fm);
                    if (memcmp(&x, &got[i * vns + k], 4)) sim::violation("model-wrong-values", fmt("rank %d: gather %zu (il %d xl %d) sample %zu is %g instead of %g", r, w[i], g.il(runs[w[i]].g), g.xl(runs[w[i]].g), k, double(got[i * vns + k]), double(x)));
                }
            piol->comm->barrier();
        })) return;
    nontrivial();
}

static void angle_flow(bool util)
{
    int nr = draw_ranks(6, 1);
    Grid g = draw_grid(4);
    size_t vns = 1 + W.draw(6), ns = 1 + W.draw(8);
    int vint = 500 + int(W.draw(4000)), inc = 500 + int(W.draw(4000));
    size_t vbin = 1 + W.draw(4), oG = 1 + W.draw(6);
    int oIncUs = 1 + int(W.draw(30000));
    double oInc = oIncUs * 1e-6;
    if (util) {   // an angle of one degree, 60 of them unless told otherwise
        oInc = std::atan(1) * 4.0 / 180;
        oIncUs = 17453;
        if (W.draw(6) == 5) oG = 60;
        if (W.draw(6) == 5) vbin = 20;
    }
    int fm = W.draw(4) == 3 ? 1 : 5;
    uint64_t salt = 1 + W.draw(10000);
    SegY vm = model_file(g, vns, vint, salt, 0, double(vbin) * 7, fm);
    // one or several files; several classes are processed on their own
    FlowCase c;
    size_t nf = 1 + W.pick({4, 1, 1});
    size_t ncls = nf > 1 && W.draw(2) ? 2 : 1;
    bool presort = !util && W.draw(4) == 3;
    struct Cls { size_t ns; int inc; std::vector<GRun> runs; std::vector<Trc> t; };
    std::vector<Cls> cls;
    int32_t tn = 0;
    cls.push_back({ns, inc, {}, {}});
    if (ncls == 2) cls.push_back({W.draw(2) ? ns : 1 + W.draw(8), inc + 1 + int(W.draw(100)), {}, {}});
    std::vector<size_t> of_cls;
    for (size_t i = 0; i < nf; i++) of_cls.push_back(i < ncls ? i : W.draw(uint32_t(ncls)));
    // a file without traces adds nothing to those it is joined with
    size_t none = nf;
    if (nf > 1 && W.draw(3) == 2) none = W.draw(uint32_t(nf));
    if (none < nf && std::count(of_cls.begin(), of_cls.end(), of_cls[none]) < 2) none = nf;
    for (size_t i = 0; i < nf; i++) {
        size_t k = of_cls[i];
        auto runs = draw_gathers(g, 7, 5);
        if (i == none) runs.clear();
        int ff = W.draw(4) == 3 ? 1 : 5;
        SegY f = gather_file(g, runs, cls[k].ns, cls[k].inc, salt + 100 * (i + 1), ff);
        for (auto& t : f.t) t.h.tn = ++tn;
        if (presort)   // traces of a gather anywhere in the file
            for (size_t j = f.t.size(); j > 1; j--) std::swap(f.t[j - 1].h, f.t[h64(salt, i, j) % j].h);
        FFile file{fmt("g%zu.segy", i), f, int(k)};
        c.files.push_back(file);
        sim::fs.put(file.name) = encode(f);
        for (auto& t : f.t) {
            Trc x = t;
            for (auto& s : x.s) s = as_stored(s, ff);
            cls[k].t.push_back(x);
        }
    }
    c.patterns = {"g*.segy"};
    sim::fs.put("vm.segy") = encode(vm);
    c.prefix = "ang";
    draw_block(c, std::max(vns, std::max(cls[0].ns, cls.back().ns)));
    // operations which follow
    std::vector<FOp> post;
    size_t mns = std::min(cls[0].ns, cls.back().ns);
    size_t np = W.draw(3);
    for (size_t i = 0; i < np && mns >= 2 && !util; i++) {
        FOp o;
        o.kind = W.draw(2) ? OP_TAPER : OP_TEXT;
        if (o.kind == OP_TAPER) { o.type = int(W.draw(4)); o.a = W.draw(uint32_t(mns)); o.b = W.draw(uint32_t(mns)); }
        else o.text = text_like(salt, 20);
        post.push_back(o);
    }
    c.ops = post;
    sample(fmt("%d ranks, model %zux%zu %zu samples every %d us, bin %zu, %zu angles by %d us%s, ", nr, g.nil, g.nxl, vns, vint, vbin, oG, oIncUs, presort ? " sorted first" : "") + c.describe());
    // the reference
    std::map<std::pair<size_t, double>, const Cls*> in_order;
    for (auto& k : cls) in_order[{k.ns, double(k.inc) * 1e-6}] = &k;
    auto model_at = [&](int il, int xl) -> size_t {
        for (size_t i = 0; i < g.n(); i++) if (g.il(i) == il && g.xl(i) == xl) return i;
        return 0;
    };
    struct Out { size_t ns; std::vector<Trc> t; size_t nin = 0; std::vector<std::vector<double>> err = {}; };
    std::map<size_t, Out> outs;
    for (auto& kk : in_order) {
        const Cls& k = *kk.second;
        std::vector<Trc> t = k.t;
        if (presort) std::stable_sort(t.begin(), t.end(), [](const Trc& a, const Trc& b) { return std::make_tuple(a.h.il, a.h.xl, a.h.tn) < std::make_tuple(b.h.il, b.h.xl, b.h.tn); });
        Out& o = outs[k.ns];
        o.ns = k.ns;
        o.nin++;
        for (size_t a = 0; a < t.size();) {
            size_t b = a;
            while (b < t.size() && t[b].h.il == t[a].h.il && t[b].h.xl == t[a].h.xl) b++;
            size_t n = b - a, mi = model_at(t[a].h.il, t[a].h.xl);
            for (size_t j = 0; j < oG; j++) {
                Trc x;
                x.h.il = t[a].h.il;
                x.h.xl = t[a].h.xl;
                x.s.assign(k.ns, 0.f);
                for (size_t z = 0; z < k.ns; z++) {
                    size_t vz = std::min(size_t(double(double(z) * (k.inc * 1e-6)) / (vint * 1e-6)), vns - 1);
                    double v = as_stored(vm.t[mi].s[vz], fm);
                    long q = std::llround(v / std::cos(double(j) * oInc)) / long(vbin);
                    if (q > 0 && size_t(q) < n) x.s[z] = t[a + size_t(q)].s[z];
                }
                o.err.emplace_back();
                for (auto& p : post) apply_ref(p, x.s, o.err.back());
                o.t.push_back(x);
            }
            a = b;
        }
    }
    sim::swarm_config(nr);
    std::vector<std::vector<std::string>> names(static_cast<size_t>(nr));
    std::string prefix = c.prefix;
    auto job = [&](int r) {
            auto piol = new_piol();
            F::Set set(piol);
            for (auto& p : c.patterns) set.add(p);
            if (presort) set.sort([](const P::Param* p, size_t i, size_t j) {
                auto key = [p](size_t x) { return std::make_tuple(pu::getPrm<Integer>(x, PIOL_META_il, p), pu::getPrm<Integer>(x, PIOL_META_xl, p), pu::getPrm<Integer>(x, PIOL_META_tn, p)); };
                return key(i) < key(j);
            });
            set.toAngle("vm.segy", vbin, oG, oInc);
            for (auto& o : post) do_op(o, set);
            names[size_t(r)] = set.output(prefix);
            if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
    };
    if (util) {
        std::vector<std::string> args = {"-i", c.patterns[0], "-o", c.prefix, "-v", "vm.segy"};
        if (vbin != 20 || W.draw(2)) { args.push_back("-b"); args.push_back(fmt("%zu", vbin)); }
        if (oG != 60 || W.draw(2)) { args.push_back("-a"); args.push_back(fmt("%zu", oG)); }
        if (!run_util("radon", nr, radon_main, args)) return;
    } else if (!run_job("angle flow", nr, job)) return;
    nontrivial();
    std::string text = "ExSeisPIOL: Set layer output\n";
    for (auto& o : post) if (o.kind == OP_TEXT) text = o.text;
    std::vector<std::string> wn;
    bool short_used = false;
    for (auto& oo : outs) {
        const Out& o = oo.second;
        std::string name;
        if (o.nin == 1 && !short_used) { name = c.prefix + ".segy"; short_used = true; }
        else name = out_name(c.prefix, o.ns, util ? Floating_point(oInc) : Floating_point(oIncUs) * Floating_point(1e-6));
        wn.push_back(name);
        const char* bad = "angle-gather-wrong";
        if (!sim::fs.has(name)) return sim::note_violation("flow-output-missing", "no file " + name);
        SegY f;
        std::string why;
        if (!decode(sim::fs.get(name), f, why)) return sim::note_violation(bad, name + ": " + why);
        if (f.ns != o.ns || f.interval != oIncUs) return sim::note_violation(bad, fmt("%s has %zu samples every %d instead of %zu every %d", name.c_str(), f.ns, f.interval, o.ns, oIncUs));
        if (f.text.substr(0, text.size()) != text) return sim::note_violation("flow-text-wrong", name + ": the text header is '" + f.text.substr(0, 40) + "'");
        if (f.t.size() != o.t.size()) return sim::note_violation(bad, fmt("%s has %zu traces instead of %zu", name.c_str(), f.t.size(), o.t.size()));
        for (size_t i = 0; i < f.t.size(); i++) {
            if (f.t[i].h.il != o.t[i].h.il || f.t[i].h.xl != o.t[i].h.xl)
                return sim::note_violation(bad, fmt("%s trace %zu (gather %zu) is at il %d xl %d instead of il %d xl %d", name.c_str(), i, i / oG, f.t[i].h.il, f.t[i].h.xl, o.t[i].h.il, o.t[i].h.xl));
            std::string d = same_samples(f.t[i].s, o.t[i].s, o.err[i]);
            if (!d.empty()) return sim::note_violation(bad, fmt("%s trace %zu (gather %zu angle %zu): ", name.c_str(), i, i / oG, i % oG) + d);
        }
    }
    for (int r = 0; r < nr && util; r++) names[size_t(r)] = wn;
    std::sort(wn.begin(), wn.end());
    for (int r = 0; r < nr; r++) {
        auto n = names[size_t(r)];
        std::sort(n.begin(), n.end());
        if (n != wn) { std::string s; for (auto& x : names[size_t(r)]) s += " " + x; return sim::note_violation("flow-names-wrong", fmt("rank %d is told the output files are%s", r, s.c_str())); }
    }
    for (auto& f : c.files) if (sim::fs.get(f.name) != encode(f.f)) return sim::note_violation("input-modified", f.name);
    if (sim::fs.get("vm.segy") != encode(vm)) return sim::note_violation("input-modified", "vm.segy");
    // Once more by one process: every byte, also of the headers
    if (util || W.draw(3) != 2) return;
    prefix = "alone";
    for (auto it = sim::fs.files.begin(); it != sim::fs.files.end();)      // what the flow left would be input
        if (it->first.find("temp") != std::string::npos) it = sim::fs.files.erase(it);
        else ++it;
    if (!run_serial("the flow by one process", job)) return;
    for (auto& n : wn) {
        std::string name = prefix + n.substr(c.prefix.size());
        if (!sim::fs.has(name)) return sim::note_violation("flow-output-missing", "no file " + name + " when one process runs the flow");
        Bytes one = sim::fs.get(name);
        std::string d = diff_bytes(sim::fs.get(n), one, size_t(get16(&one[3220])));
        if (!d.empty()) return sim::note_violation("flow-differs-from-serial", fmt("%s written by %d processes differs from what one process writes: ", n.c_str(), nr) + d);
    }
}
SCENARIO(C12, angle, 4) { angle_flow(false); }
SCENARIO(C12, radon, 2) { angle_flow(true); }
