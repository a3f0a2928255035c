// The utilities, run through their own main(): 4D binning (C14), copying and
// generation (C15), extremes (C08).  The Flow based ones are in flow.cc.
#include "util.hh"

#include <algorithm>
#include <cmath>

int fourdbin_main(int, char**);
int makerep_main(int, char**);
int filemake_main(int, char**);
int minmax_main(int, char**);
int assess_main(int, char**);
int versort_main(int, char**);

extern long knob_no_fopen;
bool run_util(const char* name, int nr, UtilMain m, const std::vector<std::string>& args, int flags)
{
    std::string line;
    for (auto& a : args) line += " " + a;
    sample(fmt("; %s%s", name, line.c_str()));
    return run_job(name, nr, [&](int r) {
        std::vector<std::string> a(1, name);
        a.insert(a.end(), args.begin(), args.end());
        std::vector<char*> v;
        for (auto& x : a) v.push_back(&x[0]);
        v.push_back(nullptr);
        int rc = m(int(a.size()), v.data());
        if (rc != 0) sim::violation("utility-failed", fmt("%s returns %d on rank %d", name, rc, r));
    }, flags);
}

// -------------------------------------------------------------------- C14 ---
static double dist(const Hdr& a, const Hdr& b)
{
    auto hyp = [](double x, double y) { return std::sqrt(x * x + y * y); };
    double fwd = hyp(a.c[C_XS] - b.c[C_XS], a.c[C_YS] - b.c[C_YS]) + hyp(a.c[C_XR] - b.c[C_XR], a.c[C_YR] - b.c[C_YR]);
    double rev = hyp(a.c[C_XS] - b.c[C_XR], a.c[C_YS] - b.c[C_YR]) + hyp(a.c[C_XR] - b.c[C_XS], a.c[C_YR] - b.c[C_YS]);
    return std::min(fwd, rev);
}
static const int sw_[4] = {C_XR, C_YR, C_XS, C_YS};
static const int fw_[4] = {C_XS, C_YS, C_XR, C_YR};
static SegY survey(size_t nt, size_t ns, uint64_t salt, int kind, double scale, const SegY* other, int frac, double limit = -1)
{
    SegY f = gen_segy(nt, ns, salt, W.draw(5) == 4 ? 1 : 5);
    for (size_t i = 0; i < nt; i++) {
        Hdr& h = f.t[i].h;
        auto rnd = [&](unsigned k) {
            double v = double(h64(salt, i, 100 + k) % 10001) / 10000 * scale;
            return frac ? std::floor(v * 100) / 100 : std::floor(v);
        };
        for (unsigned k = 0; k < 6; k++) h.c[k] = rnd(k);
        if (kind == 1) { h.c[C_XS] = rnd(7) + scale; h.c[C_XR] += scale; }                       // along x only a little overlap
        if (kind == 2) for (unsigned k = 0; k < 4; k++) h.c[k] = double(h64(salt, i, k) % 3);     // many equal distances
        if (kind == 3) { h.c[C_XR] = h.c[C_XS] + 3 * scale; h.c[C_YR] = h.c[C_YS]; }              // a long offset along x
        if (other && !other->t.empty() && h64(salt, i, 9) % 4 != 0) {                            // a repeated shot, perhaps in the other direction
            const Hdr& o = other->t[h64(salt, i, 10) % other->t.size()].h;
            bool rev = h64(salt, i, 11) % 2;
            double j = h64(salt, i, 12) % 3 == 0 ? 0 : 1;
            for (int k = 0; k < 4; k++) {
                double e = double(int(h64(salt, i, 20 + unsigned(k)) % 5) - 2) * j;
                h.c[fw_[k]] = o.c[rev ? sw_[k] : fw_[k]] + e;
            }
            h.il = o.il;
            h.xl = o.xl;
            // exactly at the limit, and at the end of everybody's range
            if (limit >= 0 && h64(salt, i, 13) % 2 == 0) {
                for (int k = 0; k < 4; k++) h.c[fw_[k]] = o.c[rev ? sw_[k] : fw_[k]];
                h.c[h64(salt, i, 14) % 2 ? C_XS : C_YR] += h64(salt, i, 15) % 2 ? limit : -limit;
            }
        }
        h.tn = int32_t(i + 1);
        if (!other || h64(salt, i, 9) % 4 == 0) {
            h.il = int(h64(salt, i, 30) % 3);
            h.xl = int(h64(salt, i, 31) % 2);
        }
    }
    return f;
}
static double get_dsdr(const unsigned char* p)
{
    int sc = get16(p + 214);
    double f = sc == 0 ? 1.0 : sc > 0 ? double(sc) : -1.0 / sc;
    return f * get32(p + 224);
}
/// Whether the difference of two traces is computed without rounding: whole
/// coordinates which differ along one axis only.
static bool exact_dist(const Hdr& a, const Hdr& b)
{
    for (auto* h : {&a, &b}) for (int k = 0; k < 4; k++) if (std::fabs(h->c[k]) > 1e6 || std::floor(h->c[k]) != h->c[k]) return false;
    auto one = [&](int x1, int x2, int y1, int y2) { return a.c[x1] == b.c[x2] || a.c[y1] == b.c[y2]; };
    double d = dist(a, b);
    auto len = [&](int k1, int k2) { return std::fabs(a.c[k1] - b.c[k2]); };
    bool fwd = one(C_XS, C_XS, C_YS, C_YS) && one(C_XR, C_XR, C_YR, C_YR), rev = one(C_XS, C_XR, C_YS, C_YR) && one(C_XR, C_XS, C_YR, C_YS);
    return (fwd && len(C_XS, C_XS) + len(C_YS, C_YS) + len(C_XR, C_XR) + len(C_YR, C_YR) == d) ||
           (rev && len(C_XS, C_XR) + len(C_YS, C_YR) + len(C_XR, C_XS) + len(C_YR, C_YS) == d);
}
/// The traces of an output file as positions in the input; false if anything
/// but the recorded difference changed.
static bool identify(const std::string& name, const SegY& in, bool dsdr, std::vector<size_t>& ids, std::vector<double>& d)
{
    const char* cls = "binning-output-wrong";
    SegY f;
    std::string why;
    if (!sim::fs.has(name)) { sim::note_violation(cls, "no file " + name); return false; }
    Bytes b = sim::fs.get(name), ib = encode(in);
    if (!decode(b, f, why)) { sim::note_violation(cls, name + ": " + why); return false; }
    if (f.ns != in.ns || f.interval != in.interval) { sim::note_violation(cls, fmt("%s has %zu samples every %d instead of %zu every %d", name.c_str(), f.ns, f.interval, in.ns, in.interval)); return false; }
    for (size_t i = 0; i < f.t.size(); i++) {
        size_t id = size_t(f.t[i].h.tn) - 1;
        if (id >= in.t.size()) { sim::note_violation(cls, fmt("%s trace %zu is none of the input", name.c_str(), i)); return false; }
        const unsigned char *g = &b[HO + i * dosz(f.ns)], *w = &ib[HO + id * dosz(in.ns)];
        for (size_t k = 0; k < MD; k++)
            if (g[k] != w[k] && !(dsdr && ((k >= 214 && k < 216) || (k >= 224 && k < 228)))) { sim::note_violation(cls, fmt("%s trace %zu (input %zu): header byte %zu is %d instead of %d", name.c_str(), i, id, k + 1, g[k], w[k])); return false; }
        for (size_t k = 0; k < f.ns; k++) {
            float x = in.format == 1 ? get_ibm(w + MD + 4 * k) : in.t[id].s[k];
            if (memcmp(&x, &f.t[i].s[k], 4)) { sim::note_violation(cls, fmt("%s trace %zu (input %zu): sample %zu is %g instead of %g", name.c_str(), i, id, k, double(f.t[i].s[k]), double(x))); return false; }
        }
        ids.push_back(id);
        d.push_back(get_dsdr(g));
    }
    return true;
}
SCENARIO(C14, fourdbin, 1)
{
    int nr = draw_ranks(7, 1);
    bool ix = W.draw(3) == 2, dsdr = W.draw(4) != 3;
    int kind = int(W.draw(4)), frac = int(W.draw(2));
    static const double sc[4] = {20, 5, 100, 1500};
    double scale = sc[W.draw(4)];
    uint64_t salt = 1 + W.draw(100000);
    auto cnt = [] { int k = int(W.draw(6)); return size_t(k == 5 ? W.draw(3) : k == 4 ? 34 + W.draw(60) : 1 + W.draw(24)); };
    size_t n1 = cnt(), n2 = cnt();
    if (big()) n1 = 150 + W.draw(150), n2 = 150 + W.draw(150);
    static const double lim[6] = {0, 2, 5, 20, 0.5, 4000};
    int li = int(W.draw(7)) - 1;   // -1: the default
    double max = li < 0 ? 1 : lim[li];
    bool at_limit = W.draw(4) == 3;
    SegY a = survey(n1, W.draw(6), salt, kind, scale, nullptr, frac);
    SegY b = survey(n2, W.draw(6), salt + 1, kind, scale, W.draw(4) ? &a : nullptr, frac, at_limit ? max : -1);
    size_t block = W.draw(3) == 0 ? 0 : 1 + W.draw(6);
    size_t mns = std::max(a.ns, b.ns);
    if (block) sim::knob_mem = long(block * (4 * dosz(mns) + 4 * 240));
    draw_chunk(mns);
    sample(fmt("%d ranks, %zu and %zu traces of %zu and %zu samples, layout %d scale %g, blocks of %zu, chunk %ld", nr, n1, n2, a.ns, b.ns, kind, scale, block, sim::knob_chunk));
    Bytes ia = sim::fs.put("in1.segy") = encode(a), ib = sim::fs.put("in2.segy") = encode(b);
    if (W.draw(5) == 4) sim::fs.put("out1.segy") = Bytes(W.draw(9000), 0x77);
    std::vector<std::string> args = {"-a", "in1.segy", "-b", "in2.segy", "-c", "out1.segy", "-d", "out2.segy"};
    if (li >= 0) { args.push_back("-t"); args.push_back(fmt("%g", max)); }
    if (ix) args.push_back("-x");
    if (!dsdr) args.push_back("-p");
    // the verbose mode writes files of its own, which may be impossible
    bool verbose = W.draw(5) == 4;
    if (verbose) {
        args.push_back("-v");
        if (W.draw(3) == 2) knob_no_fopen = 1 + long(W.draw((1u << nr) - 1));
    }
    sim::swarm_config(nr);
    if (!run_util("fourdbin", nr, fourdbin_main, args)) return;
    if (n1 && n2) nontrivial();
    std::vector<size_t> l1, l2;
    std::vector<double> d1, d2;
    if (!identify("out1.segy", a, dsdr, l1, d1) || !identify("out2.segy", b, dsdr, l2, d2)) return;
    if (l1.size() != l2.size()) return sim::note_violation("binning-unequal-files", fmt("the output files have %zu and %zu traces", l1.size(), l2.size()));
    const double tol = 1e-4 * std::max(10.0, scale);
    if (verbose) {
        std::vector<std::pair<size_t, size_t>> got, want;
        bool all = true;
        for (int r = 0; r < nr; r++) {
            std::string nm = fmt("tmp/restart%d", r);
            if (!sim::fs.has(nm)) { all = false; if (!((knob_no_fopen >> r) & 1)) return sim::note_violation("restart-file-wrong", "no file " + nm); continue; }
            Bytes rs = sim::fs.get(nm);
            size_t n = 0;
            if (rs.size() >= 8) memcpy(&n, rs.data(), 8);
            if (rs.size() < 8 || n > n1 || rs.size() != 8 + n * 20) return sim::note_violation("restart-file-wrong", fmt("%s has %zu bytes for %zu pairs", nm.c_str(), rs.size(), n));
            for (size_t i = 0; i < n; i++) {
                size_t x, y;
                memcpy(&x, &rs[8 + 8 * i], 8);
                memcpy(&y, &rs[8 + 8 * (n + i)], 8);
                got.push_back({x, y});
            }
        }
        for (size_t i = 0; i < l1.size(); i++) want.push_back({l1[i], l2[i]});
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (all && got != want) return sim::note_violation("restart-file-wrong", fmt("the %zu pairs of the restart files are not the %zu pairs of the outputs", got.size(), want.size()));
    }
    std::vector<int> seen(n1, -1);
    for (size_t i = 0; i < l1.size(); i++) {
        if (seen[l1[i]] >= 0) return sim::note_violation("binning-trace-repeated", fmt("trace %zu of the first survey is output twice (%d and %zu)", l1[i], seen[l1[i]], i));
        seen[l1[i]] = int(i);
    }
    for (size_t i = 0; i < n1; i++) {
        double best = INFINITY;
        size_t bj = 0;
        for (size_t j = 0; j < n2; j++) {
            if (ix && (a.t[i].h.il != b.t[j].h.il || a.t[i].h.xl != b.t[j].h.xl)) continue;
            double d = dist(a.t[i].h, b.t[j].h);
            if (d < best) { best = d; bj = j; }
        }
        if (seen[i] < 0) {
            bool sure = best <= max && exact_dist(a.t[i].h, b.t[bj].h);
            if (sure && best == max) return sim::note_violation("binning-pair-missing", fmt("trace %zu of the first survey is left out although trace %zu of the second is exactly %g away, which is the limit", i, bj, best));
            if (best < max - tol || (max > 0 && best == 0) || sure)
                return sim::note_violation("binning-pair-missing", fmt("trace %zu of the first survey is left out although trace %zu of the second is %g away (limit %g)", i, bj, best, max));
            continue;
        }
        size_t o = size_t(seen[i]), j = l2[o];
        double d = dist(a.t[i].h, b.t[j].h);
        if (ix && (a.t[i].h.il != b.t[j].h.il || a.t[i].h.xl != b.t[j].h.xl)) return sim::note_violation("binning-wrong-partner", fmt("traces %zu and %zu (output %zu) differ in their in-line or cross-line", i, j, o));
        if (d > max + tol) return sim::note_violation("binning-over-limit", fmt("traces %zu and %zu (output %zu) are %g apart, the limit is %g", i, j, o, d, max));
        if (d > best + tol) return sim::note_violation("binning-wrong-partner", fmt("trace %zu of the first survey has partner %zu at %g although %zu is at %g", i, j, d, bj, best));
        if (dsdr) {
            if (std::fabs(d1[o] - d) > tol + 1e-3 * d || d1[o] != d2[o])
                return sim::note_violation("binning-difference-wrong", fmt("output %zu (traces %zu and %zu): recorded differences %g and %g instead of %g", o, i, j, d1[o], d2[o], d));
        }
    }
    if (sim::fs.get("in1.segy") != ia || sim::fs.get("in2.segy") != ib) return sim::note_violation("input-modified", "an input survey was changed");
}

// -------------------------------------------------------------------- C15 ---
SCENARIO(C15, makerep, 3)
{
    int nr = draw_ranks(7, 1);
    size_t ns = W.draw(4) ? W.draw(12) : 20 + W.draw(200);
    size_t nt = W.draw(W.draw(3) == 2 ? 90 : 25);
    if (big()) nt = 300 + W.draw(700), ns %= 8;
    SegY f = gen_segy(nt, ns, 1 + W.draw(100000), W.draw(4) == 3 ? 1 : 5);
    f.ebcdic = W.draw(4) == 3;
    Bytes in = sim::fs.put("in.segy") = encode(f);
    size_t rep = 1 + W.draw(4);
    int ver = int(W.draw(4));
    static const char* vn[4] = {nullptr, "standard", "naive1", "naive2"};
    if (W.draw(4)) {
        sim::knob_block = long(HO + W.draw(W.draw(2) ? 400 : 6000));
        knob_blocks = 1 + long(W.draw(3));
    }
    if (W.draw(3) == 2) sim::knob_chunk = long(1 + W.draw(5000));
    if (W.draw(4) == 3) sim::fs.put("out.segy") = Bytes(W.draw(60000), 0x33);
    sample(fmt("%d ranks, file of %zu bytes (%zu traces of %zu samples), block %ld x %ld, chunk %ld", nr, in.size(), nt, ns, sim::knob_block, knob_blocks, sim::knob_chunk));
    std::vector<std::string> args = {"-i", "in.segy", "-o", "out.segy"};
    if (rep > 1 || W.draw(2)) { args.push_back("-r"); args.push_back(fmt("%zu", rep)); }
    if (vn[ver]) { args.push_back("-v"); args.push_back(vn[ver]); }
    sim::swarm_config(nr);
    if (!run_util("makerep", nr, makerep_main, args)) return;
    if (nt && rep > 1) nontrivial();
    Bytes want = in;
    for (size_t j = 1; j < rep; j++) want.insert(want.end(), in.begin() + HO, in.end());
    if (!sim::fs.has("out.segy")) return sim::note_violation("copy-wrong", "no output file");
    Bytes got = sim::fs.get("out.segy");
    if (got.size() != want.size()) return sim::note_violation("copy-wrong-length", fmt("the output has %zu bytes instead of %zu", got.size(), want.size()));
    for (size_t i = 0; i < got.size(); i++)
        if (got[i] != want[i]) return sim::note_violation("copy-wrong", fmt("byte %zu (repetition %zu, body offset %zu of %zu) is %d instead of %d", i, i < HO ? 0 : (i - HO) / (in.size() - HO), i < HO ? 0 : (i - HO) % (in.size() - HO), in.size() - HO, got[i], want[i]));
    if (sim::fs.get("in.segy") != in) return sim::note_violation("input-modified", "in.segy");
}
SCENARIO(C15, filemake, 2)
{
    int nr = draw_ranks(8, 1);
    size_t ns = 1 + W.draw(W.draw(4) == 3 ? 60 : 8);
    size_t nt = W.draw(W.draw(3) == 2 ? 70 : 16);
    if (big()) nt = 300 + W.draw(700);
    bool lob = W.draw(2), rnd = W.draw(2);
    int inc = 1 + int(W.draw(9000));
    size_t block = W.draw(3) == 0 ? 0 : 1 + W.draw(6);
    if (block) sim::knob_mem = long(block * (dosz(ns) + 4 * ns + 8));
    draw_chunk(ns);
    if (W.draw(4) == 3) sim::fs.put("made.segy") = Bytes(W.draw(20000), 0x33);
    sample(fmt("%d ranks, blocks of %zu, chunk %ld", nr, block, sim::knob_chunk));
    std::vector<std::string> args = {"-o", "made.segy", "-s", fmt("%zu", ns), "-t", fmt("%zu", nt), "-m", "1", "-i", fmt("%.6f", inc * 1e-6)};
    if (lob) args.push_back("-l");
    if (rnd) args.push_back("-r");
    sim::swarm_config(nr);
    if (!run_util("filemake", nr, filemake_main, args)) return;
    if (nt) nontrivial();
    const char* cls = "generated-file-wrong";
    SegY f;
    std::string why;
    if (!sim::fs.has("made.segy")) return sim::note_violation(cls, "no file");
    if (!decode(sim::fs.get("made.segy"), f, why)) return sim::note_violation(cls, why);
    if (f.ns != ns || f.interval != inc || f.t.size() != nt) return sim::note_violation(cls, fmt("the file has %zu traces of %zu samples every %d", f.t.size(), f.ns, f.interval));
    if (f.text.substr(0, 10) != "Test file\n") return sim::note_violation(cls, "text header");
    double half = double(nt * ns) / 2, quarter = double(nt * ns) / 4;
    long nhalf = long(nt / 2);
    for (size_t i = 0; i < nt; i++) {
        double k = double(nhalf - std::labs(long(i) - nhalf));
        const Hdr& h = f.t[i].h;
        static const double base[6] = {1600, 2400, 100000, 3000000, 10000, 4000};
        for (int c = 0; c < 6; c++)
            if (h.c[c] != base[c] + k) return sim::note_violation(cls, fmt("trace %zu: coordinate %d is %g instead of %g", i, c, h.c[c], base[c] + k));
        if (h.il != 2400 + int(k) || h.xl != 1600 + int(k) || h.tn != int(i)) return sim::note_violation(cls, fmt("trace %zu has header %s", i, h.str().c_str()));
        for (size_t j = 0; j < ns; j++) {
            float want = float(half - std::fabs(double(i * ns + j) - half) - quarter);
            if (f.t[i].s[j] != want) return sim::note_violation(cls, fmt("trace %zu sample %zu is %g instead of %g", i, j, double(f.t[i].s[j]), double(want)));
        }
    }
}

// -------------------------------------------------------------------- C08 ---
SCENARIO(C08, utility, 1)
{
    int nr = draw_ranks(6, 1);
    size_t nt = 1 + W.draw(20), ns = W.draw(5);
    if (big()) nt = 300 + W.draw(700);
    uint64_t salt = 1 + W.draw(100000);
    SegY f = gen_segy(nt, ns, salt, W.draw(4) == 3 ? 1 : 5);
    int style = int(W.draw(3));
    for (size_t i = 0; i < nt; i++) {
        Hdr& h = f.t[i].h;
        for (unsigned k = 0; k < 6; k++) h.c[k] = style == 0 ? double(h64(salt, i, k) % 2001) - 1000 : style == 1 ? double(h64(salt, i, k) % 3) - 1 : -double(h64(salt, i, k) % 500);
        h.misc = int16_t(i);
    }
    Bytes in = sim::fs.put("in.segy") = encode(f);
    draw_chunk(std::max<size_t>(ns, 1));
    sample(fmt("%d ranks, %zu traces of %zu samples", nr, nt, ns));
    sim::swarm_config(nr);
    if (!run_util("minmax", nr, minmax_main, {"-i", "in.segy", "-o", "mm.segy"})) return;
    nontrivial();
    const char* cls = "extreme-file-wrong";
    SegY g;
    std::string why;
    if (!sim::fs.has("mm.segy")) return sim::note_violation(cls, "no file");
    if (!decode(sim::fs.get("mm.segy"), g, why)) return sim::note_violation(cls, why);
    if (g.t.size() != 12 || g.ns != 1 || g.interval != f.interval) return sim::note_violation(cls, fmt("the file has %zu traces of %zu samples every %d", g.t.size(), g.ns, g.interval));
    for (size_t i = 0; i < 12; i++) {
        size_t c = i / 2;
        bool mx = i % 2;
        double want = f.t[0].h.c[c];
        for (auto& t : f.t) want = mx ? std::max(want, t.h.c[c]) : std::min(want, t.h.c[c]);
        const Hdr& h = g.t[i].h;
        if (h.c[c] != want) return sim::note_violation(cls, fmt("trace %zu: coordinate %zu is %g, the %s is %g", i, c, h.c[c], mx ? "largest" : "smallest", want));
        if (g.t[i].s[0] != 1.f) return sim::note_violation(cls, fmt("trace %zu has sample %g", i, double(g.t[i].s[0])));
        size_t id = size_t(h.tn);
        if (id >= nt) return sim::note_violation(cls, fmt("trace %zu is said to be trace %zu", i, id));
        Hdr w = f.t[id].h;
        w.tn = h.tn;
        if (!h.same(w)) return sim::note_violation(cls, fmt("trace %zu: header %s is not that of trace %zu, %s", i, h.str().c_str(), id, w.str().c_str()));
    }
    if (sim::fs.get("in.segy") != in) return sim::note_violation("input-modified", "in.segy");
}

// -------------------------------------------------------------------- C02 ---
static void list_files()
{
    int nr = draw_ranks(4, 1);
    size_t nf = 1 + W.draw(3);
    std::vector<SegY> v;
    std::vector<std::string> names;
    for (size_t i = 0; i < nf; i++) {
        v.push_back(gen_segy(W.draw(9), W.draw(9), 1 + W.draw(100000), W.draw(4) == 3 ? 1 : 5));
        v.back().ebcdic = W.draw(3) == 2;
        static const char* e[4] = {"segy", "sgy", "SGY", "SEGY"};
        names.push_back(fmt("f%zu.%s", i, e[W.draw(4)]));
        sim::fs.put(names.back()) = encode(v.back());
    }
    if (W.draw(2)) sim::fs.put("f.txt") = Bytes(10, 'x');
    sample(fmt("%d ranks, %zu files", nr, nf));
    sim::swarm_config(nr);
    if (!run_util("assess", nr, assess_main, {"f*"})) return;
    nontrivial();
    for (int r = 0; r < nr; r++) {
        std::string want = fmt("Pattern: f*\nFile Count: %zu\n", sim::fs.files.size());
        for (auto& f : sim::fs.files) {
            auto it = std::find(names.begin(), names.end(), f.first);
            if (it == names.end()) continue;
            const SegY& s = v[size_t(it - names.begin())];
            std::string inc = fmt("%g", s.interval * 1e-6);
            want += "File: " + f.first + fmt("\n-\tNs: %zu\n-\tNt: %zu\n-\tInc: ", s.ns, s.t.size()) + inc + "\n";
        }
        if (sim::rank_out[size_t(r)] != want) return sim::note_violation("assessment-wrong", fmt("rank %d prints '%s' instead of '%s'", r, sim::rank_out[size_t(r)].c_str(), want.c_str()));
    }
}
SCENARIO(C02, assess, 1) { list_files(); }
SCENARIO(C24, files, 1) { list_files(); }

// -------------------------------------------------------------------- C07 ---
std::vector<double> sort_key(int type, const Hdr& h);
extern const int sort_types[9];
SCENARIO(C07, versort, 1)
{
    int nr = draw_ranks(5, 1);
    int type = int(W.draw(9));
    size_t nt = W.draw(14);
    uint64_t salt = 1 + W.draw(100000);
    SegY f = gen_segy(nt, W.draw(3), salt, 5);
    std::stable_sort(f.t.begin(), f.t.end(), [&](const Trc& a, const Trc& b) { return sort_key(sort_types[type], a.h) < sort_key(sort_types[type], b.h); });
    size_t where = 0;
    bool swapped = nt >= 2 && W.draw(2);
    if (swapped) { where = W.draw(uint32_t(nt - 1)); std::swap(f.t[where], f.t[where + 1]); }
    sim::fs.put("s.segy") = encode(f);
    sample(fmt("%d ranks, %zu traces, order %d%s", nr, nt, sort_types[type], swapped ? fmt(", traces %zu and %zu swapped", where, where + 1).c_str() : ""));
    sim::swarm_config(nr);
    if (!run_util("verifysort", nr, versort_main, {"-i", "s.segy", "-t", fmt("%d", sort_types[type])})) return;
    if (nt > 1) nontrivial();
    size_t at = 0;
    for (int r = 0; r < nr; r++) {
        size_t n = nt / size_t(nr) + (size_t(r) < nt % size_t(nr));
        bool equal = false, bad = false;
        for (size_t i = at + 1; i < at + n; i++) {
            auto ka = sort_key(sort_types[type], f.t[i - 1].h), kb = sort_key(sort_types[type], f.t[i].h);
            if (ka == kb) equal = true;
            if (kb < ka) bad = true;
        }
        bool ok = sim::rank_out[size_t(r)] == "Success\n";
        if (!equal && ok == bad) return sim::note_violation("order-check-wrong", fmt("rank %d reports %s for its traces %zu to %zu", r, ok ? "Success" : "Failure", at, at + n));
        at += n;
    }
}
