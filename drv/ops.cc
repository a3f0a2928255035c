// Distributed operations: sort (C07), min/max (C08), gathers (C09),
// distributed vector (C10), communicator helpers (C13), mixed sequences (C03).
#include "util.hh"

#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/ReadModel.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/PIOL/operations/sort.hh"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"

#include <algorithm>
#include <cmath>
#include <limits>

using exseis::utils::Floating_point;
using exseis::utils::Integer;
namespace U = exseis::utils;
namespace pu = P::param_utils;

// -------------------------------------------------------------------- C07 ---
// Header values with many ties or given order.
std::vector<Hdr> keyed_headers(size_t n, uint64_t salt, int style, int spread)
{
    std::vector<Hdr> v(n);
    // sometimes far from zero, or far apart (exact in double precision, also the squares)
    static const double base[4] = {0, 16777217, -33554433, 2000000000};
    static const long lbase[4] = {0, 2000000000, -2000000000, 70000};
    const uint64_t mag = h64(salt, 4242);
    const bool near = mag % 2;
    const double cb = near ? 0 : base[mag / 2 % 4];
    const long lb = near ? 0 : lbase[mag / 8 % 4], wide = near || style != 0 ? 1 : long(1 + mag / 32 % 3 * 4999);
    for (size_t i = 0; i < n; i++) {
        Hdr h;
        size_t k = style == 1 ? i : style == 2 ? n - i : 0;  // sorted, reversed, random
        auto val = [&](unsigned f) -> long {
            if (style == 1 || style == 2) return long(k / size_t(1 + spread)) - long(n / 2);
            if (style == 3) return 7;  // all equal
            return long(h64(salt, i, f) % uint64_t(1 + spread)) - spread / 2;
        };
        for (unsigned c = 0; c < 6; c++) h.c[c] = cb + double(val(30 + c) * wide);
        h.il = int32_t(lb + val(40) * wide);
        h.xl = int32_t(lb + val(41) * wide);
        h.off = int32_t(lb + val(42) * wide * (lb ? 1 : 40));
        h.tn = int32_t(h64(salt, i, 43) % 2000000);
        v[i] = h;
    }
    return v;
}
static double sq(double x) { return x * x; }
static double offd(const Hdr& h) { return sq(h.c[C_XS] - h.c[C_XR]) + sq(h.c[C_YS] - h.c[C_YR]); }
/// The documented orders, independently: key vectors compared lexicographically
std::vector<double> sort_key(int type, const Hdr& h)
{
    switch (type) {
        case PIOL_SORTTYPE_SrcRcv: return {h.c[C_XS], h.c[C_YS], h.c[C_XR], h.c[C_YR]};
        case PIOL_SORTTYPE_SrcOff: return {h.c[C_XS], h.c[C_YS], offd(h)};
        case PIOL_SORTTYPE_SrcROff: return {h.c[C_XS], h.c[C_YS], double(h.off)};
        case PIOL_SORTTYPE_RcvOff: return {h.c[C_XR], h.c[C_YR], offd(h)};
        case PIOL_SORTTYPE_RcvROff: return {h.c[C_XR], h.c[C_YR], double(h.off)};
        case PIOL_SORTTYPE_LineOff: return {double(h.il), double(h.xl), offd(h)};
        case PIOL_SORTTYPE_LineROff: return {double(h.il), double(h.xl), double(h.off)};
        case PIOL_SORTTYPE_OffLine: return {offd(h), double(h.il), double(h.xl)};
        case PIOL_SORTTYPE_ROffLine: return {double(h.off), double(h.il), double(h.xl)};
    }
    return {};
}
extern const int sort_types[9];
const int sort_types[9] = {PIOL_SORTTYPE_SrcRcv, PIOL_SORTTYPE_SrcOff, PIOL_SORTTYPE_SrcROff, PIOL_SORTTYPE_RcvOff, PIOL_SORTTYPE_RcvROff,
    PIOL_SORTTYPE_LineOff, PIOL_SORTTYPE_LineROff, PIOL_SORTTYPE_OffLine, PIOL_SORTTYPE_ROffLine};

static std::shared_ptr<P::Rule> base_rule()
{
    // default fields; with a full copy of the header; with the extra fields; an exact subset
    switch (W.pick({4, 2, 1, 1})) {
        case 1: return std::make_shared<P::Rule>(std::initializer_list<P::Meta>{PIOL_META_COPY}, true, true);
        case 2: return std::make_shared<P::Rule>(true, true, true);
        case 3: return std::make_shared<P::Rule>(std::initializer_list<P::Meta>{PIOL_META_il, PIOL_META_xl, PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv,
            PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp, PIOL_META_Offset, PIOL_META_tn}, false);
        default: return std::make_shared<P::Rule>(true, true);
    }
}
/// ... and, half of the time, a two-byte field of the user's own
static std::shared_ptr<P::Rule> draw_rule()
{
    auto r = base_rule();
    if (W.draw(2)) r->addShort(PIOL_META_Misc1, PIOL_TR_VStackCnt);
    return r;
}
static int own_short(size_t g) { return int(h64(91, g) % 7) - 3; }
/// A rank's share of a cut, with some ranks possibly left (nearly) empty.
struct Shares {
    std::vector<size_t> cut;
    size_t n(int r) const { return cut[size_t(r) + 1] - cut[size_t(r)]; }
    size_t off(int r) const { return cut[size_t(r)]; }
    std::string str() const { std::string s; for (size_t r = 0; r + 1 < cut.size(); r++) s += fmt("%s%zu", r ? "/" : "", cut[r + 1] - cut[r]); return s; }
};
Shares draw_shares(int nr, size_t max_per_rank)
{
    Shares s;
    s.cut.push_back(0);
    int style = int(W.draw(4));
    if (big()) max_per_rank *= 20;
    size_t common = W.draw(uint32_t(max_per_rank + 1));
    for (int r = 0; r < nr; r++) {
        size_t k;
        if (style == 0) k = common;
        else if (style == 1) k = W.draw(uint32_t(max_per_rank + 1));
        else if (style == 2) k = W.draw(5);
        else k = W.draw(3) == 2 ? W.draw(uint32_t(4 * max_per_rank)) : 4 + W.draw(4);
        s.cut.push_back(s.cut.back() + k);
    }
    return s;
}
struct SortCase {
    Shares sh;
    std::vector<Hdr> h;
    int which;      // 0..8 sort type, 9 il only, 10 descending tn, 11 parity
    bool file_order, via_type;
    int ltn_style;  // 0 global number, 1 local number, 2 the same for all, 3 anything
};
static bool user_less(int which, const Hdr& a, const Hdr& b)
{
    if (which == 9) return a.il < b.il;
    if (which == 10) return a.tn > b.tn;
    if (which == 11) return (a.tn & 1) < (b.tn & 1);
    auto ka = sort_key(sort_types[which], a), kb = sort_key(sort_types[which], b);
    return ka < kb;
}
static P::CompareP lib_comp(int which)
{
    if (which == 9) return [](const P::Param* p, size_t i, size_t j) { return pu::getPrm<Integer>(i, PIOL_META_il, p) < pu::getPrm<Integer>(j, PIOL_META_il, p); };
    if (which == 10) return [](const P::Param* p, size_t i, size_t j) { return pu::getPrm<Integer>(i, PIOL_META_tn, p) > pu::getPrm<Integer>(j, PIOL_META_tn, p); };
    if (which == 11) return [](const P::Param* p, size_t i, size_t j) { return (pu::getPrm<Integer>(i, PIOL_META_tn, p) & 1) < (pu::getPrm<Integer>(j, PIOL_META_tn, p) & 1); };
    return P::getComp(P::SortType(sort_types[which]));
}
static size_t local_number(const SortCase& c, size_t g)
{
    if (c.ltn_style == 0) return g;
    if (c.ltn_style == 2) return 0;
    if (c.ltn_style == 3) return size_t(h64(31, g) % 3);
    int owner = 0;
    while (g >= c.sh.off(owner + 1)) owner++;
    return g - c.sh.off(owner);
}
struct SortOut { std::vector<size_t> list, gtn, ltn; std::vector<Hdr> h; };
static void do_sort(const SortCase& c, std::shared_ptr<P::Rule> rule, const std::shared_ptr<P::ExSeisPIOL>& piol, int r, SortOut& o)
{
    size_t n = c.sh.n(r), off = c.sh.off(r);
    P::Param prm(rule, n);
    for (size_t i = 0; i < n; i++) {
        if (rule->numCopy)
            for (size_t k = 0; k < MD; k++) prm.c[i * MD + k] = (unsigned char)(h64(4711, off + i, k));
        set_prm(&prm, i, c.h[off + i]);
        pu::setPrm(i, PIOL_META_gtn, off + i, &prm);
        pu::setPrm(i, PIOL_META_ltn, local_number(c, off + i), &prm);
        if (rule->translate.count(PIOL_META_Misc1)) pu::setPrm<short>(i, PIOL_META_Misc1, short(own_short(off + i)), &prm);
    }
    std::vector<unsigned char> copies(prm.c.begin(), prm.c.end());
    if (c.via_type && c.which < 9) o.list = P::sort(piol.get(), P::SortType(sort_types[c.which]), &prm);
    else o.list = P::sort(piol.get(), &prm, lib_comp(c.which), c.file_order);
    if (prm.size() != n) sim::violation("sort-changed-share", fmt("rank %d holds %zu traces instead of %zu", r, prm.size(), n));
    for (size_t i = 0; i < n; i++) {
        o.gtn.push_back(pu::getPrm<size_t>(i, PIOL_META_gtn, &prm));
        o.ltn.push_back(pu::getPrm<size_t>(i, PIOL_META_ltn, &prm));
        o.h.push_back(get_prm(&prm, i));
        if (rule->translate.count(PIOL_META_Misc1) && pu::getPrm<short>(i, PIOL_META_Misc1, &prm) != own_short(o.gtn.back()))
            sim::violation("sort-lost-values", fmt("rank %d place %zu: the two-byte field is not that of trace %zu", r, i, o.gtn.back()));
        if (rule->numCopy) {
            // bytes of the raw header which no field of the rule covers (28..31: only tn..off fields elsewhere)
            size_t g = o.gtn.back();
            for (size_t k = 24; k < 36; k++)
                if (prm.c[i * MD + k] != (unsigned char)(h64(4711, g, k)))
                    sim::violation("sort-lost-values", fmt("rank %d place %zu: byte %zu of the header copy is not that of trace %zu", r, i, k, g));
        }
    }
}
static void check_sort(const SortCase& c, const std::vector<SortOut>& o, int nr, const char* cls)
{
    size_t N = c.h.size();
    std::vector<size_t> gtn;
    for (int r = 0; r < nr; r++) gtn.insert(gtn.end(), o[size_t(r)].gtn.begin(), o[size_t(r)].gtn.end());
    if (gtn.size() != N) return sim::note_violation(cls, fmt("%zu traces after the sort instead of %zu", gtn.size(), N));
    std::vector<int> seen(N, 0);
    std::vector<size_t> place(N);
    for (size_t k = 0; k < N; k++) {
        if (gtn[k] >= N) return sim::note_violation(cls, fmt("place %zu holds trace number %zu of %zu", k, gtn[k], N));
        if (seen[gtn[k]]++) return sim::note_violation(cls, fmt("trace %zu appears more than once", gtn[k]));
        place[gtn[k]] = k;
    }
    std::vector<size_t> ltn;
    std::vector<Hdr> h;
    for (int r = 0; r < nr; r++) {
        ltn.insert(ltn.end(), o[size_t(r)].ltn.begin(), o[size_t(r)].ltn.end());
        h.insert(h.end(), o[size_t(r)].h.begin(), o[size_t(r)].h.end());
    }
    for (size_t k = 0; k < N; k++) {
        if (!h[k].same(c.h[gtn[k]])) return sim::note_violation("sort-lost-values", fmt("trace %zu at place %zu has header %s instead of %s", gtn[k], k, h[k].str().c_str(), c.h[gtn[k]].str().c_str()));
        size_t wl = local_number(c, gtn[k]);
        if (ltn[k] != wl) return sim::note_violation("sort-lost-values", fmt("trace %zu at place %zu has local number %zu instead of %zu", gtn[k], k, ltn[k], wl));
    }
    for (size_t k = 1; k < N; k++)
        if (user_less(c.which, h[k], h[k - 1])) return sim::note_violation(cls, fmt("place %zu (trace %zu, %s) is less than place %zu (trace %zu, %s)", k, gtn[k], h[k].str().c_str(), k - 1, gtn[k - 1], h[k - 1].str().c_str()));
    for (int r = 0; r < nr; r++) {
        auto& l = o[size_t(r)].list;
        if (l.size() != c.sh.n(r)) return sim::note_violation("sort-wrong-list", fmt("rank %d gets a list of %zu entries instead of %zu", r, l.size(), c.sh.n(r)));
        for (size_t i = 0; i < l.size(); i++) {
            size_t want = c.file_order ? place[c.sh.off(r) + i] : gtn[c.sh.off(r) + i];
            if (l[i] != want) return sim::note_violation("sort-wrong-list", fmt("rank %d list entry %zu is %zu instead of %zu", r, i, l[i], want));
        }
    }
}
static SortCase gen_sort(int nr)
{
    SortCase c;
    c.sh = draw_shares(nr, 14);
    size_t N = c.sh.cut.back();
    int style = int(W.draw(4));
    int spread = style == 1 || style == 2 ? int(W.draw(4)) : 1 + int(W.draw(W.draw(2) ? 4 : 1000));
    c.h = keyed_headers(N, 1 + W.draw(100000), style, spread);
    c.which = int(W.draw(12));
    c.file_order = W.draw(3) != 2;
    c.via_type = c.file_order && W.draw(2);
    c.ltn_style = int(W.draw(4));
    return c;
}
SCENARIO(C07, sort, 5)
{
    int nr = draw_ranks(7, 1);
    SortCase c = gen_sort(nr);
    auto rule = draw_rule();
    sample(fmt("%d ranks shares %s compare %d %s%s copy=%zu", nr, c.sh.str().c_str(), c.which, c.file_order ? "positions" : "numbers", c.via_type ? " by type" : "", rule->numCopy));
    sim::swarm_config(nr);
    std::vector<SortOut> o(static_cast<size_t>(nr));
    if (!run_job("sort", nr, [&](int r) { auto piol = new_piol(); do_sort(c, rule, piol, r, o[size_t(r)]); })) return;
    if (c.h.size() > 1 && nr > 1) nontrivial();
    check_sort(c, o, nr, "sort-wrong-order");
    if (failed() || W.draw(3)) return;
    // the same data, other holders: only equal elements may change places
    int nr2 = draw_ranks(6, 1);
    SortCase c2 = c;
    c2.sh.cut = random_cuts(c.h.size(), nr2);
    c2.ltn_style = c.ltn_style = 0;
    std::vector<SortOut> o2(static_cast<size_t>(nr2));
    sim::swarm_config(nr2);
    if (!run_job("the same sort elsewhere", nr2, [&](int r) { auto piol = new_piol(); do_sort(c2, rule, piol, r, o2[size_t(r)]); })) return;
    check_sort(c2, o2, nr2, "sort-wrong-order");
}
// The position list drives a sorted copy of a file.
SCENARIO(C07, sorted_copy, 2)
{
    int nr = draw_ranks(5, 1);
    size_t nt = size_t(W.range(1, 30)), ns = W.draw(4);
    SegY f = gen_segy(nt, ns, 1 + W.draw(100000), 5);
    auto keys = keyed_headers(nt, 1 + W.draw(100000), int(W.draw(4)), 1 + int(W.draw(6)));
    for (size_t i = 0; i < nt; i++) { keys[i].tn = int32_t(i); f.t[i].h = keys[i]; }
    int type = int(W.draw(9));
    draw_chunk(ns);
    sample(fmt("%d ranks, %zu traces x %zu, type %d", nr, nt, ns, type));
    sim::fs.put("in.segy") = encode(f);
    sim::swarm_config(nr);
    if (!run_job("sorted copy", nr, [&](int r) {
            auto piol = new_piol();
            P::ReadDirect in(piol, "in.segy");
            auto dec = U::block_decomposition(in.readNt(), size_t(nr), size_t(r));
            P::Param prm(dec.local_size);
            std::vector<float> trc(dec.local_size * ns);
            in.readTrace(dec.global_offset, dec.local_size, trc.data(), &prm);
            P::Param copy(dec.local_size);
            for (size_t i = 0; i < dec.local_size; i++) {
                pu::setPrm(i, PIOL_META_gtn, dec.global_offset + i, &prm);
                pu::cpyPrm(i, &prm, i, &copy);
            }
            auto list = P::sort(piol.get(), P::SortType(sort_types[type]), &prm);
            auto idx = P::getSortIndex(list.size(), list.data());
            // write my own traces to their sorted places
            std::vector<size_t> pos;
            std::vector<float> t2;
            P::Param p2(dec.local_size);
            for (size_t k = 0; k < idx.size(); k++) {
                pos.push_back(list[idx[k]]);
                pu::cpyPrm(idx[k], &copy, k, &p2);
                for (size_t j = 0; j < ns; j++) t2.push_back(trc[idx[k] * ns + j]);
            }
            P::WriteDirect out(piol, "out.segy");
            out.writeNs(ns);
            out.writeInc(in.readInc());
            out.writeTraceNonContiguous(pos.size(), pos.data(), t2.data(), &p2);
        })) return;
    nontrivial();
    SegY g;
    std::string why;
    if (!decode(sim::fs.get("out.segy"), g, why)) return sim::note_violation("sorted-copy-wrong", why);
    if (g.t.size() != nt) return sim::note_violation("sorted-copy-wrong", fmt("%zu traces instead of %zu", g.t.size(), nt));
    std::vector<int> seen(nt, 0);
    for (size_t k = 0; k < nt; k++) {
        size_t id = size_t(g.t[k].h.tn);
        if (id >= nt || seen[id]++) return sim::note_violation("sorted-copy-wrong", fmt("place %zu holds trace %zu, unknown or a second time", k, id));
        std::string d = diff_traces({g.t[k]}, {f.t[id]});
        if (!d.empty()) return sim::note_violation("sorted-copy-wrong", fmt("place %zu (trace %zu): ", k, id) + d);
        if (k && sort_key(sort_types[type], g.t[k].h) < sort_key(sort_types[type], g.t[k - 1].h)) return sim::note_violation("sorted-copy-wrong", fmt("places %zu and %zu are out of order", k - 1, k));
    }
}

// The order check of each process's part of a file, through the library or
// the utility which prints it.
int versort_main(int, char**);
SCENARIO(C07, order_check, 1)
{
    int nr = draw_ranks(6, 1);
    size_t nt = W.draw(30), ns = W.draw(4);
    SegY f = gen_segy(nt, ns, 1 + W.draw(100000), 5);
    auto keys = keyed_headers(nt, 1 + W.draw(100000), int(W.draw(4)), 1 + int(W.draw(6)));
    for (size_t i = 0; i < nt; i++) f.t[i].h = keys[i];
    int type = int(W.draw(9));
    auto key = [&](size_t i) { return sort_key(sort_types[type], f.t[i].h); };
    if (W.draw(4)) {
        std::stable_sort(f.t.begin(), f.t.end(), [&](const Trc& a, const Trc& b) { return sort_key(sort_types[type], a.h) < sort_key(sort_types[type], b.h); });
        if (nt > 1 && W.draw(2)) { size_t a = W.draw(uint32_t(nt - 1)); std::swap(f.t[a], f.t[a + 1]); }
    }
    bool util = W.draw(3) == 2;
    std::vector<size_t> cut;
    if (util) { cut.push_back(0); for (int r = 0; r < nr; r++) cut.push_back(cut.back() + nt / size_t(nr) + (size_t(r) < nt % size_t(nr))); }
    else cut = random_cuts(nt, nr);
    draw_chunk(ns);
    sample(fmt("%d ranks, %zu traces x %zu, type %d%s", nr, nt, ns, type, util ? ", utility" : ""));
    sim::fs.put("in.segy") = encode(f);
    std::vector<bool> want;
    for (int r = 0; r < nr; r++) {
        bool ok = true;
        for (size_t i = cut[size_t(r)] + 1; i < cut[size_t(r) + 1]; i++) ok &= !(key(i) < key(i - 1));
        want.push_back(ok);
    }
    sim::swarm_config(nr);
    if (util) {
        if (!run_util("verifysort", nr, versort_main, {"-i", "in.segy", "-t", fmt("%d", sort_types[type])})) return;
        for (int r = 0; r < nr; r++) {
            std::string w = want[size_t(r)] ? "Success" : "Failure", got = sim::rank_out[size_t(r)] + sim::rank_err[size_t(r)];
            if (got.find(w) == std::string::npos || got.find(want[size_t(r)] ? "Failure" : "Success") != std::string::npos)
                return sim::note_violation("wrong-order-check", fmt("rank %d prints '%s' instead of %s", r, got.c_str(), w.c_str()));
        }
    } else if (!run_job("order check", nr, [&](int r) {
            auto piol = new_piol();
            P::ReadDirect in(piol, "in.segy");
            U::Contiguous_decomposition dec(cut[size_t(r)], cut[size_t(r) + 1] - cut[size_t(r)]);
            bool got = P::checkOrder((P::ReadInterface*)in, dec, P::SortType(sort_types[type]));
            if (got != want[size_t(r)]) sim::violation("wrong-order-check", fmt("rank %d is told that traces %zu to %zu are %s", r, cut[size_t(r)], cut[size_t(r) + 1], got ? "in order" : "out of order"));
        })) return;
    if (nt > 1 && nr > 1) nontrivial();
}

// -------------------------------------------------------------------- C08 ---
struct XY { double x, y; };
struct Ext { double v[4]; };
static Ext true_ext(const std::vector<XY>& v)
{
    Ext e{{INFINITY, -INFINITY, INFINITY, -INFINITY}};
    for (auto& p : v) {
        e.v[0] = std::min(e.v[0], p.x); e.v[1] = std::max(e.v[1], p.x);
        e.v[2] = std::min(e.v[2], p.y); e.v[3] = std::max(e.v[3], p.y);
    }
    return e;
}
void check_minmax(const std::vector<XY>& v, const P::CoordElem* m, int r, const char* what)
{
    static const char* nm[] = {"minimum of the first", "maximum of the first", "minimum of the second", "maximum of the second"};
    if (v.empty()) return;
    Ext e = true_ext(v);
    for (int k = 0; k < 4; k++) {
        if (m[k].val != e.v[k]) sim::violation("wrong-extreme", fmt("%s, rank %d: the %s coordinate is reported as %.17g instead of %.17g", what, r, nm[k], double(m[k].val), e.v[k]));
        if (m[k].num >= v.size()) sim::violation("wrong-extreme-trace", fmt("%s, rank %d: the %s coordinate is attributed to trace %zu of %zu", what, r, nm[k], m[k].num, v.size()));
        double at = k < 2 ? v[m[k].num].x : v[m[k].num].y;
        if (at != e.v[k]) sim::violation("wrong-extreme-trace", fmt("%s, rank %d: the %s coordinate %.17g is attributed to trace %zu, which has %.17g", what, r, nm[k], double(m[k].val), m[k].num, at));
    }
}
double draw_coord(int style, uint64_t salt, size_t i, unsigned k)
{
    uint64_t h = h64(salt, i, 100 + k);
    switch (style) {
        case 0: return double(h % 2001) - 1000;
        case 1: return -1.0 - double(h % 5);              // all negative, ties
        case 2: return double(h % 3) - 1;                 // many ties around zero
        case 3: return (double(h % 2000001) - 1e6) * 1e-3;
        case 4: return h % 2 ? 1e300 : -1e300;
        default: return 5;                                // constant
    }
}
static void same_everywhere(const std::vector<std::array<P::CoordElem, 4>>& a, int nr, const char* what)
{
    for (int r = 1; r < nr; r++)
        for (size_t k = 0; k < 4; k++)
            if (a[size_t(r)][k].val != a[0][k].val || a[size_t(r)][k].num != a[0][k].num)
                return sim::note_violation("different-answers", fmt("%s: rank %d gets %.17g (trace %zu), rank 0 %.17g (trace %zu)", what, r, double(a[size_t(r)][k].val), a[size_t(r)][k].num, double(a[0][k].val), a[0][k].num));
}
SCENARIO(C08, minmax, 3)
{
    int nr = draw_ranks(7, 1);
    Shares sh = draw_shares(nr, 6);
    if (!sh.cut.back()) sh.cut.back() = 1;
    size_t N = sh.cut.back();
    int style = int(W.draw(6));
    uint64_t salt = 1 + W.draw(100000);
    std::vector<XY> v;
    for (size_t i = 0; i < N; i++) v.push_back({draw_coord(style, salt, i, 0), draw_coord(style, salt, i, 1)});
    static const P::Meta pairs[4][2] = {{PIOL_META_xSrc, PIOL_META_ySrc}, {PIOL_META_xRcv, PIOL_META_yRcv}, {PIOL_META_xCmp, PIOL_META_yCmp}, {PIOL_META_WtrDepRcv, PIOL_META_RGElev}};
    int pr = int(W.draw(4));
    bool tmpl = W.draw(2);
    bool null_empty = W.draw(2);
    auto rule = draw_rule();
    if (pr == 3) rule->addRule(PIOL_META_WtrDepRcv), rule->addRule(PIOL_META_RGElev);   // outside the default rule
    sample(fmt("%d ranks shares %s style %d %s", nr, sh.str().c_str(), style, tmpl ? "template" : "parameters"));
    sim::swarm_config(nr);
    std::vector<std::array<P::CoordElem, 4>> res(static_cast<size_t>(nr));
    if (!run_job("min/max", nr, [&](int r) {
            auto piol = new_piol();
            size_t n = sh.n(r), off = sh.off(r);
            std::array<P::CoordElem, 6> m;
            for (auto& e : m) e = {-77, 77};
            if (tmpl) {
                std::vector<XY> l(v.begin() + long(off), v.begin() + long(off + n));
                P::getMinMax<XY>(piol.get(), off, n, n || !null_empty ? l.data() : nullptr, [](const XY& p) { return p.x; }, [](const XY& p) { return p.y; }, m.data() + 1);
            } else {
                P::Param prm(rule, n);
                for (size_t i = 0; i < n; i++) { pu::setPrm(i, pairs[pr][0], Floating_point(v[off + i].x), &prm); pu::setPrm(i, pairs[pr][1], Floating_point(v[off + i].y), &prm); }
                P::getMinMax(piol.get(), off, n, pairs[pr][0], pairs[pr][1], &prm, m.data() + 1);
            }
            if (m[0].val != -77 || m[5].val != -77) sim::violation("wrote-beyond-result", fmt("rank %d: more than four results were written", r));
            std::copy(m.begin() + 1, m.begin() + 5, res[size_t(r)].begin());
            check_minmax(v, m.data() + 1, r, "min/max");
            if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error", r));
        })) return;
    if (nr > 1) nontrivial();
    same_everywhere(res, nr, "min/max");
}

// -------------------------------------------------------------------- C09 ---
struct Run { int il, xl; size_t n; };
std::vector<Run> gen_runs(size_t max_runs, size_t max_len)
{
    std::vector<Run> runs;
    if (big()) max_runs *= 12, max_len *= 6;
    size_t k = W.draw(uint32_t(max_runs + 1));
    uint64_t salt = 1 + W.draw(1000);
    int style = int(W.draw(4));
    for (size_t i = 0; i < k; i++) {
        Run r;
        // neighbouring gathers may share one of the two numbers; a pair may come again later
        if (style == 0) { r.il = int(i); r.xl = -int(i); }
        else if (style == 1) { r.il = 5; r.xl = int(i) - 3; }
        else if (style == 2) { r.il = int(i / 2); r.xl = int(i % 2); }
        else { r.il = int(h64(salt, i) % 3); r.xl = int(h64(salt, i, 1) % 2); }
        r.n = 1 + (W.draw(4) == 3 ? W.draw(uint32_t(3 * max_len)) : W.draw(uint32_t(max_len)));
        if (!runs.empty() && runs.back().il == r.il && runs.back().xl == r.xl) runs.back().n += r.n;
        else runs.push_back(r);
    }
    return runs;
}
SCENARIO(C09, gathers, 4)
{
    int nr = draw_ranks(8, 1);
    auto runs = gen_runs(10, 6);
    SegY f;
    f.ns = W.draw(3);
    f.interval = 1000;
    uint64_t salt = 1 + W.draw(10000);
    std::string d;
    for (auto& r : runs) {
        for (size_t i = 0; i < r.n; i++) {
            Trc t;
            t.h = gen_hdr(salt, f.t.size());
            t.h.il = r.il;
            t.h.xl = r.xl;
            t.s.assign(f.ns, 1.f);
            f.t.push_back(t);
        }
        d += fmt(" (%d,%d)x%zu", r.il, r.xl, r.n);
    }
    draw_chunk(f.ns);
    sample(fmt("%d ranks, %zu traces:%s", nr, f.t.size(), d.c_str()));
    sim::fs.put("in.segy") = encode(f);
    sim::swarm_config(nr);
    int order = int(W.draw(3));
    run_job("gather search", nr, [&](int r) {
        auto piol = new_piol();
        {
            auto file = P::makeFile<P::ReadSEGY>(piol, "in.segy");
            auto g = P::getIlXlGathers(piol.get(), file.get());
            if (g.size() != runs.size()) sim::violation("wrong-gather-count", fmt("rank %d sees %zu gathers instead of %zu", r, g.size(), runs.size()));
            size_t total = 0;
            for (size_t k = 0; k < runs.size(); k++) {
                size_t i = order == 0 ? k : order == 1 ? runs.size() - 1 - k : (k + size_t(r)) % runs.size();
                P::Gather_info e = g[i];
                total += e.num_traces;
                if (e.inline_ != runs[i].il || e.crossline != runs[i].xl || e.num_traces != runs[i].n)
                    sim::violation("wrong-gather", fmt("rank %d: gather %zu is %zu traces of (%ld,%ld) instead of %zu of (%d,%d)", r, i, e.num_traces, long(e.inline_), long(e.crossline), runs[i].n, runs[i].il, runs[i].xl));
            }
            if (total != f.t.size()) sim::violation("wrong-gather", fmt("rank %d: the gathers hold %zu traces instead of %zu", r, total, f.t.size()));
            if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error", r));
        }
    });
    if (runs.size() > 0 && nr > 1) nontrivial();
}

// -------------------------------------------------------------------- C10 ---
struct T3 { unsigned char b[3]; };
struct TBig { size_t a; double b[5]; char c; };
template <class T> struct Val;
template <> struct Val<int> { static int mk(uint64_t v) { return int(v); } static bool eq(int a, int b) { return a == b; } };
template <> struct Val<double> { static double mk(uint64_t v) { return double(v % 1000003) / 7; } static bool eq(double a, double b) { return a == b; } };
template <> struct Val<char> { static char mk(uint64_t v) { return char(v); } static bool eq(char a, char b) { return a == b; } };
template <> struct Val<T3> { static T3 mk(uint64_t v) { return {{(unsigned char)(v), (unsigned char)(v >> 8), (unsigned char)(v >> 16)}}; } static bool eq(const T3& a, const T3& b) { return !memcmp(&a, &b, 3); } };
template <> struct Val<TBig> {
    static TBig mk(uint64_t v) { TBig t; memset(&t, 0, sizeof t); t.a = v; for (int i = 0; i < 5; i++) t.b[i] = double(h64(v, uint64_t(i)) % 100000); t.c = char(v); return t; }
    static bool eq(const TBig& a, const TBig& b) { if (a.a != b.a || a.c != b.c) return false; for (int i = 0; i < 5; i++) if (a.b[i] != b.b[i]) return false; return true; }
};
template <> struct Val<P::Gather_info> {
    static P::Gather_info mk(uint64_t v) { return {size_t(v), Integer(v % 1000) - 500, Integer(v >> 40)}; }
    static bool eq(const P::Gather_info& a, const P::Gather_info& b) { return a.num_traces == b.num_traces && a.inline_ == b.inline_ && a.crossline == b.crossline; }
};
template <class T> static void dvec(int nr)
{
    size_t n = W.draw(24);
    uint32_t busy = 8;
    switch (W.draw(4)) {
        case 3: n = W.draw(uint32_t(nr + 1)); break;
        case 2: n = 1 + W.draw(3); busy = 20; break;   // many operations on few elements
        default: break;
    }
    if (big()) n = 200 + W.draw(600);
    int phases = 1 + int(W.draw(4));
    // phase: list of per-rank operations; sync between the phases
    struct Op { bool set; size_t i; uint64_t v; };
    std::vector<std::vector<std::vector<Op>>> ph(static_cast<size_t>(phases));
    bool racy = W.draw(2);
    uint64_t ctr = 1;
    for (auto& p : ph) {
        p.resize(size_t(nr));
        std::vector<int> owner(n, -1);
        for (int r = 0; r < nr; r++) {
            size_t k = W.draw(busy);
            for (size_t j = 0; j < k; j++) {
                Op o;
                o.set = W.draw(2);
                o.i = n ? W.draw(uint32_t(n)) : 0;
                o.v = h64(ctr++, 99);
                if (W.draw(10) == 9) o.i = n + (W.draw(2) ? W.draw(50) : 0);          // outside
                if (W.draw(40) == 39) o.i = size_t(-1) - W.draw(3);
                if (o.set && o.i < n) {
                    if (!racy && owner[o.i] >= 0 && owner[o.i] != r) continue;
                    owner[o.i] = r;
                }
                p[size_t(r)].push_back(o);
            }
        }
    }
    sample(fmt("%d ranks, %zu elements of %zu bytes, %d phases%s", nr, n, sizeof(T), phases, racy ? " racy" : ""));
    sim::swarm_config(nr);
    // possible values per index: bounds of what a read may return
    std::vector<std::vector<uint64_t>> stable(n);     // value(s) the element may hold at the start of the phase; empty = never written
    std::vector<std::set<uint64_t>> cur(n);
    size_t phase_done = 0;
    (void)phase_done;
    run_job("distributed vector", nr, [&](int r) {
        auto piol = new_piol();
        {
            U::MPI_Distributed_vector<T> mine(n, MPI_COMM_WORLD);
            U::Distributed_vector<T> vec = std::move(mine);
            if (vec.size() != n) sim::violation("wrong-size", fmt("rank %d sees %zu elements instead of %zu", r, vec.size(), n));
            for (size_t q = 0; q < ph.size(); q++) {
                std::map<size_t, uint64_t> own;  // my latest value in this phase
                for (auto& o : ph[q][size_t(r)]) {
                    if (o.set) {
                        try { vec.set(o.i, Val<T>::mk(o.v)); } catch (std::exception&) { if (o.i < n) throw; }
                        if (o.i < n) own[o.i] = o.v;
                    } else {
                        T g{};
                        try { g = vec.get(o.i); } catch (std::exception&) { if (o.i < n) throw; }
                        if (o.i >= n) continue;
                        // candidates: values at the start of the phase, and what anybody stores in it
                        std::vector<uint64_t> cand = stable[o.i];
                        bool undefined = cand.empty(), others = false;
                        for (int s = 0; s < nr; s++) for (auto& w : ph[q][size_t(s)]) if (w.set && w.i == o.i) { if (s != r) { cand.push_back(w.v); others = true; } }
                        if (own.count(o.i)) { if (!others) cand.clear(); cand.push_back(own[o.i]); undefined = false; }
                        if (undefined) continue;
                        bool ok = false;
                        for (auto c : cand) ok |= Val<T>::eq(g, Val<T>::mk(c));
                        if (!ok) sim::violation("wrong-value", fmt("rank %d phase %zu: element %zu holds a value nobody could have left there", r, q, o.i));
                    }
                }
                piol->comm->barrier();
                // every rank computes the same new bounds; only the first to get here applies them
                if (phase_done == q) {
                    phase_done = q + 1;
                    for (size_t i = 0; i < n; i++) {
                        std::vector<uint64_t> nv;
                        for (int s = 0; s < nr; s++) { uint64_t last = 0; bool has = false; for (auto& w : ph[q][size_t(s)]) if (w.set && w.i == i) { last = w.v; has = true; } if (has) nv.push_back(last); }
                        if (!nv.empty()) stable[i] = nv;
                    }
                }
                // after the synchronisation everybody agrees
                for (size_t k = 0; k < n; k++) {
                    size_t i = (k + size_t(r) * 3) % n;
                    if (stable[i].empty()) continue;
                    T g = vec.get(i);
                    std::vector<uint64_t> left;
                    for (auto c : stable[i]) if (Val<T>::eq(g, Val<T>::mk(c))) left.push_back(c);
                    if (left.empty()) sim::violation("wrong-value", fmt("rank %d after phase %zu: element %zu is not the value stored there", r, q, i));
                    stable[i] = left;  // later readers must see the same one
                }
                piol->comm->barrier();
            }
        }
    });
    if (n && nr > 1) nontrivial();
}
SCENARIO(C10, vector, 4)
{
    int nr = draw_ranks(6, 1);
    switch (W.draw(6)) {
        case 0: return dvec<int>(nr);
        case 1: return dvec<double>(nr);
        case 2: return dvec<char>(nr);
        case 3: return dvec<T3>(nr);
        case 4: return dvec<TBig>(nr);
        default: return dvec<P::Gather_info>(nr);
    }
}

// -------------------------------------------------------------------- C13 ---
/// Ranks divided into groups, each with its own communicator (possibly reordered).
struct Groups {
    int nr, ng;
    std::vector<int> color, key;
    bool world;
    std::vector<int> members(int g) const
    {
        std::vector<int> m;
        for (int r = 0; r < nr; r++) if (color[size_t(r)] == g) m.push_back(r);
        std::stable_sort(m.begin(), m.end(), [&](int a, int b) { return key[size_t(a)] < key[size_t(b)]; });
        return m;
    }
    std::string str() const { if (world) return fmt("%d ranks, world", nr); std::string s = fmt("%d ranks, groups", nr); for (int r = 0; r < nr; r++) s += fmt(" %d", color[size_t(r)]); return s; }
};
Groups draw_groups(int maxr, bool allow_world = true)
{
    Groups g;
    g.nr = draw_ranks(maxr, allow_world ? 1 : 2);
    g.world = allow_world && W.draw(3) == 0;
    g.ng = g.world ? 1 : 1 + int(W.draw(3));
    bool reorder = W.draw(2);
    for (int r = 0; r < g.nr; r++) {
        g.color.push_back(g.world ? 0 : int(W.draw(uint32_t(g.ng))));
        g.key.push_back(g.world ? r : reorder ? int(W.draw(5)) : r);
    }
    return g;
}
MPI_Comm split(const Groups& g, int r)
{
    if (g.world) return MPI_COMM_WORLD;
    MPI_Comm c;
    MPI_Comm_split(MPI_COMM_WORLD, g.color[size_t(r)], g.key[size_t(r)], &c);
    return c;
}
SCENARIO(C13, helpers, 3)
{
    Groups g = draw_groups(7);
    sample(g.str());
    int calls = 1 + int(W.draw(8));
    struct Call { int op; std::vector<uint64_t> v; size_t len; };
    std::vector<std::vector<Call>> seq(static_cast<size_t>(g.ng));
    for (auto& s : seq) {
        int k = g.world ? calls : 1 + int(W.draw(8));
        for (int i = 0; i < k; i++) {
            Call c;
            c.op = int(W.draw(10));
            c.len = W.draw(4);
            int style = int(W.draw(5));
            for (int r = 0; r < g.nr * 4; r++) {
                uint64_t h = h64(1 + W.draw(1000), uint64_t(r));
                c.v.push_back(style == 0 ? h % 10 : style == 1 ? h >> 3 : style == 2 ? (h & 1 ? ~0ull / 16 : 0) : style == 4 ? (h & 1 ? ~(h >> 40) : h) : h % 100000);
            }
            s.push_back(c);
        }
    }
    sim::swarm_config(g.nr);
    run_job("helpers", g.nr, [&](int r) {
        MPI_Comm c = split(g, r);
        auto m = g.members(g.color[size_t(r)]);
        size_t me = size_t(std::find(m.begin(), m.end(), r) - m.begin());
        {
            auto piol = new_piol(c);
            if (piol->comm->getNumRank() != m.size() || piol->comm->getRank() != me)
                sim::violation("wrong-group", fmt("rank %d is %zu of %zu instead of %zu of %zu", r, piol->comm->getRank(), piol->comm->getNumRank(), me, m.size()));
            size_t k = 0;
            for (auto& q : seq[size_t(g.color[size_t(r)])]) {
                size_t val = size_t(q.v[size_t(r)]);
                size_t got = 0, want = 0;
                const char* nm = "";
                auto lst = [&](int who, size_t j) { return q.v[size_t(who) * 4 + j]; };
                auto cmp = [&](auto out, auto conv, const char* what) {
                    size_t j = 0;
                    bool ok = out.size() == m.size() * q.len;
                    for (int who : m) for (size_t e = 0; ok && e < q.len; e++) ok &= out[j++] == conv(lst(who, e));
                    if (!ok) sim::violation("wrong-collective-value", fmt("rank %d call %zu: %s gives a wrong list", r, k, what));
                };
                switch (q.op) {
                    case 0: nm = "sum"; got = piol->comm->sum(val); for (int w : m) want += q.v[size_t(w)]; break;
                    case 1: nm = "max"; got = piol->comm->max(val); for (int w : m) want = std::max<size_t>(want, q.v[size_t(w)]); break;
                    case 2: nm = "min"; got = piol->comm->min(val); want = ~size_t(0); for (int w : m) want = std::min<size_t>(want, q.v[size_t(w)]); break;
                    case 3: nm = "offset"; got = piol->comm->offset(val); for (size_t i = 0; i < me; i++) want += q.v[size_t(m[i])]; break;
                    case 4: { std::vector<size_t> in; for (size_t e = 0; e < q.len; e++) in.push_back(lst(r, e)); cmp(piol->comm->gather(in), [](uint64_t x) { return size_t(x); }, "gather(size_t)"); break; }
                    case 5: { std::vector<Integer> in; for (size_t e = 0; e < q.len; e++) in.push_back(Integer(lst(r, e)) - 5); cmp(piol->comm->gather(in), [](uint64_t x) { return Integer(x) - 5; }, "gather(Integer)"); break; }
                    case 6: { std::vector<double> in; for (size_t e = 0; e < q.len; e++) in.push_back(double(lst(r, e)) * -0.5); cmp(piol->comm->gather(in), [](uint64_t x) { return double(x) * -0.5; }, "gather(double)"); break; }
                    case 7: { std::vector<float> in; for (size_t e = 0; e < q.len; e++) in.push_back(float(lst(r, e))); cmp(piol->comm->gather(in), [](uint64_t x) { return float(x); }, "gather(float)"); break; }
                    case 8: { nm = "gather of one"; auto out = piol->comm->gather<size_t>(val); bool ok = out.size() == m.size(); for (size_t i = 0; ok && i < m.size(); i++) ok &= out[i] == q.v[size_t(m[i])];
                        if (!ok) sim::violation("wrong-collective-value", fmt("rank %d call %zu: gather of one value gives a wrong list", r, k)); break; }
                    default: piol->comm->barrier(); break;
                }
                if (got != want) sim::violation("wrong-collective-value", fmt("rank %d call %zu: %s is %zu instead of %zu", r, k, nm, got, want));
                k++;
            }
            if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error", r));
        }
        if (!g.world) MPI_Comm_free(&c);
    });
    if (g.nr > 1) nontrivial();
}
// Each group runs its own work on its own communicator and files.
SCENARIO(C13, independent_groups, 4)
{
    Groups g = draw_groups(7, false);
    std::string d = g.str();
    std::vector<std::vector<int>> mem;
    std::vector<WPlan> wp;
    std::vector<SegY> in;
    std::vector<RPlan> rp;
    std::vector<SortCase> sc;
    std::vector<std::vector<Run>> runs;
    std::vector<std::vector<SortOut>> so;
    std::vector<std::vector<int>> todo;
    long chunk = 0;
    bool any = false;
    auto rule = draw_rule();
    for (int k = 0; k < g.ng; k++) {
        mem.push_back(g.members(k));
        int n = std::max<int>(1, int(mem.back().size()));
        WOpts o;
        o.max_nt = 10; o.max_ns = 5; o.max_ops = 2;
        WPlan p = gen_wplan(n, o);
        p.name = fmt("out%d.segy", k);
        chunk = std::max({chunk, sim::knob_chunk, long(2 * dosz(p.ns))});
        any |= sim::knob_chunk != 0;
        wp.push_back(p);
        SegY f = gen_segy(1 + W.draw(8), W.draw(5), 1 + W.draw(100000), 5);
        auto rn = gen_runs(4, 3);
        size_t i = 0;
        for (auto& q : rn) for (size_t e = 0; e < q.n; e++, i++) { if (i < f.t.size()) { f.t[i].h.il = 10 + std::abs(int(q.il % 3)); f.t[i].h.xl = 1 + std::abs(int(q.xl % 3)); } }
        for (; i < f.t.size(); i++) { f.t[i].h.il = 12; f.t[i].h.xl = 3; }
        in.push_back(f);
        rp.push_back(gen_rplan(n, f.t.size(), 2, false));
        sc.push_back(gen_sort(n));
        so.push_back(std::vector<SortOut>(static_cast<size_t>(n)));
        std::vector<int> t;
        int steps = 1 + int(W.draw(4));
        for (int q = 0; q < steps; q++) t.push_back(int(W.draw(f.ns ? 8 : 7)));
        std::sort(t.begin(), t.end());
        t.erase(std::unique(t.begin(), t.end()), t.end());
        if (W.draw(2)) std::reverse(t.begin(), t.end());
        todo.push_back(t);
        sim::fs.put(fmt("in%d.segy", k)) = encode(f);
        if (p.has_prefill) sim::fs.put(p.name) = p.prefill;
        d += fmt(" | %zu:", mem.back().size());
        for (int q : t) d += fmt(" %d", q);
    }
    // a velocity model for all of them
    SegY vm = gen_segy(9, 1 + W.draw(4), 1 + W.draw(1000), 5);
    for (size_t i = 0; i < 9; i++) {
        vm.t[i].h.il = int(10 + i / 3);
        vm.t[i].h.xl = int(1 + i % 3);
        for (auto& x : vm.t[i].s) x = float(1 + h64(i, vm.ns) % 9);
    }
    sim::fs.put("vm.segy") = encode(vm);
    size_t vbin = 1 + W.draw(3), angles = 1 + W.draw(4);
    auto angle = [&](std::shared_ptr<P::ExSeisPIOL> piol, int k, const char* prefix) {
        exseis::Flow::Set set(piol);
        set.add(fmt("in%d.segy", k));
        if (angles % 2) set.sort(PIOL_SORTTYPE_SrcRcv);   // goes through a file of its own
        set.toAngle("vm.segy", vbin, angles, 0.01);
        return set.output(fmt("%s%d", prefix, k));
    };
    chunk = std::max(chunk, long(2 * dosz(vm.ns)));
    for (auto& f : in) chunk = std::max(chunk, long(2 * dosz(f.ns)));
    sim::knob_chunk = any ? chunk : 0;
    sample(d);
    sim::swarm_config(g.nr);
    if (!run_job("independent groups", g.nr, [&](int r) {
            MPI_Comm c = split(g, r);
            int k = g.color[size_t(r)];
            auto& m = mem[size_t(k)];
            int me = int(std::find(m.begin(), m.end(), r) - m.begin()), n = int(m.size());
            {
                auto piol = new_piol(c);
                auto& f = in[size_t(k)];
                for (int q : todo[size_t(k)]) {
                    if (q == 0) do_wplan(wp[size_t(k)], piol, me, n, false);
                    else if (q == 1) {
                        auto file = P::makeFile<P::ReadSEGY>(piol, fmt("in%d.segy", k));
                        for (auto& o : rp[size_t(k)].ops) {
                            std::string e = do_rop(o, f, file.get(), me);
                            if (!e.empty()) sim::violation("group-wrong-read", fmt("rank %d: ", r) + e);
                        }
                    } else if (q == 2) do_sort(sc[size_t(k)], rule, piol, me, so[size_t(k)][size_t(me)]);
                    else if (q == 3) {
                        auto file = P::makeFile<P::ReadSEGY>(piol, fmt("in%d.segy", k));
                        auto gi = P::getIlXlGathers(piol.get(), file.get());
                        size_t tot = 0;
                        for (size_t i = 0; i < gi.size(); i++) tot += gi[i].num_traces;
                        if (tot != f.t.size()) sim::violation("group-wrong-gathers", fmt("rank %d: the gathers of its group hold %zu traces instead of %zu", r, tot, f.t.size()));
                    } else if (q == 5) {
                        // the direct interfaces, of any file and of models
                        std::shared_ptr<P::ReadDirect> in2;
                        if (wp[size_t(k)].salt & 1) in2 = std::make_shared<P::ReadDirect>(piol, fmt("in%d.segy", k));
                        else in2 = std::make_shared<P::ReadModel>(piol, fmt("in%d.segy", k));
                        auto cut = U::block_decomposition(f.t.size(), size_t(n), size_t(me));
                        std::vector<float> x(cut.local_size * f.ns);
                        in2->readTrace(cut.global_offset, cut.local_size, x.data());
                        for (size_t i = 0; i < x.size(); i++)
                            if (memcmp(&x[i], &f.t[cut.global_offset + i / f.ns].s[i % f.ns], 4))
                                sim::violation("group-wrong-read", fmt("rank %d: sample %zu of trace %zu is wrong through a direct interface", r, i % f.ns, cut.global_offset + i / f.ns));
                    } else if (q == 6) {
                        exseis::Flow::Set set(piol);
                        set.add(fmt("in%d.segy", k));
                        set.sort(PIOL_SORTTYPE_SrcRcv);
                        auto names = set.output(fmt("flow%d", k));
                        if (names != std::vector<std::string>{fmt("flow%d.segy", k)}) sim::violation("group-wrong-file", fmt("rank %d: the flow of its group names %zu output files", r, names.size()));
                    } else if (q == 7) {
                        auto names = angle(piol, k, "ang");
                        if (names != std::vector<std::string>{fmt("ang%d.segy", k)}) sim::violation("group-wrong-file", fmt("rank %d: the gather flow of its group names %zu output files", r, names.size()));
                    } else {
                        std::vector<XY> v;
                        for (auto& t : f.t) v.push_back({t.h.c[0], t.h.c[1]});
                        auto cut = U::block_decomposition(v.size(), size_t(n), size_t(me));
                        P::CoordElem mm[4];
                        P::getMinMax<XY>(piol.get(), cut.global_offset, cut.local_size, v.data() + cut.global_offset, [](const XY& p) { return p.x; }, [](const XY& p) { return p.y; }, mm);
                        check_minmax(v, mm, r, "min/max of a group");
                    }
                }
                if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
            }
            MPI_Comm_free(&c);
        })) return;
    if (g.ng > 1) nontrivial();
    for (int k = 0; k < g.ng && !failed(); k++) {
        if (mem[size_t(k)].empty()) continue;
        for (int q : todo[size_t(k)]) {
            if (q == 0) {
                Bytes got = sim::fs.get(wp[size_t(k)].name);
                std::string e = diff_bytes(got, model_bytes(wp[size_t(k)], &got), wp[size_t(k)].ns);
                if (!e.empty()) sim::note_violation("group-wrong-file", wp[size_t(k)].name + ": " + e);
            } else if (q == 2) check_sort(sc[size_t(k)], so[size_t(k)], int(mem[size_t(k)].size()), "group-wrong-sort");
            else if (q == 6) {
                auto w = in[size_t(k)].t;
                std::stable_sort(w.begin(), w.end(), [](const Trc& a, const Trc& b) { return sort_key(PIOL_SORTTYPE_SrcRcv, a.h) < sort_key(PIOL_SORTTYPE_SrcRcv, b.h); });
                SegY got;
                std::string why;
                if (!decode(sim::fs.get(fmt("flow%d.segy", k)), got, why)) return sim::note_violation("group-wrong-file", fmt("flow%d.segy: ", k) + why);
                std::string e = diff_traces(got.t, w, true, 0);
                if (!e.empty()) return sim::note_violation("group-wrong-file", fmt("flow%d.segy ", k) + e);
            } else if (q == 7) {
                if (!run_serial("the gather flow of a group by one process", [&](int) { angle(new_piol(), k, "alone"); })) return;
                std::string one = fmt("alone%d.segy", k), got = fmt("ang%d.segy", k);
                if (!sim::fs.has(one) || !sim::fs.has(got)) return sim::note_violation("group-wrong-file", got + " does not exist");
                std::string e = diff_bytes(sim::fs.get(got), sim::fs.get(one), in[size_t(k)].ns);
                if (!e.empty()) return sim::note_violation("group-wrong-file", got + " differs from what one process writes: " + e);
            }
        }
        if (sim::fs.get(fmt("in%d.segy", k)) != encode(in[size_t(k)])) sim::note_violation("input-modified", fmt("in%d.segy was changed", k));
    }
}

// -------------------------------------------------------------------- C03 ---
// Any sequence of collective library calls with arbitrary, unequal shares.
// The simulator itself judges: hang, livelock, mismatched collectives, lost
// messages, buffers touched while in transfer, lock misuse.
SCENARIO(C03, sequences, 4)
{
    int nr = draw_ranks(7, 2);
    int steps = 1 + int(W.draw(5));
    struct Step { int what; WPlan w; SegY in; RPlan r; SortCase s; std::vector<Run> runs; bool coll; };
    std::vector<Step> st(static_cast<size_t>(steps));
    long chunk = 0;
    bool any = false;
    auto rule = draw_rule();
    std::string d = fmt("%d ranks", nr);
    for (int i = 0; i < steps; i++) {
        Step& s = st[size_t(i)];
        s.what = int(W.draw(6));
        s.coll = W.draw(3) != 2;
        WOpts o;
        o.max_nt = 14; o.max_ns = 6; o.max_ops = 3;
        if (s.what == 0) {
            s.w = gen_wplan(nr, o);
            s.w.name = fmt("w%d.segy", i);
            chunk = std::max({chunk, sim::knob_chunk, long(2 * dosz(s.w.ns))});
            any |= sim::knob_chunk != 0;
            if (s.w.has_prefill) sim::fs.put(s.w.name) = s.w.prefill;
        } else if (s.what == 1 || s.what == 4 || s.what == 5) {
            s.in = gen_segy(W.draw(14), W.draw(6), 1 + W.draw(100000), 5);
            s.r = gen_rplan(nr, s.in.t.size(), 3);
            sim::fs.put(fmt("r%d.segy", i)) = encode(s.in);
            chunk = std::max(chunk, long(2 * dosz(s.in.ns)));
            if (W.draw(2)) any = true;
        } else s.s = gen_sort(nr);
        d += fmt(" %d", s.what);
    }
    sim::knob_chunk = any ? chunk : 0;
    sample(d);
    sim::swarm_config(nr);
    run_job("sequence", nr, [&](int r) {
        auto piol = new_piol();
        for (int i = 0; i < steps; i++) {
            Step& s = st[size_t(i)];
            std::string nm = fmt("r%d.segy", i);
            switch (s.what) {
                case 0: do_wplan(s.w, piol, r, nr, false); break;
                case 1: {
                    auto f = P::makeFile<P::ReadSEGY>(piol, nm);
                    for (auto& o : s.r.ops) do_rop(o, s.in, f.get(), r, false);
                    break;
                }
                case 2: { SortOut o; do_sort(s.s, rule, piol, r, o); break; }
                case 3: {
                    size_t n = s.s.sh.n(r), off = s.s.sh.off(r);
                    std::vector<XY> v(n, XY{1. * r, 2.});
                    P::CoordElem mm[4];
                    P::getMinMax<XY>(piol.get(), off, n, v.data(), [](const XY& p) { return p.x; }, [](const XY& p) { return p.y; }, mm);
                    break;
                }
                case 4: {
                    auto f = P::makeFile<P::ReadSEGY>(piol, nm);
                    auto g = P::getIlXlGathers(piol.get(), f.get());
                    for (size_t k = 0; k < g.size(); k++) if (h64(k, uint64_t(r)) & 1) (void)P::Gather_info(g[k]);
                    break;
                }
                default: {
                    P::ReadDirect in(piol, nm);
                    auto dec = U::block_decomposition(in.readNt(), size_t(nr), size_t(r));
                    P::checkOrder((P::ReadInterface*)in, dec, P::SortType(sort_types[h64(77, uint64_t(i)) % 9]));
                    break;
                }
            }
        }
    });
    nontrivial();
}
