// C21: header values carried by rules.  Files with arbitrary trace headers are
// read, copied between parameter structures, modified and written with rules
// put together in arbitrary ways, and every byte of the headers which arrive is
// compared with an independent model of the SEG-Y trace header.
#include "io.hh"

#include "ExSeisDat/PIOL/Rule.hh"
#include "ExSeisDat/PIOL/SEGYRuleEntry.hh"

#include <algorithm>
#include <cmath>
#include <map>

namespace pu = P::param_utils;
namespace U = exseis::utils;
typedef P::Meta Meta;

namespace {
struct Ent { char type; int loc, scal; };
typedef std::map<Meta, Ent> RModel;
const std::map<Meta, Ent> std_ent = {
    {PIOL_META_WtrDepSrc, {'F', 61, 69}}, {PIOL_META_WtrDepRcv, {'F', 65, 69}}, {PIOL_META_RGElev, {'F', 41, 69}},
    {PIOL_META_SSElev, {'F', 45, 69}}, {PIOL_META_SDElev, {'F', 49, 69}},
    {PIOL_META_xSrc, {'F', 73, 71}}, {PIOL_META_ySrc, {'F', 77, 71}}, {PIOL_META_xRcv, {'F', 81, 71}}, {PIOL_META_yRcv, {'F', 85, 71}},
    {PIOL_META_xCmp, {'F', 181, 71}}, {PIOL_META_yCmp, {'F', 185, 71}}, {PIOL_META_ShotNum, {'F', 197, 201}},
    {PIOL_META_il, {'L', 189, 0}}, {PIOL_META_xl, {'L', 193, 0}}, {PIOL_META_Offset, {'L', 37, 0}}, {PIOL_META_tn, {'L', 5, 0}},
    {PIOL_META_tnl, {'L', 1, 0}}, {PIOL_META_tnr, {'L', 13, 0}}, {PIOL_META_tne, {'L', 25, 0}}, {PIOL_META_SrcNum, {'L', 17, 0}},
    {PIOL_META_Tic, {'S', 29, 0}}, {PIOL_META_VStack, {'S', 31, 0}}, {PIOL_META_HStack, {'S', 33, 0}}, {PIOL_META_ns, {'S', 115, 0}},
    {PIOL_META_inc, {'S', 117, 0}}, {PIOL_META_TraceUnit, {'S', 203, 0}}, {PIOL_META_TransUnit, {'S', 211, 0}}};
const std::vector<Meta> def_list = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp,
    PIOL_META_Offset, PIOL_META_il, PIOL_META_xl, PIOL_META_tn};
const std::vector<Meta> extra_list = {PIOL_META_tnl, PIOL_META_tnr, PIOL_META_tne, PIOL_META_SrcNum, PIOL_META_Tic, PIOL_META_VStack,
    PIOL_META_HStack, PIOL_META_RGElev, PIOL_META_SSElev, PIOL_META_SDElev, PIOL_META_ns, PIOL_META_inc, PIOL_META_ShotNum,
    PIOL_META_TraceUnit, PIOL_META_TransUnit};
// fields of the standard which share a scaler
const std::map<int, std::vector<int>> group = {
    {69, {41, 45, 49, 53, 57, 61, 65}}, {71, {73, 77, 81, 85, 181, 185}}, {201, {197}}};
const int scal_locs[] = {69, 71, 201, 89};
const Meta all_metas[] = {PIOL_META_ltn, PIOL_META_gtn, PIOL_META_tnl, PIOL_META_tnr, PIOL_META_tn, PIOL_META_tne, PIOL_META_ns, PIOL_META_inc,
    PIOL_META_Tic, PIOL_META_SrcNum, PIOL_META_ShotNum, PIOL_META_VStack, PIOL_META_HStack, PIOL_META_Offset, PIOL_META_RGElev,
    PIOL_META_SSElev, PIOL_META_SDElev, PIOL_META_WtrDepSrc, PIOL_META_WtrDepRcv, PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv,
    PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp, PIOL_META_il, PIOL_META_xl, PIOL_META_TransUnit, PIOL_META_TraceUnit, PIOL_META_dsdr,
    PIOL_META_Misc1, PIOL_META_Misc2, PIOL_META_Misc3, PIOL_META_Misc4};
constexpr size_t n_metas = sizeof all_metas / sizeof *all_metas;

struct Step;
struct Prog {
    int ctor = 0;
    std::vector<Meta> mlist;
    bool full = true, defaults = true, extras = false;
    RModel map0;
    std::vector<Step> steps;
};
enum { A_META, A_RULE, A_LONG, A_SHORT, A_FLOAT, A_INDEX, A_COPY, A_RM, A_EXTENT };
struct Step { int kind = 0; Meta m = 0; int loc = 0, scal = 0; std::shared_ptr<Prog> sub; };

bool add_meta(RModel& r, Meta m)
{
    if (r.count(m)) return false;
    if (m == PIOL_META_COPY) { r[m] = {'C', 0, 0}; return true; }
    auto it = std_ent.find(m);
    if (it == std_ent.end()) return false;
    r[m] = it->second;
    return true;
}
RModel start_model(const Prog& p)
{
    if (p.ctor == 2) return p.map0;
    RModel r;
    r[PIOL_META_gtn] = {'I', 0, 0};
    r[PIOL_META_ltn] = {'I', 0, 0};
    for (auto m : p.mlist) add_meta(r, m);
    if (p.defaults) for (auto m : def_list) add_meta(r, m);
    if (p.extras) for (auto m : extra_list) add_meta(r, m);
    return r;
}
RModel eval(const Prog& p);
void apply_step(RModel& r, const Step& s)
{
    switch (s.kind) {
        case A_META: add_meta(r, s.m); break;
        case A_RULE: for (auto& e : eval(*s.sub)) r.insert(e); break;
        case A_LONG: r[s.m] = {'L', s.loc, 0}; break;
        case A_SHORT: r[s.m] = {'S', s.loc, 0}; break;
        case A_FLOAT: r[s.m] = {'F', s.loc, s.scal}; break;
        case A_INDEX: r[s.m] = {'I', 0, 0}; break;
        case A_COPY: r[PIOL_META_COPY] = {'C', 0, 0}; break;
        case A_RM: r.erase(s.m); break;
        default: break;
    }
}
RModel eval(const Prog& p)
{
    RModel r = start_model(p);
    for (auto& s : p.steps) apply_step(r, s);
    return r;
}
int len_of(const Ent& e) { return e.type == 'S' ? 2 : e.type == 'L' || e.type == 'F' ? 4 : 0; }
/// Do the places of a rule overlap (other than a shared scaler)?
bool conflict(const RModel& r)
{
    std::vector<int> own(241, 0);
    std::vector<bool> sc(241, false);
    for (auto& e : r) {
        if (e.second.type == 'F') for (int k = 0; k < 2; k++) sc[size_t(e.second.scal + k)] = true;
        for (int k = 0; k < len_of(e.second); k++)
            if (own[size_t(e.second.loc + k)]++) return true;
    }
    for (size_t i = 0; i < own.size(); i++) if (own[i] && sc[i]) return true;
    return false;
}
size_t model_extent(const RModel& r, bool full)
{
    if (full) return MD;
    int lo = int(MD), hi = 0;
    bool any = false;
    for (auto& e : r) {
        int a = 0, b = int(MD);
        if (e.second.type == 'I') continue;
        if (e.second.type != 'C') {
            a = e.second.loc;
            b = a + len_of(e.second);
            if (e.second.type == 'F') { a = std::min(a, e.second.scal); b = std::max(b, e.second.scal + 2); }
        }
        any = true;
        lo = std::min(lo, a);
        hi = std::max(hi, b);
    }
    return any ? size_t(hi - lo) : 0;
}
int custom_loc()
{
    static const int odd[] = {41, 43, 45, 53, 57, 61, 73, 77, 85, 181, 185, 197, 199};
    if (W.draw(3) == 2) return odd[W.draw(sizeof odd / sizeof *odd)];
    return 119 + 4 * int(W.draw(15));
}
Meta any_meta() { return all_metas[W.draw(n_metas)]; }
Prog gen_prog(int depth)
{
    Prog p;
    p.ctor = int(W.pick({3, 3, 2}));
    p.full = W.draw(4) != 3;
    p.defaults = p.ctor == 0 ? W.draw(3) != 2 : W.draw(4) == 3;
    p.extras = W.draw(5) == 4;
    if (p.ctor == 1) {
        size_t n = W.draw(7);
        for (size_t i = 0; i < n; i++) p.mlist.push_back(W.draw(8) == 7 ? Meta(PIOL_META_COPY) : any_meta());
    } else if (p.ctor == 2) {
        size_t n = 1 + W.draw(8);
        for (size_t i = 0; i < n; i++) {
            Meta m = any_meta();
            RModel t = p.map0;
            int c = int(W.draw(4));
            if (c == 0) add_meta(t, PIOL_META_COPY);
            else if (c == 1) t[m] = {'I', 0, 0};
            else if (c == 2 && m >= PIOL_META_dsdr) t[m] = {'L', custom_loc(), 0};
            else add_meta(t, m);
            if (!conflict(t)) p.map0 = t;
        }
    }
    RModel r = start_model(p);
    size_t n = W.draw(7);
    for (size_t i = 0; i < n; i++) {
        Step s;
        s.kind = int(W.pick({4, depth ? 0 : 2, 2, 2, 4, 1, 3, 3, 1}));
        s.m = any_meta();
        if (s.kind == A_RM && r.size() && W.draw(3)) {
            auto it = r.begin();
            std::advance(it, long(W.draw(uint32_t(r.size()))));
            s.m = it->first;
        }
        if (s.kind == A_META && W.draw(10) == 9) s.m = PIOL_META_COPY;
        // the trace numbers of the library are no values of the file
        if ((s.kind == A_LONG || s.kind == A_SHORT || s.kind == A_FLOAT) && (s.m == PIOL_META_ltn || s.m == PIOL_META_gtn)) s.m = PIOL_META_Misc1;
        s.loc = custom_loc();
        s.scal = scal_locs[W.draw(4)];
        if (s.kind == A_RULE) s.sub = std::make_shared<Prog>(gen_prog(1));
        RModel t = r;
        apply_step(t, s);
        if (conflict(t)) continue;
        r = t;
        p.steps.push_back(s);
    }
    return p;
}
std::string str(const RModel& r)
{
    std::string s = "{";
    for (auto& e : r) {
        if (s.size() > 1) s += " ";
        s += fmt("%zu:%c", e.first, e.second.type);
        if (e.second.loc) s += fmt("%d", e.second.loc);
        if (e.second.type == 'F') s += fmt("/%d", e.second.scal);
    }
    return s + "}";
}
/// The same program with the library
void lib_steps(P::Rule& r, RModel m, const Prog& p);
std::shared_ptr<P::Rule> lib_rule(const Prog& p)
{
    std::shared_ptr<P::Rule> r;
    if (p.ctor == 0) r = std::make_shared<P::Rule>(p.full, p.defaults, p.extras);
    else if (p.ctor == 1) r = std::make_shared<P::Rule>(p.mlist, p.full, p.defaults, p.extras);
    else {
        P::Rule::RuleMap m;
        size_t nl = 0, ns = 0, nf = 0, ni = 0;
        for (auto& e : p.map0)
            switch (e.second.type) {
                case 'L': m[e.first] = new P::SEGYLongRuleEntry(nl++, P::Tr(e.second.loc)); break;
                case 'S': m[e.first] = new P::SEGYShortRuleEntry(ns++, P::Tr(e.second.loc)); break;
                case 'F': m[e.first] = new P::SEGYFloatRuleEntry(nf++, P::Tr(e.second.loc), P::Tr(e.second.scal)); break;
                case 'I': m[e.first] = new P::SEGYIndexRuleEntry(ni++); break;
                default: m[e.first] = new P::SEGYCopyRuleEntry(); break;
            }
        r = std::make_shared<P::Rule>(m, p.full);
    }
    lib_steps(*r, start_model(p), p);
    return r;
}
void lib_steps(P::Rule& r, RModel m, const Prog& p)
{
    for (auto& s : p.steps) {
        bool want = false, got = false;
        switch (s.kind) {
            case A_META: {
                RModel t = m;
                want = add_meta(t, s.m);
                got = r.addRule(s.m);
                break;
            }
            case A_RULE: { auto sub = lib_rule(*s.sub); want = true; got = r.addRule(*sub); break; }
            case A_LONG: r.addLong(s.m, P::Tr(s.loc)); break;
            case A_SHORT: r.addShort(s.m, P::Tr(s.loc)); break;
            case A_FLOAT: r.addSEGYFloat(s.m, P::Tr(s.loc), P::Tr(s.scal)); break;
            case A_INDEX: r.addIndex(s.m); break;
            case A_COPY: r.addCopy(); break;
            case A_RM: r.rmRule(s.m); break;
            default: break;
        }
        apply_step(m, s);
        if (got != want) sim::violation("rule-not-as-built", fmt("adding entry %zu to a rule returned %d instead of %d", s.m, got, want));
        if (s.kind == A_EXTENT) {
            size_t e = r.extent(), w = model_extent(m, p.full);
            if (e != w) sim::violation("rule-extent", fmt("the extent of the rule %s is %zu instead of %zu bytes", str(m).c_str(), e, w));
        }
    }
    size_t e = r.extent(), w = model_extent(m, p.full);
    if (e != w) sim::violation("rule-extent", fmt("the extent of the rule %s is %zu instead of %zu bytes", str(m).c_str(), e, w));
}

// ------------------------------------------------------------ the values ----
struct Val { double f; int64_t i; };
struct PV { std::map<Meta, Val> v; Bytes c; };   // one entry of a Param
double scale_of(int s) { return s == 0 ? 1.0 : s > 0 ? double(s) : 1.0 / double(-s); }
Val dec_ent(const unsigned char* h, const Ent& e)
{
    Val v{0, 0};
    if (e.type == 'F') v.f = scale_of(get16(h + e.scal - 1)) * get32(h + e.loc - 1);
    else if (e.type == 'L') v.i = get32(h + e.loc - 1);
    else if (e.type == 'S') v.i = int16_t(get16(h + e.loc - 1));
    return v;
}
PV blank(const RModel& r)
{
    PV p;
    for (auto& e : r) p.v[e.first] = Val{0, 0};
    p.c.assign(MD, 0);
    return p;
}
void extract(PV& p, const RModel& r, const unsigned char* h)
{
    for (auto& e : r)
        if (e.second.type == 'F' || e.second.type == 'L' || e.second.type == 'S') p.v[e.first] = dec_ent(h, e.second);
    if (r.count(PIOL_META_COPY)) p.c.assign(h, h + MD);
}
void copy_entry(const PV& s, const RModel& sr, PV& d, const RModel& dr)
{
    if (sr.count(PIOL_META_COPY)) extract(d, dr, s.c.data());
    for (auto& e : sr) {
        auto it = dr.find(e.first);
        if (it != dr.end() && it->second.type == e.second.type && e.second.type != 'C') d.v[e.first] = s.v.at(e.first);
    }
}
bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }
std::string cmp_entry(P::Param* p, size_t i, const PV& w, const RModel& r)
{
    for (auto& e : r) {
        const Val& v = w.v.at(e.first);
        if (e.second.type == 'F') {
            double g = pu::getPrm<double>(i, e.first, p);
            if (!close(g, v.f)) return fmt("entry %zu of the rule is %.12g instead of %.12g", e.first, g, v.f);
        } else if (e.second.type != 'C') {
            int64_t g = pu::getPrm<U::Integer>(i, e.first, p);
            if (g != v.i) return fmt("entry %zu of the rule is %lld instead of %lld", e.first, (long long)g, (long long)v.i);
        }
    }
    return "";
}
bool storable(double v, double s) { double q = v / s; return q < 2147483647.5 && q > -2147483648.5; }
/// Compare a header of the written file with what the entry asks for.
std::string cmp_header(const unsigned char* got, const PV& w, const RModel& r)
{
    bool copy = r.count(PIOL_META_COPY);
    Bytes base = copy ? w.c : Bytes(MD, 0);
    std::vector<char> free_byte(MD, 0);   // judged by value
    std::map<int, std::vector<std::pair<int, double>>> g;
    std::vector<char> ruled(MD + 8, 0);
    for (auto& e : r) {
        const Ent& t = e.second;
        const Val& v = w.v.at(e.first);
        for (int k = 0; k < len_of(t); k++) { free_byte[size_t(t.loc - 1 + k)] = 1; ruled[size_t(t.loc + k)] = 1; }
        if (t.type == 'F') {
            free_byte[size_t(t.scal - 1)] = free_byte[size_t(t.scal)] = 1;
            ruled[size_t(t.scal)] = ruled[size_t(t.scal + 1)] = 1;
            g[t.scal].push_back({t.loc, v.f});
        } else if (t.type == 'L') {
            if (get32(got + t.loc - 1) != int32_t(v.i)) return fmt("bytes %d-%d hold %d instead of %lld", t.loc, t.loc + 3, get32(got + t.loc - 1), (long long)v.i);
        } else if (t.type == 'S') {
            if (int16_t(get16(got + t.loc - 1)) != int16_t(v.i)) return fmt("bytes %d-%d hold %d instead of %lld", t.loc, t.loc + 1, int16_t(get16(got + t.loc - 1)), (long long)v.i);
        }
    }
    for (auto& q : g) {
        if (copy && group.count(q.first))
            for (int loc : group.at(q.first)) {
                bool ov = false;
                for (int k = 0; k < 4; k++) ov = ov || ruled[size_t(loc + k)];
                if (ov) continue;
                q.second.push_back({loc, scale_of(get16(&base[size_t(q.first - 1)])) * get32(&base[size_t(loc - 1)])});
                for (int k = 0; k < 4; k++) free_byte[size_t(loc - 1 + k)] = 1;
            }
        double fit = 0;
        for (double s : {1e-4, 1e-3, 1e-2, 1e-1, 1.0, 10.0, 100.0, 1000.0, 10000.0}) {
            bool ok = true;
            for (auto& x : q.second) ok = ok && storable(x.second, s);
            if (ok) { fit = s; break; }
        }
        if (fit == 0) continue;   // no scaler can hold the values
        double sc = scale_of(get16(got + q.first - 1));
        for (auto& x : q.second) {
            double v = sc * get32(got + x.first - 1);
            double k = std::round(x.second / fit);
            bool exact = std::fabs(x.second - k * fit) <= 1e-9 * std::max(1.0, std::fabs(x.second));
            bool ok = exact ? close(v, x.second) : std::fabs(v - x.second) <= 0.5 * fit * (1 + 1e-6) + 1e-9 * std::max(1.0, std::fabs(x.second));
            if (!ok) {
                bool ru = ruled[size_t(x.first)];
                return fmt("%s at byte %d is %.12g instead of %.12g (scaler %d at byte %d; %zu values share it and a unit of %g holds them all)",
                    ru ? "the value" : "the copied value", x.first, v, x.second, int16_t(get16(got + q.first - 1)), q.first, q.second.size(), fit);
            }
        }
    }
    for (size_t b = 0; b < MD; b++)
        if (!free_byte[b] && got[b] != base[b]) return fmt("byte %zu, which the rule does not cover, is %02x instead of %02x", b + 1, got[b], base[b]);
    return "";
}
double gen_value(uint64_t h)
{
    int cls = int(h % 6);
    h >>= 8;
    double m = cls == 0 ? double(h % 2000) - 1000 : cls == 1 ? double(h % 2000000) - 1000000 : cls == 2 ? double(h % 600000000) - 300000000
        : cls == 3 ? double(int32_t(h)) : cls == 4 ? double(int64_t(h % 40000000000ull) - 20000000000ll) : double(h % 20000) - 10000;
    int d = int((h >> 40) % 6);
    if (cls < 4 && d < 5) m /= std::pow(10.0, d);
    if (cls == 5) m += double((h >> 44) % 1000003) / 1000003.0;
    return m;
}
void gen_raw(unsigned char* h, uint64_t salt, size_t i)
{
    for (size_t k = 0; k < MD; k++) h[k] = (unsigned char)h64(salt, i, k);
    int mag = int(h64(salt, i, 500) % 4);
    auto val = [&](int loc) {
        uint64_t x = h64(salt, i, 600 + uint64_t(loc));
        int32_t v = int32_t(x >> 20);
        int m = mag == 3 ? int(x % 3) : mag;
        if (m == 0) v %= 1000;
        if (m == 1) v %= 1000000;
        put32(h + loc - 1, v);
    };
    for (auto& g : group) for (int l : g.second) val(l);
    for (int l = 119; l < 179; l += 4) val(l);
    static const int sc[] = {0, 1, -1, 10, -10, 100, -100, 1000, -1000, 10000, -10000};
    for (int l : scal_locs) put16(h + l - 1, sc[h64(salt, i, 700 + uint64_t(l)) % 11]);
}
}  // namespace

SCENARIO(C21, header_values, 1)
{
    int nr = draw_ranks(4);
    sim::swarm_config(nr);
    size_t nt = size_t(W.range(1, 14)), ns = size_t(W.range(0, 6));
    uint64_t salt = 1 + W.draw(1000000);
    SegY f = gen_segy(nt, ns, salt, 5);
    Bytes in = encode(f);
    for (size_t i = 0; i < nt; i++) gen_raw(&in[HO + i * dosz(ns)], salt, i);
    Prog p1 = gen_prog(0), p2 = gen_prog(0);
    bool twice = W.draw(2);               // through a second structure
    bool same_obj = twice && W.draw(5) == 4;
    RModel r1 = eval(p1), r2 = same_obj ? r1 : eval(p2);
    const RModel& ro = twice ? r2 : r1;
    // output trace t comes from input trace from[t]
    size_t no = size_t(W.range(1, 16));
    std::vector<size_t> from(no);
    for (auto& x : from) x = W.draw(uint32_t(nt));
    bool contig_out = W.draw(2);
    std::vector<std::vector<size_t>> share(static_cast<size_t>(nr));
    if (contig_out) {
        auto cut = random_cuts(no, nr);
        for (size_t r = 0; r < size_t(nr); r++) for (size_t t = cut[r]; t < cut[r + 1]; t++) share[r].push_back(t);
    } else {
        auto own = random_owners(no, nr);
        for (size_t t = 0; t < no; t++) share[size_t(own[t])].push_back(t);
    }
    bool in_order = W.draw(3) == 2;        // read one contiguous range per rank
    if (in_order)
        for (auto& s : share)
            for (size_t k = 0; k < s.size(); k++) from[s[k]] = (from[s[0]] + k) % nt;
    int rkind = W.draw(2) ? K_HDR : K_BOTH, wkind = W.draw(2) ? K_HDR : K_BOTH;
    size_t rskip = W.draw(3), wskip = twice ? W.draw(3) : rskip;
    bool coll = W.draw(3) != 2;
    draw_chunk(ns);
    // modifications
    uint32_t dens = W.draw(4);
    auto modified = [&](size_t t, Meta m) { return dens && h64(salt, 9000 + t, m) % 8 < dens; };
    auto new_val = [&](size_t t, Meta m, char type) {
        uint64_t x = h64(salt, 8000 + t, m);
        Val v{0, 0};
        if (type == 'F') v.f = gen_value(x);
        else if (type == 'L') v.i = (x & 1) ? int32_t(x >> 16) : int64_t((x >> 16) % 2000) - 1000;
        else if (type == 'S') v.i = int16_t(x >> 16);
        return v;
    };
    sample(fmt("%d ranks, %zu traces of %zu samples -> %zu, rule %s%s%s, read %s%s skip %zu, write %s%s skip %zu, chunk %ld, changes %u/8", nr, nt, ns, no,
        str(r1).c_str(), twice ? (same_obj ? " copied with the same rule" : " copied to rule ") : "", twice && !same_obj ? str(r2).c_str() : "",
        rkind == K_HDR ? "headers" : "traces", in_order ? " in order" : "", rskip, wkind == K_HDR ? "headers" : "traces", contig_out ? " contiguous" : "", wskip,
        sim::knob_chunk, dens));
    // expected contents of the entries which are written
    std::vector<PV> want1(no), wanto(no);
    for (size_t t = 0; t < no; t++) {
        want1[t] = blank(r1);
        extract(want1[t], r1, &in[HO + from[t] * dosz(ns)]);
        auto l = r1.find(PIOL_META_ltn);
        if (l != r1.end()) want1[t].v[PIOL_META_ltn].i = int64_t(from[t]);
        if (twice) { wanto[t] = blank(r2); copy_entry(want1[t], r1, wanto[t], r2); }
        else wanto[t] = want1[t];
    }
    std::vector<PV> final_v = wanto;
    for (size_t t = 0; t < no; t++)
        for (auto& e : ro)
            if ((e.second.type == 'F' || e.second.type == 'L' || e.second.type == 'S') && modified(t, e.first)) final_v[t].v[e.first] = new_val(t, e.first, e.second.type);
    sim::fs.put("in.segy") = in;
    auto job = [&](int r) {
        auto piol = new_piol();
        {
            auto R1 = lib_rule(p1);
            auto R2 = same_obj ? R1 : lib_rule(p2);
            const auto& sh = share[size_t(r)];
            size_t n = sh.size();
            P::Param a(R1, n + rskip);
            {
                P::DataMPIIO::Opt d;
                d.coll = coll;
                auto data = std::make_shared<P::DataMPIIO>(piol, "in.segy", d, P::FileMode::Read);
                auto obj = std::make_shared<P::ObjectSEGY>(piol, "in.segy", P::ObjectSEGY::Opt(), data, P::FileMode::Read);
                P::ReadSEGY file(piol, "in.segy", P::ReadSEGY::Opt(), obj);
                std::vector<float> trc(n * ns + 1);
                std::vector<size_t> pos;
                for (auto t : sh) pos.push_back(from[t]);
                // runs of increasing positions for the contiguous reader
                if (in_order) {
                    size_t done = n && pos[0] + n <= nt ? n : n ? nt - pos[0] : 0;
                    if (done > n) done = n;
                    for (int k = 0; k < 2; k++) {   // the range wraps round at most ...
                        size_t o = k == 0 ? (n ? pos[0] : 0) : 0, c = k == 0 ? done : std::min(n - done, nt);
                        if (rkind == K_HDR) file.readParam(o, c, &a, rskip + (k ? done : 0));
                        else file.readTrace(o, c, trc.data() + (k ? done * ns : 0), &a, rskip + (k ? done : 0));
                    }
                    size_t rest = done + std::min(n - done, nt);
                    std::vector<size_t> tail(pos.begin() + long(rest), pos.end());
                    file.readTraceNonMonotonic(tail.size(), tail.data(), rkind == K_HDR ? const_cast<float*>(P::TRACE_NULL) : trc.data() + rest * ns, &a, rskip + rest);
                } else
                    file.readTraceNonMonotonic(n, pos.data(), rkind == K_HDR ? const_cast<float*>(P::TRACE_NULL) : trc.data(), &a, rskip);
            }
            for (size_t k = 0; k < n; k++) {
                auto d = cmp_entry(&a, k + rskip, want1[sh[k]], r1);
                if (!d.empty()) sim::violation("wrong-header-value", fmt("rank %d, trace %zu read with %s: ", r, from[sh[k]], str(r1).c_str()) + d);
            }
            P::Param b(R2, twice ? n + wskip : 0);
            P::Param* o = twice ? &b : &a;
            if (twice) {
                // in any order
                for (size_t k = 0; k < n; k++) { size_t q = n - 1 - k; pu::cpyPrm(q + rskip, &a, q + wskip, &b); }
                for (size_t k = 0; k < n; k++) {
                    auto d = cmp_entry(&b, k + wskip, wanto[sh[k]], r2);
                    if (!d.empty()) sim::violation("wrong-copied-value", fmt("rank %d, trace %zu copied from %s to %s: ", r, from[sh[k]], str(r1).c_str(), str(r2).c_str()) + d);
                }
            }
            for (size_t k = 0; k < n; k++)
                for (auto& e : ro) {
                    if (!(e.second.type == 'F' || e.second.type == 'L' || e.second.type == 'S') || !modified(sh[k], e.first)) continue;
                    Val v = new_val(sh[k], e.first, e.second.type);
                    if (e.second.type == 'F') pu::setPrm(k + wskip, e.first, U::Floating_point(v.f), o);
                    else if (e.second.type == 'L') pu::setPrm(k + wskip, e.first, U::Integer(v.i), o);
                    else pu::setPrm(k + wskip, e.first, int16_t(v.i), o);
                }
            {
                P::DataMPIIO::Opt d;
                d.coll = coll;
                auto data = std::make_shared<P::DataMPIIO>(piol, "out.segy", d, P::FileMode::Write);
                auto obj = std::make_shared<P::ObjectSEGY>(piol, "out.segy", P::ObjectSEGY::Opt(), data, P::FileMode::Write);
                P::WriteSEGY file(piol, "out.segy", P::WriteSEGY::Opt(), obj);
                file.writeNs(ns);
                file.writeNt(no);
                std::vector<float> trc(n * ns + 1, 0.25f);
                if (contig_out) {
                    size_t at = n ? sh[0] : 0;
                    if (wkind == K_HDR) file.writeParam(at, n, o, wskip);
                    else file.writeTrace(at, n, trc.data(), o, wskip);
                } else {
                    if (wkind == K_HDR) file.writeParamNonContiguous(n, sh.data(), o, wskip);
                    else file.writeTraceNonContiguous(n, sh.data(), trc.data(), o, wskip);
                }
            }
        }
        if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
    };
    if (!run_job("rule", nr, job)) return;
    Bytes out = sim::fs.get("out.segy");
    if (out.size() < HO + no * dosz(ns)) { sim::note_violation("wrong-header-written", fmt("the file has %zu bytes", out.size())); return; }
    for (size_t t = 0; t < no; t++) {
        auto d = cmp_header(&out[HO + t * dosz(ns)], final_v[t], ro);
        if (!d.empty()) { sim::note_violation("wrong-header-written", fmt("trace %zu, from trace %zu, written with %s: ", t, from[t], str(ro).c_str()) + d); return; }
    }
    if (ro.count(PIOL_META_COPY)) sim::probe("copied_headers");
    if (twice) sim::probe("two_rules");
    nontrivial();
}
