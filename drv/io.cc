#include "io.hh"
#include <cmath>

static P::Param* const PNULL = PIOL_PARAM_NULL;
static exseis::utils::Trace_value* tnull() { return const_cast<exseis::utils::Trace_value*>(P::TRACE_NULL); }

size_t WPlan::furthest() const
{
    size_t m = 0;
    for (auto& o : ops) for (auto& s : o.share) for (auto t : s) m = std::max(m, t + 1);
    return m;
}
size_t WPlan::final_nt() const
{
    size_t f = furthest();
    if (explicit_when == 1 || explicit_when == 3) return std::max(f, explicit_nt);
    if (explicit_when == 2) return explicit_nt;
    return f;
}
std::string WPlan::describe() const
{
    static const char* kn[] = {"both", "hdr", "trc"};
    std::string s = fmt("%s: nt<=%zu ns=%zu int=%d chunk=%ld %s%s%s", name.c_str(), nt, ns, interval, sim::knob_chunk, coll ? "collective" : "independent",
        direct ? " direct" : "", has_prefill ? fmt(" over %zu bytes", prefill.size()).c_str() : "");
    if (explicit_when) s += fmt(" nt=%zu set %s", explicit_nt, explicit_when == 2 ? "last" : explicit_when == 1 ? "first" : "before ns");
    if (frac != 0) s += fmt(" interval %+g", frac);
    if (prens >= 0) s += fmt(" ns first %ld", prens);
    for (auto& o : ops) {
        s += fmt("; %s %s", kn[o.kind], o.list ? "list" : "contig");
        for (size_t r = 0; r < o.share.size(); r++) {
            s += fmt(" %zu:", r);
            if (o.share[r].empty()) s += "-";
            else if (!o.list) s += fmt("%zu+%zu", o.share[r][0], o.share[r].size());
            else for (size_t i = 0; i < o.share[r].size() && i < 12; i++) s += fmt("%s%zu", i ? "," : "", o.share[r][i]);
        }
    }
    return s;
}
void draw_chunk(size_t ns)
{
    size_t lo = 2 * dosz(ns);
    switch (W.draw(4)) {
        case 0: sim::knob_chunk = 0; break;
        case 1: sim::knob_chunk = long(lo); break;
        case 2: sim::knob_chunk = long(lo + W.draw(uint32_t(lo))); break;
        default: sim::knob_chunk = long(lo + W.draw(uint32_t(6 * lo))); break;
    }
}
SegY gen_segy(size_t nt, size_t ns, uint64_t salt, int format, bool ends)
{
    SegY f;
    f.ns = ns;
    f.interval = int(1 + h64(salt, 7) % 8000);
    if (h64(salt, 8) % 9 == 0) {   // whatever 16 bits can hold
        static const int ends[6] = {-1, -250, 32767, -32768, -32767, 32766};   // (0 is refused when writing)
        f.interval = ends[h64(salt, 10) % 6];
    }
    f.format = format;
    f.text = fmt("C 1 SYNTHETIC FILE %llu", (unsigned long long)(salt % 100000));
    f.text.resize(3200, ' ');
    for (size_t i = 0; i < nt; i++) {
        Trc t;
        t.h = gen_hdr(salt, i);
        for (size_t k = 0; k < ns; k++) t.s.push_back(format == 1 || !ends ? gen_smp(salt, i, k) : end_smp(salt, i, k));
        f.t.push_back(t);
    }
    return f;
}
WPlan gen_wplan(int nr, const WOpts& o)
{
    WPlan p;
    p.salt = 1 + W.draw(1000000);
    p.nt = size_t(W.range(1, o.max_nt));
    p.ns = size_t(W.range(0, o.max_ns));
    if (W.draw(12) == 11) p.ns = 40 + W.draw(200);
    if (big(o.max_nt > 12 ? 48 : 1u << 20)) {
        if (W.draw(2)) { p.nt = 200 + W.draw(300); p.ns %= 5; }
        else { p.nt = 1 + W.draw(3); p.ns = 16000 + W.draw(16768); }
    }
    p.interval = W.draw(8) == 7 ? 32767 : 1 + int(W.draw(9000));
    size_t tl = W.draw(4) == 3 ? 3200 : 1 + W.draw(120);
    for (size_t i = 0; i < tl; i++) p.text += char('A' + char(h64(p.salt, i) % 26));
    if (W.draw(4) == 3) {
        p.meta = 1 + int(W.draw(2));
        size_t pl = W.draw(4) == 3 ? 3100 + W.draw(200) : W.draw(150);
        for (size_t i = 0; i < pl; i++) p.pretext += char('a' + char(h64(p.salt + 3, i) % 26));
        if (W.draw(5) == 4) p.pretext = p.text + p.pretext;                                  // the final text is the start of the first one
        else if (W.draw(5) == 4) p.pretext = p.text.substr(0, W.draw(uint32_t(p.text.size()))); // or the other way around
        uint32_t pi = W.draw(3);
        p.preinterval = pi == 0 ? 1 + int(W.draw(9000)) : pi == 1 ? p.interval : p.interval + (p.interval < 32767 ? 1 : -1);
    }
    if (W.draw(4) == 3) p.frac = (double(W.draw(91)) - 45) / 100;
    if (W.draw(12) == 11) p.interval = -p.interval;
    if (W.draw(6) == 5) p.prens = long(W.draw(uint32_t(o.max_ns) + 3));
    p.coll = W.draw(3) != 2;
    p.direct = W.draw(3) == 2;
    if (!(p.direct && p.coll) && W.draw(6) == 5) p.unit = W.draw(2) ? 1e-3 : 2.5e-7;
    p.oh.assign(p.nt, -1);
    p.os.assign(p.nt, -1);
    int nops = W.draw(12) == 11 ? 0 : int(W.range(1, o.max_ops));
    for (int k = 0; k < nops; k++) {
        WOp op;
        op.kind = int(W.pick({5, 2, 2}));
        op.list = o.allow_lists && W.draw(2);
        op.share.resize(size_t(nr));
        op.skip = W.draw(4) == 3 ? 1 + W.draw(3) : 0;
        auto allowed = [&](size_t t, int r) {
            return (op.kind == K_TRC || p.oh[t] == -1 || p.oh[t] == r) && (op.kind == K_HDR || p.os[t] == -1 || p.os[t] == r);
        };
        auto take = [&](size_t t, int r) {
            if (op.kind != K_TRC) p.oh[t] = r;
            if (op.kind != K_HDR) p.os[t] = r;
            op.share[size_t(r)].push_back(t);
        };
        if (op.list) {
            auto own = random_owners(p.nt, nr);
            uint32_t dens = 1 + W.draw(4);  // 1..4 of 4 traces written
            for (size_t t = 0; t < p.nt; t++)
                if (W.draw(4) < dens && allowed(t, own[t])) take(t, own[t]);
        } else {
            auto cut = random_cuts(p.nt, nr);
            std::vector<int> perm(static_cast<size_t>(nr));
            std::iota(perm.begin(), perm.end(), 0);
            if (W.draw(3) == 2) for (size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[W.draw(uint32_t(i))]);
            for (int b = 0; b < nr; b++) {
                int r = perm[size_t(b)];
                size_t lo = cut[size_t(b)], hi = cut[size_t(b) + 1];
                if (hi > lo && W.draw(4) == 3) hi = lo + W.draw(uint32_t(hi - lo + 1));
                for (size_t t = lo; t < hi && allowed(t, r); t++) take(t, r);
            }
        }
        p.ops.push_back(op);
    }
    p.explicit_when = int(W.pick({8, 2, 2, 1}));
    p.explicit_nt = p.furthest() + W.draw(4);
    if (o.allow_prefill && W.draw(2)) {
        p.has_prefill = true;
        size_t full = HO + p.nt * dosz(p.ns);
        size_t sz = 0;
        switch (W.draw(5)) {
            case 0: sz = W.draw(HO); break;
            case 1: sz = full; break;
            case 2: sz = full + 1 + W.draw(3000); break;
            default: sz = W.draw(uint32_t(full + 1)); break;
        }
        p.prefill.resize(sz);
        for (size_t i = 0; i < sz; i++) p.prefill[i] = (unsigned char)(h64(p.salt, 31337, i / 8) >> (8 * (i % 8)));
    }
    draw_chunk(p.ns);
    return p;
}
Hdr plan_hdr(const WPlan& p, size_t op, size_t t) { return gen_hdr(p.salt * 131 + op, t); }
float plan_smp(const WPlan& p, size_t op, size_t t, size_t k) { return end_smp(p.salt * 131 + op, t, k); }

std::shared_ptr<P::WriteInterface> open_writer(const WPlan& p, std::shared_ptr<P::ExSeisPIOL> piol, MPI_Comm c)
{
    if (p.direct && p.coll && p.unit == 1e-6) return std::shared_ptr<P::WriteInterface>(P::makeFile<P::WriteSEGY>(piol, p.name));
    P::DataMPIIO::Opt d;
    d.coll = p.coll;
    d.fcomm = c == MPI_COMM_WORLD ? piol->comm->getComm() : c;
    auto data = std::make_shared<P::DataMPIIO>(piol, p.name, d, P::FileMode::Write);
    auto obj = std::make_shared<P::ObjectSEGY>(piol, p.name, P::ObjectSEGY::Opt(), data, P::FileMode::Write);
    P::WriteSEGY::Opt o;
    o.incFactor = p.unit;
    return std::make_shared<P::WriteSEGY>(piol, p.name, o, obj);
}
/// The same calls through the interface class or the direct (user) class,
/// which has no entries to skip.
struct WF {
    std::shared_ptr<P::WriteInterface> i;
    std::shared_ptr<P::WriteDirect> d;
    void text(const std::string& t) { d ? d->writeText(t) : i->writeText(t); }
    void ns(size_t n) { d ? d->writeNs(n) : i->writeNs(n); }
    void nt(size_t n) { d ? d->writeNt(n) : i->writeNt(n); }
    void inc(double v) { d ? d->writeInc(v) : i->writeInc(v); }
    void prm(size_t o, size_t n, P::Param* p, size_t skip) { d ? d->writeParam(o, n, p) : i->writeParam(o, n, p, skip); }
    void trc(size_t o, size_t n, float* t, P::Param* p, size_t skip) { d ? d->writeTrace(o, n, t, p) : i->writeTrace(o, n, t, p, skip); }
    void prm(size_t n, const size_t* o, P::Param* p, size_t skip) { d ? d->writeParamNonContiguous(n, o, p) : i->writeParamNonContiguous(n, o, p, skip); }
    void trc(size_t n, const size_t* o, float* t, P::Param* p, size_t skip) { d ? d->writeTraceNonContiguous(n, o, t, p) : i->writeTraceNonContiguous(n, o, t, p, skip); }
};
static void one_call(const WPlan& p, WF& f, size_t k, const std::vector<size_t>& sh, int r)
{
    const WOp& op = p.ops[k];
    size_t n = sh.size();
    std::vector<float> trc(n * p.ns);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < p.ns; j++) trc[i * p.ns + j] = plan_smp(p, k, sh[i], j);
    std::vector<float> before = trc;
    const size_t skip = f.d ? 0 : op.skip;
    P::Param prm(n + skip);
    for (size_t i = 0; i < skip; i++) set_prm(&prm, i, gen_hdr(999, i));
    for (size_t i = 0; i < n; i++) set_prm(&prm, i + skip, plan_hdr(p, k, sh[i]));
    P::Param pbefore = prm;
    std::vector<size_t> off = sh;
    for (auto& t : off) t = p.far(t);
    const std::vector<size_t> offb = off;
    float* tp = op.kind == K_HDR ? tnull() : trc.data();
    P::Param* pp = op.kind == K_TRC ? PNULL : &prm;
    if (!op.list) {
        size_t o = n ? off[0] : p.base + h64(p.salt, k, size_t(r)) % (p.furthest() + 1);
        if (!n && h64(p.salt, k, size_t(r) + 99) % 5 == 0) o += 1 + h64(p.salt, k) % 50;
        if (op.kind == K_HDR) f.prm(o, n, pp, skip);
        else f.trc(o, n, tp, pp, op.kind == K_TRC ? 0 : skip);
    } else {
        if (op.kind == K_HDR) f.prm(n, off.data(), pp, skip);
        else f.trc(n, off.data(), tp, pp, op.kind == K_TRC ? 0 : skip);
    }
    if (trc.size() && memcmp(trc.data(), before.data(), trc.size() * 4))
        sim::violation("caller-array-changed", fmt("rank %d: the sample array is different after write %zu", r, k));
    if (!(prm == pbefore)) sim::violation("caller-array-changed", fmt("rank %d: the parameter structure is different after write %zu", r, k));
    if (off != offb) sim::violation("caller-array-changed", fmt("rank %d: the offset list is different after write %zu", r, k));
}
void do_wplan(const WPlan& p, std::shared_ptr<P::ExSeis> piol, int r, int nr, bool serial, std::function<void(size_t)> after_op)
{
    WF f;
    if (p.direct && p.salt % 2) {
        if (p.coll && p.unit == 1e-6 && p.salt % 4 == 1) f.d = std::make_shared<P::WriteDirect>(piol, p.name);
        else if (p.salt % 8 > 4) f.d = std::make_shared<P::WriteDirect>(open_writer(p, piol));
        else {   // with options of its own
            P::DataMPIIO::Opt d;
            d.coll = p.coll;
            d.fcomm = piol->comm->getComm();
            P::WriteSEGY::Opt o;
            o.incFactor = p.unit;
            f.d = std::make_shared<P::WriteDirect>(piol, p.name, d, P::ObjectSEGY::Opt(), o);
        }
    } else f.i = open_writer(p, piol);
    auto meta = [&] { f.text(p.text); f.inc((double(p.interval) + p.frac) * p.unit); };
    if (p.meta) { f.text(p.pretext); f.inc(double(p.preinterval) * p.unit); }
    if (p.meta == 1 || !p.meta) meta();
    if (p.explicit_when && p.salt % 3 == 0) f.nt(p.base + p.explicit_nt + p.salt % 7);   // replaced below
    if (p.explicit_when == 3) f.nt(p.base + p.explicit_nt);
    if (p.prens >= 0) f.ns(size_t(p.prens));
    f.ns(p.ns);
    if (p.explicit_when == 1) f.nt(p.base + p.explicit_nt);
    for (size_t k = 0; k < p.ops.size(); k++) {
        if (serial)
            for (int q = 0; q < nr; q++) one_call(p, f, k, p.ops[k].share[size_t(q)], r);
        else one_call(p, f, k, p.ops[k].share[size_t(r)], r);
        if (after_op) after_op(k);
    }
    if (p.meta == 2) meta();
    if (p.explicit_when == 2) f.nt(p.base + p.explicit_nt);
}
/// header_from: take the 240-byte trace headers from this file (their
/// encoding is checked separately, by value)
Bytes model_bytes(const WPlan& p, const Bytes* hf)
{
    Bytes b = p.has_prefill ? p.prefill : Bytes();
    b.resize(HO + p.final_nt() * dosz(p.ns), 0);
    SegY h;
    h.ns = p.ns; h.interval = p.interval; h.text = p.text;
    Bytes hb = encode(h);
    std::copy(hb.begin(), hb.begin() + HO, b.begin());
    for (size_t k = 0; k < p.ops.size(); k++)
        for (auto& sh : p.ops[k].share)
            for (auto t : sh) {
                unsigned char* q = &b[HO + t * dosz(p.ns)];
                if (p.ops[k].kind != K_TRC) {
                    enc_hdr(q, plan_hdr(p, k, t));
                    if (hf && hf->size() >= HO + t * dosz(p.ns) + MD) {
                        // same values, possibly another legal scaling: accept the library's bytes
                        const unsigned char* g = hf->data() + HO + t * dosz(p.ns);
                        if (dec_hdr(g).same(plan_hdr(p, k, t), true)) {
                            bool rest = true;
                            for (size_t i = 0; i < MD; i++) {
                                bool coord = (i >= 68 && i < 88) || (i >= 180 && i < 188);
                                if (!coord && g[i] != q[i]) rest = false;
                            }
                            if (rest) std::copy(g, g + MD, q);
                        }
                    }
                }
                if (p.ops[k].kind != K_HDR)
                    for (size_t j = 0; j < p.ns; j++) put_f32(q + MD + 4 * j, plan_smp(p, k, t, j));
            }
    return b;
}

// ------------------------------------------------------------------ reading --
std::string RPlan::describe() const
{
    static const char* kn[] = {"both", "hdr", "trc"};
    static const char* mn[] = {"contig", "list", "unordered"};
    std::string s;
    for (auto& o : ops) {
        s += fmt("; read %s %s", kn[o.kind], mn[o.mode]);
        if (o.rule) s += fmt(" rule %d", o.rule);
        size_t nr = o.mode ? o.want.size() : o.off.size();
        for (size_t r = 0; r < nr; r++) {
            s += fmt(" %zu:", r);
            if (!o.mode) s += fmt("%zu+%zu", o.off[r], o.sz[r]);
            else for (size_t i = 0; i < o.want[r].size() && i < 12; i++) s += fmt("%s%zu", i ? "," : "", o.want[r][i]);
        }
    }
    return s;
}
RPlan gen_rplan(int nr, size_t nt, int max_ops, bool past_end)
{
    RPlan p;
    int n = int(W.range(1, max_ops));
    for (int k = 0; k < n; k++) {
        ROp o;
        o.kind = int(W.pick({4, 2, 2}));
        o.mode = int(W.draw(3));
        o.skip = W.draw(4) == 3 ? 1 + W.draw(3) : 0;
        o.rule = o.kind != K_TRC && W.draw(3) == 2 ? int(1 + W.draw(5)) : 0;
        int style = int(W.draw(3));
        for (int r = 0; r < nr; r++) {
            if (o.mode == 0) {
                size_t off, sz;
                if (style == 0) { off = nt * size_t(r) / size_t(nr); sz = nt * size_t(r + 1) / size_t(nr) - off; }
                else { off = W.draw(uint32_t(nt + 1)); sz = W.draw(uint32_t(nt + 1)); }
                if (!past_end || W.draw(3)) { if (off + sz > nt) sz = nt - off; }
                else if (W.draw(4) == 3) { off = nt + W.draw(4); }
                o.off.push_back(off);
                o.sz.push_back(sz);
            } else {
                std::vector<size_t> w;
                if (nt && !(style == 2 && W.draw(2))) {
                    if (o.mode == 1) { uint32_t d = 1 + W.draw(4); for (size_t t = 0; t < nt; t++) if (W.draw(4) < d) w.push_back(t); }
                    else { size_t m = W.draw(uint32_t(2 * nt + 1)); for (size_t i = 0; i < m; i++) w.push_back(W.draw(uint32_t(nt))); }
                }
                o.want.push_back(w);
            }
        }
        p.ops.push_back(o);
    }
    return p;
}
static std::shared_ptr<P::Rule> rop_rule(int k)
{
    using L = std::initializer_list<P::Meta>;
    switch (k) {
        case 1: return std::make_shared<P::Rule>(L{PIOL_META_COPY}, true, true, true);
        case 2: return std::make_shared<P::Rule>(L{PIOL_META_Offset, PIOL_META_xSrc, PIOL_META_il});
        case 3: return std::make_shared<P::Rule>(L{PIOL_META_COPY, PIOL_META_tn});
        case 4: return std::make_shared<P::Rule>(false, true, true);
        default: return std::make_shared<P::Rule>(L{PIOL_META_yCmp, PIOL_META_xl, PIOL_META_Tic, PIOL_META_ns}, true);
    }
}
std::string do_rop(const ROp& o, const SegY& f, P::ReadInterface* file, int r, bool check)
{
    std::vector<size_t> pos;
    size_t nt = f.t.size(), asked;
    if (o.mode == 0) {
        asked = o.sz[size_t(r)];
        for (size_t i = 0; i < asked; i++) if (o.off[size_t(r)] + i < nt) pos.push_back(o.off[size_t(r)] + i);
    } else { pos = o.want[size_t(r)]; asked = pos.size(); }
    const size_t tail = 2;
    const float mark = -123456.5f;
    std::vector<float> trc((asked + tail) * f.ns, mark);
    std::shared_ptr<P::Rule> rule = o.rule ? rop_rule(o.rule) : nullptr;
    P::Param prm = rule ? P::Param(rule, asked + tail + o.skip) : P::Param(asked + tail + o.skip);
    // what is left of a header in a structure of this rule
    auto held = [&](const Hdr& h) {
        P::Param one = rule ? P::Param(rule, 1) : P::Param(1LU);
        set_prm(&one, 0, h);
        return get_prm(&one, 0);
    };
    Hdr mh = gen_hdr(4242, 1);
    for (size_t i = 0; i < asked + tail + o.skip; i++) {
        set_prm(&prm, i, mh);
        P::param_utils::setPrm(i, PIOL_META_ltn, size_t(777), &prm);
        P::param_utils::setPrm(i, PIOL_META_gtn, size_t(888), &prm);
    }
    float* tp = o.kind == K_HDR ? tnull() : trc.data();
    P::Param* pp = o.kind == K_TRC ? PNULL : &prm;
    size_t skip = o.kind == K_TRC ? 0 : o.skip;
    std::vector<size_t> want = o.mode ? o.want[size_t(r)] : std::vector<size_t>();
    for (auto& t : want) t = o.far(t);
    const std::vector<size_t> asked_for = want;
    if (o.mode == 0) {
        if (o.kind == K_HDR) file->readParam(o.base + o.off[size_t(r)], asked, pp, skip);
        else file->readTrace(o.base + o.off[size_t(r)], asked, tp, pp, skip);
    } else if (o.mode == 1) {
        if (o.kind == K_HDR) file->readParamNonContiguous(asked, want.data(), pp, skip);
        else file->readTraceNonContiguous(asked, want.data(), tp, pp, skip);
    } else file->readTraceNonMonotonic(asked, want.data(), tp, pp, skip);
    if (!check) return "";
    for (size_t i = 0; i < asked + tail; i++) {
        bool in = i < pos.size();
        if (o.kind != K_HDR)
            for (size_t k = 0; k < f.ns; k++) {
                float w = in ? f.t[pos[i]].s[k] : mark, g = trc[i * f.ns + k];
                if (memcmp(&w, &g, 4))
                    return in ? fmt("sample %zu of entry %zu (trace %zu) is %.9g instead of %.9g", k, i, pos[i], double(g), double(w))
                              : fmt("sample %zu of entry %zu, beyond the requested traces, was overwritten with %.9g", k, i, double(g));
            }
        if (o.kind != K_TRC) {
            Hdr g = get_prm(&prm, i + o.skip);
            Hdr w = in ? f.t[pos[i]].h : mh;
            if (rule) w = held(w);
            if (!g.same(w)) return fmt("header of entry %zu (%s) is %s instead of %s", i, in ? fmt("trace %zu", pos[i]).c_str() : "beyond the request", g.str().c_str(), w.str().c_str());
            size_t l = P::param_utils::getPrm<size_t>(i + o.skip, PIOL_META_ltn, &prm);
            if (l != (in ? o.far(pos[i]) : 777)) return fmt("trace number recorded for entry %zu is %zu instead of %zu", i, l, in ? o.far(pos[i]) : size_t(777));
        }
    }
    if (rule) mh = held(mh);
    for (size_t i = 0; i < o.skip; i++)
        if (!get_prm(&prm, i).same(mh)) return fmt("skipped entry %zu was overwritten", i);
    if (o.kind == K_TRC)
        for (size_t i = 0; i < asked + tail + o.skip; i++) if (!get_prm(&prm, i).same(mh)) return "parameter structure touched by a samples-only read";
    if (want != asked_for) return "the list of positions was changed";
    return "";
}

// ---------------------------------------------------------------- C01, C04 ---
static void check_file(const WPlan& p, const Bytes& got, const char* cls, const char* who)
{
    Bytes want = model_bytes(p, &got);
    std::string d = diff_bytes(got, want, p.ns);
    if (!d.empty()) sim::note_violation(cls, fmt("%s: %s", who, d.c_str()));
}
SCENARIO(C01, write, 3)
{
    int nr = draw_ranks(6, 2);
    WPlan p = gen_wplan(nr);
    sample(fmt("%d ranks; ", nr) + p.describe());
    sim::swarm_config(nr);
    if (p.has_prefill) sim::fs.put(p.name) = p.prefill;
    if (!run_job("parallel write", nr, [&](int r) {
            auto piol = new_piol();
            do_wplan(p, piol, r, nr, false);
            if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
        })) return;
    Bytes par = sim::fs.get(p.name);
    sim::fs.files.erase(p.name);
    if (p.has_prefill) sim::fs.put(p.name) = p.prefill;
    if (!run_serial("serial write", [&](int r) {
            auto piol = new_piol();
            do_wplan(p, piol, r, nr, true);
        })) return;
    Bytes ser = sim::fs.get(p.name);
    if (p.furthest()) nontrivial();
    std::string d = diff_bytes(par, ser, p.ns);
    if (!d.empty()) sim::note_violation("differs-from-serial", "parallel file against serial file: " + d);
    else check_file(p, par, "differs-from-model", "file written in parallel");
}

// -------------------------------------------------------------------- C02 ---
/// The calls of the direct (user) class behind the interface class; what it
/// lacks (an offset into the parameters) goes to the interface it wraps.
struct ViaDirect : P::ReadInterface {
    P::ReadDirect d;
    ViaDirect(std::shared_ptr<P::ExSeisPIOL> piol_, const std::string& n) : P::ReadInterface(piol_, n, nullptr), d(piol_, n) {}
    ViaDirect(std::shared_ptr<P::ExSeisPIOL> piol_, const std::string& n, const P::DataMPIIO::Opt& dopt, const P::ReadSEGY::Opt& fopt) : P::ReadInterface(piol_, n, nullptr), d(piol_, n, dopt, P::ObjectSEGY::Opt(), fopt) {}
    const std::string& readText() const override { return d.readText(); }
    size_t readNs() const override { return d.readNs(); }
    size_t readNt() const override { return d.readNt(); }
    exseis::utils::Floating_point readInc() const override { return d.readInc(); }
    void readTrace(size_t off, size_t sz, float* t, P::Param* p, size_t skip) const override
    {
        if (skip) d->readTrace(off, sz, t, p, skip);
        else if (t == tnull()) d.readParam(off, sz, p);
        else if (p == PNULL) d.readTrace(off, sz, t);
        else d.readTrace(off, sz, t, p);
    }
    void readTraceNonContiguous(size_t sz, const size_t* off, float* t, P::Param* p, size_t skip) const override
    {
        if (skip) d->readTraceNonContiguous(sz, off, t, p, skip);
        else if (t == tnull()) d.readParamNonContiguous(sz, off, p);
        else if (p == PNULL) d.readTraceNonContiguous(sz, off, t);
        else d.readTraceNonContiguous(sz, off, t, p);
    }
    void readTraceNonMonotonic(size_t sz, const size_t* off, float* t, P::Param* p, size_t skip) const override
    {
        if (skip) d->readTraceNonMonotonic(sz, off, t, p, skip);
        else if (p == PNULL) d.readTraceNonMonotonic(sz, off, t);
        else d.readTraceNonMonotonic(sz, off, t, p);
    }
};
static std::shared_ptr<P::ReadInterface> open_reader(const std::string& n, std::shared_ptr<P::ExSeisPIOL> piol, bool coll, bool direct, double unit = 1e-6)
{
    if (direct && coll && unit == 1e-6) return std::make_shared<ViaDirect>(piol, n);
    P::DataMPIIO::Opt d;
    d.coll = coll;
    d.fcomm = piol->comm->getComm();
    if (direct) {
        P::ReadSEGY::Opt o;
        o.incFactor = unit;
        return std::make_shared<ViaDirect>(piol, n, d, o);
    }
    auto data = std::make_shared<P::DataMPIIO>(piol, n, d, P::FileMode::Read);
    auto obj = std::make_shared<P::ObjectSEGY>(piol, n, P::ObjectSEGY::Opt(), data, P::FileMode::Read);
    P::ReadSEGY::Opt o;
    o.incFactor = unit;
    return std::make_shared<P::ReadSEGY>(piol, n, o, obj);
}
static SegY draw_segy(size_t max_nt = 20, size_t max_ns = 10)
{
    size_t nt = W.draw(8) == 7 ? 0 : size_t(W.range(1, long(max_nt)));
    size_t ns = size_t(W.range(0, long(max_ns)));
    if (big()) {
        if (W.draw(2)) { nt = 200 + W.draw(300); ns %= 5; }
        else { nt = 1 + W.draw(3); ns = 16000 + W.draw(16768); }
    }
    SegY f = gen_segy(nt, ns, 1 + W.draw(1000000), W.draw(3) == 2 ? 1 : 5);
    for (auto& t : f.t) t.h.misc = 0;
    return f;
}
SCENARIO(C02, read, 3)
{
    int nr = draw_ranks(6, 1);
    SegY f = draw_segy();
    f.ebcdic = W.draw(4) == 3;
    Bytes img = encode(f);
    if (W.draw(16) == 15) { f.interval = 0; img = encode(f); }
    RPlan p = gen_rplan(nr, f.t.size(), 4);
    bool coll = W.draw(3) != 2, direct = W.draw(3) == 2;
    const double unit = !(direct && coll) && W.draw(6) == 5 ? (W.draw(2) ? 1e-3 : 2.5e-7) : 1e-6;
    draw_chunk(f.ns);
    sample(fmt("%d ranks, file of %zu traces x %zu samples format %d chunk %ld%s", nr, f.t.size(), f.ns, f.format, sim::knob_chunk, coll ? "" : " independent") + p.describe());
    sim::fs.put("in.segy") = img;
    sim::swarm_config(nr);
    run_job("parallel read", nr, [&](int r) {
        auto piol = new_piol();
        {
            auto file = open_reader("in.segy", piol, coll, direct, unit);
            if (file->readNt() != f.t.size()) sim::violation("wrong-file-metadata", fmt("rank %d sees %zu traces instead of %zu", r, file->readNt(), f.t.size()));
            if (file->readNs() != f.ns) sim::violation("wrong-file-metadata", fmt("rank %d sees %zu samples instead of %zu", r, file->readNs(), f.ns));
            if (std::fabs(file->readInc() - f.interval * unit) > 1e-6 * unit) sim::violation("wrong-file-metadata", fmt("rank %d sees interval %g instead of %d us", r, file->readInc(), f.interval));
            if (file->readText().substr(0, 60) != f.text.substr(0, 60)) sim::violation("wrong-file-metadata", fmt("rank %d sees another text header", r));
            for (size_t k = 0; k < p.ops.size(); k++) {
                std::string d = do_rop(p.ops[k], f, file.get(), r);
                if (!d.empty()) sim::violation("wrong-data-read", fmt("rank %d, read %zu: ", r, k) + d);
            }
        }
        if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
    });
    if (f.t.size()) nontrivial();
    if (!failed() && sim::fs.get("in.segy") != img) sim::note_violation("input-modified", "reading changed the file: " + diff_bytes(sim::fs.get("in.segy"), img, f.ns));
}

// ---------------------------------------------------------------- far files --
// Files far longer than memory: only what is written is kept.
static size_t draw_base(size_t ns)
{
    size_t at;
    switch (W.draw(6)) {
        case 0: at = (1ull << 31) / dosz(ns); break;
        case 1: at = (1ull << 32) / dosz(ns); break;
        case 2: at = (1ull << (33 + W.draw(14))) / dosz(ns); break;
        case 3: at = 1ull << 31; break;
        case 4: at = 1ull << 32; break;
        default: at = (1ull << 31) / dosz(ns) + W.draw(1u << 30); break;
    }
    size_t back = W.draw(40);
    return at > back ? at - back : at;
}
SCENARIO(C01, far_write, 1)
{
    int nr = draw_ranks(5, 2);
    WOpts wo;
    wo.allow_prefill = false;
    WPlan p = gen_wplan(nr, wo);
    if (W.draw(6) == 5) p.ns = 300 + W.draw(3000);
    p.base = draw_base(p.ns);
    bool lists = true;
    for (auto& o : p.ops) lists &= o.list;
    if (lists && W.draw(2)) p.split = W.draw(uint32_t(p.nt + 1));
    if (!p.explicit_when && p.furthest() <= p.split) p.base = p.split = 0;
    draw_chunk(p.ns);
    sample(fmt("%d ranks, traces from %zu on are at +%zu (byte %zu); ", nr, p.split, p.base, HO + p.base * dosz(p.ns)) + p.describe());
    sim::swarm_config(nr);
    sim::fs.sparse = true;
    if (!run_job("write far into a file", nr, [&](int r) {
            auto piol = new_piol();
            do_wplan(p, piol, r, nr, false);
            if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
        })) return;
    if (p.furthest()) nontrivial();
    auto& node = *sim::fs.files[p.name];
    size_t d = dosz(p.ns), fin = p.final_nt();
    uint64_t want = HO + (p.base + fin) * d;
    if (node.size() != want) { sim::note_violation("differs-from-model", fmt("the file has %llu bytes instead of %llu", (unsigned long long)node.size(), (unsigned long long)want)); return; }
    uint64_t low = HO + std::min(p.split, fin) * d, high = HO + (p.base + p.split) * d;
    Bytes b(HO + fin * d);
    node.read(0, b.data(), low);
    if (p.split < fin) node.read(high, b.data() + low, b.size() - low);
    if (p.base) {
        uint64_t z = node.first_nonzero(low, high);
        if (z != high) { sim::note_violation("differs-from-model", fmt("byte %llu, which nobody wrote, is not zero", (unsigned long long)z)); return; }
    }
    check_file(p, b, "differs-from-model", "far parts of the file written in parallel");
}
SCENARIO(C02, far_read, 1)
{
    int nr = draw_ranks(5, 1);
    SegY f = draw_segy();
    if (W.draw(6) == 5) f = gen_segy(1 + W.draw(5), 300 + W.draw(3000), 1 + W.draw(1000), 5);
    Bytes img = encode(f);
    RPlan p = gen_rplan(nr, f.t.size(), 4);
    size_t base = draw_base(f.ns), split = 0;
    bool lists = true;
    for (auto& o : p.ops) lists &= o.mode != 0;
    if (lists && W.draw(2)) split = W.draw(uint32_t(f.t.size() + 1));
    for (auto& o : p.ops) { o.base = base; o.split = split; }
    bool coll = W.draw(3) != 2, direct = W.draw(3) == 2;
    draw_chunk(f.ns);
    sample(fmt("%d ranks, traces from %zu on are at +%zu (byte %zu), %zu traces x %zu samples format %d chunk %ld%s", nr, split, base, HO + base * dosz(f.ns), f.t.size(), f.ns, f.format, sim::knob_chunk, coll ? "" : " independent") + p.describe());
    sim::swarm_config(nr);
    sim::fs.sparse = true;
    sim::fs.put("in.segy");
    auto& node = *sim::fs.files["in.segy"];
    size_t d = dosz(f.ns), nt = f.t.size();
    uint64_t low = HO + split * d;
    node.write(0, img.data(), low);
    node.resize(HO + (base + nt) * d);
    if (img.size() > low) node.write(HO + (base + split) * d, img.data() + low, img.size() - low);
    run_job("read far from a file", nr, [&](int r) {
        auto piol = new_piol();
        {
            auto file = open_reader("in.segy", piol, coll, direct);
            if (file->readNt() != base + nt) sim::violation("wrong-file-metadata", fmt("rank %d sees %zu traces instead of %zu", r, file->readNt(), base + nt));
            for (size_t k = 0; k < p.ops.size(); k++) {
                std::string e = do_rop(p.ops[k], f, file.get(), r);
                if (!e.empty()) sim::violation("wrong-data-read", fmt("rank %d, read %zu: ", r, k) + e);
            }
        }
        if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
    });
    if (nt) nontrivial();
}

// -------------------------------------------------------------------- C04 ---
// A complete file after close, whatever was there before; a job killed at any
// point leaves something that writing again turns into the same bytes.
SCENARIO(C04, rewrite_after_kill, 3)
{
    int nr = draw_ranks(5, 1);
    WOpts wo;
    wo.allow_prefill = false;
    WPlan p = gen_wplan(nr, wo);
    // every trace is written in full, so the final bytes depend on this job only
    WOp all;
    all.kind = K_BOTH;
    all.list = W.draw(2);
    all.share.resize(size_t(nr));
    p.ops.clear();
    std::fill(p.oh.begin(), p.oh.end(), -1);
    std::fill(p.os.begin(), p.os.end(), -1);
    auto own = all.list ? random_owners(p.nt, nr) : std::vector<int>(p.nt, 0);
    if (!all.list) { auto c = random_cuts(p.nt, nr); for (int r = 0; r < nr; r++) for (size_t t = c[size_t(r)]; t < c[size_t(r) + 1]; t++) own[t] = r; }
    for (size_t t = 0; t < p.nt; t++) all.share[size_t(own[t])].push_back(t);
    p.ops.push_back(all);
    if (p.explicit_when) p.explicit_nt = p.nt;
    int incarnations = 1 + int(W.draw(3));
    const long chunk_p = sim::knob_chunk;
    WPlan old = gen_wplan(nr, wo);   // what an earlier job was writing
    old.name = p.name;
    sim::knob_chunk = chunk_p;
    bool same_job = W.draw(2);
    sample(fmt("%d ranks, %d killed job(s) first (%s); ", nr, incarnations, same_job ? "the same" : old.describe().c_str()) + p.describe());
    long chunk = sim::knob_chunk;
    for (int i = 0; i < incarnations && !failed(); i++) {
        sim::swarm_config(nr);
        sim::cfg.kill_step = long(S.draw(S.chance(1, 3) ? 60 : 600));
        const WPlan& q = same_job ? p : old;
        sim::knob_chunk = std::max(chunk, long(2 * dosz(q.ns)));
        run_job("earlier job", nr, [&](int r) { auto piol = new_piol(); do_wplan(q, piol, r, nr, false); }, J_ALLOW_KILL | J_NO_UNMATCHED);
        if (sim::outcome.end == sim::END_KILLED) { sim::probe("killed"); if (sim::fs.has(p.name)) sim::probe("killed-with-file"); }
    }
    sim::knob_chunk = chunk;
    sim::swarm_config(nr);
    sim::cfg.kill_step = -1;
    if (!run_job("complete job", nr, [&](int r) { auto piol = new_piol(); do_wplan(p, piol, r, nr, false); })) return;
    Bytes got = sim::fs.get(p.name);
    nontrivial();
    check_file(p, got, "incomplete-file", "file after the completed job");
    if (failed()) return;
    WPlan fresh = p;
    fresh.name = "fresh.segy";
    if (!run_job("same job on a fresh name", nr, [&](int r) { auto piol = new_piol(); do_wplan(fresh, piol, r, nr, false); })) return;
    std::string d = diff_bytes(got, sim::fs.get("fresh.segy"), p.ns);
    if (!d.empty()) sim::note_violation("depends-on-old-content", "file written over the remains against file under a fresh name: " + d);
}
SCENARIO(C04, header_and_length, 2)
{
    int nr = draw_ranks(6, 1);
    WPlan p = gen_wplan(nr);
    sample(fmt("%d ranks; ", nr) + p.describe());
    sim::swarm_config(nr);
    if (p.has_prefill) sim::fs.put(p.name) = p.prefill;
    if (!run_job("write", nr, [&](int r) { auto piol = new_piol(); do_wplan(p, piol, r, nr, false); })) return;
    nontrivial();
    Bytes b = sim::fs.get(p.name);
    size_t want = HO + p.final_nt() * dosz(p.ns);
    if (b.size() != want) { sim::note_violation("wrong-length", fmt("the file has %zu bytes instead of %zu (%zu traces of %zu samples)", b.size(), want, p.final_nt(), p.ns)); return; }
    std::string text(b.begin(), b.begin() + 3200), wt = p.text;
    wt.resize(3200, '\0');
    if (text != wt) sim::note_violation("wrong-file-header", "text header differs from the one given");
    struct { int at, want; const char* n; } fld[] = {{3216, p.interval, "sampling interval"}, {3220, int(p.ns), "sample count"}, {3224, 5, "format code"},
        {3254, 1, "units"}, {3500, 0x100, "SEG-Y revision"}, {3502, 1, "fixed length flag"}, {3504, 0, "extended headers"}};
    for (auto& f : fld)
        if (get16(&b[size_t(f.at)]) != f.want) sim::note_violation("wrong-file-header", fmt("%s is %d instead of %d", f.n, get16(&b[size_t(f.at)]), f.want));
    check_file(p, b, "wrong-content", "closed file");
}

// --------------------------------------------------------------- C05, C06 ---
void draw_io_faults(bool read_job)
{
    static const sim::FaultKind wk[] = {sim::F_OPEN, sim::F_WRITE_EIO, sim::F_WRITE_NOSPC, sim::F_SETSIZE, sim::F_CLOSE, sim::F_SETVIEW};
    static const sim::FaultKind rk[] = {sim::F_OPEN, sim::F_READ, sim::F_GETSIZE, sim::F_CLOSE, sim::F_SETVIEW, sim::F_READ};
    uint32_t n = 6;
    uint32_t m = 0;
    int pick = int(S.draw(3));
    if (pick == 0) m = 1u << (read_job ? rk : wk)[S.draw(n)];
    else for (uint32_t i = 0; i < n; i++) if (S.draw(2)) m |= 1u << (read_job ? rk : wk)[i];
    sim::cfg.fault_mask = m;
    static const int den[] = {1, 2, 4, 10};
    sim::cfg.fault_num = 1;
    sim::cfg.fault_den = uint32_t(den[S.draw(4)]);
    static const int mx[] = {1, 1, 2, 5};
    sim::cfg.fault_max = mx[S.draw(4)];
    sim::cfg.fault_skip = int(S.chance(1, 2) ? S.draw(20) : 0);
}
/// message naming the file in the rank's log?
bool log_names(const P::ExSeis& piol, const std::string& name)
{
    for (auto& i : piol.log->loglist())
        if (i.stat == P::Logger::Status::Error && (i.file.find(name) != std::string::npos || i.msg.find(name) != std::string::npos)) return true;
    return false;
}
size_t faults_at(int r, const std::string& file)
{
    size_t n = 0;
    for (auto& f : sim::faults) if (f.rank == r && f.surfaced && (file.empty() || f.file == file)) n++;
    return n;
}
std::string first_fault(int r, const std::string& file)
{
    for (auto& f : sim::faults) if (f.rank == r && f.surfaced && (file.empty() || f.file == file)) return fmt("%s (%s) on %s", f.op.c_str(), sim::fault_names[f.kind], f.file.c_str());
    return "?";
}
static void check_reported(const P::ExSeis& piol, int r, const std::string& file, const char* when)
{
    if (faults_at(r, file)) {
        if (!piol.log->isErr()) sim::violation("failure-not-reported", fmt("rank %d: %s failed but no error is set after %s", r, first_fault(r, file).c_str(), when));
        if (!log_names(piol, file)) sim::violation("failure-not-logged", fmt("rank %d: %s failed but no logged error names the file after %s", r, first_fault(r, file).c_str(), when));
    } else if (!faults_at(r, "") && piol.log->isErr()) {
        // an error nobody injected here: legal only when a peer's failure was agreed on collectively
        if (sim::faults.empty()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed (%s)", r, when));
    }
}
// A job that writes two files and reads a third while file operations fail.
void fault_job(const FJob& j, int r, int nr, bool check)
{
    auto piol = new_piol();
    auto w = [&](const WPlan& p) {
        do_wplan(p, piol, r, nr, false, [&](size_t k) { if (check) check_reported(*piol, r, p.name, fmt("write %zu returned", k).c_str()); });
        if (check) check_reported(*piol, r, p.name, "close");
    };
    auto rd = [&] {
        {
            auto file = open_reader("in.segy", piol, j.coll_r, j.direct_r);
            if (check) check_reported(*piol, r, "in.segy", "open");
            bool usable = file->readNs() == j.in.ns && file->readNt() == j.in.t.size();
            if (check && !usable && !piol->log->isErr() && sim::faults.empty())
                sim::violation("wrong-data-unreported", fmt("rank %d sees %zu traces of %zu samples and no error", r, file->readNt(), file->readNs()));
            // a process whose open failed still takes part, with arrays of the size it believes in
            SegY believed = j.in;
            believed.ns = file->readNs();
            for (auto& t : believed.t) t.s.resize(believed.ns);
            for (size_t k = 0; k < j.rp.ops.size(); k++) {
                std::string d = do_rop(j.rp.ops[k], believed, file.get(), r, true);
                if (check) {
                    check_reported(*piol, r, "in.segy", fmt("read %zu returned", k).c_str());
                    if (!d.empty() && !faults_at(r, "in.segy") && !piol->log->isErr())
                        sim::violation("wrong-data-unreported", fmt("rank %d met no failure and no error is set, but read %zu: ", r, k) + d);
                    if (!d.empty() && !faults_at(r, "in.segy") && usable)
                        sim::violation("wrong-data-elsewhere", fmt("rank %d met no failure, but read %zu: ", r, k) + d);
                }
            }
        }
        if (check) check_reported(*piol, r, "in.segy", "close");
    };
    if (j.order == 0) { w(j.a); rd(); w(j.b); }
    else if (j.order == 1) { rd(); w(j.a); w(j.b); }
    else { w(j.a); w(j.b); rd(); }
    // printing the log does not undo the failures
    if (check && h64(j.salt, unsigned(r), 3) % 3 == 0) {
        bool was = piol->log->isErr();
        piol->log->procLog();
        if (was && !piol->log->isErr()) sim::violation("failure-not-reported", fmt("rank %d: no error is set any more after the log was printed", r));
    }
}
FJob gen_fjob(int nr)
{
    FJob j;
    WOpts o;
    o.max_nt = 12; o.max_ns = 6; o.max_ops = 3;
    j.a = gen_wplan(nr, o);
    j.a.name = "alpha.segy";
    long c1 = sim::knob_chunk;
    j.b = gen_wplan(nr, o);
    j.b.name = "beta.segy";
    long c2 = sim::knob_chunk;
    j.in = draw_segy(10, 6);
    j.rp = gen_rplan(nr, j.in.t.size(), 3, false);
    j.coll_r = W.draw(3) != 2;
    j.direct_r = W.draw(2);
    j.order = int(W.draw(3));
    j.salt = W.draw(1000);
    if (j.a.ns == 0) j.a.ns = 1;
    sim::knob_chunk = c1 && c2 ? std::max(std::max(c1, c2), long(2 * dosz(std::max(j.in.ns, j.a.ns)))) : 0;
    return j;
}
void start_fjob(const FJob& j, int nr)
{
    sim::fs.put("in.segy") = encode(j.in);
    if (j.a.has_prefill) sim::fs.put(j.a.name) = j.a.prefill;
    if (j.b.has_prefill) sim::fs.put(j.b.name) = j.b.prefill;
    sim::swarm_config(nr);
    draw_io_faults(S.draw(2) != 0);
    if (S.chance(1, 3)) { static const char* f[] = {"alpha", "beta", "in.segy"}; sim::cfg.fault_path = f[S.draw(3)]; }
}
SCENARIO(C05, write_and_read, 12)
{
    int nr = draw_ranks(4, 1);
    FJob j = gen_fjob(nr);
    sample(fmt("%d ranks, order %d; ", nr, j.order) + j.a.describe() + " | " + j.b.describe() + " | in" + j.rp.describe());
    start_fjob(j, nr);
    Bytes img = sim::fs.get("in.segy");
    // hangs after failures are C06's business; this check only judges what returns
    sim::cfg.nranks = nr;
    sim::mpi_reset();
    sim::run(nr, [&](int r) { fault_job(j, r, nr, true); });
    if (failed()) return;
    if (!sim::faults.empty()) nontrivial();
    // files that met no failure, completed before the first failure anywhere
    auto touched = [&](const std::string& n) { for (auto& f : sim::faults) if (f.file == n) return true; return false; };
    if (sim::outcome.end == sim::END_OK) {
        const WPlan* order[2] = {&j.a, &j.b};
        bool earlier = false;
        for (auto* p : order) {
            bool rd_before = j.order == 1 || (j.order == 0 && p == &j.b);
            bool bad = earlier || touched(p->name) || (rd_before && touched("in.segy"));
            if (!bad) check_file(*p, sim::fs.get(p->name), "wrong-file-unreported", fmt("%s, which met no failure", p->name.c_str()).c_str());
            earlier |= touched(p->name);
        }
    }
    if (sim::fs.get("in.segy") != img) sim::note_violation("input-modified", "the input file was changed");
}
// Values the format cannot hold are reported, the largest it can hold are not
SCENARIO(C05, unrepresentable, 1)
{
    int nr = draw_ranks(3, 1);
    struct V { bool is_ns; double v; bool ok; };
    static const V vs[] = {{true, 32767, true}, {true, 0, true}, {true, 32768, false}, {true, 65535, false}, {true, 65537, false}, {true, 4294967297., false}, {false, 0.032767, true},
        {false, 1e-6, true}, {false, 0.032768, false}, {false, 0.04, false}, {false, 0.065537, false}, {false, 2000, false}, {false, -0.04, false}, {false, 0, false},
        {false, std::numeric_limits<double>::quiet_NaN(), false}, {false, std::numeric_limits<double>::infinity(), false}, {false, 1e300, false}};
    V v = vs[W.draw(sizeof(vs) / sizeof(vs[0]))];
    bool direct = W.draw(2), after = W.draw(2);
    sample(fmt("%d ranks, %s = %.9g%s", nr, v.is_ns ? "ns" : "interval", v.v, after ? " followed by an ordinary value" : ""));
    sim::swarm_config(nr);
    if (!run_job("unrepresentable value", nr, [&](int) {
            auto piol = new_piol();
            WF f;
            if (direct) f.d = std::make_shared<P::WriteDirect>(piol, "odd.segy");
            else f.i = std::shared_ptr<P::WriteInterface>(P::makeFile<P::WriteSEGY>(piol, "odd.segy"));
            f.text("C");
            if (!v.is_ns) f.ns(3);
            if (v.is_ns) f.ns(size_t(v.v)); else f.inc(v.v);
            if (after && !v.ok) { if (v.is_ns) f.ns(7); else f.inc(0.004); }
            if (piol->log->isErr() == v.ok) sim::violation(v.ok ? "spurious-error" : "failure-not-reported", fmt("%s = %.9g %s", v.is_ns ? "ns" : "interval", v.v, v.ok ? "is reported as an error" : "is not reported"));
            if (v.is_ns) f.inc(0.004);
            f.nt(0);
        })) return;
    nontrivial();
    if (!v.ok) return;
    Bytes b = sim::fs.get("odd.segy");
    if (b.size() < HO) return sim::note_violation("wrong-file-unreported", fmt("odd.segy has %zu bytes", b.size()));
    int got = get16(&b[v.is_ns ? 3220 : 3216]), want = int(std::lround(v.is_ns ? v.v : v.v * 1e6));
    if (got != want) sim::note_violation("wrong-file-unreported", fmt("the file header holds %d instead of %d", got, want));
}
SCENARIO(C06, write_and_read, 3)
{
    int nr = draw_ranks(5, 2);
    FJob j = gen_fjob(nr);
    sample(fmt("%d ranks, order %d; ", nr, j.order) + j.a.describe() + " | " + j.b.describe() + " | in" + j.rp.describe());
    start_fjob(j, nr);
    run_job("job with failing file operations", nr, [&](int r) { fault_job(j, r, nr, false); });
    if (!sim::faults.empty()) nontrivial();
}
