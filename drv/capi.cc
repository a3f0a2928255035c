// C17: one program written once and run twice, through the C interface and
// through the C++ interface, each under a schedule of its own.
#include "io.hh"

#include "ExSeisDat/Flow.h"
#include "ExSeisDat/Flow.hh"
#include "ExSeisDat/PIOL.h"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/PIOL/operations/sort.hh"
#include "ExSeisDat/utils/signal_processing/taper.h"

#include <algorithm>

namespace U = exseis::utils;
namespace F = exseis::Flow;
namespace pu = P::param_utils;
typedef P::Meta Meta;

extern const int sort_types[9];

typedef U::Gain_function Gain;
typedef U::Taper_function Taper;
// functions of the user of either interface
static bool by_coord(const P::Param* p, size_t i, size_t j)
{
    double a = pu::getPrm<double>(i, PIOL_META_xCmp, p), b = pu::getPrm<double>(j, PIOL_META_xCmp, p);
    return a < b || (a == b && pu::getPrm<double>(i, PIOL_META_yCmp, p) < pu::getPrm<double>(j, PIOL_META_yCmp, p));
}
static bool by_offset_down(const P::Param* p, size_t i, size_t j)
{
    return pu::getPrm<U::Integer>(i, PIOL_META_Offset, p) > pu::getPrm<U::Integer>(j, PIOL_META_Offset, p);
}
static float my_taper(float w, float ramp) { return w / (2 * ramp + 1); }
static float my_gain(const float* s, size_t n, float target, size_t center)
{
    float m = 0;
    for (size_t i = 0; i < n; i++) m += s[i];
    return target / (m + 1000 + float(center));
}

struct CApi {
    typedef PIOL_ExSeis* Ex;
    typedef PIOL_File_Rule* Rule;
    typedef PIOL_File_Param* Prm;
    typedef PIOL_File_ReadDirect* Rd;
    typedef PIOL_File_WriteDirect* Wr;
    typedef PIOL_Set* Set;
    static const char* name() { return "C"; }
    Ex ex(size_t v) { return PIOL_ExSeis_new(v); }
    void del(Ex e) { PIOL_ExSeis_delete(e); }
    void barrier(Ex e) { PIOL_ExSeis_barrier(e); }
    void is_err(Ex e, const char* m) { PIOL_ExSeis_isErr(e, m); }
    size_t rank(Ex e) { return PIOL_ExSeis_getRank(e); }
    size_t nrank(Ex e) { return PIOL_ExSeis_getNumRank(e); }
    size_t max(Ex e, size_t n) { return PIOL_ExSeis_max(e, n); }
    Rule rule(bool def) { return PIOL_File_Rule_new(def); }
    Rule rule(const std::vector<Meta>& m) { return PIOL_File_Rule_new_from_list(m.data(), m.size()); }
    void del(Rule r) { PIOL_File_Rule_delete(r); }
    bool add(Rule r, Meta m) { return PIOL_File_Rule_addRule_Meta(r, m); }
    bool add(Rule r, Rule o) { return PIOL_File_Rule_addRule_Rule(r, o); }
    void add_long(Rule r, Meta m, P::Tr t) { PIOL_File_Rule_addLong(r, m, t); }
    void add_short(Rule r, Meta m, P::Tr t) { PIOL_File_Rule_addShort(r, m, t); }
    void add_float(Rule r, Meta m, P::Tr t, P::Tr s) { PIOL_File_Rule_addSEGYFloat(r, m, t, s); }
    void add_index(Rule r, Meta m) { PIOL_File_Rule_addIndex(r, m); }
    void add_copy(Rule r) { PIOL_File_Rule_addCopy(r); }
    void rm(Rule r, Meta m) { PIOL_File_Rule_rmRule(r, m); }
    size_t extent(Rule r) { return PIOL_File_Rule_extent(r); }
    size_t mem(Rule r) { return PIOL_File_Rule_memUsage(r); }
    size_t pmem(Rule r) { return PIOL_File_Rule_paramMem(r); }
    Prm prm(Rule r, size_t n) { return PIOL_File_Param_new(r, n); }
    Prm prm(size_t n) { return PIOL_File_Param_new(NULL, n); }
    void del(Prm p) { PIOL_File_Param_delete(p); }
    size_t size(Prm p) { return PIOL_File_Param_size(p); }
    size_t mem(Prm p) { return PIOL_File_Param_memUsage(p); }
    int16_t get_s(size_t i, Meta m, Prm p) { return PIOL_File_getPrm_short(i, m, p); }
    int64_t get_i(size_t i, Meta m, Prm p) { return PIOL_File_getPrm_Integer(i, m, p); }
    double get_d(size_t i, Meta m, Prm p) { return PIOL_File_getPrm_double(i, m, p); }
    void set_s(size_t i, Meta m, int16_t v, Prm p) { PIOL_File_setPrm_short(i, m, v, p); }
    void set_i(size_t i, Meta m, int64_t v, Prm p) { PIOL_File_setPrm_Integer(i, m, v, p); }
    void set_d(size_t i, Meta m, double v, Prm p) { PIOL_File_setPrm_double(i, m, v, p); }
    void cpy(size_t i, Prm s, size_t j, Prm d) { PIOL_File_cpyPrm(i, s, j, d); }
    Wr wr(Ex e, const std::string& n) { return PIOL_File_WriteDirect_new(e, n.c_str()); }
    Rd rd(Ex e, const std::string& n) { return PIOL_File_ReadDirect_new(e, n.c_str()); }
    void del(Wr w) { PIOL_File_WriteDirect_delete(w); }
    void del(Rd w) { PIOL_File_ReadDirect_delete(w); }
    std::string text(Rd r) { return PIOL_File_ReadDirect_readText(r); }
    size_t ns(Rd r) { return PIOL_File_ReadDirect_readNs(r); }
    size_t nt(Rd r) { return PIOL_File_ReadDirect_readNt(r); }
    double inc(Rd r) { return PIOL_File_ReadDirect_readInc(r); }
    void text(Wr w, const std::string& t) { PIOL_File_WriteDirect_writeText(w, t.c_str()); }
    void ns(Wr w, size_t n) { PIOL_File_WriteDirect_writeNs(w, n); }
    void nt(Wr w, size_t n) { PIOL_File_WriteDirect_writeNt(w, n); }
    void inc(Wr w, double x) { PIOL_File_WriteDirect_writeInc(w, x); }
    void trace(Rd r, size_t o, size_t n, float* t, Prm p) { PIOL_File_ReadDirect_readTrace(r, o, n, t, p); }
    void trace(Rd r, size_t o, size_t n, float* t) { PIOL_File_ReadDirect_readTrace(r, o, n, t, NULL); }
    void param(Rd r, size_t o, size_t n, Prm p) { PIOL_File_ReadDirect_readParam(r, o, n, p); }
    void trace(Wr r, size_t o, size_t n, float* t, Prm p) { PIOL_File_WriteDirect_writeTrace(r, o, n, t, p); }
    void trace(Wr r, size_t o, size_t n, float* t) { PIOL_File_WriteDirect_writeTrace(r, o, n, t, NULL); }
    void param(Wr r, size_t o, size_t n, Prm p) { PIOL_File_WriteDirect_writeParam(r, o, n, p); }
    void list(Rd r, size_t n, const size_t* o, float* t, Prm p) { PIOL_File_ReadDirect_readTraceNonContiguous(r, n, o, t, p); }
    void list(Rd r, size_t n, const size_t* o, float* t) { PIOL_File_ReadDirect_readTraceNonContiguous(r, n, o, t, NULL); }
    void any(Rd r, size_t n, const size_t* o, float* t, Prm p) { PIOL_File_ReadDirect_readTraceNonMonotonic(r, n, o, t, p); }
    void any(Rd r, size_t n, const size_t* o, float* t) { PIOL_File_ReadDirect_readTraceNonMonotonic(r, n, o, t, NULL); }
    void plist(Rd r, size_t n, const size_t* o, Prm p) { PIOL_File_ReadDirect_readParamNonContiguous(r, n, o, p); }
    void list(Wr r, size_t n, const size_t* o, float* t, Prm p) { PIOL_File_WriteDirect_writeTraceNonContiguous(r, n, o, t, p); }
    void list(Wr r, size_t n, const size_t* o, float* t) { PIOL_File_WriteDirect_writeTraceNonContiguous(r, n, o, t, NULL); }
    void plist(Wr r, size_t n, const size_t* o, Prm p) { PIOL_File_WriteDirect_writeParamNonContiguous(r, n, o, p); }
    void minmax(Ex e, size_t o, size_t n, Meta a, Meta b, Prm p, P::CoordElem* m) { PIOL_File_getMinMax(e, o, n, a, b, p, m); }
    std::vector<size_t> sizes(size_t nt, size_t ns) { return {PIOL_SEGY_utils_getTextSz(), PIOL_SEGY_utils_getDFSz(ns), PIOL_SEGY_utils_getFileSz(nt, ns), PIOL_SEGY_utils_getMDSz()}; }
    std::vector<size_t> split(size_t n, size_t k, size_t r) { auto d = U::exseis_block_decomposition(n, k, r); return {d.global_offset, d.local_size}; }
    Set set(Ex e, const std::string& p) { return PIOL_Set_new(e, p.c_str()); }
    void del(Set s) { PIOL_Set_delete(s); }
    void add(Set s, const std::string& n) { PIOL_Set_add(s, n.c_str()); }
    void minmax(Set s, Meta a, Meta b, P::CoordElem* m) { PIOL_Set_getMinMax(s, a, b, m); }
    void sort(Set s, P::SortType t) { PIOL_Set_sort(s, t); }
    void sort_fn(Set s, bool (*f)(const P::Param*, size_t, size_t)) { PIOL_Set_sort_fn(s, f); }
    void taper(Set s, int t, size_t a, size_t b)
    {
        exseis_Taper_function f[4] = {&U::exseis_linear_taper, &U::exseis_cosine_taper, &U::exseis_cosine_square_taper, &my_taper};
        PIOL_Set_taper(s, f[t], a, b);
    }
    void taper(std::vector<float>& x, int t, size_t a, size_t b)
    {
        exseis_Taper_function f[4] = {&U::exseis_linear_taper, &U::exseis_cosine_taper, &U::exseis_cosine_square_taper, &my_taper};
        U::exseis_taper(x.size(), x.data(), f[t], a, b);
    }
    void agc(std::vector<float>& x, int g, size_t w, float v)
    {
        exseis_Gain_function f[5] = {&U::exseis_rectangular_RMS_gain, &U::exseis_triangular_RMS_gain, &U::exseis_mean_abs_gain, &U::exseis_median_gain, &my_gain};
        U::exseis_AGC(x.size(), x.data(), f[g], w, v);
    }
    void agc(Set s, int g, size_t w, float v)
    {
        exseis_Gain_function f[5] = {&U::exseis_rectangular_RMS_gain, &U::exseis_triangular_RMS_gain, &U::exseis_mean_abs_gain, &U::exseis_median_gain, &my_gain};
        PIOL_Set_AGC(s, f[g], w, v);
    }
    void text(Set s, const std::string& t) { PIOL_Set_text(s, t.c_str()); }
    void summary(Set s) { PIOL_Set_summary(s); }
    void output(Set s, const std::string& o) { PIOL_Set_output(s, o.c_str()); }
};

struct XApi {
    typedef std::shared_ptr<P::ExSeis> Ex;
    typedef std::shared_ptr<P::Rule> Rule;
    typedef P::Param* Prm;
    typedef P::ReadDirect* Rd;
    typedef P::WriteDirect* Wr;
    typedef F::Set* Set;
    static const char* name() { return "C++"; }
    Ex ex(size_t v) { return P::ExSeis::New(v); }
    void del(Ex& e) { e.reset(); }
    void barrier(Ex& e) { e->barrier(); }
    void is_err(Ex& e, const char* m) { if (m) e->isErr(m); else e->isErr(); }
    size_t rank(Ex& e) { return e->getRank(); }
    size_t nrank(Ex& e) { return e->getNumRank(); }
    size_t max(Ex& e, size_t n) { return e->max(n); }
    Rule rule(bool def) { return std::make_shared<P::Rule>(true, def); }
    Rule rule(const std::vector<Meta>& m) { return std::make_shared<P::Rule>(m, true, false, false); }
    void del(Rule& r) { r.reset(); }
    bool add(Rule& r, Meta m) { return r->addRule(m); }
    bool add(Rule& r, Rule& o) { return r->addRule(*o); }
    void add_long(Rule& r, Meta m, P::Tr t) { r->addLong(m, t); }
    void add_short(Rule& r, Meta m, P::Tr t) { r->addShort(m, t); }
    void add_float(Rule& r, Meta m, P::Tr t, P::Tr s) { r->addSEGYFloat(m, t, s); }
    void add_index(Rule& r, Meta m) { r->addIndex(m); }
    void add_copy(Rule& r) { r->addCopy(); }
    void rm(Rule& r, Meta m) { r->rmRule(m); }
    size_t extent(Rule& r) { return r->extent(); }
    size_t mem(Rule& r) { return r->memUsage(); }
    size_t pmem(Rule& r) { return r->paramMem(); }
    Prm prm(Rule& r, size_t n) { return new P::Param(r, n); }
    Prm prm(size_t n) { return new P::Param(n); }
    void del(Prm p) { delete p; }
    size_t size(Prm p) { return p->size(); }
    size_t mem(Prm p) { return p->memUsage(); }
    int16_t get_s(size_t i, Meta m, Prm p) { return pu::getPrm<int16_t>(i, m, p); }
    int64_t get_i(size_t i, Meta m, Prm p) { return pu::getPrm<U::Integer>(i, m, p); }
    double get_d(size_t i, Meta m, Prm p) { return pu::getPrm<U::Floating_point>(i, m, p); }
    void set_s(size_t i, Meta m, int16_t v, Prm p) { pu::setPrm<int16_t>(i, m, v, p); }
    void set_i(size_t i, Meta m, int64_t v, Prm p) { pu::setPrm<U::Integer>(i, m, v, p); }
    void set_d(size_t i, Meta m, double v, Prm p) { pu::setPrm<U::Floating_point>(i, m, v, p); }
    void cpy(size_t i, Prm s, size_t j, Prm d) { pu::cpyPrm(i, s, j, d); }
    Wr wr(Ex& e, const std::string& n) { return new P::WriteDirect(e, n); }
    Rd rd(Ex& e, const std::string& n) { return new P::ReadDirect(e, n); }
    void del(Wr w) { delete w; }
    void del(Rd w) { delete w; }
    std::string text(Rd r) { return r->readText().c_str(); }
    size_t ns(Rd r) { return r->readNs(); }
    size_t nt(Rd r) { return r->readNt(); }
    double inc(Rd r) { return r->readInc(); }
    void text(Wr w, const std::string& t) { w->writeText(t); }
    void ns(Wr w, size_t n) { w->writeNs(n); }
    void nt(Wr w, size_t n) { w->writeNt(n); }
    void inc(Wr w, double x) { w->writeInc(x); }
    void trace(Rd r, size_t o, size_t n, float* t, Prm p) { r->readTrace(o, n, t, p); }
    void trace(Rd r, size_t o, size_t n, float* t) { r->readTrace(o, n, t); }
    void param(Rd r, size_t o, size_t n, Prm p) { r->readParam(o, n, p); }
    void trace(Wr r, size_t o, size_t n, float* t, Prm p) { r->writeTrace(o, n, t, p); }
    void trace(Wr r, size_t o, size_t n, float* t) { r->writeTrace(o, n, t); }
    void param(Wr r, size_t o, size_t n, Prm p) { r->writeParam(o, n, p); }
    void list(Rd r, size_t n, const size_t* o, float* t, Prm p) { r->readTraceNonContiguous(n, o, t, p); }
    void list(Rd r, size_t n, const size_t* o, float* t) { r->readTraceNonContiguous(n, o, t); }
    void any(Rd r, size_t n, const size_t* o, float* t, Prm p) { r->readTraceNonMonotonic(n, o, t, p); }
    void any(Rd r, size_t n, const size_t* o, float* t) { r->readTraceNonMonotonic(n, o, t); }
    void plist(Rd r, size_t n, const size_t* o, Prm p) { r->readParamNonContiguous(n, o, p); }
    void list(Wr r, size_t n, const size_t* o, float* t, Prm p) { r->writeTraceNonContiguous(n, o, t, p); }
    void list(Wr r, size_t n, const size_t* o, float* t) { r->writeTraceNonContiguous(n, o, t); }
    void plist(Wr r, size_t n, const size_t* o, Prm p) { r->writeParamNonContiguous(n, o, p); }
    void minmax(Ex& e, size_t o, size_t n, Meta a, Meta b, Prm p, P::CoordElem* m) { P::getMinMax(e.get(), o, n, a, b, p, m); }
    std::vector<size_t> sizes(size_t nt, size_t ns) { return {P::SEGY_utils::getTextSz(), P::SEGY_utils::getDFSz<float>(ns), P::SEGY_utils::getFileSz<float>(nt, ns), P::SEGY_utils::getMDSz()}; }
    std::vector<size_t> split(size_t n, size_t k, size_t r) { auto d = U::block_decomposition(n, k, r); return {d.global_offset, d.local_size}; }
    Set set(Ex& e, const std::string& p) { return new F::Set(e, p); }
    void del(Set s) { delete s; }
    void add(Set s, const std::string& n) { s->add(n); }
    void minmax(Set s, Meta a, Meta b, P::CoordElem* m) { s->getMinMax(a, b, m); }
    void sort(Set s, P::SortType t) { s->sort(t); }
    void sort_fn(Set s, bool (*f)(const P::Param*, size_t, size_t)) { s->sort(f); }
    void taper(Set s, int t, size_t a, size_t b)
    {
        Taper f[4] = {&U::linear_taper, &U::cosine_taper, &U::cosine_square_taper, &my_taper};
        s->taper(f[t], a, b);
    }
    void taper(std::vector<float>& x, int t, size_t a, size_t b)
    {
        Taper f[4] = {&U::linear_taper, &U::cosine_taper, &U::cosine_square_taper, &my_taper};
        U::taper(x.size(), x.data(), f[t], a, b);
    }
    void agc(std::vector<float>& x, int g, size_t w, float v)
    {
        Gain f[5] = {&U::rectangular_RMS_gain, &U::triangular_RMS_gain, &U::mean_abs_gain, &U::median_gain, &my_gain};
        U::AGC(x.size(), x.data(), f[g], w, v);
    }
    void agc(Set s, int g, size_t w, float v)
    {
        Gain f[5] = {&U::rectangular_RMS_gain, &U::triangular_RMS_gain, &U::mean_abs_gain, &U::median_gain, &my_gain};
        s->AGC(f[g], w, v);
    }
    void text(Set s, const std::string& t) { s->text(t); }
    void summary(Set s) { s->summary(); }
    void output(Set s, const std::string& o) { s->output(o); }
};

// -------------------------------------------------------------- the program -
enum { ST_RULE, ST_WRITE, ST_READ, ST_EXTREMES, ST_FLOW, ST_COMM, ST_ERR, ST_KINDS };
static const char* st_names[ST_KINDS] = {"rules", "write", "read", "extremes", "flow", "communicator", "failure"};
struct Step { int kind; uint64_t salt; size_t nt, ns; int sub; bool early; };
struct Prog { std::vector<Step> st; int nr; size_t verbosity; };
struct Dice {
    uint64_t salt, n = 0;
    explicit Dice(uint64_t s) : salt(s) {}
    size_t operator()(size_t m) { return size_t(h64(salt, ++n, 4242) >> 8) % m; }
};
typedef std::vector<std::vector<std::string>> Obs;

// the fields of a rule as its user knows them
enum { T_FLOAT, T_LONG, T_SHORT, T_INDEX };
typedef std::map<int, int> Fields;
static const struct { Meta m; int t; } known[] = {
    {PIOL_META_xSrc, T_FLOAT}, {PIOL_META_ySrc, T_FLOAT}, {PIOL_META_xRcv, T_FLOAT}, {PIOL_META_yRcv, T_FLOAT}, {PIOL_META_xCmp, T_FLOAT},
    {PIOL_META_yCmp, T_FLOAT}, {PIOL_META_Offset, T_LONG}, {PIOL_META_il, T_LONG}, {PIOL_META_xl, T_LONG}, {PIOL_META_tn, T_LONG},
    {PIOL_META_WtrDepSrc, T_FLOAT}, {PIOL_META_WtrDepRcv, T_FLOAT}, {PIOL_META_tnl, T_LONG}, {PIOL_META_tnr, T_LONG}, {PIOL_META_tne, T_LONG},
    {PIOL_META_SrcNum, T_LONG}, {PIOL_META_Tic, T_SHORT}, {PIOL_META_VStack, T_SHORT}, {PIOL_META_HStack, T_SHORT}, {PIOL_META_RGElev, T_FLOAT},
    {PIOL_META_SSElev, T_FLOAT}, {PIOL_META_SDElev, T_FLOAT}, {PIOL_META_ShotNum, T_FLOAT}, {PIOL_META_TraceUnit, T_SHORT}, {PIOL_META_TransUnit, T_SHORT}};
static const Meta misc[4] = {PIOL_META_Misc1, PIOL_META_Misc2, PIOL_META_Misc3, PIOL_META_Misc4};
static const P::Tr trs[] = {PIOL_TR_SeqNum, PIOL_TR_ORF, PIOL_TR_TIC, PIOL_TR_VStackCnt, PIOL_TR_RcvElv, PIOL_TR_DtmElvRcv, PIOL_TR_DtmElvSrc, PIOL_TR_UpSrc,
    PIOL_TR_UpRcv, PIOL_TR_TransConst, PIOL_TR_SrcMeas, PIOL_TR_xCmp, PIOL_TR_il};

template<class A>
struct Runner {
    A a;
    const Prog& p;
    int r;
    std::vector<std::string>& obs;
    typename A::Ex ex;
    Runner(const Prog& p_, int r_, std::vector<std::string>& o) : p(p_), r(r_), obs(o) {}
    void see(const std::string& s) { obs.push_back(s); }

    typename A::Rule make_rule(Dice& d, Fields& f, int depth = 0)
    {
        typename A::Rule ru;
        Fields idx;
        f[PIOL_META_gtn] = T_INDEX;
        f[PIOL_META_ltn] = T_INDEX;
        if (d(2)) {
            bool def = d(3) != 0;
            ru = a.rule(def);
            if (def) for (int i = 0; i < 10; i++) f[known[i].m] = known[i].t;
        } else {
            std::vector<Meta> ms;
            size_t n = d(6);
            for (size_t i = 0; i < n; i++) {
                auto& k = known[d(25)];
                ms.push_back(k.m);
                f[k.m] = k.t;
            }
            if (d(4) == 0) ms.push_back(PIOL_META_COPY);
            ru = a.rule(ms);
        }
        size_t edits = d(8);
        for (size_t i = 0; i < edits; i++) {
            switch (d(9)) {
                case 0: case 1: {
                    auto& k = known[d(25)];
                    see(fmt("addRule(%d) %d", int(k.m), int(a.add(ru, k.m))));
                    if (!f.count(k.m)) f[k.m] = k.t;
                    break;
                }
                case 2: {
                    Meta m = misc[d(4)];
                    P::Tr t = trs[d(13)];
                    a.add_long(ru, m, t);
                    f[m] = T_LONG;
                    break;
                }
                case 3: {
                    Meta m = misc[d(4)];
                    P::Tr t = trs[d(13)];
                    a.add_short(ru, m, t);
                    f[m] = T_SHORT;
                    break;
                }
                case 4: {
                    Meta m = misc[d(4)];
                    size_t loc = d(13), sc = d(2);
                    a.add_float(ru, m, trs[loc], sc ? PIOL_TR_ScaleElev : PIOL_TR_ScaleCoord);
                    f[m] = T_FLOAT;
                    break;
                }
                case 5: {
                    Meta m = misc[d(4)];
                    a.add_index(ru, m);
                    f[m] = T_INDEX;
                    break;
                }
                case 6: a.add_copy(ru); break;
                case 7: {
                    if (f.empty()) break;
                    auto it = f.begin();
                    std::advance(it, long(d(f.size())));
                    // leave the internal trace numbers alone: the library relies on them
                    if (it->second == T_INDEX && (it->first == PIOL_META_gtn || it->first == PIOL_META_ltn)) break;
                    a.rm(ru, Meta(it->first));
                    f.erase(it);
                    break;
                }
                case 8: {
                    if (depth) break;
                    Fields g;
                    typename A::Rule o = make_rule(d, g, 1);
                    see(fmt("addRule(rule) %d", int(a.add(ru, o))));
                    a.del(o);
                    for (auto& x : g) f.insert(x);
                    break;
                }
            }
        }
        see(fmt("extent %zu memory %zu per set %zu", a.extent(ru), a.mem(ru), a.pmem(ru)));
        return ru;
    }
    void fill(Dice& d, typename A::Prm q, const Fields& f, size_t n)
    {
        for (size_t i = 0; i < n; i++)
            for (auto& x : f) {
                long v = long(d(20000)) - 10000;
                switch (d(6)) {
                    case 4:   // what the field can hold at most
                        if (x.second == T_INDEX) { a.set_i(i, Meta(x.first), (1LL << 40) + v, q); break; }
                        if (x.second == T_LONG) { a.set_i(i, Meta(x.first), v * 214000, q); break; }
                        if (x.second == T_FLOAT) { a.set_d(i, Meta(x.first), double(v) * 1234.5, q); break; }  // fallthrough
                    case 0: a.set_s(i, Meta(x.first), int16_t(x.second == T_INDEX ? std::abs(v) : v), q); break;
                    case 1: if (x.second == T_FLOAT) { a.set_d(i, Meta(x.first), double(v) / 4, q); break; }  // fallthrough
                    default: a.set_i(i, Meta(x.first), x.second == T_INDEX ? std::abs(v) : v, q);
                }
            }
    }
    void show(typename A::Prm q, const Fields& f, size_t n)
    {
        for (size_t i = 0; i < n; i++) {
            std::string s = fmt("set %zu:", i);
            for (auto& x : f) {
                double v = a.get_d(i, Meta(x.first), q);
                s += fmt(" %d=%.17g", x.first, v);
                if (v > -9e15 && v < 9e15) s += fmt("/%lld", (long long)a.get_i(i, Meta(x.first), q));
                if (v > -32768 && v < 32767) s += fmt("/%d", int(a.get_s(i, Meta(x.first), q)));
            }
            see(s);
        }
    }
    void show(const std::vector<float>& t) { std::string s = "samples"; for (float x : t) { uint32_t b; memcpy(&b, &x, 4); s += fmt(" %x", b); } see(s); }
    void show(const char* what, const P::CoordElem* m) { std::string s = what; for (int i = 0; i < 4; i++) s += fmt(" %.17g@%zu", m[i].val, m[i].num); see(s); }

    static Fields defaults()
    {
        Fields f;
        for (int i = 0; i < 10; i++) f[known[i].m] = known[i].t;
        f[PIOL_META_gtn] = f[PIOL_META_ltn] = T_INDEX;
        return f;
    }
    /// a header block of n sets, with a rule of its own or the default one
    typename A::Prm prm(Dice& shape, size_t n, Fields& f, typename A::Rule* keep)
    {
        if (shape(2)) { f = defaults(); return a.prm(n); }
        f.clear();
        *keep = make_rule(shape, f);
        return a.prm(*keep, n);
    }
    void rules(const Step& s)
    {
        Dice d(h64(s.salt, uint64_t(r), 1));
        Fields f, g;
        typename A::Rule ru{}, rg{};
        size_t n = 1 + d(4), m = 1 + d(4);
        typename A::Prm q = prm(d, n, f, &ru), o = prm(d, m, g, &rg);
        see(fmt("sizes %zu %zu memory %zu %zu", a.size(q), a.size(o), a.mem(q), a.mem(o)));
        fill(d, q, f, n);
        fill(d, o, g, m);
        for (int k = 0; k < 3; k++) { size_t i = d(n), j = d(m); a.cpy(i, q, j, o); }
        if (n > 1) a.cpy(0, q, n - 1, q);
        show(q, f, n);
        show(o, g, m);
        a.del(q);
        a.del(o);
        if (ru) a.del(ru);
        if (rg) a.del(rg);
    }
    std::vector<size_t> share(Dice& c, size_t nt, bool random)
    {
        // contiguous or scattered shares of 0..nt-1, the same plan on every process
        size_t style = c(3), salt = c(1 << 20);
        std::vector<size_t> v;
        if (style == 0 && !random) {
            auto d = a.split(nt, size_t(p.nr), size_t(r));
            for (size_t i = 0; i < d[1]; i++) v.push_back(d[0] + i);
        } else if (!random) {
            size_t lo = nt * size_t(r) / size_t(p.nr), hi = nt * size_t(r + 1) / size_t(p.nr);
            for (size_t i = lo; i < hi; i++) v.push_back(i);
        } else
            for (size_t i = 0; i < nt; i++) if (h64(salt, i, 8) % size_t(p.nr) == size_t(r)) v.push_back(i);
        return v;
    }
    void write(const Step& s, size_t at)
    {
        Dice c(h64(s.salt, 2)), shape(h64(s.salt, 3));
        std::string name = fmt("w%zu.segy", at);
        auto w = a.wr(ex, name);
        if (c(3)) a.text(w, std::string(1 + c(90), char('A' + c(26))));
        bool nt_late = c(2);
        if (!nt_late) a.nt(w, s.nt);
        a.ns(w, s.ns);
        a.inc(w, double(1 + c(20000)) * 1e-6);
        size_t ops = 1 + c(3);
        // a trace belongs to one process throughout: the order of writes of several processes is not defined
        bool scattered = c(3) == 0;
        auto mine = share(c, s.nt, scattered);
        for (size_t k = 0; k < ops; k++) {
            bool lst = c(2) || scattered, with_prm = c(3) != 0, with_trc = !with_prm || c(3) != 0, extra = c(3) == 0;
            size_t n = mine.size();
            Fields f;
            typename A::Rule ru{};
            typename A::Prm q = nullptr;
            if (with_prm) {
                q = prm(shape, n + (extra ? 1 : 0), f, &ru);
                Dice d(h64(s.salt, k, 100 + uint64_t(r)));
                fill(d, q, f, n);
            }
            std::vector<float> t(n * s.ns + 1);
            for (size_t i = 0; i < n; i++) for (size_t z = 0; z < s.ns; z++) t[i * s.ns + z] = gen_smp(s.salt + k, mine[i], z);
            size_t off = n ? mine[0] : s.nt * size_t(r) / size_t(p.nr);
            std::vector<size_t> l = mine;
            l.push_back(0);
            if (!lst) {
                if (with_trc && with_prm) a.trace(w, off, n, t.data(), q);
                else if (with_trc) a.trace(w, off, n, t.data());
                else a.param(w, off, n, q);
            } else {
                if (with_trc && with_prm) a.list(w, n, l.data(), t.data(), q);
                else if (with_trc) a.list(w, n, l.data(), t.data());
                else a.plist(w, n, l.data(), q);
            }
            show(t);
            if (q) a.del(q);
            if (ru) a.del(ru);
        }
        if (nt_late) a.nt(w, s.nt);
        a.del(w);
        a.is_err(ex, c(2) ? "writing" : NULL);
    }
    void read(const Step& s, const std::string& name)
    {
        Dice c(h64(s.salt, 4)), shape(h64(s.salt, 5));
        auto f = a.rd(ex, name);
        size_t ns = a.ns(f), nt = a.nt(f);
        see(fmt("ns %zu nt %zu inc %.17g text ", ns, nt, a.inc(f)) + a.text(f));
        size_t ops = 1 + c(4);
        for (size_t k = 0; k < ops; k++) {
            size_t mode = c(3);
            bool with_prm = c(3) != 0, with_trc = mode == 2 || !with_prm || c(3) != 0;
            auto mine = share(c, nt, mode != 0);
            if (mode == 2) {
                Dice d(h64(s.salt, k, 200 + uint64_t(r)));
                for (size_t i = mine.size(); i > 1; i--) std::swap(mine[i - 1], mine[d(i)]);
                if (!mine.empty() && d(2)) mine.push_back(mine[d(mine.size())]);
            }
            size_t n = mine.size();
            Fields fl;
            typename A::Rule ru{};
            typename A::Prm q = nullptr;
            if (with_prm) q = prm(shape, n + 1, fl, &ru);
            std::vector<float> t(n * ns + 1, 77.f);
            size_t off = n ? mine[0] : 0;
            std::vector<size_t> l = mine;
            l.push_back(0);
            if (mode == 0) {
                if (with_trc && with_prm) a.trace(f, off, n, t.data(), q);
                else if (with_trc) a.trace(f, off, n, t.data());
                else a.param(f, off, n, q);
            } else if (mode == 1) {
                if (with_trc && with_prm) a.list(f, n, l.data(), t.data(), q);
                else if (with_trc) a.list(f, n, l.data(), t.data());
                else a.plist(f, n, l.data(), q);
            } else {
                if (with_prm) a.any(f, n, l.data(), t.data(), q);
                else a.any(f, n, l.data(), t.data());
            }
            show(t);
            if (q) { show(q, fl, n); a.del(q); }
            if (ru) a.del(ru);
        }
        a.del(f);
        a.is_err(ex, c(2) ? "reading" : NULL);
    }
    void extremes(const Step& s)
    {
        Dice c(h64(s.salt, 6)), d(h64(s.salt, 7, uint64_t(r)));
        Fields f;
        typename A::Rule ru{};
        Dice shape(h64(s.salt, 8));
        size_t n = d(3) ? d(6) : 0;
        typename A::Prm q;
        if (c(2)) { q = a.prm(n); f = defaults(); }
        else { ru = a.rule(std::vector<Meta>{PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_il, PIOL_META_Tic}); q = a.prm(ru, n); f = {{PIOL_META_xSrc, T_FLOAT}, {PIOL_META_ySrc, T_FLOAT}, {PIOL_META_il, T_LONG}, {PIOL_META_Tic, T_SHORT}}; }
        fill(d, q, f, n);
        static const Meta ms[3] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_il};
        size_t i = c(3), j = c(3), off = 100 * size_t(r);
        P::CoordElem mm[4] = {{-1, 7}, {-1, 7}, {-1, 7}, {-1, 7}};
        a.minmax(ex, off, n, ms[i], ms[j], q, mm);
        show("extremes", mm);
        a.del(q);
        if (ru) a.del(ru);
    }
    void flow(const Step& s, size_t at)
    {
        Dice c(h64(s.salt, 9));
        auto set = a.set(ex, s.sub & 1 ? "in0.segy" : "in*");
        if (s.sub & 1) a.add(set, "in1.segy");
        size_t ops = c(5);
        for (size_t k = 0; k < ops; k++) {
            switch (c(7)) {
                case 0: a.sort(set, P::SortType(sort_types[c(9)])); break;
                case 1: { size_t w = c(2); a.sort_fn(set, w ? &by_coord : &by_offset_down); break; }
                case 2: { size_t t = c(4), l = 1 + c(s.ns / 2), rr = c(s.ns / 2); a.taper(set, int(t), l, rr); break; }
                case 3: { size_t g = c(5), w = 1 + 2 * c((s.ns - 2) / 2); float v = float(1 + c(9)); a.agc(set, int(g), w, v); break; }
                case 4: a.text(set, std::string(1 + c(60), char('a' + c(26)))); break;
                case 5: {
                    static const Meta ms[4] = {PIOL_META_xSrc, PIOL_META_yCmp, PIOL_META_il, PIOL_META_Offset};
                    size_t i = c(4), j = c(4);
                    P::CoordElem mm[4] = {{-1, 7}, {-1, 7}, {-1, 7}, {-1, 7}};
                    a.minmax(set, ms[i], ms[j], mm);
                    show("flow extremes", mm);
                    break;
                }
                case 6: a.summary(set); break;
            }
        }
        if (c(5)) a.output(set, fmt("f%zu_", at));
        a.del(set);
        a.is_err(ex, NULL);
    }
    void comm(const Step& s)
    {
        Dice c(h64(s.salt, 10)), d(h64(s.salt, 11, uint64_t(r)));
        see(fmt("rank %zu of %zu", a.rank(ex), a.nrank(ex)));
        for (size_t k = 0, n = 1 + c(3); k < n; k++) {
            if (c(3) == 0) a.barrier(ex);
            else see(fmt("max %zu", a.max(ex, c(4) ? d(1000) : d(1000) << 40)));
        }
        std::string t = "sizes";
        for (size_t x : a.sizes(s.nt * 1000003, s.ns * 17)) t += fmt(" %zu", x);
        for (size_t x : a.split(s.nt * 37, a.nrank(ex), a.rank(ex))) t += fmt(" %zu", x);
        see(t);
        if (c(2)) {
            std::vector<float> x(6 + c(30));
            size_t zeros = c(3) ? 0 : c(5);
            for (size_t i = zeros; i < x.size(); i++) x[i] = float(int(d(4001)) - 2000) / 8;
            size_t k = c(4), l = 1 + c(x.size() / 2), rr = c(x.size() / 2), g = c(5), w = 1 + 2 * c((x.size() - 2) / 2);
            float v = float(1 + c(9));
            if (c(2)) a.taper(x, int(k), l, rr);
            else a.agc(x, int(g), w, v);
            std::string sig = "signal";
            for (float y : x) sig += fmt(" %.9g", double(y));
            see(sig);
        }
    }
    void error(const Step& s)
    {
        const char* msg = s.salt % 2 ? "a message" : NULL;
        switch (s.sub % 4) {
            case 0: { auto f = a.rd(ex, "missing.segy"); see("opened"); a.is_err(ex, msg); see("not reached"); a.del(f); break; }
            case 1: { auto f = a.set(ex, "nothing*.segy"); see("not reached"); a.del(f); break; }
            case 2: { auto f = a.rd(ex, "short.segy"); see(fmt("nt %zu ns %zu", a.nt(f), a.ns(f))); a.is_err(ex, msg); see("after"); a.del(f); break; }
            case 3: { auto f = a.wr(ex, "dir/none.segy"); a.ns(f, 4); a.nt(f, 2); a.del(f); a.is_err(ex, msg); see("after"); break; }
        }
    }
    void run()
    {
        ex = a.ex(p.verbosity);
        for (size_t i = 0; i < p.st.size(); i++) {
            const Step& s = p.st[i];
            see(fmt("step %zu %s", i, st_names[s.kind]));
            switch (s.kind) {
                case ST_RULE: rules(s); break;
                case ST_WRITE: write(s, i); break;
                case ST_READ: read(s, s.sub ? "in1.segy" : "in0.segy"); break;
                case ST_EXTREMES: extremes(s); break;
                case ST_FLOW: flow(s, i); break;
                case ST_COMM: comm(s); break;
                case ST_ERR: error(s); break;
            }
        }
        a.is_err(ex, "at the end");
        // the handle may go before what was made with it
        a.del(ex);
    }
};
struct Result { sim::End end; int code, rank; Obs obs; std::vector<std::string> err, out; std::map<std::string, Bytes> files; };
template<class A> static bool run_prog(const Prog& p, Result& res)
{
    res.obs.assign(size_t(p.nr), {});
    sim::rank_err.clear();
    sim::rank_out.clear();
    if (!run_job(A::name(), p.nr, [&](int r) { Runner<A> x(p, r, res.obs[size_t(r)]); x.run(); }, J_ALLOW_EXIT)) return false;
    res.end = sim::outcome.end;
    res.code = sim::outcome.exit_code;
    res.rank = sim::outcome.exit_rank;
    res.err = sim::rank_err;
    res.out = sim::rank_out;
    for (auto& f : sim::fs.files) res.files[f.first] = sim::fs.get(f.first);
    return true;
}
SCENARIO(C17, programs, 1)
{
    Prog p;
    p.nr = draw_ranks(5, 1);
    p.verbosity = W.draw(5);
    size_t n = 1 + W.draw(4);
    uint64_t fsalt = 1 + W.draw(100000);
    size_t fns = 6 + W.draw(12);
    std::string d = fmt("%d ranks:", p.nr);
    for (size_t i = 0; i < n; i++) {
        Step s;
        s.kind = int(W.draw(6));
        s.salt = 1 + W.draw(1000000);
        s.nt = W.draw(14);
        s.ns = s.kind == ST_FLOW ? fns : W.draw(9);
        s.sub = int(W.draw(2));
        s.early = false;
        p.st.push_back(s);
        d += fmt(" %s(%zux%zu)", st_names[s.kind], s.nt, s.ns);
    }
    if (W.draw(4) == 3) {
        Step s{ST_ERR, 1 + W.draw(1000), 0, 0, int(W.draw(4)), false};
        p.st.push_back(s);
        d += fmt(" failure %d", s.sub);
    }
    sample(d);
    std::map<std::string, Bytes> start;
    for (int i = 0; i < 2; i++) {
        SegY f = gen_segy(W.draw(12), fns + (i ? W.draw(3) : 0), fsalt + size_t(i), W.draw(4) == 3 ? 1 : 5);
        start[fmt("in%d.segy", i)] = encode(f);
    }
    start["short.segy"] = Bytes(1000 + W.draw(2700), 'x');
    sim::knob_mem = W.draw(2) ? 0 : 4000 + long(W.draw(20000));
    Result c, x;
    bool c_first = W.draw(2) == 0;
    for (int k = 0; k < 2; k++) {
        sim::fs.files.clear();
        for (auto& f : start) sim::fs.put(f.first) = f.second;
        sim::swarm_config(p.nr);
        if (!((k == 0) == c_first ? run_prog<CApi>(p, c) : run_prog<XApi>(p, x))) return;
    }
    nontrivial();
    if (c.end != x.end || (c.end == sim::END_EXIT && c.code != x.code))
        return sim::note_violation("interfaces-end-differently", fmt("the C program %s, the C++ program %s",
            c.end == sim::END_EXIT ? fmt("exits with %d", c.code).c_str() : "completes", x.end == sim::END_EXIT ? fmt("exits with %d", x.code).c_str() : "completes"));
    bool whole = c.end == sim::END_OK;
    for (size_t r = 0; r < size_t(p.nr); r++) {
        size_t m = std::min(c.obs[r].size(), x.obs[r].size());
        for (size_t i = 0; i < m; i++)
            if (c.obs[r][i] != x.obs[r][i]) {
                std::string step;
                for (size_t j = 0; j <= i; j++) if (c.obs[r][j].compare(0, 5, "step ") == 0) step = c.obs[r][j];
                size_t at = 0;
                while (at < c.obs[r][i].size() && at < x.obs[r][i].size() && c.obs[r][i][at] == x.obs[r][i][at]) at++;
                size_t from = at > 40 ? at - 40 : 0;
                return sim::note_violation("interfaces-differ", fmt("rank %zu, %s: the C program sees '%s', the C++ program '%s'", r, step.c_str(),
                    c.obs[r][i].substr(from, 120).c_str(), x.obs[r][i].substr(from, 120).c_str()));
            }
        if (whole && c.obs[r].size() != x.obs[r].size()) return sim::note_violation("interfaces-differ", fmt("rank %zu sees more values in one program", r));
        if (whole || (int(r) == c.rank && int(r) == x.rank)) {
            if (c.err[r] != x.err[r]) {
                size_t at = 0;
                while (at < c.err[r].size() && at < x.err[r].size() && c.err[r][at] == x.err[r][at]) at++;
                size_t from = at > 80 ? at - 80 : 0;
                return sim::note_violation("interfaces-report-differently", fmt("rank %zu: the C program reports '%s', the C++ program '%s'", r, c.err[r].substr(from, 200).c_str(), x.err[r].substr(from, 200).c_str()));
            }
            if (c.out[r] != x.out[r]) return sim::note_violation("interfaces-report-differently", fmt("rank %zu: the output of the two programs differs", r));
            if (!whole && c.obs[r].size() != x.obs[r].size()) return sim::note_violation("interfaces-end-differently", fmt("rank %zu stops at different points", r));
        }
    }
    if (whole) {
        for (auto& f : c.files) if (!x.files.count(f.first)) return sim::note_violation("interfaces-write-differently", "only the C program leaves " + f.first);
        for (auto& f : x.files) {
            if (!c.files.count(f.first)) return sim::note_violation("interfaces-write-differently", "only the C++ program leaves " + f.first);
            if (c.files[f.first] != f.second) {
                size_t ns = f.second.size() > 3222 ? size_t(get16(&f.second[3220])) : 0;
                return sim::note_violation("interfaces-write-differently", f.first + ": " + diff_bytes(c.files[f.first], f.second, ns));
            }
        }
    }
}
