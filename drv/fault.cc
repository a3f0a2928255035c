// C05 and C06 for everything above reading and writing: sorts, gathers,
// extremes, order checks, velocity models and flows whose file operations fail,
// and the utilities.
#include "util.hh"

#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/ReadModel.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/PIOL/operations/sort.hh"
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
#include "ExSeisDat/utils/signal_processing/taper.h"

namespace U = exseis::utils;
namespace F = exseis::Flow;
extern const int sort_types[9];
int concatenate_main(int, char**);
int segsort_main(int, char**);
int radon_main(int, char**);
int fourdbin_main(int, char**);
int makerep_main(int, char**);
int filemake_main(int, char**);
int minmax_main(int, char**);
int assess_main(int, char**);
int versort_main(int, char**);

enum { S_GATHERS, S_ORDER, S_SORT, S_EXTREMES, S_FLOW, S_MODEL, S_RADON, S_KINDS };
static const char* s_names[S_KINDS] = {"gathers", "order", "sort", "extremes", "flow", "model", "radon"};
struct FStep { int k; uint64_t salt; SegY in, in2; };

static std::vector<FStep> gen_steps(std::string& d)
{
    std::vector<FStep> st(1 + W.draw(3));
    for (size_t i = 0; i < st.size(); i++) {
        FStep& s = st[i];
        s.k = int(W.draw(S_KINDS));
        s.salt = 1 + W.draw(100000);
        size_t nt = W.draw(14), ns = 2 + W.draw(6);
        if (s.k == S_MODEL || s.k == S_RADON) nt++;
        s.in = gen_segy(nt, ns, s.salt, 5);
        if (s.k == S_MODEL || s.k == S_RADON || s.k == S_GATHERS)
            for (size_t t = 0; t < nt; t++) { s.in.t[t].h.il = int(t / 3); s.in.t[t].h.xl = 1; s.in.t[t].h.off = int(10 * (t % 3)); }
        sim::fs.put(fmt("r%zu.segy", i)) = encode(s.in);
        if (s.k == S_FLOW) { s.in2 = gen_segy(W.draw(8), W.draw(2) ? ns : ns + 1, s.salt + 1, 5); sim::fs.put(fmt("r%zu_b.segy", i)) = encode(s.in2); }
        if (s.k == S_MODEL || s.k == S_RADON) {
            s.in2 = gen_segy(nt / 3 + 1, 4, s.salt + 2, 5);
            for (size_t t = 0; t < s.in2.t.size(); t++) { s.in2.t[t].h.il = int(t); s.in2.t[t].h.xl = 1; for (auto& x : s.in2.t[t].s) x = 1500; }
            sim::fs.put(fmt("v%zu.segy", i)) = encode(s.in2);
        }
        d += fmt(" %s", s_names[s.k]);
    }
    return st;
}
static void do_step(const FStep& s, size_t i, const std::shared_ptr<P::ExSeis>& piol, int r, int nr)
{
    std::string nm = fmt("r%zu.segy", i), vm = fmt("v%zu.segy", i);
    auto h = [&](uint64_t k, uint64_t mod) { return size_t(h64(s.salt, k, 55) % mod); };
    switch (s.k) {
        case S_GATHERS: {
            auto f = P::makeFile<P::ReadSEGY>(piol, nm);
            auto g = P::getIlXlGathers(piol.get(), f.get());
            for (size_t k = 0; k < g.size(); k++) (void)P::Gather_info(g[k]);
            break;
        }
        case S_ORDER: {
            P::ReadDirect in(piol, nm);
            P::checkOrder((P::ReadInterface*)in, U::block_decomposition(in.readNt(), size_t(nr), size_t(r)), P::SortType(sort_types[h(3, 9)]));
            break;
        }
        case S_SORT: {
            auto f = P::makeFile<P::ReadSEGY>(piol, nm);
            auto dec = U::block_decomposition(f->readNt(), size_t(nr), size_t(r));
            P::Param prm(std::make_shared<P::Rule>(true, true), dec.local_size);
            f->readParam(dec.global_offset, dec.local_size, &prm);
            for (size_t t = 0; t < dec.local_size; t++) P::param_utils::setPrm(t, PIOL_META_gtn, dec.global_offset + t, &prm);
            P::sort(piol.get(), P::SortType(sort_types[h(2, 9)]), &prm);
            break;
        }
        case S_EXTREMES: {
            F::Set set(piol);
            set.add(nm);
            P::CoordElem mm[4];
            set.getMinMax(PIOL_META_xSrc, PIOL_META_ySrc, mm);
            break;
        }
        case S_FLOW: {
            F::Set set(piol);
            set.add(fmt("r%zu*.segy", i));
            if (h(10, 2)) set.sort(P::SortType(sort_types[h(11, 9)]));
            if (h(12, 2)) set.taper(&U::linear_taper, 1, 1);
            if (h(13, 3) == 0) set.text("C some text");
            set.output(fmt("f%zu_", i));
            break;
        }
        case S_MODEL: {
            auto f = P::makeFile<P::ReadSEGY>(piol, nm);
            auto g = P::getIlXlGathers(piol.get(), f.get());
            auto v = P::makeFile<P::ReadSEGYModel>(piol, vm);
            std::vector<size_t> mine;
            for (size_t k = size_t(r); k < g.size(); k += size_t(nr)) mine.push_back(k);
            (void)v->readModel(mine.size(), mine.data(), g);
            break;
        }
        default: {
            F::Set set(piol);
            set.add(nm);
            set.toAngle(vm, 1 + h(14, 4), 1 + h(15, 5));
            set.output(fmt("f%zu_", i));
            break;
        }
    }
}
SCENARIO(C06, operations, 1)
{
    int nr = draw_ranks(5, 2);
    std::string d = fmt("%d ranks:", nr);
    auto st = gen_steps(d);
    sim::knob_mem = W.draw(2) ? 0 : 3000 + long(W.draw(20000));
    sample(d);
    sim::swarm_config(nr);
    draw_io_faults(S.draw(3) != 0);
    run_job("operations whose file accesses fail", nr, [&](int r) {
        auto piol = new_piol();
        for (size_t i = 0; i < st.size(); i++) do_step(st[i], i, piol, r, nr);
    }, J_ALLOW_EXIT);
    if (!sim::faults.empty()) nontrivial();
}
// ... and whoever met a failure says so
SCENARIO(C05, operations, 2)
{
    int nr = draw_ranks(5, 1);
    std::string d = fmt("%d ranks:", nr);
    auto st = gen_steps(d);
    sim::knob_mem = W.draw(2) ? 0 : 3000 + long(W.draw(20000));
    sample(d);
    sim::swarm_config(nr);
    draw_io_faults(S.draw(3) != 0);
    sim::cfg.nranks = nr;
    sim::mpi_reset();
    sim::run(nr, [&](int r) {
        auto piol = new_piol();
        for (size_t i = 0; i < st.size(); i++) {
            do_step(st[i], i, piol, r, nr);
            if (faults_at(r, "")) {
                if (!piol->log->isErr()) sim::violation("failure-not-reported", fmt("rank %d: %s failed but no error is set after %s", r, first_fault(r, "").c_str(), s_names[st[i].k]));
                for (auto& f : sim::faults)
                    if (f.rank == r && f.surfaced && !log_names(*piol, f.file))
                        sim::violation("failure-not-logged", fmt("rank %d: %s on %s failed but no logged error names the file after %s", r, f.op.c_str(), f.file.c_str(), s_names[st[i].k]));
            }
            else if (sim::faults.empty() && piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed, after %s", r, s_names[st[i].k]));
        }
    });
    if (failed()) return;
    if (!sim::faults.empty()) nontrivial();
}
// The utilities whose file operations fail: they end, one way or another.
SCENARIO(C06, utilities, 1)
{
    static const struct { const char* name; UtilMain m; } u[] = {{"minmax", minmax_main}, {"assess", assess_main}, {"versort", versort_main}, {"filemake", filemake_main},
        {"makerep", makerep_main}, {"concatenate", concatenate_main}, {"segsort", segsort_main}, {"fourdbin", fourdbin_main}, {"radon", radon_main}};
    int nr = draw_ranks(5, 2);
    size_t k = W.draw(9);
    size_t nt = 1 + W.draw(14), ns = 2 + W.draw(6);
    SegY a = gen_segy(nt, ns, 1 + W.draw(10000), 5), b = gen_segy(1 + W.draw(12), ns, 1 + W.draw(10000), 5);
    for (size_t i = 0; i < a.t.size(); i++) { a.t[i].h.il = int(i / 3); a.t[i].h.xl = 1; a.t[i].h.off = int(10 * (i % 3)); }
    for (size_t i = 0; i < b.t.size(); i++) { b.t[i].h.il = int(i); b.t[i].h.xl = 1; for (int z = 0; z < 6; z++) b.t[i].h.c[z] = a.t[i % a.t.size()].h.c[z]; }
    SegY vm = gen_segy(a.t.back().h.il + 1, 4, 77, 5);
    for (size_t i = 0; i < vm.t.size(); i++) { vm.t[i].h.il = int(i); vm.t[i].h.xl = 1; for (auto& x : vm.t[i].s) x = 1500; }
    sim::fs.put("a.segy") = encode(a);
    sim::fs.put("b.segy") = encode(b);
    sim::fs.put("vm.segy") = encode(vm);
    std::vector<std::string> g;
    std::string name = u[k].name;
    auto opt = [&](const char* a, const std::string& v = "") {
        if (W.draw(3) != 2) return;
        g.push_back(a);
        if (!v.empty()) g.push_back(v);
    };
    if (name == "minmax") g = {"-i", "a.segy", "-o", "o.segy"};
    else if (name == "assess") g = {"-i", "a.segy"};
    else if (name == "versort") g = {"-i", "a.segy", "-t", fmt("%d", sort_types[W.draw(9)])};
    else if (name == "filemake") g = {"-o", "o.segy", "-s", fmt("%d", 2 + int(W.draw(5))), "-t", fmt("%d", 1 + int(W.draw(20))), "-m", "1", "-i", "0.002"}, opt("-l"), opt("-r");
    else if (name == "makerep") g = {"-i", "a.segy", "-o", "o.segy", "-r", fmt("%d", 1 + int(W.draw(4)))}, opt("-v", W.draw(2) ? "naive1" : "naive2");
    else if (name == "concatenate") g = {"-i", "?.segy", "-o", "out_"};
    else if (name == "segsort") g = {"-i", "?.segy", "-o", "out_"};
    else if (name == "fourdbin") g = {"-a", "a.segy", "-b", "b.segy", "-c", "oa.segy", "-d", "ob.segy", "-t", "100"}, opt("-x"), opt("-p"), opt("-v");
    else g = {"-i", "a.segy", "-v", "vm.segy", "-o", "out_"};
    if (name == "radon") opt("-b", fmt("%d", 1 + int(W.draw(6)))), opt("-a", fmt("%d", 4 + int(W.draw(9))));
    if (W.draw(8) == 7) sim::fs.put("a.segy").resize(W.draw(2) ? W.draw(3600) : 3600 + W.draw(2000)); // cut short
    std::string line;
    for (auto& x : g) line += " " + x;
    sample(fmt("%d ranks: %s%s", nr, name.c_str(), line.c_str()));
    sim::knob_mem = W.draw(2) ? 0 : 3000 + long(W.draw(20000));
    sim::swarm_config(nr);
    draw_io_faults(S.draw(3) != 0);
    run_job("a utility whose file accesses fail", nr, [&](int) {
        std::vector<std::string> av(1, name);
        av.insert(av.end(), g.begin(), g.end());
        std::vector<char*> v;
        for (auto& x : av) v.push_back(&x[0]);
        v.push_back(nullptr);
        u[k].m(int(av.size()), v.data());
    }, J_ALLOW_EXIT);
    if (!sim::faults.empty()) nontrivial();
}
