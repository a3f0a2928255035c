// C16: everything a job opened is released, and MPI is started and shut down
// exactly once by whoever is responsible for it.
#include "util.hh"

#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/CommunicatorMPI.hh"
#include "ExSeisDat/PIOL/ReadModel.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/PIOL/operations/sort.hh"
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
#include "ExSeisDat/utils/signal_processing/taper.h"

namespace U = exseis::utils;
namespace F = exseis::Flow;

extern const int sort_types[9];
int concatenate_main(int, char**);
int segsort_main(int, char**);
int radon_main(int, char**);
int fourdbin_main(int, char**);
int makerep_main(int, char**);
int filemake_main(int, char**);
int minmax_main(int, char**);
int assess_main(int, char**);
int versort_main(int, char**);

/// Who starts and who ends MPI.
enum { M_USER, M_LIB, M_USER_LATE, M_USER_NO_FINALISE, M_TOLD_LIB, M_TOLD_BOTH, M_TOLD_USER, M_USER_FINALISES_FIRST, M_KINDS };
static const char* mode_names[M_KINDS] = {"user", "library", "user in the program", "user without finalising", "library told, user started", "library told, user did both",
    "user told", "library started, user finalised"};
struct Mode {
    int k = M_USER;
    void draw() { k = int(W.draw(M_KINDS)); sim::cfg.world_is_managed = k != M_USER; }
    void begin() const
    {
        if (k == M_TOLD_LIB || k == M_TOLD_BOTH) P::manageMPI(true);
        if (k == M_TOLD_USER) P::manageMPI(false);
        if (k == M_USER_LATE || k == M_USER_NO_FINALISE || k == M_TOLD_LIB || k == M_TOLD_BOTH || k == M_TOLD_USER) MPI_Init(nullptr, nullptr);
    }
    void end() const
    {
        if (k == M_USER_LATE || k == M_TOLD_BOTH || k == M_TOLD_USER || k == M_USER_FINALISES_FIRST) MPI_Finalize();
    }
    void check(int nr, const char* job) const
    {
        int wi = k == M_USER ? 0 : nr, wf = k == M_USER || k == M_USER_NO_FINALISE ? 0 : nr;
        if (sim::n_init != wi) return sim::note_violation("mpi-started-wrongly", fmt("%s, MPI started by: %s: %d calls of MPI_Init by %d processes", job, mode_names[k], sim::n_init, nr));
        if (sim::n_finalize != wf) return sim::note_violation("mpi-finalised-wrongly", fmt("%s, MPI started by: %s: %d calls of MPI_Finalize by %d processes", job, mode_names[k], sim::n_finalize, nr));
    }
};
static void check_released(int nr, const char* job)
{
    for (int r = 0; r < nr; r++)
        if (sim::census(r).total() != 0) return sim::note_violation("resource-leak", fmt("%s: rank %d leaves open: %s", job, r, sim::census(r).str().c_str()));
    if (sim::stdio_open()) sim::note_violation("resource-leak", fmt("%s: %d files opened with fopen are left open", job, sim::stdio_open()));
}
/// Run a job; only what is left over is judged when file operations fail.
static bool run_released(const char* name, int nr, const Mode& m, bool faulty, const std::function<void(int)>& fn)
{
    auto whole = [&](int r) { m.begin(); fn(r); m.end(); };
    if (!faulty) { if (!run_job(name, nr, whole, J_ALLOW_EXIT)) return false; }
    else {
        sim::cfg.nranks = nr;
        sim::mpi_reset();
        sim::run(nr, whole);
        if (failed()) return false;
    }
    if (sim::outcome.end != sim::END_OK) { sim::probe("job did not complete"); return true; }
    check_released(nr, name);
    if (!failed()) m.check(nr, name);
    return !failed();
}

enum { Q_WRITE, Q_READ, Q_SORT, Q_EXTREMES, Q_GATHERS, Q_ORDER, Q_VECTOR, Q_FLOW, Q_MODEL, Q_RAW, Q_MORE, Q_HOLD, Q_MISSING, Q_UNUSED, Q_KINDS };
static const char* q_names[Q_KINDS] = {"write", "read", "sort", "extremes", "gathers", "order", "vector", "flow", "model", "raw", "another handle", "held file", "missing file", "unused file"};
struct QStep { int k; uint64_t salt; WPlan w; SegY in; RPlan r; };

SCENARIO(C16, programs, 4)
{
    int nr = draw_ranks(6, 1);
    Mode m;
    m.draw();
    bool own_comm = W.draw(4) == 3;
    size_t n = 1 + W.draw(5);
    std::vector<QStep> st(n);
    long chunk = 0;
    bool any = false;
    std::string d = fmt("%d ranks, MPI by: %s%s:", nr, mode_names[m.k], own_comm ? ", a communicator of its own" : "");
    for (size_t i = 0; i < n; i++) {
        QStep& s = st[i];
        s.k = int(W.draw(Q_KINDS));
        s.salt = 1 + W.draw(100000);
        WOpts o;
        o.max_nt = 10; o.max_ns = 5; o.max_ops = 3;
        if (s.k == Q_WRITE) {
            s.w = gen_wplan(nr, o);
            s.w.name = fmt("w%zu.segy", i);
            chunk = std::max({chunk, sim::knob_chunk, long(2 * dosz(s.w.ns))});
            any |= sim::knob_chunk != 0;
            if (s.w.has_prefill) sim::fs.put(s.w.name) = s.w.prefill;
        }
        if (s.k == Q_READ || s.k == Q_GATHERS || s.k == Q_ORDER || s.k == Q_FLOW || s.k == Q_HOLD || s.k == Q_RAW || s.k == Q_MODEL) {
            size_t nt = W.draw(12), ns = 2 + W.draw(6);
            if (s.k == Q_MODEL) nt = 1 + W.draw(12);
            s.in = gen_segy(nt, ns, s.salt, 5);
            if (s.k == Q_MODEL) for (size_t t = 0; t < nt; t++) { s.in.t[t].h.il = int(t); s.in.t[t].h.xl = 3; }
            s.r = gen_rplan(nr, nt, 3);
            sim::fs.put(fmt("r%zu.segy", i)) = encode(s.in);
            chunk = std::max(chunk, long(2 * dosz(ns)));
            any |= W.draw(2) != 0;
        }
        d += fmt(" %s", q_names[s.k]);
    }
    sim::knob_chunk = any ? chunk : 0;
    sim::knob_mem = W.draw(2) ? 0 : 3000 + long(W.draw(20000));
    sample(d);
    sim::swarm_config(nr);
    sim::cfg.world_is_managed = m.k != M_USER;
    if (run_released("program", nr, m, false, [&](int r) {
            MPI_Comm user = MPI_COMM_WORLD;
            if (m.k == M_LIB || m.k == M_USER_FINALISES_FIRST) { auto first = new_piol(); }
            if (own_comm) MPI_Comm_dup(MPI_COMM_WORLD, &user);
            {
                auto piol = new_piol(user);
                std::vector<std::shared_ptr<P::ExSeis>> more;
                std::vector<std::shared_ptr<P::ReadInterface>> held;
                std::vector<std::shared_ptr<void>> vectors;
                for (size_t i = 0; i < n; i++) {
                    const QStep& s = st[i];
                    std::string nm = fmt("r%zu.segy", i);
                    auto h = [&](uint64_t k, uint64_t mod) { return size_t(h64(s.salt, k, 55) % mod); };
                    switch (s.k) {
                        case Q_WRITE: do_wplan(s.w, piol, r, nr, false); break;
                        case Q_READ: {
                            auto f = P::makeFile<P::ReadSEGY>(piol, nm);
                            for (auto& o : s.r.ops) do_rop(o, s.in, f.get(), r, false);
                            break;
                        }
                        case Q_SORT: {
                            size_t k = size_t(h64(s.salt, uint64_t(r)) % 6);
                            auto rule = std::make_shared<P::Rule>(std::initializer_list<P::Meta>{PIOL_META_COPY}, true, true);
                            P::Param prm(h(1, 2) ? rule : std::make_shared<P::Rule>(true, true), k);
                            for (size_t t = 0; t < k; t++) set_prm(&prm, t, gen_hdr(s.salt + size_t(r), t));
                            P::sort(piol.get(), P::SortType(sort_types[h(2, 9)]), &prm);
                            break;
                        }
                        case Q_EXTREMES: {
                            size_t k = size_t(h64(s.salt, uint64_t(r)) % 5);
                            P::Param prm(k);
                            for (size_t t = 0; t < k; t++) set_prm(&prm, t, gen_hdr(s.salt + size_t(r), t));
                            P::CoordElem mm[4];
                            P::getMinMax(piol.get(), 0, k, PIOL_META_xSrc, PIOL_META_ySrc, &prm, mm);
                            break;
                        }
                        case Q_GATHERS: {
                            auto f = P::makeFile<P::ReadSEGY>(piol, nm);
                            auto g = P::getIlXlGathers(piol.get(), f.get());
                            for (size_t k = 0; k < g.size(); k++) if (h64(k, uint64_t(r)) & 1) (void)P::Gather_info(g[k]);
                            auto moved = std::move(g);
                            break;
                        }
                        case Q_ORDER: {
                            P::ReadDirect in(piol, nm);
                            P::checkOrder((P::ReadInterface*)in, U::block_decomposition(in.readNt(), size_t(nr), size_t(r)), P::SortType(sort_types[h(3, 9)]));
                            break;
                        }
                        case Q_VECTOR: {
                            auto v = std::make_shared<U::MPI_Distributed_vector<int>>(h(4, 9), user);
                            if (v->size()) { v->set(h(5, v->size()), r); (void)v->get(h(6, v->size())); }
                            U::MPI_Distributed_vector<int> t(h(7, 5), user);
                            U::MPI_Distributed_vector<int> t2(std::move(t));
                            if (h(8, 2)) vectors.push_back(v);
                            break;
                        }
                        case Q_FLOW: {
                            F::Set set(piol, nm, h(9, 3) == 0 ? fmt("o%zu_", i) : "");
                            if (h(10, 2)) set.sort(P::SortType(sort_types[h(11, 9)]));
                            if (h(12, 2)) set.taper(&U::linear_taper, 1, 1);
                            if (h(13, 2)) { P::CoordElem mm[4]; set.getMinMax(PIOL_META_xSrc, PIOL_META_ySrc, mm); }
                            if (h(14, 3) && h(9, 3)) set.output(fmt("f%zu_", i));
                            break;
                        }
                        case Q_MODEL: {
                            auto f = P::makeFile<P::ReadSEGY>(piol, nm);
                            auto g = P::getIlXlGathers(piol.get(), f.get());
                            auto v = P::makeFile<P::ReadSEGYModel>(piol, nm);
                            (void)v->readModel(0, g.size() && r == 0 ? 1 : 0, g);
                            break;
                        }
                        case Q_RAW: {
                            P::DataMPIIO::Opt o;
                            o.coll = h(15, 2);
                            if (own_comm) o.fcomm = user;
                            {
                                P::DataMPIIO::Opt o2(o);   // options are copied about by their users
                                o = o2;
                            }
                            P::DataMPIIO f(piol, nm, o, P::FileMode::Read);
                            std::vector<unsigned char> b(400);
                            f.read(size_t(16 * r), 16, b.data());
                            f.read(size_t(16 * r), 4, 20, 3, b.data());
                            size_t l[3] = {0, 40, 96};
                            f.read(4, 3, l, b.data());
                            break;
                        }
                        case Q_MORE: more.push_back(new_piol(user)); break;
                        case Q_HOLD: held.push_back(P::makeFile<P::ReadSEGY>(more.empty() ? piol : more.back(), nm)); break;
                        case Q_MISSING: {
                            auto e = new_piol(user);
                            P::ReadDirect in(e, "missing.segy");
                            break;
                        }
                        case Q_UNUSED: {
                            auto e = new_piol(user);
                            P::WriteDirect w(e, h(16, 2) ? fmt("u%zu.segy", i) : "no/such/dir.segy");
                            if (h(17, 2)) { w.writeNs(3); w.writeNt(h(18, 4)); }
                            break;
                        }
                    }
                }
                if (h64(st[0].salt, 99) % 2) { piol.reset(); more.clear(); }   // the handle first, what hangs on it later
            }
            if (own_comm) MPI_Comm_free(&user);
        })) nontrivial();
}
SCENARIO(C16, failing_files, 3)
{
    int nr = draw_ranks(5, 1);
    Mode m;
    m.draw();
    FJob j = gen_fjob(nr);
    sample(fmt("%d ranks, MPI by: %s, order %d; ", nr, mode_names[m.k], j.order) + j.a.describe() + " | " + j.b.describe() + " | in" + j.rp.describe());
    start_fjob(j, nr);
    sim::cfg.world_is_managed = m.k != M_USER;
    run_released("job with failing file operations", nr, m, true, [&](int r) { fault_job(j, r, nr, false); });
    if (!sim::faults.empty()) nontrivial();
}
SCENARIO(C16, utilities, 3)
{
    static const struct { const char* name; UtilMain m; } u[] = {{"minmax", minmax_main}, {"assess", assess_main}, {"versort", versort_main}, {"filemake", filemake_main},
        {"makerep", makerep_main}, {"concatenate", concatenate_main}, {"segsort", segsort_main}, {"fourdbin", fourdbin_main}, {"radon", radon_main}};
    int nr = draw_ranks(6, 1);
    size_t k = W.draw(9);
    // a utility leaves MPI to the library, unless something else (a tool, a
    // wrapper) has started it already
    Mode m;
    m.k = W.draw(4) == 3 ? M_USER : M_LIB;
    size_t nt = 1 + W.draw(12), ns = 2 + W.draw(6);
    SegY a = gen_segy(nt, ns, 1 + W.draw(10000), 5), b = gen_segy(1 + W.draw(12), ns, 1 + W.draw(10000), 5);
    for (size_t i = 0; i < a.t.size(); i++) { a.t[i].h.il = int(i / 3); a.t[i].h.xl = 1; a.t[i].h.off = int(10 * (i % 3)); }
    for (size_t i = 0; i < b.t.size(); i++) { b.t[i].h.il = int(i); b.t[i].h.xl = 1; if (!a.t.empty()) for (int z = 0; z < 6; z++) b.t[i].h.c[z] = a.t[i % a.t.size()].h.c[z]; }
    SegY vm = gen_segy(a.t.back().h.il + 1, 4, 77, 5);
    for (size_t i = 0; i < vm.t.size(); i++) { vm.t[i].h.il = int(i); vm.t[i].h.xl = 1; for (auto& x : vm.t[i].s) x = 1500; }
    sim::fs.put("a.segy") = encode(a);
    sim::fs.put("b.segy") = encode(b);
    sim::fs.put("vm.segy") = encode(vm);
    std::vector<std::string> g;
    std::string name = u[k].name;
    auto opt = [&](const char* a, const std::string& v = "") {
        if (W.draw(3) != 2) return;
        g.push_back(a);
        if (!v.empty()) g.push_back(v);
    };
    if (name == "minmax") g = {"-i", "a.segy", "-o", "o.segy"};
    else if (name == "assess") g = {"-i", "a.segy"};
    else if (name == "versort") g = {"-i", "a.segy", "-t", fmt("%d", sort_types[W.draw(9)])};
    else if (name == "filemake") g = {"-o", "o.segy", "-s", fmt("%d", 2 + int(W.draw(5))), "-t", fmt("%d", 1 + int(W.draw(20))), "-m", "1", "-i", "0.002"}, opt("-l"), opt("-r");
    else if (name == "makerep") g = {"-i", "a.segy", "-o", "o.segy", "-r", fmt("%d", 1 + int(W.draw(4)))}, opt("-v", W.draw(2) ? "naive1" : "naive2");
    else if (name == "concatenate") g = {"-i", "?.segy", "-o", "out_"};
    else if (name == "segsort") g = {"-i", "?.segy", "-o", "out_"};
    else if (name == "fourdbin") g = {"-a", "a.segy", "-b", "b.segy", "-c", "oa.segy", "-d", "ob.segy", "-t", "100"}, opt("-x"), opt("-p"), opt("-v");
    else g = {"-i", "a.segy", "-v", "vm.segy", "-o", "out_"};
    if (name == "radon") opt("-b", fmt("%d", 1 + int(W.draw(6)))), opt("-a", fmt("%d", 4 + int(W.draw(9))));
    if (W.draw(8) == 7) g[1] = "missing.segy";
    std::string line;
    for (auto& x : g) line += " " + x;
    sample(fmt("%d ranks, MPI by: %s: %s%s", nr, mode_names[m.k], name.c_str(), line.c_str()));
    sim::swarm_config(nr);
    sim::cfg.world_is_managed = m.k != M_USER;
    bool broken = g[1] == "missing.segy";
    if (run_released(name.c_str(), nr, m, broken, [&](int) {
            std::vector<std::string> av(1, name);
            av.insert(av.end(), g.begin(), g.end());
            std::vector<char*> v;
            for (auto& x : av) v.push_back(&x[0]);
            v.push_back(nullptr);
            u[k].m(int(av.size()), v.data());
        })) nontrivial();
}
