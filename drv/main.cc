// simrun: runs, minimises and replays simulated histories.
#include "drv.hh"
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <fcntl.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#if defined(SIM_ASAN)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" const char* __asan_default_options()
{
    return "handle_abort=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:"
           "max_allocation_size_mb=512:hard_rss_limit_mb=3000:malloc_context_size=8:max_malloc_fill_size=268435456:quarantine_size_mb=16:"
           "abort_on_error=0:exitcode=77:symbolize=1:print_summary=1:handle_segv=1:allow_addr2line=0:"
           "external_symbolizer_path=/nonexistent";
}
#endif

namespace {
int out_fd = -1;
uint64_t run_seed = 0;
std::string scen_name;

std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
std::string list(const std::vector<uint32_t>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(v[i]); }
    return r + "]";
}
std::string result_json(bool lists)
{
    std::string r = "{\"seed\":" + std::to_string(run_seed) + ",\"scenario\":" + jstr(scen_name);
    r += fmt(",\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"steps\":%ld,\"simtime\":%.9g,\"ranks\":%d,\"nontrivial\":%d",
             (unsigned long long)sim::hash, (unsigned long long)sim::sched_hash, sim::outcome.steps, sim::outcome.simtime, sim::cfg.nranks, int(is_nontrivial));
    r += ",\"faults\":{";
    bool first = true;
    for (int i = 0; i < sim::F_NKINDS; i++)
        if (sim::fault_counts[i]) { r += fmt("%s\"%s\":%llu", first ? "" : ",", sim::fault_names[i], (unsigned long long)sim::fault_counts[i]); first = false; }
    r += "},\"probes\":{";
    first = true;
    for (auto& p : sim::probes) { r += (first ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second); first = false; }
    r += "}";
    if (lists || !sim::violations.empty() || (run_seed % 64) == 0) r += ",\"sample\":" + jstr(sample_text.substr(0, 1500));
    r += ",\"violations\":[";
    for (size_t i = 0; i < sim::violations.size() && i < 8; i++)
        r += fmt("%s{\"class\":", i ? "," : "") + jstr(sim::violations[i].cls) + ",\"detail\":" + jstr(sim::violations[i].detail.substr(0, 1500)) + "}";
    r += "]";
    if (lists || !sim::violations.empty()) r += ",\"W\":" + list(W.out) + ",\"S\":" + list(S.out);
    return r + "}\n";
}
void put_all(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = write(fd, s.data() + o, s.size() - o);
        if (n <= 0) break;
        o += size_t(n);
    }
}
bool want_lists = false;
bool reported = false;
void finish()
{
    if (reported) return;
    reported = true;
    if (out_fd >= 0) put_all(out_fd, result_json(want_lists));
}
std::string asan_text;
#if defined(SIM_ASAN)
void asan_report(const char* t) { asan_text = t; }
void on_death()
{
    if (reported) return;
    std::string d = asan_text, cls = "memory-error";
    size_t p = d.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
        std::string k = d.substr(p + 25, 40);
        k = k.substr(0, k.find_first_of(" \n:"));
        cls = "memory-error:" + k;
    }
    // class and access kind only: addresses differ between processes
    std::string acc;
    for (const char* w : {"READ of size", "WRITE of size"}) {
        size_t q = d.find(w);
        if (q != std::string::npos) { acc = d.substr(q, d.find(" at ", q) - q); break; }
    }
    std::string frames;
    size_t q = d.find("    #0");
    int n = 0;
    while (q != std::string::npos && n < 6) {
        size_t e = d.find('\n', q);
        std::string line = d.substr(q, e - q);
        size_t b = line.find('(');
        frames += " " + (b == std::string::npos ? line.substr(line.find("0x") == std::string::npos ? 0 : line.find("0x") + 13) : line.substr(b));
        n++;
        q = d.find("    #", e);
    }
    sim::violations.push_back({cls, "rank " + std::to_string(sim::rank()) + ": " + acc + frames});
    finish();
}
#endif
void on_vtalrm(int)
{
    if (!reported) {
        sim::violations.push_back({"endless-computation", "rank " + std::to_string(sim::rank()) + " computes without ever communicating again"});
        finish();
    }
    _exit(0);
}

const Scenario* pick_scenario(const std::string& prop, const std::string& only)
{
    std::vector<const Scenario*> c;
    std::vector<uint32_t> w;
    for (auto& s : scenarios())
        if (prop == s.prop && (only.empty() || only == s.name)) { c.push_back(&s); w.push_back(uint32_t(s.weight)); }
    if (c.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); _exit(3); }
    return c[W.pick(w)];
}
struct Input {
    std::string prop, only;
    uint64_t seed = 0;
    bool replay = false;
    std::vector<uint32_t> w, s;
};
void child(const Input& in, int fd)
{
    out_fd = fd;
    run_seed = in.seed;
    W = sim::Choices(); S = sim::Choices();
    W.rng.reseed(in.seed * 2 + 1);
    S.rng.reseed(in.seed * 0x9e3779b97f4a7c15ULL + 77);
    if (in.replay) { W.replay = S.replay = true; W.in = in.w; S.in = in.s; }
#if defined(SIM_ASAN)
    __asan_set_error_report_callback(asan_report);
    __sanitizer_set_death_callback(on_death);
#endif
    signal(SIGVTALRM, on_vtalrm);
    itimerval it{};
    it.it_value.tv_sec = 25;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (!sim::verbose) {
        int n = open("/dev/null", O_WRONLY);
        if (n >= 0) { dup2(n, 2); close(n); }
    }
    sim::capture_streams();
    cur_prop = in.prop.c_str();
    auto* sc = pick_scenario(in.prop, in.only);
    scen_name = sc->name;
    sim::ev("scenario %s", sc->name);
    sc->fn();
    finish();
    fflush(stdout);
    _exit(0);
}
/// run one history in a forked process; returns its JSON line
std::string fork_run(const Input& in, bool lists)
{
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(3); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(p[0]);
        want_lists = lists;
        child(in, p[1]);
    }
    close(p[1]);
    std::string r;
    char b[65536];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, size_t(n));
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (r.empty() || r.back() != '\n')
        r = fmt("{\"seed\":%llu,\"scenario\":\"?\",\"hash\":\"0\",\"sched\":\"0\",\"steps\":0,\"simtime\":0,\"ranks\":0,\"nontrivial\":0,\"faults\":{},\"probes\":{},"
                "\"violations\":[{\"class\":\"process-died\",\"detail\":\"the simulated job's process died with status %d\"}],\"W\":[],\"S\":[]}\n",
                (unsigned long long)in.seed, st);
    return r;
}
std::string jfield(const std::string& j, const std::string& k)
{
    size_t p = j.find("\"" + k + "\":");
    if (p == std::string::npos) return "";
    p += k.size() + 3;
    if (j[p] == '"') {
        size_t e = p + 1;
        while (j[e] != '"' || j[e - 1] == '\\') e++;
        return j.substr(p + 1, e - p - 1);
    }
    size_t e = p;
    if (j[p] == '[') { e = j.find(']', p) + 1; return j.substr(p, e - p); }
    e = j.find_first_of(",}", p);
    return j.substr(p, e - p);
}
std::vector<uint32_t> ints(const std::string& s)
{
    std::vector<uint32_t> v;
    const char* c = s.c_str();
    while (*c) {
        if (*c >= '0' && *c <= '9') v.push_back(uint32_t(strtoul(c, const_cast<char**>(&c), 10)));
        else c++;
    }
    return v;
}
std::string first_class(const std::string& j)
{
    size_t p = j.find("\"violations\":[");
    if (p == std::string::npos) return "";
    return jfield(j.substr(p), "class");
}
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

/// Reduce the choice lists while the same violation class persists.
int minimise(Input in, const std::string& cls, double budget)
{
    double t0 = now();
    long tries = 0;
    auto same = [&](const Input& x, Input& norm) {
        tries++;
        std::string j = fork_run(x, true);
        if (first_class(j) != cls) return false;
        norm = x;
        // keep only what was consumed, without trailing zeros
        norm.w = ints(jfield(j, "W"));
        norm.s = ints(jfield(j, "S"));
        while (!norm.w.empty() && norm.w.back() == 0) norm.w.pop_back();
        while (!norm.s.empty() && norm.s.back() == 0) norm.s.pop_back();
        return true;
    };
    Input best, n;
    in.replay = true;
    if (!same(in, best)) { printf("{\"error\":\"not reproduced\"}\n"); return 2; }
    auto cost = [](const Input& i) {
        uint64_t c = 0;
        for (auto x : i.w) c += 4 + (x != 0) * 4 + x;
        for (auto x : i.s) c += 1 + (x != 0) * 4;
        return c;
    };
    auto attempt = [&](const Input& c) {
        if (now() - t0 > budget) return false;
        Input m;
        if (same(c, m) && cost(m) < cost(best)) { best = m; return true; }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        // schedule: truncate, zero chunks, delete chunks
        for (int which = 0; which < 2; which++) {
            auto ref = [&](Input& i) -> std::vector<uint32_t>& { return which ? i.w : i.s; };
            for (size_t keep = 0; keep < ref(best).size() && now() - t0 < budget;) {
                Input c = best;
                ref(c).resize(keep);
                if (attempt(c)) { progress = true; break; }
                keep = keep ? keep * 2 : 1;
            }
            for (size_t chunk = std::max<size_t>(1, ref(best).size() / 2); chunk >= 1 && now() - t0 < budget; chunk /= 2) {
                for (size_t i = 0; i < ref(best).size() && now() - t0 < budget;) {
                    Input c = best;
                    auto& v = ref(c);
                    bool any = false;
                    for (size_t k = i; k < std::min(v.size(), i + chunk); k++) { any |= v[k] != 0; v[k] = 0; }
                    if (any && attempt(c)) { progress = true; i += chunk; continue; }
                    if (chunk <= 64) {
                        c = best;
                        auto& u = ref(c);
                        u.erase(u.begin() + long(i), u.begin() + long(std::min(u.size(), i + chunk)));
                        if (attempt(c)) { progress = true; continue; }
                    }
                    i += chunk;
                }
                if (chunk == 1) break;
            }
        }
        for (size_t i = 0; i < best.w.size() && now() - t0 < budget; i++) {
            for (uint32_t x = best.w[i] / 2; i < best.w.size() && best.w[i] > 1;) {
                Input c = best;
                c.w[i] = x;
                if (attempt(c)) { progress = true; x = best.w[std::min(i, best.w.size() - 1)] / 2; }
                else if (x + 1 < best.w[i] && x != best.w[i] - 1) x = best.w[i] - 1;
                else break;
                if (i >= best.w.size()) break;
            }
        }
    }
    // final normal form must reproduce
    std::string j = fork_run(best, true);
    if (first_class(j) != cls) { printf("{\"error\":\"minimised list lost the violation\"}\n"); return 2; }
    j.pop_back();
    j.pop_back();
    printf("%s,\"min_tries\":%ld}\n", j.c_str(), tries);
    return 0;
}
bool load_replay(const std::string& file, Input& in, std::string& cls, std::string& hash)
{
    std::ifstream f(file);
    if (!f) return false;
    std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 9, "property ") == 0) in.prop = l.substr(9);
        else if (l.compare(0, 9, "scenario ") == 0) in.only = l.substr(9) == "*" ? "" : l.substr(9);
        else if (l.compare(0, 6, "class ") == 0) cls = l.substr(6);
        else if (l.compare(0, 5, "hash ") == 0) hash = l.substr(5);
        else if (l.compare(0, 5, "seed ") == 0) in.seed = strtoull(l.c_str() + 5, nullptr, 10);
        else if (l.compare(0, 2, "W ") == 0 || l == "W") in.w = ints(l.substr(1));
        else if (l.compare(0, 2, "S ") == 0 || l == "S") in.s = ints(l.substr(1));
    }
    in.replay = true;
    return !in.prop.empty();
}
}  // namespace

int main(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    Input in;
    uint64_t first = 0, stride = 1, count = 1;
    double tmax = 1e9, budget = 20;
    std::string out, cls, file, hash;
    bool verbose = false;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") in.prop = v();
        else if (a == "--only") in.only = v();
        else if (a == "--seed") in.seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--first") first = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--count") count = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--time") tmax = atof(v().c_str());
        else if (a == "--budget") budget = atof(v().c_str());
        else if (a == "--class") cls = v();
        else if (a == "--out") out = v();
        else if (a == "--verbose") verbose = true;
        else file = a;
    }
    if (mode == "run") {
        // histories seed*2^32 + first, + stride, ...
        FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
        if (!o) { perror(out.c_str()); return 3; }
        double t0 = now();
        for (uint64_t k = 0; k < count && now() - t0 < tmax; k++) {
            Input x = in;
            x.seed = (in.seed << 32) + first + k * stride;
            std::string j = fork_run(x, false);
            if (k % 50 == 0) {
                std::string j2 = fork_run(x, false);
                if (j2 != j) {
                    j.pop_back(); j.pop_back();
                    j += ",\"nondeterministic\":1}\n";
                } else {
                    j.pop_back(); j.pop_back();
                    j += ",\"twice\":1}\n";
                }
            }
            fputs(j.c_str(), o);
            fflush(o);
        }
        return 0;
    }
    if (mode == "one") {
        sim::verbose = verbose;
        fputs(fork_run(in, true).c_str(), stdout);
        return 0;
    }
    if (mode == "min") {
        std::string h;
        if (!file.empty()) { std::string c; if (!load_replay(file, in, c, h)) return 3; if (cls.empty()) cls = c; }
        else {
            std::string j = fork_run(in, true);
            in.w = ints(jfield(j, "W"));
            in.s = ints(jfield(j, "S"));
            if (cls.empty()) cls = first_class(j);
        }
        return minimise(in, cls, budget);
    }
    if (mode == "replay") {
        if (!load_replay(file, in, cls, hash)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
        sim::verbose = verbose;
        std::string j = fork_run(in, true);
        std::string c = first_class(j), h = jfield(j, "hash");
        fputs(j.c_str(), stdout);
        bool okay = c == cls && (hash.empty() || hash == h);
        printf("replay: class '%s' (recorded '%s'), hash %s (recorded %s): %s\n", c.c_str(), cls.c_str(), h.c_str(), hash.c_str(), okay ? "reproduced" : "NOT reproduced");
        return okay ? 1 : 0;
    }
    if (mode == "list") {
        for (auto& s : scenarios()) printf("%s %s %d\n", s.prop, s.name, s.weight);
        return 0;
    }
    fprintf(stderr, "usage: simrun run|one|min|replay|list ...\n");
    return 3;
}
