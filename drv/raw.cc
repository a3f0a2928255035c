// Blocks of bytes (the layer below SEG-Y, which utilities use directly): C01
// and C02 for any block size and stride, and the files of a test in C16.
#include "io.hh"

namespace {
enum { R_CONTIG, R_STRIDE, R_LIST, R_KINDS };
struct ROpB {
    int kind = R_CONTIG;
    size_t at = 0, bsz = 1, osz = 1, n = 0;           // the region: n records of bsz bytes, osz bytes apart
    std::vector<std::vector<size_t>> share;           // per rank: records, increasing
    std::vector<std::vector<size_t>> extra;           // per rank, list reads: bytes to add to an offset
    size_t end() const { return n == 0 ? at : at + n * osz; }
};
unsigned char byte_at(uint64_t salt, size_t i) { return (unsigned char)(h64(salt, i / 8, 404) >> (8 * (i % 8))); }

ROpB gen_op(int nr, size_t at, bool write)
{
    ROpB o;
    o.kind = int(W.draw(R_KINDS));
    o.at = at + W.draw(W.draw(4) == 3 ? 3000 : 40);
    o.n = W.draw(8) == 7 ? 0 : W.draw(big() ? 600 : 40);
    o.bsz = o.kind == R_CONTIG ? 1 : 1 + W.draw(W.draw(3) == 2 ? 300 : 12);
    o.osz = o.kind == R_CONTIG ? 1 : o.bsz + (W.draw(3) == 2 ? 0 : W.draw(20));
    if (o.kind == R_CONTIG && W.draw(2)) o.n *= 1 + W.draw(60);
    o.share.resize(size_t(nr));
    o.extra.resize(size_t(nr));
    if (o.kind == R_LIST) {
        auto own = random_owners(o.n, nr);
        for (size_t i = 0; i < o.n; i++) if (own[i] >= 0) o.share[size_t(own[i])].push_back(i);
        if (!write && W.draw(3) == 2)   // readers may read the same blocks
            for (int r = 0; r < nr; r++) { o.share[size_t(r)].clear(); for (size_t i = 0; i < o.n; i++) if (h64(at, uint64_t(r), i) & 1) o.share[size_t(r)].push_back(i); }
        for (int r = 0; r < nr; r++) {
            for (size_t i = 0; i < o.share[size_t(r)].size(); i++) o.extra[size_t(r)].push_back(o.osz > o.bsz ? h64(at, 7, o.share[size_t(r)][i]) % (o.osz - o.bsz + 1) : 0);
        }
        return o;
    }
    auto c = random_cuts(o.n, nr);
    std::vector<int> perm(static_cast<size_t>(nr));
    std::iota(perm.begin(), perm.end(), 0);
    if (W.draw(2)) for (size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[W.draw(uint32_t(i))]);
    bool overlap = !write && W.draw(3) == 2;
    for (int k = 0; k < nr; k++) {
        size_t lo = c[size_t(k)], hi = c[size_t(k) + 1];
        if (overlap) { lo = o.n ? W.draw(uint32_t(o.n)) : 0; hi = lo + (o.n ? W.draw(uint32_t(o.n - lo + 1)) : 0); }
        for (size_t i = lo; i < hi; i++) o.share[size_t(perm[size_t(k)])].push_back(i);
    }
    return o;
}
/// The bytes of a process' part and where they are in the file.
void each_byte(const ROpB& o, int r, const std::function<void(size_t buf, size_t file)>& fn)
{
    auto& s = o.share[size_t(r)];
    for (size_t i = 0; i < s.size(); i++) {
        size_t p = o.at + s[i] * o.osz + (o.kind == R_LIST ? o.extra[size_t(r)][i] : 0);
        for (size_t b = 0; b < o.bsz; b++) fn(i * o.bsz + b, p + b);
    }
}
void transfer(const ROpB& o, int r, P::DataInterface& f, unsigned char* buf, bool write, bool null_if_empty)
{
    auto& s = o.share[size_t(r)];
    size_t n = s.size(), first = n ? s[0] : 0;
    if (n == 0 && null_if_empty) buf = nullptr;
    if (o.kind == R_CONTIG) { if (write) f.write(o.at + first, n, buf); else f.read(o.at + first, n, buf); }
    else if (o.kind == R_STRIDE) { if (write) f.write(o.at + first * o.osz, o.bsz, o.osz, n, buf); else f.read(o.at + first * o.osz, o.bsz, o.osz, n, buf); }
    else {
        std::vector<size_t> l;
        for (size_t i = 0; i < n; i++) l.push_back(o.at + s[i] * o.osz + o.extra[size_t(r)][i]);
        if (write) f.write(o.bsz, n, l.data(), buf); else f.read(o.bsz, n, l.data(), buf);
    }
}
std::string describe(const std::vector<ROpB>& v)
{
    static const char* k[R_KINDS] = {"contiguous", "strided", "listed"};
    std::string d;
    for (auto& o : v) {
        d += fmt("; %s at %zu: %zu of %zu bytes every %zu (", k[o.kind], o.at, o.n, o.bsz, o.osz);
        for (auto& s : o.share) d += fmt("%zu ", s.size());
        d.back() = ')';
    }
    return d;
}
long draw_limit(const std::vector<ROpB>& v)
{
    size_t lo = 1;
    for (auto& o : v) lo = std::max({lo, o.osz, 2 * o.bsz});
    switch (W.draw(4)) {
        case 0: return 0;
        case 1: return long(lo);
        case 2: return long(lo + W.draw(uint32_t(lo)));
        default: return long(lo + W.draw(uint32_t(8 * lo)));
    }
}
/// Every process reads its part; what it gets must be the bytes of the file.
void read_ops(const std::vector<ROpB>& v, int r, P::DataInterface& f, const Bytes& img, bool nulls)
{
    for (size_t k = 0; k < v.size(); k++) {
        size_t len = v[k].share[size_t(r)].size() * v[k].bsz, guard = 16;
        Bytes b(len + guard, 0xA5), want = b;
        each_byte(v[k], r, [&](size_t i, size_t p) { if (p < img.size()) want[i] = img[p]; });
        transfer(v[k], r, f, b.data(), false, nulls);
        if (b == want) continue;
        size_t i = 0;
        while (b[i] == want[i]) i++;
        sim::violation("wrong-data-read", fmt("rank %d, operation %zu: byte %zu of %zu is %02x instead of %02x", r, k, i, len, b[i], want[i]));
    }
}
void write_ops(const std::vector<ROpB>& v, int r, P::DataInterface& f, uint64_t salt, bool nulls)
{
    for (size_t k = 0; k < v.size(); k++) {
        Bytes b(v[k].share[size_t(r)].size() * v[k].bsz);
        each_byte(v[k], r, [&](size_t i, size_t p) { b[i] = byte_at(salt, p); });
        Bytes keep = b;
        transfer(v[k], r, f, b.data(), true, nulls);
        if (b != keep) sim::violation("callers-data-changed", fmt("rank %d, operation %zu: the array which was written has changed", r, k));
    }
}
std::vector<ROpB> gen_writes(int nr)
{
    std::vector<ROpB> v;
    size_t at = 0;
    for (size_t n = 1 + W.draw(4); v.size() < n;) { v.push_back(gen_op(nr, at, true)); at = v.back().end(); }
    if (W.draw(2)) std::reverse(v.begin(), v.end());
    return v;
}
}  // namespace

SCENARIO(C01, blocks, 1)
{
    int nr = draw_ranks(6, 1);
    auto v = gen_writes(nr);
    uint64_t salt = 1 + W.draw(100000);
    bool coll = W.draw(3) != 2, nulls = W.draw(2), readback = W.draw(3) == 2;
    int sized = int(W.draw(3));   // 1: before the writes, 2: after them
    size_t end = 0;
    for (auto& o : v) end = std::max(end, o.end());
    size_t fixed = sized == 1 ? W.draw(uint32_t(end + 20)) : end + W.draw(50);
    Bytes old(W.draw(2) ? W.draw(uint32_t(end + 200)) : 0);
    for (size_t i = 0; i < old.size(); i++) old[i] = byte_at(salt + 1, i);
    sim::knob_chunk = draw_limit(v);
    sample(fmt("%d ranks, %zu bytes before, limit %ld%s%s", nr, old.size(), sim::knob_chunk, coll ? "" : " independent", readback ? ", read back" : "") + describe(v));
    sim::swarm_config(nr);
    Bytes want = old;
    if (sized == 1) want.resize(fixed);
    for (int r = 0; r < nr; r++)
        for (auto& o : v) each_byte(o, r, [&](size_t, size_t p) { if (want.size() <= p) want.resize(p + 1); want[p] = byte_at(salt, p); });
    if (sized == 2) want.resize(fixed);
    if (!old.empty() || W.draw(2)) sim::fs.put("out.bin") = old;
    if (!run_job("write blocks", nr, [&](int r) {
            auto piol = new_piol();
            {
                P::DataMPIIO::Opt o;
                o.coll = coll;
                P::DataMPIIO f(piol, "out.bin", o, readback ? P::FileMode::ReadWrite : P::FileMode::Write);
                if (sized == 1) f.setFileSz(fixed);
                write_ops(v, r, f, salt, nulls);
                // what a process has written it can read at once
                if (readback) {
                    Bytes mine(end);
                    for (auto& w : v) each_byte(w, r, [&](size_t, size_t p) { mine[p] = byte_at(salt, p); });
                    read_ops(v, r, f, mine, nulls);
                }
                if (sized == 2) f.setFileSz(fixed);
            }
            if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
        })) return;
    Bytes got = sim::fs.get("out.bin");
    if (got != want) {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
        sim::note_violation("wrong-bytes", fmt("blocks: the file has %zu bytes instead of %zu, the first difference is at byte %zu", got.size(), want.size(), i));
    }
    if (nr > 1) nontrivial();
}
SCENARIO(C02, blocks, 1)
{
    int nr = draw_ranks(6, 1);
    std::vector<ROpB> v;
    for (size_t n = 1 + W.draw(4); v.size() < n;) v.push_back(gen_op(nr, W.draw(2) ? 0 : W.draw(600), false));
    uint64_t salt = 1 + W.draw(100000);
    size_t end = 0;
    for (auto& o : v) end = std::max(end, o.end());
    if (end && W.draw(4) == 3) end = W.draw(uint32_t(end));   // some reads end after the file
    else end += W.draw(30);
    Bytes img(end);
    for (size_t i = 0; i < end; i++) img[i] = byte_at(salt, i);
    bool coll = W.draw(3) != 2, nulls = W.draw(2);
    sim::knob_chunk = draw_limit(v);
    sample(fmt("%d ranks, a file of %zu bytes, limit %ld%s", nr, end, sim::knob_chunk, coll ? "" : " independent") + describe(v));
    sim::swarm_config(nr);
    sim::fs.put("in.bin") = img;
    if (!run_job("read blocks", nr, [&](int r) {
            auto piol = new_piol();
            {
                P::DataMPIIO::Opt o;
                o.coll = coll;
                P::DataMPIIO f(piol, "in.bin", o, P::FileMode::Read);
                if (f.getFileSz() != img.size()) sim::violation("wrong-file-metadata", fmt("rank %d sees %zu bytes instead of %zu", r, f.getFileSz(), img.size()));
                read_ops(v, r, f, img, nulls);
            }
            if (piol->log->isErr()) sim::violation("spurious-error", fmt("rank %d reports an error although nothing failed", r));
        })) return;
    if (sim::fs.get("in.bin") != img) sim::note_violation("input-changed", "reading has changed the file");
    if (nr > 1) nontrivial();
}
/// Files opened for a test exist as long as they are open and not longer.
SCENARIO(C16, test_files, 1)
{
    int nr = draw_ranks(5, 1);
    auto v = gen_writes(nr);
    uint64_t salt = 1 + W.draw(100000);
    bool coll = W.draw(3) != 2, old = W.draw(4) == 3;
    bool faulty = W.draw(3) == 2;
    sim::knob_chunk = draw_limit(v);
    sample(fmt("%d ranks, limit %ld%s%s", nr, sim::knob_chunk, coll ? "" : " independent", old ? ", over an older file" : "") + describe(v));
    sim::swarm_config(nr);
    if (old) sim::fs.put("test.bin") = Bytes(100, 7);
    sim::fs.put("other.bin") = Bytes(10, 1);
    if (faulty) {
        sim::cfg.fault_mask = 1u << sim::F_WRITE_EIO | 1u << sim::F_WRITE_NOSPC | 1u << sim::F_SETVIEW;
        sim::cfg.fault_num = 1;
        sim::cfg.fault_den = 3;
        sim::cfg.fault_max = 2;
        sim::cfg.fault_path = "test.bin";
    }
    if (!run_job("test file", nr, [&](int r) {
            auto piol = new_piol();
            {
                P::DataMPIIO::Opt o;
                o.coll = coll;
                P::DataMPIIO f(piol, "test.bin", o, P::FileMode::Test);
                write_ops(v, r, f, salt, false);
                piol->comm->barrier();
                if (!sim::fs.has("test.bin")) sim::violation("test-file-missing", "the file of a test does not exist while it is open");
                piol->comm->barrier();
            }
            if (sim::census(r).total() != 0) sim::violation("resource-leak", fmt("test file: rank %d leaves open: %s", r, sim::census(r).str().c_str()));
        })) return;
    if (sim::fs.has("test.bin")) sim::note_violation("test-file-left", "the file opened for the duration of a test is still there");
    if (!sim::fs.has("other.bin")) sim::note_violation("wrong-file-deleted", "another file is gone");
    nontrivial();
}
