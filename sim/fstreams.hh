// Stand-in for std::ofstream / std::ifstream in the utilities which use them:
// the stream works on the simulated file system, and opening, each buffer that
// is passed on and closing are scheduling points.  Force-included.
#pragma once
#include <fstream>
#include <sstream>
#include <string>
#ifdef __cplusplus
namespace sim {
/// false: the file cannot be opened
bool stream_open(const std::string& name, bool out);
void stream_write(const std::string& name, unsigned long long at, const std::string& d);
std::string stream_read(const std::string& name);
}
namespace std {
class sim_filebuf : public std::streambuf {
    std::string name_, buf_;
    unsigned long long at_ = 0;
    bool open_ = false;
    void pass() { if (!buf_.empty()) { sim::stream_write(name_, at_, buf_); at_ += buf_.size(); buf_.clear(); } }
    int overflow(int c) override
    {
        if (!open_) return EOF;
        if (c != EOF) { buf_ += char(c); if (buf_.size() >= 8191) pass(); }
        return c == EOF ? 0 : c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (!open_) return 0;
        for (std::streamsize i = 0; i < n; i++) overflow((unsigned char)s[i]);
        return n;
    }
    int sync() override { pass(); return 0; }
public:
    ~sim_filebuf() { close(); }
    bool open(const std::string& n) { if (open_) return false; name_ = n; at_ = 0; return open_ = sim::stream_open(n, true); }
    bool close() { bool o = open_; if (o) pass(); open_ = false; return o; }
    bool is_open() const { return open_; }
};
class sim_ofstream : public std::ostream {
    sim_filebuf b_;
public:
    sim_ofstream() : std::ostream(nullptr) { init(&b_); }
    explicit sim_ofstream(const std::string& n, std::ios_base::openmode = std::ios_base::out) : sim_ofstream() { open(n); }
    void open(const std::string& n, std::ios_base::openmode = std::ios_base::out) { if (!b_.open(n)) setstate(failbit); else clear(); }
    void close() { if (!b_.close()) setstate(failbit); }
    bool is_open() const { return b_.is_open(); }
};
class sim_ifstream : public std::istringstream {
    bool open_ = false;
public:
    sim_ifstream() {}
    explicit sim_ifstream(const std::string& n, std::ios_base::openmode = std::ios_base::in) { open(n); }
    void open(const std::string& n, std::ios_base::openmode = std::ios_base::in)
    {
        open_ = sim::stream_open(n, false);
        if (open_) str(sim::stream_read(n)); else setstate(failbit);
    }
    void close() { if (!open_) setstate(failbit); open_ = false; }
    bool is_open() const { return open_; }
};
}
#define ofstream sim_ofstream
#define ifstream sim_ifstream
#endif
