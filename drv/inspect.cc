// The utilities which report what files hold: KML export and the listing of a
// trace (C24).
#include "util.hh"

#include <algorithm>
#include <cmath>

int segy2kml_main(int, char**);
int traceanalysis_main(int, char**);

// Inverse transverse Mercator (Krueger's series) on WGS 84
static void utm_ref(double east, double north, int zone, bool south, double& lat, double& lon)
{
    const double a = 6378137.0, f = 1 / 298.257223563, n = f / (2 - f), k0 = 0.9996;
    const double A = a / (1 + n) * (1 + n * n / 4 + n * n * n * n / 64);
    const double be[3] = {n / 2 - 2 * n * n / 3 + 37 * n * n * n / 96, n * n / 48 + n * n * n / 15, 17 * n * n * n / 480};
    const double de[3] = {2 * n - 2 * n * n / 3 - 2 * n * n * n, 7 * n * n / 3 - 8 * n * n * n / 5, 56 * n * n * n / 15};
    double xi = (north - (south ? 1e7 : 0)) / (k0 * A), eta = (east - 500000) / (k0 * A), x = xi, e = eta;
    for (int j = 1; j <= 3; j++) {
        x -= be[j - 1] * std::sin(2 * j * xi) * std::cosh(2 * j * eta);
        e -= be[j - 1] * std::cos(2 * j * xi) * std::sinh(2 * j * eta);
    }
    double chi = std::asin(std::sin(x) / std::cosh(e)), phi = chi;
    for (int j = 1; j <= 3; j++) phi += de[j - 1] * std::sin(2 * j * chi);
    lat = phi * 180 / M_PI;
    lon = zone * 6 - 183 + std::atan2(std::sinh(e), std::cos(x)) * 180 / M_PI;
}
static std::string between(const std::string& s, const std::string& a, const std::string& b)
{
    size_t i = s.find(a);
    if (i == std::string::npos) return "";
    i += a.size();
    size_t j = s.find(b, i);
    return j == std::string::npos ? "" : s.substr(i, j - i);
}
static size_t count_of(const std::string& s, const std::string& x)
{
    size_t n = 0;
    for (size_t i = s.find(x); i != std::string::npos; i = s.find(x, i + 1)) n++;
    return n;
}
static bool number(const std::string& s, double& v)
{
    size_t p = s.find('.');
    if (p == std::string::npos || s.size() - p != 11) return false;   // ten decimals
    for (size_t i = 0; i < s.size(); i++) if (!(isdigit((unsigned char)s[i]) || i == p || (i == 0 && s[0] == '-'))) return false;
    v = strtod(s.c_str(), nullptr);
    return true;
}

SCENARIO(C24, kml, 3)
{
    int nr = draw_ranks(6, 1);
    size_t nf = 1 + W.draw(4);
    bool zoned = W.draw(2);
    int zone = 1 + int(W.draw(60));
    bool south = W.draw(2), lower = W.draw(2);
    std::vector<SegY> v;
    std::vector<std::string> names, args;
    std::vector<bool> utms;
    for (size_t i = 0; i < nf; i++) {
        // with a zone given, files in degrees are still taken as they are
        bool utm = zoned && W.draw(5) != 4;
        utms.push_back(utm);
        uint64_t salt = 1 + W.draw(100000);
        SegY f = gen_segy(1 + W.draw(W.draw(2) ? 4 : 20), W.draw(4), salt, W.draw(4) == 3 ? 1 : 5);
        int style = int(W.draw(4));
        double x0 = double(h64(salt, 1) % 300000) + 300000, y0 = double(h64(salt, 2) % 6500000) + (south ? 3400000 : 0);
        if (!utm) { x0 = double(h64(salt, 3) % 357) - 178; y0 = double(h64(salt, 4) % 177) - 88; }
        for (size_t k = 0; k < f.t.size(); k++) {
            Hdr& h = f.t[k].h;
            for (unsigned c = 0; c < 6; c++) {
                double d = double(h64(salt, k, c) % (style == 3 ? 3 : 4001));
                h.c[c] = (c % 2 ? y0 : x0) + (utm ? d * 25 : style == 1 ? d / 4001 : style == 2 ? double(int(d) % 100) / 10000 : double(int(d) % 20) / 20 - 0.5);
                if (!utm) h.c[c] = std::round(h.c[c] * (style == 2 ? 10000 : 1000)) / (style == 2 ? 10000 : 1000);
            }
        }
        static const char* ext[4] = {"segy", "sgy", "SGY", "SEGY"};
        names.push_back(fmt("k%zu.%s", i, ext[W.draw(4)]));
        Bytes& b = sim::fs.put(names.back());
        b = encode(f);
        std::string why;
        SegY g;
        if (!decode(b, g, why)) sim::note_violation("harness", why);
        v.push_back(g);
    }
    if (W.draw(3) == 2) {      // a list of files
        std::string l;
        for (auto& n : names) l += n + "\n";
        if (W.draw(2)) l.pop_back();
        sim::fs.put("list.txt") = Bytes(l.begin(), l.end());
        args = {"-i", "list.txt"};
    }
    else for (auto& n : names) { args.push_back("-i"); args.push_back(n); }
    args.push_back("-o");
    args.push_back("lines.kml");
    std::string folder = "SEG-Y";
    if (W.draw(3) == 2) { folder = "Survey"; args.push_back("-f"); args.push_back(folder); }
    if (zoned) { args.push_back("-z"); args.push_back(fmt("%d%c", zone, lower ? (south ? 's' : 'n') : (south ? 'S' : 'N'))); }
    if (W.draw(3) == 2) sim::fs.put("lines.kml") = Bytes(40000, 'z');   // an older file
    auto before = sim::fs.files;
    draw_chunk(8);
    sample(fmt("%d ranks, %zu files, %s", nr, nf, zoned ? "UTM" : "geographic"));
    sim::swarm_config(nr);
    std::map<std::string, Bytes> in;
    for (auto& n : names) in[n] = sim::fs.get(n);
    if (!run_util("segy2kml", nr, segy2kml_main, args)) return;
    nontrivial();
    const char* cls = "kml-wrong";
    if (!sim::fs.has("lines.kml")) return sim::note_violation(cls, "no file");
    Bytes kb = sim::fs.get("lines.kml");
    std::string kml(kb.begin(), kb.end());
    if (kml.compare(0, 5, "<?xml") != 0 || count_of(kml, "</kml>") != 1 || kml.substr(kml.rfind('<')).compare(0, 6, "</kml>") != 0 || kml.find('\0') != std::string::npos)
        return sim::note_violation(cls, "not one complete document");
    for (const char* tag : {"kml", "Document", "Folder", "Placemark", "LineString", "coordinates", "Schema", "Style"}) {
        size_t o = count_of(kml, fmt("<%s>", tag)) + count_of(kml, fmt("<%s ", tag)) + count_of(kml, fmt("<%s\n", tag)), c = count_of(kml, fmt("</%s>", tag));
        if (o != c) return sim::note_violation(cls, fmt("%zu times <%s> and %zu times </%s>", o, tag, c, tag));
    }
    if (between(kml, "<Folder>\n<name>", "</name>") != folder) return sim::note_violation(cls, "folder name '" + between(kml, "<Folder>\n<name>", "</name>") + "'");
    if (count_of(kml, "<Placemark>") != nf) return sim::note_violation(cls, fmt("%zu lines for %zu files", count_of(kml, "<Placemark>"), nf));
    size_t at = 0;
    for (size_t i = 0; i < nf; i++) {
        at = kml.find("<Placemark>", at);
        std::string pm = kml.substr(at, kml.find("</Placemark>", at) - at);
        at++;
        if (between(pm, "<name>", "</name>") != names[i]) return sim::note_violation(cls, fmt("line %zu is '%s' instead of '%s'", i, between(pm, "<name>", "</name>").c_str(), names[i].c_str()));
        std::string co = between(pm, "<coordinates>", "</coordinates>");
        for (char& c : co) if (c == '\n' || c == '\t' || c == ' ') c = ' ';
        std::vector<std::string> pts;
        for (size_t p = 0; p < co.size();) {
            if (co[p] == ' ') { p++; continue; }
            size_t e = co.find(' ', p);
            if (e == std::string::npos) e = co.size();
            pts.push_back(co.substr(p, e - p));
            p = e;
        }
        if (pts.size() != 2) return sim::note_violation(cls, fmt("line %zu has %zu points: %s", i, pts.size(), co.c_str()));
        const bool utm = utms[i];
        for (int e = 0; e < 2; e++) {
            double x = v[i].t[0].h.c[C_XS], y = v[i].t[0].h.c[C_YS], lon, lat, glon = 0, glat = 0;
            for (auto& t : v[i].t) {
                x = e ? std::max(x, t.h.c[C_XS]) : std::min(x, t.h.c[C_XS]);
                y = e ? std::max(y, t.h.c[C_YS]) : std::min(y, t.h.c[C_YS]);
            }
            lon = x, lat = y;
            if (utm) utm_ref(x, y, zone, south, lat, lon);
            size_t c1 = pts[size_t(e)].find(','), c2 = pts[size_t(e)].find(',', c1 + 1);
            const std::string& q = pts[size_t(e)];
            if (c1 == std::string::npos || c2 == std::string::npos || q.substr(c2) != ",0" || !number(q.substr(0, c1), glon) || !number(q.substr(c1 + 1, c2 - c1 - 1), glat))
                return sim::note_violation(cls, fmt("line %zu: malformed point '%s'", i, q.c_str()));
            double tol = utm ? 1e-5 : 2e-10;
            if (std::fabs(glon - lon) > tol || std::fabs(glat - lat) > tol)
                return sim::note_violation(cls, fmt("line %zu: point %d is '%s' instead of %.10f,%.10f (x %.10g y %.10g)", i, e, q.c_str(), lon, lat, x, y));
        }
    }
    for (auto& n : names) if (sim::fs.get(n) != in[n]) return sim::note_violation("input-modified", n);
}

SCENARIO(C24, trace, 2)
{
    int nr = draw_ranks(6, 1);
    size_t nt = 1 + W.draw(20), ns = W.draw(6);
    uint64_t salt = 1 + W.draw(100000);
    SegY f = gen_segy(nt, ns, salt, W.draw(4) == 3 ? 1 : 5), g;
    int style = int(W.draw(3));
    for (size_t i = 0; i < nt; i++)
        for (unsigned k = 0; k < 6; k++) if (style) f.t[i].h.c[k] = style == 1 ? double(h64(salt, i, k) % 2001) - 1000 : double(h64(salt, i, k) % 99999) / 100;
    Bytes in = sim::fs.put("in.segy") = encode(f);
    std::string why;
    if (!decode(in, g, why)) sim::note_violation("harness", why);
    size_t tn = W.draw(uint32_t(nt));
    std::vector<std::string> args = {"-i", "in.segy"};
    if (tn || W.draw(2)) { args.push_back("-t"); args.push_back(fmt("%zu", tn)); }
    draw_chunk(std::max<size_t>(ns, 1));
    sample(fmt("%d ranks, %zu traces of %zu samples", nr, nt, ns));
    sim::swarm_config(nr);
    if (!run_util("traceanalysis", nr, traceanalysis_main, args)) return;
    nontrivial();
    const Hdr& h = g.t[tn].h;
    std::string want;
    static const char* nm[6] = {"xSrc", "ySrc", "xRcv", "yRcv", "xCmp", "yCmp"};
    for (int c = 0; c < 6; c++) want += fmt("%s %g\n", nm[c], h.c[c]);
    want += fmt("il %d\nxl %d\n", h.il, h.xl);
    for (int r = 0; r < nr; r++)
        if (sim::rank_out[size_t(r)] != (r ? "" : want)) return sim::note_violation("trace-listing-wrong", fmt("rank %d prints '%s' instead of '%s'", r, sim::rank_out[size_t(r)].c_str(), want.c_str()));
    if (sim::fs.get("in.segy") != in) return sim::note_violation("input-modified", "in.segy");
}
