#include "stl.h"
#include <sstream>
const char* const sim::kProperty = "C05";

// Every place in the bytes where a complete facet can be seen, in order.
static std::vector<StlFacet> facetsIn(const std::string& text) {
    std::vector<std::string> t;
    { std::string c; for (char ch : text) { if (isspace((unsigned char)ch)) { if (!c.empty()) t.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) t.push_back(c); }
    std::vector<StlFacet> r;
    auto num = [](const std::string& s, double& v) { char* e; v = strtod(s.c_str(), &e); return !s.empty() && *e == 0 && std::isfinite(v); };
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] != "loop") continue;
        StlFacet f; f.solid = -1; int n = 0; bool ok = true;
        size_t j = i + 1;
        for (; j < t.size() && t[j] != "endloop"; j++) {
            if (t[j] != "vertex") continue;
            std::array<double, 3> p; 
            for (int k = 0; k < 3; k++) if (j + 1 + k >= t.size() || !num(t[j + 1 + k], p[k])) ok = false;
            if (!ok) break;
            j += 3;
            if (n < 3) f.v[n] = p;
            n++;
        }
        if (ok && n == 3 && j < t.size() && t[j] == "endloop") r.push_back(f);
    }
    return r;
}

// The model merges positions closer than its comparison tolerance (1e-10, relative).
static bool near(const StlFacet& a, const StlFacet& b) {
    for (int k = 0; k < 3; k++) for (int x = 0; x < 3; x++)
        if (!(std::fabs(a.v[k][x] - b.v[k][x]) <= 1e-9 * (std::fabs(a.v[k][x]) + std::fabs(b.v[k][x])) + 1e-15)) return false;
    return true;
}

void sim::run() {
    setBudget(20000000);
    randomLayout();
    StlDoc doc = genStl(3, 4);
    std::string text = doc.text;
    SimBuf buf(text);
    buf.schedule();
    enum { Cut, Error, Early, Flip, Delete, Duplicate, Insert, Several };
    int kind = choose(8);
    int64_t cutAt = -1;
    log("file: %s", shown(text, 900).c_str());
    auto damage = [&](int k) {
        if (text.empty()) return;
        size_t at = choose(uint32_t(text.size())), len = 1 + choose(uint32_t(std::min<size_t>(60, text.size() - at)));
        switch (k) {
            case Flip: { static const std::string alphabet = "0123456789.-+eExnvl \n\t\r#"; text[at] = chance(1, 2) ? alphabet[choose(uint32_t(alphabet.size()))] : char(choose(256)); fault("byte changed"); log("byte %zu changed to %s", at, shown(std::string(1, text[at])).c_str()); break; }
            case Delete: log("bytes %zu..%zu deleted", at, at + len); text.erase(at, len); fault("bytes deleted"); break;
            case Duplicate: { std::string s = text.substr(at, len); size_t to = choose(uint32_t(text.size() + 1)); log("bytes %zu..%zu repeated at %zu", at, at + len, to); text.insert(to, s); fault("bytes duplicated"); break; }
            case Insert: { static const std::vector<std::string> junk{"vertex 1 2 3\n", "vertex\n", "endloop\n", "outer loop\n", "endfacet\n", "endsolid\n", "solid z\n", "facet normal 0 0 1\n", "\n", " nan ", std::string(1, '\0')}; const std::string& s = pick(junk); log("inserted %s at %zu", shown(s).c_str(), at); text.insert(at, s); fault("bytes inserted"); break; }
        }
    };
    if (kind == Cut) {
        cutAt = choose(uint32_t(text.size()));
        if (!doc.inside.empty() && chance(1, 2)) { auto& p = pick(doc.inside); cutAt = p.first + choose(uint32_t(p.second - p.first)); }
        text.resize(cutAt);
        fault("file cut"); log("cut at byte %lld", (long long)cutAt);
    } else if (kind == Error || kind == Early) {
        buf.errorAt = choose(uint32_t(text.size() + 1));
        if (!doc.inside.empty() && chance(1, 2)) { auto& p = pick(doc.inside); buf.errorAt = p.first + choose(uint32_t(p.second - p.first)); }
        buf.errorPass = choose(3);
        buf.errorThrows = kind == Error;
    } else if (kind == Several) {
        int n = range(2, 5);
        for (int i = 0; i < n; i++) damage(range(Flip, Insert));
    } else damage(kind);
    buf.data = text;
    Outcome o;
    std::unique_ptr<Data> d = readStl(buf, o);
    std::string delivered = text;
    if (buf.errorFired) delivered.resize(buf.errorAt);
    if (d) {
        std::vector<std::string> names;
        std::vector<StlFacet> got = stlTriangles(*d, names);
        std::vector<StlFacet> seen = facetsIn(text);   // anything any pass could have seen
        size_t j = 0;
        for (size_t i = 0; i < got.size(); i++) {
            while (j < seen.size() && !near(seen[j], got[i])) j++;
            check(j < seen.size(), "invented-geometry", fmt("triangle %zu ", i) + facetStr(got[i]) + " is not a complete facet of the file");
            j++;
        }
        if (kind == Cut || (kind == Early && buf.errorFired)) {
            size_t at = kind == Cut ? size_t(cutAt) : size_t(buf.errorAt);
            for (auto& p : doc.inside) check(!(at >= p.first && at < p.second), "cut-facet-accepted", fmt("file cut at byte %zu inside a facet was accepted", at));
        }
        if (kind == Error && buf.errorFired)
            for (auto& p : doc.inside) check(!(size_t(buf.errorAt) >= p.first && size_t(buf.errorAt) < p.second), "cut-facet-accepted", fmt("read error at byte %lld inside a facet went unnoticed", (long long)buf.errorAt));
        probe("damaged file gave a model");
        call("release", [&] { d.reset(); });
    } else probe("damaged file refused");
    nontrivial();
    state(hash(delivered));
    // the process can still read a good file
    setLayout(Layout::Reuse, 3);
    StlDoc good = genStl(2, 2);
    SimBuf gb(good.text);
    Outcome o2;
    std::unique_ptr<Data> g = readStl(gb, o2);
    check(!o2.threw, "good-file-refused", "after a damaged file: " + o2.str());
    compareStl(*g, good);
    call("release", [&] { g.reset(); });
}
