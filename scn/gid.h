// An independent reader of GiD mesh files (text and binary), and the check of one against the plan of a model.
#pragma once
#include "scn/parts.h"
#include "scn/inflate.h"
#include "sim/fs.h"
namespace gid {
using namespace sim;
using namespace model;
struct Mesh { std::string name; int kind = -1; std::map<long, parts::Pos> nodes; std::vector<std::pair<long, std::vector<long>>> elems; };

inline int kindOf(const std::string& s) {
    static const std::map<std::string, int> m{{"Point", eNode}, {"Linear", eLine}, {"Triangle", eTri3}, {"Quadrilateral", eQuad}, {"Tetrahedra", eTet4}, {"Hexahedra", eHex}};
    auto it = m.find(s); return it == m.end() ? -1 : it->second;
}
inline Mesh header(const std::string& line, const std::string& where) {
    Mesh m;
    // the name goes up to the last quote
    size_t a = line.find('"'), b = line.rfind('"');
    check(line.compare(0, 6, "MESH \"") == 0 && b != a, "bad-file", where + ": '" + shown(line) + "' where a mesh should begin");
    m.name = line.substr(a + 1, b - a - 1);
    char type[40] = ""; int dim = 0, n = 0, end = 0;
    std::string rest = line.substr(b + 1);
    check(sscanf(rest.c_str(), " dimension %d ElemType %39s Nnode %d%n", &dim, type, &n, &end) == 3 && size_t(end) == rest.size(), "bad-file", where + ": '" + shown(line) + "'");
    m.kind = kindOf(type);
    check(m.kind >= 0 && dim == 3 && n == elemSize(m.kind), "bad-file", where + ": '" + shown(line) + "'");
    return m;
}
inline std::vector<Mesh> readText(const std::string& bytes, const std::string& where) {
    std::vector<Mesh> r;
    size_t at = 0; int no = 0;
    check(bytes.empty() || bytes.back() == '\n', "bad-file", where + " does not end with a complete line");
    auto line = [&](std::string& s) { if (at >= bytes.size()) return false; size_t e = bytes.find('\n', at); s = bytes.substr(at, e - at); at = e + 1; no++; return true; };
    auto need = [&](const char* what) { std::string s; check(line(s) && s == what, "bad-file", fmt("%s:%d: '%s' where '%s' should be", where.c_str(), no, shown(s).c_str(), what)); };
    auto nums = [&](const std::string& s) { std::vector<double> v; const char* p = s.c_str(); char* e; while (*p) { double x = strtod(p, &e); check(e != p, "bad-file", fmt("%s:%d: '%s'", where.c_str(), no, shown(s).c_str())); v.push_back(x); p = e; while (*p == ' ') p++; } return v; };
    std::string s;
    while (line(s)) {
        if (!s.empty() && s[0] == '#') continue;
        r.push_back(header(s, fmt("%s:%d", where.c_str(), no)));
        Mesh& m = r.back();
        need("Coordinates");
        while (line(s) && s != "End Coordinates") { auto v = nums(s); check(v.size() == 4 && v[0] == std::floor(v[0]), "bad-file", fmt("%s:%d: '%s' is no node", where.c_str(), no, shown(s).c_str())); check(m.nodes.emplace(long(v[0]), parts::Pos{{v[1], v[2], v[3]}}).second, "ids-not-unique", fmt("%s: node %ld twice", where.c_str(), long(v[0]))); }
        check(s == "End Coordinates", "bad-file", where + " ends within a list of nodes");
        need("Elements");
        while (line(s) && s != "End Elements") { auto v = nums(s); check(int(v.size()) == 1 + elemSize(m.kind), "bad-file", fmt("%s:%d: '%s' is no element", where.c_str(), no, shown(s).c_str())); m.elems.push_back({long(v[0]), std::vector<long>(v.begin() + 1, v.end())}); }
        check(s == "End Elements", "bad-file", where + " ends within a list of elements");
    }
    return r;
}
inline std::vector<Mesh> readBinary(const std::string& packed, bool closed, const std::string& where) {
    std::vector<Mesh> r;
    std::string b, why = gz::unpack(packed, closed, b);
    check(why.empty(), "bad-file", where + ": " + why);
    size_t at = 0;
    auto num = [&]() { check(at + 4 <= b.size(), "bad-file", where + " ends early"); int v; memcpy(&v, &b[at], 4); at += 4; return v; };
    auto real = [&]() { check(at + 4 <= b.size(), "bad-file", where + " ends early"); float v; memcpy(&v, &b[at], 4); at += 4; return double(v); };
    auto text = [&]() { int n = num(); check(n > 0 && at + n <= b.size() && b[at + n - 1] == 0, "bad-file", where + ": a text is damaged"); std::string s(b.c_str() + at); check(int(s.size()) == n - 1, "bad-file", where + ": a text is damaged"); at += n; return s; };
    // a list ends where its closing text follows, with or without an id of -1 before it
    auto ends = [&](const std::string& what) {
        size_t k = at; int n;
        if (k + 4 <= b.size() && (memcpy(&n, &b[k], 4), n == -1)) k += 4;
        if (k + 4 + what.size() + 1 > b.size() || (memcpy(&n, &b[k], 4), n != int(what.size()) + 1) || b.compare(k + 4, what.size() + 1, what.c_str(), what.size() + 1)) return false;
        at = k; return true;
    };
    auto need = [&](const char* what) { std::string s = text(); check(s == what, "bad-file", where + ": '" + shown(s) + "' where '" + what + "' should be"); };
    check(num() == 0x91d, "bad-file", where + ": magic number");
    need("GiDPostEx1.1");
    while (at < b.size()) {
        r.push_back(header(text(), where));
        Mesh& m = r.back();
        need("Coordinates -1 Indexed");
        while (!ends("End Coordinates")) { int id = num(); parts::Pos q; for (double& x : q) x = real(); check(m.nodes.emplace(id, q).second, "ids-not-unique", fmt("%s: node %d twice", where.c_str(), id)); }
        need("End Coordinates");
        need("Elements -1 Indexed");
        while (!ends("End Elements")) { int id = num(); std::vector<long> v(elemSize(m.kind)); for (long& x : v) x = num(); check(num() == 1, "bad-file", where + ": material of an element"); m.elems.push_back({id, v}); }
        need("End Elements");
    }
    return r;
}
inline std::string printable(std::string s) {
    std::string r;
    for (char c : s) if (c != '\n') r += c == '"' ? '\'' : c;
    return r;
}
// The meshes of a file against the plan.
inline void verify(const Plan& p, const std::vector<Mesh>& got, const std::string& where) {
    static const int order[]{eNode, eLine, eTri3, eQuad, eTet4, eHex};
    double scale = p.hasSolver && p.scale != 0 ? p.scale : 1;
    std::vector<parts::Part> all = parts::of(p), want;
    std::map<std::string, parts::Part> bounds;
    auto split = [&](const parts::Part& x) { for (int k : order) { parts::Part y = x; y.cells.clear(); for (auto& c : x.cells) if (c.kind == k) y.cells.push_back(c); if (!y.cells.empty()) want.push_back(y); } };
    bool flushed = false;
    auto endBounds = [&] { if (flushed || p.mesh != kStructured) return; flushed = true; for (auto& b : bounds) split(b.second); };
    if (p.mesh == kStructured) {
        // sides without a bound are shown as well
        parts::Pos lo, hi;
        for (int d = 0; d < 3; d++) { lo[d] = p.grid[d].front(); hi[d] = p.grid[d].back(); }
        static const char* const names[]{"Undefined", "PEC", "PMC", "PML", "Mur1", "Periodic"};
        for (int d = 0; d < 3; d++) for (int k = 0; k < 2; k++) {
            std::string n = std::string(names[p.bounds[d][k]]) + "@Boundary";
            parts::Part& x = bounds[n]; x.base = n; x.section = 3; x.ring = true;
            parts::Cell c; c.kind = eQuad; c.id = 0;
            int a = (d + 1) % 3, b = (d + 2) % 3;
            for (int i = 0; i < 4; i++) { parts::Pos q; q[d] = k ? hi[d] : lo[d]; q[a] = i == 1 || i == 2 ? hi[a] : lo[a]; q[b] = i >= 2 ? hi[b] : lo[b]; c.v.push_back(q); }
            x.cells.push_back(c);
        }
        for (auto& b : bounds) b.second.anyOrder = true;
    }
    for (auto& x : all) {
        if (x.section == 0 && p.mats.empty()) continue;
        if (x.section == 3) continue;
        if (x.section == 4) endBounds();
        split(x);
    }
    endBounds();
    std::set<long> nodes, elems;
    for (size_t i = 0; i < std::max(got.size(), want.size()); i++) {
        check(i < want.size(), "wrong-parts", i < got.size() ? where + " has a mesh '" + got[i].name + "' too much" : "");
        check(i < got.size(), "wrong-parts", where + " lacks a mesh of " + elemName(want[i].cells[0].kind) + " for " + want[i].base);
        const Mesh& m = got[i];
        std::string base = printable(want[i].base), here = where + ", mesh '" + m.name + "'";
        check(m.name == base || m.name == "str_" + base, "wrong-parts", here + " where '" + base + "' should be");
        check(m.kind == want[i].cells[0].kind, "wrong-parts", here + fmt(" has %s instead of %s", elemName(m.kind), elemName(want[i].cells[0].kind)));
        std::vector<parts::Cell> cells;
        std::set<long> used;
        for (auto& e : m.elems) {
            check(elems.insert(e.first).second, "ids-not-unique", here + fmt(": element id %ld was used before", e.first));
            check(e.first > 0, "ids-not-unique", here + fmt(": element id %ld", e.first));
            parts::Cell c; c.kind = m.kind; c.id = size_t(e.first);
            for (long v : e.second) { auto it = m.nodes.find(v); check(it != m.nodes.end(), "dangling-node", here + fmt(": element %ld refers to node %ld, which is not there", e.first, v)); used.insert(v); parts::Pos q = it->second; for (double& x : q) x *= scale; c.v.push_back(q); }
            cells.push_back(c);
        }
        for (auto& n : m.nodes) { check(nodes.insert(n.first).second && n.first > 0, "ids-not-unique", here + fmt(": node id %ld was used before", n.first)); check(used.count(n.first), "dangling-node", here + fmt(": no element uses node %ld", n.first)); }
        parts::compare(cells, want[i], here);
    }
}
// What an exporter of that name and format wrote.
inline std::string path(const std::string& name, bool binary) { return fs().absolute(name + (binary ? ".post.res" : ".post.msh")); }
inline void verifyFile(const Plan& p, const std::string& name, bool binary, bool closed) {
    std::string bytes, f = path(name, binary);
    check(fs().get(f, bytes), "no-file", f + " is missing");
    verify(p, binary ? readBinary(bytes, closed, f) : readText(bytes, f), f);
}
} // namespace gid
