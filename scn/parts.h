// The parts of a model as an exporter shows them, from the plan alone.
#pragma once
#include "scn/model.h"
namespace parts {
using namespace sim;
using namespace model;
typedef std::array<double, 3> Pos;
struct Cell { int kind; std::vector<Pos> v; size_t id; };   // kind: ElemKind of the linear shape
struct Part { std::string base; std::vector<Cell> cells; bool anyOrder = false, ring = false; int section; };

// The corners of an element, in the order of its vertices.
inline Cell cellOf(const Plan& p, const PElem& e) {
    static const int tri6[]{0, 3, 5}, tet10[]{0, 4, 7, 9};
    Cell c; c.id = e.id;
    c.kind = e.kind == eTri6 ? int(eTri3) : e.kind == eTet10 ? int(eTet4) : e.kind;
    for (int i = 0; i < elemSize(c.kind); i++) {
        int k = e.kind == eTri6 ? tri6[i] : e.kind == eTet10 ? tet10[i] : i;
        c.v.push_back(p.coords[e.v[k]].pos);
    }
    return c;
}
// Layers keep their names without blanks.
inline std::string layerName(std::string s) { for (char& c : s) if (c == ' ') c = '_'; return s; }
inline std::string srcName(int kind) {
    switch (kind) {
        case sPlaneWave: case sPlaneWaveRandom: return "PlaneWave";
        case sGenerator: return "Generator";
        case sOnLine: return "OnLine";
        case sDipole: return "Dipole";
        case sWaveguide: return "Rectangular_waveguide_port";
        default: return "Coaxial_TEM_port";
    }
}
// Materials in layers, sources, requests; then bounds and grid of a structured mesh.
inline std::vector<Part> of(const Plan& p) {
    std::vector<Part> r;
    auto add = [&](Part x) { if (!x.cells.empty()) r.push_back(x); };
    for (size_t l = 0; l < p.layers.size(); l++) {
        if (p.mats.empty()) {
            Part x; x.base = layerName(p.layers[l].name); x.section = 0;
            for (auto& e : p.elems) if (e.layer == int(l)) x.cells.push_back(cellOf(p, e));
            add(x);
        }
        for (size_t m = 0; m < p.mats.size(); m++) {
            Part x; x.base = p.mats[m].name + "@" + layerName(p.layers[l].name); x.section = 0;
            for (auto& e : p.elems) if (e.layer == int(l) && e.mat == int(m)) x.cells.push_back(cellOf(p, e));
            add(x);
        }
    }
    for (auto& s : p.srcs) { Part x; x.base = "EMSource_" + srcName(s.kind); x.section = 1; for (int e : s.elems) x.cells.push_back(cellOf(p, p.elems[e])); add(x); }
    for (auto& s : p.reqs) { Part x; x.base = "OutRq_" + s.name; x.section = 2; for (int e : s.elems) x.cells.push_back(cellOf(p, p.elems[e])); add(x); }
    if (p.mesh == kStructured) {
        Pos lo, hi;
        for (int d = 0; d < 3; d++) { lo[d] = p.grid[d].front(); hi[d] = p.grid[d].back(); }
        for (int d = 0; d < 3; d++) for (int k = 0; k < 2; k++) if (p.bounds[d][k]) {
            static const char* const names[]{"", "PEC", "PMC", "PML", "Mur1", "Periodic"};
            Part x; x.base = std::string(names[p.bounds[d][k]]) + "@Boundary"; x.section = 3; x.ring = true;
            Cell c; c.kind = eQuad; c.id = 0;
            int a = (d + 1) % 3, b = (d + 2) % 3;
            for (int i = 0; i < 4; i++) { Pos q; q[d] = k ? hi[d] : lo[d]; q[a] = i == 1 || i == 2 ? hi[a] : lo[a]; q[b] = i >= 2 ? hi[b] : lo[b]; c.v.push_back(q); }
            x.cells.push_back(c);
            add(x);
        }
        Part g; g.base = "Grid"; g.section = 4; g.anyOrder = true;
        for (int d = 0; d < 3; d++) {      // the lines on the lower face across d, in both directions
            int a = (d + 1) % 3, b = (d + 2) % 3;
            for (double x : p.grid[a]) { Cell c; c.kind = eLine; c.id = 0; Pos q; q[d] = lo[d]; q[a] = x; q[b] = lo[b]; Pos t = q; t[b] = hi[b]; c.v = {q, t}; g.cells.push_back(c); }
            for (double x : p.grid[b]) { Cell c; c.kind = eLine; c.id = 0; Pos q; q[d] = lo[d]; q[b] = x; q[a] = lo[a]; Pos t = q; t[a] = hi[a]; c.v = {q, t}; g.cells.push_back(c); }
        }
        add(g);
    }
    return r;
}
// positions are written with six digits unless the format can hold more
inline double& precision() { static double rel = 1e-5; return rel; }
inline bool near(double written, double x, double rel = precision()) { return std::abs(written - x) <= rel * std::abs(x) + 1e-12; }
inline bool near(const Pos& a, const Pos& b) { for (int i = 0; i < 3; i++) if (!near(a[i], b[i])) return false; return true; }
inline std::string show(const Cell& c) { std::string s = elemName(c.kind); for (auto& q : c.v) s += fmt(" (%g %g %g)", q[0], q[1], q[2]); return s; }
inline bool same(const Cell& a, const Cell& b, bool ring) {
    if (a.kind != b.kind || a.v.size() != b.v.size()) return false;
    size_t n = a.v.size();
    auto eq = [&](size_t turn, bool back) { for (size_t i = 0; i < n; i++) if (!near(a.v[i], b.v[(back ? 2 * n - i : i) % n == 0 && !turn ? 0 : ((back ? n - i % n : i) + turn) % n])) return false; return true; };
    if (eq(0, false)) return true;
    if (!ring) return false;
    for (size_t t = 0; t < n; t++) if (eq(t, false) || eq(t, true)) return true;
    return false;
}
// got: what was written; want: the truth
inline void compare(const std::vector<Cell>& got, const Part& want, const std::string& where) {
    check(got.size() == want.cells.size(), "wrong-elements", fmt("%s has %zu elements instead of %zu", where.c_str(), got.size(), want.cells.size()));
    std::vector<bool> used(got.size());
    for (size_t i = 0; i < want.cells.size(); i++) {
        if (!want.anyOrder) { check(same(got[i], want.cells[i], want.ring), "wrong-elements", fmt("element %zu of %s is %s instead of %s", i, where.c_str(), show(got[i]).c_str(), show(want.cells[i]).c_str())); continue; }
        bool found = false;
        for (size_t k = 0; k < got.size() && !found; k++) if (!used[k] && (same(got[k], want.cells[i], true))) { used[k] = true; found = true; }
        check(found, "wrong-elements", fmt("%s lacks %s", where.c_str(), show(want.cells[i]).c_str()));
    }
}
} // namespace parts
