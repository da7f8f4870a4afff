// usesjson. Generated GiD-JSON project documents: a tree with its text, the truth it describes (written apart from the
// reader and from the constructors of the model), and the text of a model that was read.
#pragma once
#include "scn/model.h"
#include "sim/stream.h"
#include "parser/json/Parser.h"
#include <algorithm>
#include <cmath>
namespace project {
using namespace sim;
using namespace model;

// ---- the document as a tree
struct J {
    enum Kind { Obj, Arr, Str, Num, Bool, Null } kind = Null;
    std::string s;                                  // value of a string, literal of a number or boolean
    std::vector<std::pair<std::string, J>> kids;    // names are empty in arrays
    bool required = false;                          // leaving the entry out is an error
    bool fixedKind = true;                          // another kind of value is an error
    int ref = -1;                                   // which token of the value is an id that must exist
    int tokens = 0;                                 // numbers that a string must hold
    bool label = false;                             // one of a fixed set of labels
    static J obj() { J j; j.kind = Obj; return j; }
    static J arr() { J j; j.kind = Arr; return j; }
    static J str(const std::string& v, int tokens = 0) { J j; j.kind = Str; j.s = v; j.tokens = tokens; return j; }
    static J num(const std::string& v) { J j; j.kind = Num; j.s = v; return j; }
    static J num(size_t v) { return num(fmt("%zu", v)); }
    static J yes(bool v) { J j; j.kind = Bool; j.s = v ? "true" : "false"; return j; }
    J& add(const std::string& k, J v, bool req = true) { v.required = req; kids.push_back({k, v}); return kids.back().second; }
    J& label_(const std::string& k, const std::string& v) { J& x = add(k, str(v)); x.label = true; return x; }
    J& push(J v) { kids.push_back({"", v}); return kids.back().second; }
    J& as(int r) { ref = r; return *this; }
    J* at(const std::string& k) { for (auto& x : kids) if (x.first == k) return &x.second; return nullptr; }
};
struct Style { int space; bool shuffle; int escapes; };
inline std::string quoted(const std::string& s, const Style& st, Rng& r) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || (st.escapes && c < 127 && r.below(20) == 0)) o += fmt("\\u%04x", c);
        else if (st.escapes && c == '/' && r.below(2)) o += "\\/";
        else o += char(c);
    }
    return o + "\"";
}
inline std::string blank(const Style& st, Rng& r, int depth) {
    switch (st.space) { case 0: return ""; case 1: return " "; case 2: return "\n" + std::string(2 * depth, ' '); }
    static const char* const b[]{"", " ", "\n", "\t", "\r\n", "   \n "};
    return b[r.below(6)];
}
inline void write(const J& j, std::string& o, const Style& st, Rng& r, int depth = 0) {
    switch (j.kind) {
        case J::Str: o += quoted(j.s, st, r); return;
        case J::Null: o += "null"; return;
        case J::Num: case J::Bool: o += j.s; return;
        default: break;
    }
    bool ob = j.kind == J::Obj;
    o += ob ? '{' : '[';
    std::vector<size_t> order(j.kids.size());
    for (size_t i = 0; i < order.size(); i++) order[i] = i;
    if (ob && st.shuffle) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(uint32_t(i))]);
    for (size_t i = 0; i < order.size(); i++) {
        if (i) o += ',';
        o += blank(st, r, depth + 1);
        auto& k = j.kids[order[i]];
        if (ob) { o += quoted(k.first, st, r); o += (st.space > 2 ? blank(st, r, 0) : std::string()) + ":" + (st.space ? " " : ""); }
        write(k.second, o, st, r, depth + 1);
    }
    o += blank(st, r, depth);
    o += ob ? '}' : ']';
}
inline std::string text(const J& j) {
    Style st{int(choose(4)), chance(1, 2), int(choose(2))};
    Rng r(seedChoice());
    std::string o = chance(1, 6) ? " \n" : "";
    write(j, o, st, r);
    return o;
}

// ---- numbers
inline std::string numeral(double v, bool json) {           // one of the texts of a number
    for (int n = 0; n < 20; n++) {
        std::string t;
        switch (choose(6)) {
            case 0: t = fmt("%.17g", v); break;
            case 1: t = fmt("%g", v); break;
            case 2: t = fmt("%.16e", v); break;
            case 3: t = fmt("%.3f", v); break;
            case 4: t = fmt("%E", v); break;
            default: t = fmt("%.1f", v);
        }
        if (!json && !std::signbit(v) && chance(1, 4)) t = "+" + t;
        if (strtod(t.c_str(), nullptr) == v) return t;
    }
    return fmt("%.17g", v);
}
inline std::string exact(double v) { return fmt("%.17g", v); }
inline std::string near(double v, double tol = 1e-11) { return fmt("~%.17g:%g", v, tol * std::abs(v)); }
inline std::string nearAbs(double v, double tol) { return fmt("~%.17g:%g", v, tol); }
inline std::string braced(const std::vector<double>& v) {
    std::string o = chance(3, 4) ? "{" : "", sep = chance(1, 4) ? "  " : " ";
    bool b = !o.empty();
    for (size_t i = 0; i < v.size(); i++) o += (i ? sep : chance(1, 6) ? " " : "") + numeral(v[i], false);
    return o + (b ? "}" : "");
}
inline double amount() { static const std::vector<double> v{1, 0.5, 2.25, 1e-3, 3e8, 0.1, 7, 12345.678, 1e-12, 0.333333333333, 4, 0, 1e22, 53, 2.5e-12}; return pick(v); }

// ---- the truth
struct Truth {
    std::vector<std::string> lines;                // in order
    std::vector<std::string> loose;                // in any order: elements made for boxes, nodes and connectors
};
struct Box { double lo[3], hi[3]; };

struct Doc {
    J root = J::obj();
    Truth truth;
    std::set<size_t> coordIds, elemIds, matIds;
    bool hasMesh = true;
    std::map<std::string, std::string> files;      // that the document names
};

class Maker {
    Doc& d;
    double axis[3][5]; int n[3];
    struct C { size_t id; int q[3]; };
    std::vector<C> coords;
    std::map<std::array<int, 3>, size_t> lattice;  // document coordinate at a lattice point
    struct E { size_t id; int kind; std::vector<size_t> c; size_t mat; };
    std::vector<E> elems;
    std::vector<size_t> layers;
    std::set<size_t> ids[3];
    double scale = 1;
    bool big;
    IdPool *matPool = nullptr;
    typedef std::string S;
public:
    Maker(Doc& d, bool big) : d(d), big(big) {}
    S name() {
        static const std::vector<S> v{"a", "Layer one", "metal", "b", "x/y", "A", "Wire-2", "metal", "caf\xc3\xa9", "say \"hi\"", "back\\slash", "tab\tbed", "{braces}", "1e5", "a name of some length that does not fit in place", "another_long_name_for_a_part_of_the_model"};
        return pick(v);
    }
    S file(const S& n) { d.files[n] = "some content\n"; return n; }
    J number(double v) { return J::num(numeral(v, true)); }
    std::vector<double> vec3() { std::vector<double> v; for (int i = 0; i < 3; i++) v.push_back(chance(1, 3) ? -amount() : amount()); return v; }
    S show(const std::vector<double>& v) { S s; for (double x : v) s += " " + exact(x); return s; }
    // rotation by the Euler angles phi, theta, psi about z, x and z
    static void rotate(const std::vector<double>& e, const double* diag, const double (*full)[3], double out[3][3]) {
        auto mul = [](const double a[3][3], const double b[3][3], double o[3][3]) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { o[i][j] = 0; for (int k = 0; k < 3; k++) o[i][j] += a[i][k] * b[k][j]; } };
        auto rz = [](double t, double o[3][3]) { double m[3][3]{{cos(t), sin(t), 0}, {-sin(t), cos(t), 0}, {0, 0, 1}}; memcpy(o, m, sizeof m); };
        double A[3][3], B[3][3]{{1, 0, 0}, {0, cos(e[1]), sin(e[1])}, {0, -sin(e[1]), cos(e[1])}}, C[3][3], t[3][3], R[3][3], D[3][3]{}, RT[3][3];
        rz(e[2], A); rz(e[0], C); mul(A, B, t); mul(t, C, R);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { RT[i][j] = R[j][i]; D[i][j] = full ? full[i][j] : i == j ? diag[i] : 0; }
        mul(R, D, t); mul(t, RT, out);
    }
    S matrix(const std::vector<double>& euler, const double* diag, const double (*full)[3] = nullptr) {
        double o[3][3]; S s; double top = 0;
        rotate(euler, diag, full, o);
        for (int i = 0; i < 3; i++) top = std::max(top, std::abs(diag ? diag[i] : full[0][1]));
        for (auto& r : o) for (double x : r) s += " " + nearAbs(x, 1e-9 * top);
        return s;
    }
    // a material or connector: entries into j; its text as model::describe shows it
    S material(J& j, bool connector, const S& id, S nm, bool nameNeeded) {
        auto num = [&](const S& key) { double v = amount(); j.add(key, number(v)); return " " + exact(v); };
        auto str = [&](const S& key, const S& v) { j.add(key, J::str(v)); return v; };
        auto type = [&](const S& v) { j.label_("materialType", chance(1, 5) ? " " + v + " " : v); };
        auto axes = [&](std::vector<double>& e, std::vector<double>& o) { e = chance(1, 2) ? std::vector<double>{0, 0, 0} : std::vector<double>{0.5, 1.25, chance(1, 2) ? -2. : 0.}; o = vec3(); auto b = [&](const std::vector<double>& v) { return "{" + exact(v[0]) + " " + exact(v[1]) + " " + exact(v[2]) + "}"; }; j.add("localAxes", J::str(b(e) + (chance(1, 2) ? " " : "") + b(o), 6)); return show(e) + show(o); };
        S head = " " + id + " '" + nm + "'";
        int k = connector ? 11 : int(choose(15));
        switch (k) {
            case 0: type("PEC"); return "Predefined::PEC" + head;
            case 1: type("PMC"); return "Predefined::PMC" + head;
            case 2: type("SMA"); return "Predefined::SMA" + head;
            case 3: { type("PML"); std::vector<double> e, o; return "Volume::PML" + head + axes(e, o); }
            case 4: { type("Classic"); S a = num("permittivity"), b = num("permeability"), c = num("electricConductivity"), e = num("magneticConductivity"); return "Volume::Classic" + head + a + b + c + e; }
            case 5: { type("Dispersive"); S f = str("filename", file("material.dmma")); return "Volume::Dispersive" + head + " file '" + f + "' 0"; }
            case 6: case 7: case 8: {
                type("Wire");
                static const char* const w[]{"Dispersive", "SeriesParallel", "Standard"};
                j.label_("wireType", w[k - 6]);
                S r = num("radius");
                if (k == 6) { S f = str("filename", "wire " + fmt("%d", int(choose(3))) + ".disp"); return "Wire::Wire" + head + r + " 10 0 0 0 0 0 0 '" + f + "'"; }
                S a = num("resistance"), b = num("inductance");
                if (k == 8) return "Wire::Wire" + head + r + " 00" + a + b + " 0 0 0 0 ''";
                S c = num("capacitance"), e = num("parallelResistance"), f = num("parallelInductance"), g = num("parallelCapacitance");
                return "Wire::Wire" + head + r + " 01" + a + b + c + e + f + g + " ''";
            }
            case 9: case 10: {
                type("Anisotropic");
                std::vector<double> e, o;
                j.label_("anisotropicModel", k == 9 ? "Crystal" : "Ferrite");
                S ax = axes(e, o);
                if (k == 9) {
                    auto v = vec3(); j.add("relativePermittiviy", J::str(braced(v), 3));
                    double mu = amount(); j.add("crystalRelativePermeability", number(mu)); double m3[3]{mu, mu, mu};
                    return "Volume::AnisotropicCrystal" + head + ax + matrix(e, v.data()) + matrix(e, m3) + show(v) + " " + exact(mu);
                }
                double ka = amount(), mu = amount(), ep = amount(), m3[3]{mu, mu, 1}, e3[3]{ep, ep, ep}, im[3][3]{{0, ka, 0}, {-ka, 0, 0}, {0, 0, 0}};
                j.add("kappa", number(ka)); j.add("ferriteRelativePermeability", number(mu)); j.add("ferriteRelativePermittivity", number(ep));
                return "Volume::AnisotropicFerrite" + head + ax + matrix({0, 0, 0}, e3) + matrix(e, m3) + " imaginary" + matrix(e, nullptr, im);
            }
            case 11: {
                type("Connector");
                static const char* const t[]{"Conn_short", "Conn_open", "Conn_dispersive", "Conn_matched", "Conn_sRLC", "Conn_pRLC", "Conn_sLpRC"};
                using PhysicalModel::Multiport::Multiport;
                static const int code[]{Multiport::shortCircuit, Multiport::openCircuit, Multiport::dispersive, Multiport::matched, Multiport::sRLC, Multiport::pRLC, Multiport::sLpRC};
                int c = int(choose(7));
                j.label_("connectorType", t[c]);
                S ty = fmt(" type %d", code[c]);
                if (c < 2) return "Multiport::Predefined" + head + ty;
                if (c == 2) { S f = str("filename", "port.disp"); return "Multiport::Dispersive" + head + ty + " '" + f + "'"; }
                S a = num("resistance"), b = num("inductance"), e = num("capacitance");
                return "Multiport::RLC" + head + ty + a + b + e;
            }
            case 12: { type(chance(1, 2) ? "Thin_gap" : "Thin_gap_wide"); S w = num("width"); return "Gap::Gap" + head + w; }
            case 13: { type("SIBC"); j.label_("surfaceType", "File"); S f = str("filename", file("surface.mibc")); return "Surface::SIBCFile" + head + " '" + f + "'"; }
            default: {
                type("SIBC"); j.label_("surfaceType", "Layers");
                J l = J::arr(); S s;
                for (int i = range(1, 3); i > 0; i--) {
                    J o = J::obj(); double v[4]; static const char* const key[]{"thickness", "permittivity", "permeability", "elecCond"};
                    for (int q = 0; q < 4; q++) { do v[q] = amount(); while (v[q] == 0 && (q == 1 || q == 2)); o.add(key[q], number(v[q])); }
                    if (chance(1, 2)) o.add("magnCond", J::num("0.0"), false).fixedKind = false;
                    l.push(o); s += " (" + exact(v[0]) + "," + exact(v[1]) + "," + exact(v[2]) + "," + exact(v[3]) + ")";
                }
                j.add("layers", l);
                bool fit = chance(1, 2);
                j.add("useSembaVectorFitting", J::yes(fit));
                if (fit) { S a = num("freqMin"), b = num("freqMax"); size_t p = 1 + choose(30); j.add("numberOfPoles", J::num(p)); s += " fit" + a + b + fmt(" %zu", p); }
                return "Surface::Multilayer" + head + s;
            }
        }
    }
    static bool needsName(const S& described) { return described.compare(0, 19, "Surface::Multilayer") == 0; }
    void materials() {
        if (chance(1, 10)) return;
        J a = J::arr(); IdPool pool;
        for (int i = range(0, big ? 12 : 5); i > 0; i--) {
            J m = J::obj(); size_t id = pool.next();
            m.add("materialId", J::num(id), false);
            bool named = !chance(1, 8); S nm = named ? name() : "";
            S s = material(m, false, fmt("%zu", id), nm, false);
            if (!named && needsName(s)) { named = true; }
            if (named) m.add("name", J::str(nm), needsName(s));
            if (needsName(s)) m.at("materialId")->required = true;
            d.matIds.insert(id); a.push(m);
            d.truth.lines.push_back("material " + s);
        }
        d.root.add("materials", a, false);
    }
    S pos(const int q[3]) { S s; for (int i = 0; i < 3; i++) s += " " + exact(axis[i][q[i]] * scale); return s; }
    S coordAt(const int q[3]) {
        auto it = lattice.find({q[0], q[1], q[2]});
        return it != lattice.end() ? fmt(" C%zu", it->second) : " (" + pos(q).substr(1) + ")";
    }
    S boxText(const int lo[3], const int hi[3]) {
        std::vector<double> v; bool swapped = chance(1, 6);
        for (int w = 0; w < 2; w++) for (int i = 0; i < 3; i++) v.push_back(axis[i][(w == 0) != swapped ? hi[i] : lo[i]]);
        S s = "{";
        for (size_t i = 0; i < 6; i++) s += (i ? " " : "") + numeral(v[i], false);
        return s + "}";
    }
    // an element made for a box; its text
    S boxElem(int dim, J& j, const S& key) {
        int lo[3], hi[3]; int flat = int(choose(3));
        for (int i = 0; i < 3; i++) {
            bool thick = dim == 3 || (dim == 2 && i != flat) || (dim == 1 && i == flat);
            lo[i] = int(choose(thick ? n[i] - 1 : n[i])); hi[i] = thick ? lo[i] + 1 + int(choose(n[i] - 1 - lo[i])) : lo[i];
        }
        j.add(key, J::str(boxText(lo, hi), 6));
        auto at = [&](bool x, bool y, bool z) { int q[3]{x ? hi[0] : lo[0], y ? hi[1] : lo[1], z ? hi[2] : lo[2]}; return coordAt(q); };
        S s, tail = " - layer none material none :";
        switch (dim) {
            case 3: s = "Hexahedron8<double>" + tail + at(0,0,0) + at(1,0,0) + at(1,1,0) + at(0,1,0) + at(0,0,1) + at(1,0,1) + at(1,1,1) + at(0,1,1); break;
            case 2:
                s = "Quadrilateral4<double>" + tail;
                if (flat == 0) s += at(0,0,0) + at(0,1,0) + at(0,1,1) + at(0,0,1);
                else if (flat == 1) s += at(0,0,0) + at(0,0,1) + at(1,0,1) + at(1,0,0);
                else s += at(0,0,0) + at(1,0,0) + at(1,1,0) + at(0,1,0);
                break;
            case 1: { bool f[3]{flat == 0, flat == 1, flat == 2}; s = "Line2<double>" + tail + at(0,0,0) + at(f[0], f[1], f[2]); break; }
            default: s = "Node<double>" + tail + at(0,0,0);
        }
        d.truth.loose.push_back(s);
        return " [" + s + "]";
    }
    S nodes(J& j, const S& key, int most) {
        J a = J::arr(); S s;
        for (int i = range(1, most); i > 0; i--) {
            size_t id = coords[choose(coords.size())].id;
            a.push(J::num(id)).as(0);
            S e = fmt("Node<double> - layer none material none : C%zu", id);
            d.truth.loose.push_back(e); s += " [" + e + "]";
        }
        j.add(key, a);
        return s;
    }
    // elements of the document of some kinds; false if there are none
    bool pickElems(J& j, const S& key, std::vector<int> kinds, int most, S& s, bool plain = false) {
        std::vector<size_t> ok;
        for (size_t i = 0; i < elems.size(); i++) if ((kinds.empty() || std::count(kinds.begin(), kinds.end(), elems[i].kind)) && !(plain && elems[i].mat)) ok.push_back(i);
        if (ok.empty()) return false;
        J a = J::arr(); std::set<size_t> used;
        for (int i = range(1, most); i > 0; i--) { size_t e = pick(ok); if (!used.insert(e).second) continue; a.push(J::num(elems[e].id)).as(0); s += fmt(" E%zu", elems[e].id); }
        j.add(key, a);
        return true;
    }
    // elements of the document that lie in one plane across z; false if there are none
    bool pickFlat(J& j, const S& key, S& s, std::vector<size_t>& which) {
        std::vector<size_t> ok;
        auto extent = [&](const E& e, int i) { int lo = 99, hi = -1; for (size_t c : e.c) { lo = std::min(lo, coords[c].q[i]); hi = std::max(hi, coords[c].q[i]); } return hi - lo; };
        for (size_t i = 0; i < elems.size(); i++) if ((elems[i].kind == 2 || elems[i].kind == 3) && extent(elems[i], 0) && extent(elems[i], 1) && !extent(elems[i], 2)) ok.push_back(i);
        if (ok.empty()) return false;
        J a = J::arr(); std::set<size_t> used; int level = -1;
        for (int i = range(1, 3); i > 0; i--) {
            size_t e = pick(ok); int z = coords[elems[e].c[0]].q[2];
            if (level >= 0 && z != level) continue;
            level = z;
            if (!used.insert(e).second) continue;
            a.push(J::num(elems[e].id)).as(0); s += fmt(" E%zu", elems[e].id); which.push_back(e);
        }
        j.add(key, a);
        return true;
    }
    S magnitude(J& j) {
        J m = J::obj(); S s;
        static const double at[]{0, 0.5, 1, 1.7, 2.5, 10};
        switch (choose(3)) {
            case 0: {
                double f = pick(std::vector<double>{1, 0.5, 0.2, 1e9});
                m.label_("type", "Gaussian"); m.add("frequencyMaximum", number(f));
                double sp = 0.2 / f, de = 6 * sp;
                s = "Magnitude::Magnitude";
                for (double t : at) s += " " + nearAbs(std::exp(-(t - de) * (t - de) / (2 * sp * sp)), 1e-9);
                break;
            }
            case 1: {
                double lo = pick(std::vector<double>{4, 8, 20, 12.5}), hi = lo + pick(std::vector<double>{1, 4, 7.5});
                m.label_("type", "Band_limited"); m.add("frequencyMinimum", number(lo)); m.add("frequencyMaximum", number(hi));
                s = "Magnitude::Magnitude";
                for (double t : at) { double c = (lo + hi) / 2, b = (hi - lo) / 2, D = t - 20 / lo, sp = 10 / hi; double v = D == 0 ? 1 : std::sin(2 * M_PI * b * D) / (2 * M_PI * b * D) * std::exp(-D * D / sp / sp / 2) * std::cos(2 * M_PI * c * D); s += " " + nearAbs(v, 1e-8); }
                break;
            }
            default: {
                std::vector<double> x{0, 1, 2.5}, y{double(choose(9)) - 4, double(choose(9)) - 4, 0.75};
                S nm = fmt("excitation%d.exc", int(d.files.size())), t;
                for (int i = 0; i < 3; i++) t += numeral(x[i], false) + " " + numeral(y[i], false) + "\n";
                d.files[nm] = t; m.label_("type", "File"); m.add("filename", J::str(nm));
                s = "Magnitude::Numerical";
                for (double q : at) s += " " + nearAbs(q <= 1 ? y[0] + (y[1] - y[0]) * q : q <= 2.5 ? y[1] + (y[2] - y[1]) * (q - 1) / 1.5 : y[2], 1e-9);
            }
        }
        j.add("magnitude", m);
        return " " + s;
    }
    S cell() { return ""; }
    void solver() {
        if (chance(1, 6)) { d.truth.lines.push_back("no solver"); return; }
        J s = J::obj(); S nm = chance(1, 2) ? "cudg3d" : "ugrfdtd";
        std::map<S, S> shown;
        s.add("solver", J::str(nm)); shown["solver"] = nm;
        scale = chance(1, 2) ? 1 : pick(std::vector<double>{0.001, 2, 0.1, 1000});
        S sc = numeral(scale, true);
        if (chance(1, 8)) { s.add("geometryScalingFactor", J::str(sc), false).fixedKind = false; shown["geometryScalingFactor"] = sc; }
        else { s.add("geometryScalingFactor", J::num(sc), false).fixedKind = false; shown["geometryScalingFactor"] = "#" + sc; }
        static const std::vector<S> keys{"finalTime", "timeStep", "cfl", "order", "useLTS", "compositesModel", "Zeta", "a b"};
        auto fill = [&](J& o, const S& path, int most) {
            std::set<S> used;
            for (int i = int(choose(most + 1)); i > 0; i--) {
                S k = pick(keys); if (!used.insert(k).second) continue;
                switch (choose(4)) {
                    case 0: { S v = pick(std::vector<S>{"text", "two words", "a text that is longer than what fits in place", "a text that is longer than what fits in place", "", "1e-9", "caf\xc3\xa9", "\"q\""}); o.add(k, J::str(v), false).fixedKind = false; shown[path + k] = v; break; }
                    case 1: { bool v = chance(1, 2); o.add(k, J::yes(v), false).fixedKind = false; shown[path + k] = v ? "1" : "0"; break; }
                    default: { double v = chance(1, 3) ? double(choose(200001)) - 5 : chance(1, 4) ? -amount() : amount(); S t = numeral(v, true); o.add(k, J::num(t), false).fixedKind = false; shown[path + k] = "#" + t; }
                }
            }
        };
        fill(s, "", 5);
        if (chance(1, 2)) { J o = J::obj(); fill(o, "mesherOptions/", 4); if (chance(1, 3)) { J o2 = J::obj(); fill(o2, "mesherOptions/deep/", 2); o.add("deep", o2, false).fixedKind = false; shown["mesherOptions/deep/"] = "{}"; } s.add("mesherOptions", o, false).fixedKind = false; shown["mesherOptions/"] = "{}"; }
        d.root.add("solverOptions", s, false);
        d.truth.lines.push_back("solver " + nm);
        for (auto& k : shown) d.truth.lines.push_back("setting " + k.first + " = " + k.second);
    }
    void grid() {
        J g = J::obj(); S line = "grid";
        std::vector<std::vector<S>> p(3);
        double unit = chance(1, 5) ? pick(std::vector<double>{65536, 1024. * 1024 * 1024, 1. / 1024}) : 1;
        auto boxOf = [&](double lo[3], double hi[3]) { for (int i = 0; i < 3; i++) { lo[i] = unit * pick(std::vector<double>{0, -1, 0.5, 10}); hi[i] = lo[i] + unit * pick(std::vector<double>{1, 2, 0.5, 3}); } };
        auto put = [&](const double lo[3], const double hi[3]) { std::vector<double> v{hi[0], hi[1], hi[2], lo[0], lo[1], lo[2]}; S s = "{"; for (size_t i = 0; i < 6; i++) s += (i ? " " : "") + numeral(v[i], false); return s + "}"; };
        double lo[3], hi[3], step[3]; size_t cells[3];
        boxOf(lo, hi);
        int kind = int(choose(6));
        auto uniform = [&](int i, double from, double st, size_t n) { for (size_t k = 0; k <= n; k++) p[i].push_back(nearAbs((from + st * k) * scale, 1e-9 * scale * unit)); };
        if (kind < 4) {
            g.label_("gridType", "gridCondition").label = true;
            g.add("layerBox", J::str(put(lo, hi), 6));
            bool padded = kind % 2 == 1;
            if (kind < 2) {
                g.label_("type", "Number_of_cells").label = false;
                S v; for (int i = 0; i < 3; i++) { cells[i] = 1 + choose(chance(1, 4) ? 60 : 5); step[i] = (hi[i] - lo[i]) / cells[i]; v += fmt("%s%zu", i ? " " : "", cells[i]); }
                g.add("numberOfCells", J::str("{" + v + "}", 3));
            } else {
                g.label_("type", "by_distance").label = false;
                bool fit = chance(1, 2);
                std::vector<double> s;
                for (int i = 0; i < 3; i++) {
                    double len = hi[i] - lo[i];
                    if (fit) { double w = len / (pick(std::vector<double>{0.7, 0.3, 0.45, 0.95}) + choose(chance(1, 4) ? 60 : 6)); s.push_back(w); double c = std::round(len / w); cells[i] = c < 1 ? 1 : size_t(c); step[i] = len / cells[i]; }
                    else { double w = unit * pick(std::vector<double>{0.25, 0.5, 0.375, 0.125}); s.push_back(w); step[i] = w; cells[i] = size_t(std::ceil(len / w)); }
                }
                S v; for (int i = 0; i < 3; i++) v += (i ? " " : "") + exact(s[i]);
                g.add("stepSize", J::str("{" + v + "}", 3)); g.add("fitSizeToBox", J::yes(fit));
            }
            std::vector<double> pad[2], size[2];
            bool byCells = chance(1, 2);
            if (padded) {
                for (int b = 0; b < 2; b++) for (int i = 0; i < 3; i++) {
                    // nothing, or cells of the size at the border (larger ones are graded: see the lines marked below)
                    double s = 0, q = 0;
                    switch (choose(4)) {
                        case 0: break;
                        case 1: s = step[i] / 2; q = 1 + choose(3); break;
                        case 2: s = step[i]; q = 1 + choose(3); break;
                        default: s = step[i] * pick(std::vector<double>{1.5, 2, 3}); q = 2 + choose(6); break;
                    }
                    size[b].push_back(s);
                    pad[b].push_back(byCells ? q : q * s);
                }
                auto v3 = [&](const std::vector<double>& v) { return "{" + exact(v[0]) + " " + exact(v[1]) + " " + exact(v[2]) + "}"; };
                g.add("lowerPaddingMeshSize", J::str(v3(size[0]), 3), false); g.add("upperPaddingMeshSize", J::str(v3(size[1]), 3));
                g.add("lowerPadding", J::str(v3(pad[0]), 3)); g.add("upperPadding", J::str(v3(pad[1]), 3));
                g.label_("boundaryPaddingType", byCells ? "by_number_of_cells" : "by_distance").label = false;
            }
            for (int i = 0; i < 3; i++) {
                double ext[2] = {0, 0}, cs[2] = {0, 0};
                if (padded) for (int b = 0; b < 2; b++) { cs[b] = size[b][i]; ext[b] = pad[b][i] * (byCells ? cs[b] : 1); }
                // cells as fine as those at the border continue them; coarser ones grow towards their size
                auto side = [&](int b) {
                    std::vector<S> r;
                    if (ext[b] == 0) return r;
                    if (cs[b] <= step[i] * (1 + 1e-6)) { size_t k = size_t(std::ceil(ext[b] / step[i] - 0.01)); for (size_t m = 1; m <= k; m++) r.push_back(nearAbs((b ? hiPos(i, lo, step, cells) + m * step[i] : lo[i] - m * step[i]) * scale, 1e-9 * scale * unit)); }
                    else r.push_back(fmt("graded:%d:%.17g:%.17g:%.17g:%.17g", b, (b ? hiPos(i, lo, step, cells) : lo[i]) * scale, step[i] * scale, cs[b] * scale, ext[b] * scale));
                    return r;
                };
                auto a = side(0), b = side(1);
                for (size_t k = a.size(); k-- > 0;) p[i].push_back(a[k]);
                uniform(i, lo[i], step[i], cells[i]);
                for (auto& x : b) p[i].push_back(x);
            }
        } else {
            std::vector<double> pp[3];
            bool listed = kind == 5 || chance(1, 2);
            if (listed) for (int i = 0; i < 3; i++) { double x = lo[i]; for (int k = range(2, 5); k > 0; k--) { pp[i].push_back(x); x += pick(std::vector<double>{0.1, 0.25, 1, 1. / 3}); } }
            auto listOf = [&](int i) { J a = J::arr(); for (double x : pp[i]) a.push(number(x)); return a; };
            if (kind == 4) {
                g.label_("gridType", "nativeGiD");
                S v; for (int i = 0; i < 3; i++) { cells[i] = 1 + choose(5); step[i] = (hi[i] - lo[i]) / cells[i]; v += fmt("%s%zu", i ? " " : "", cells[i]); }
                g.add("corner", J::str(braced({lo[0], lo[1], lo[2]}), 3)); g.add("boxSize", J::str(braced({hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2]}), 3)); g.add("nGridPoints", J::str("{" + v + "}", 3));
                g.add("xCoordinates", listOf(0)); g.add("yCoordinates", listOf(1)); g.add("zCoordinates", listOf(2));
                if (!listed) for (int i = 0; i < 3; i++) uniform(i, lo[i], step[i], cells[i]);
            } else {
                g.label_("gridType", "positionsFromFile"); g.add("filename", J::str("grid.json"));
                S t; static const char* const k[]{"xs", "ys", "zs"};
                for (int i = 0; i < 3; i++) { t += fmt("%s\"%s\": [", i ? ",\n" : "", k[i]); for (size_t m = 0; m < pp[i].size(); m++) t += (m ? ", " : "") + numeral(pp[i][m], true); t += "]"; }
                d.files["grid.json"] = t + "\n";
            }
            if (listed) for (int i = 0; i < 3; i++) for (double x : pp[i]) p[i].push_back(exact(x * scale));
        }
        J a = J::arr(); a.push(g);
        if (chance(1, 8)) { J o = J::obj(); o.add("gridType", J::str("ignored"), false).fixedKind = false; a.push(o).fixedKind = false; }
        // only the first grid counts; what follows it is not looked at
        d.root.add("grids", a);
        for (int i = 0; i < 3; i++) { line += " |"; for (auto& x : p[i]) line += " " + x; }
        d.truth.lines.push_back(line);
    }
    static double hiPos(int i, const double* lo, const double* step, const size_t* cells) { return lo[i] + step[i] * cells[i]; }
    void domain(J& j, S& s) {
        J o = J::obj();
        bool t = chance(1, 2), f = chance(1, 2);
        double v[6]{}; bool lg = false; S tf;
        if (t) { static const char* const k[]{"initialTime", "finalTime", "samplingPeriod"}; for (int i = 0; i < 3; i++) { v[i] = amount(); o.add(k[i], number(v[i]), i > 0); } }
        if (f) {
            static const char* const k[]{"initialFrequency", "finalFrequency", "frequencyStep"};
            for (int i = 0; i < 3; i++) { v[3 + i] = amount(); o.add(k[i], number(v[3 + i]), i > 0); }
            lg = chance(1, 2); o.add("logFrequencySweep", J::yes(lg));
            if (chance(1, 3)) { tf = "transfer.txt"; o.add("transferFunctionFile", J::str(tf), false); }
        }
        j.add("domain", o);
        s += fmt(" domain %d%d%d%d", t, f, lg, !tf.empty());
        for (double x : v) s += " " + exact(x);
        s += " '" + tf + "'";
    }
    void sources() {
        J a = J::arr();
        for (int i = range(0, big ? 8 : 3); i > 0; i--) {
            J j = J::obj(); S s, e, m;
            switch (choose(5)) {
                case 0: {
                    j.label_("sourceType", "planewave"); m = magnitude(j); e = boxElem(3, j, "layerBox");
                    s = "PlaneWave" + e + m;
                    switch (choose(3)) {
                        case 0: {
                            auto c = pick(std::vector<std::vector<double>>{{0, 0, 1, 1, 0, 0}, {1, 0, 0, 0, 0.5, 2}, {1, 1, 0, -1, 1, 3}, {0.6, 0.8, 0, -0.8, 0.6, 0}, {1, 2, 3, 0.3, 0, -0.1}, {0.1, 0.2, 0.3, 0.3, 0, -0.1}, {1.1, 2.2, 3.3, 3, 0, -1}, {1.1, 2.2, 3.3, 3000, 0, -1000}});
                            j.label_("definitionMode", "by_vectors");
                            j.add("directionVector", J::str(braced({c[0], c[1], c[2]}), 3)); j.add("polarizationVector", J::str(braced({c[3], c[4], c[5]}), 3));
                            for (double x : c) s += " " + exact(x);
                            break;
                        }
                        case 1: {
                            bool odd = chance(1, 2); double th = odd ? 0.1 * choose(1801) : 15. * choose(13), ph = odd ? 0.1 * choose(3601) : 15. * choose(24), al = th + 90, be = ph;
                            if (chance(1, 3)) { al = 90; be = ph + 90; }
                            j.label_("definitionMode", "by_angles");
                            j.add("directionTheta", number(th)); j.add("directionPhi", number(ph)); j.add("polarizationAlpha", number(al)); j.add("polarizationBeta", number(be));
                            auto dir = [&](double t, double p) { t *= M_PI / 180; p *= M_PI / 180; for (double x : {std::sin(t) * std::cos(p), std::sin(t) * std::sin(p), std::cos(t)}) s += " " + nearAbs(x, 1e-12); };
                            dir(th, ph); dir(al, be);
                            break;
                        }
                        default: {
                            size_t k = 1 + choose(9); double v = amount();
                            j.label_("definitionMode", "randomized_multisource"); j.add("numberOfRandomPlanewaves", J::num(k)); j.add("relativeVariationOfRandomDelay", number(v));
                            s += fmt(" random %zu ", k) + exact(v);
                        }
                    }
                    break;
                }
                case 1: {
                    j.label_("sourceType", "generator"); m = magnitude(j); e = nodes(j, "coordIds", 3);
                    bool v = chance(1, 2); j.label_("type", v ? "voltage" : "current");
                    if (chance(1, 2)) j.add("hardness", J::str("soft"), false).fixedKind = false;
                    s = "Generator" + e + m + fmt(" %d", int(v ? Source::Generator::voltage : Source::Generator::current));
                    break;
                }
                case 2: {
                    j.label_("sourceType", "sourceOnLine"); m = magnitude(j);
                    if (!pickElems(j, "elemIds", {4}, 3, e)) continue;
                    bool el = chance(1, 2), so = chance(1, 2);
                    j.label_("type", el ? "electricField" : "magneticField"); j.label_("hardness", so ? "soft" : "hard");
                    s = "OnLine" + e + m + fmt(" %d %d", int(el ? Source::OnLine::electric : Source::OnLine::magnetic), int(so ? Source::OnLine::soft : Source::OnLine::hard));
                    break;
                }
                case 3: {
                    std::vector<size_t> which;
                    j.label_("sourceType", "waveguidePort"); m = magnitude(j);
                    if (!pickFlat(j, "elemIds", e, which)) continue;
                    bool te = chance(1, 2); size_t m1 = choose(3), m2 = m1 ? choose(3) : 1 + choose(2);
                    j.label_("shape", "Rectangular"); j.label_("excitationMode", te ? "TE" : "TM"); j.add("firstMode", J::num(m1)); j.add("secondMode", J::num(m2));
                    double lo[3], hi[3]; bool first = true;
                    for (size_t w : which) for (size_t c : elems[w].c) { for (int x = 0; x < 3; x++) { double v = axis[x][coords[c].q[x]] * scale; if (first || v < lo[x]) lo[x] = v; if (first || v > hi[x]) hi[x] = v; } first = false; }
                    s = "WaveguideRectangular" + e + m + fmt(" %d %zu %zu", int(te ? Source::Port::Waveguide::TE : Source::Port::Waveguide::TM), m1, m2);
                    for (int x = 0; x < 3; x++) s += " " + exact(lo[x]);
                    for (int x = 0; x < 2; x++) s += " " + nearAbs(hi[x] - lo[x], 1e-12 * scale);
                    break;
                }
                default: {
                    j.label_("sourceType", "temPort"); m = magnitude(j);
                    if (!pickElems(j, "elemIds", {2, 3}, 2, e)) continue;
                    bool v = chance(1, 2); j.label_("excitationMode", v ? "Voltage" : "Current");
                    double in = pick(std::vector<double>{0.1, 0.5, 1}), out = in * pick(std::vector<double>{2, 3.5}); auto o = vec3();
                    for (double& x : o) x = std::fmod(x, 100);
                    j.add("origin", J::str(braced(o), 3)); j.add("innerRadius", number(in)); j.add("outerRadius", number(out));
                    s = "TEMCoaxial" + e + m + fmt(" %d", int(v ? Source::Port::TEM::voltage : Source::Port::TEM::current));
                    // whether the scaling covers the origin and the radii is not settled
                    if (scale == 1) { for (double x : o) s += " " + exact(x); if (v) s += " weight " + nearAbs(0.6 / (0.5 * std::log(out / in)), 1e-6) + " " + nearAbs(0.8 / (0.5 * std::log(out / in)), 1e-6) + " " + nearAbs(0, 1e-6); }
                    else s += " ...";
                    if (scale == 1 && !v) s += " ...";
                }
            }
            a.push(j);
            d.truth.lines.push_back("source " + s);
        }
        d.root.add("sources", a);
    }
    void requests() {
        J a = J::arr();
        for (int i = range(0, big ? 8 : 3); i > 0; i--) {
            J j = J::obj(); S s, e, nm = name(), extra;
            using O = OutputRequest::Base;
            bool bulk = chance(1, 4);
            static const char* const label[]{"electricField", "magneticField", "electricFieldNormals", "magneticFieldNormals", "current", "surfaceCurrentDensity"};
            static const int code[]{O::electric, O::magnetic, O::electricFieldNormals, O::magneticFieldNormals, O::current, O::surfaceCurrentDensity};
            int t = int(choose(6)), type = code[t]; S lab = label[t];
            if (bulk) { bool el = chance(1, 2); lab = el ? "bulkCurrentElectric" : "bulkCurrentMagnetic"; type = el ? O::bulkCurrentElectric : O::bulkCurrentMagnetic; }
            S cls = bulk ? "BulkCurrent" : "OutRq";
            switch (choose(5)) {
                case 0: j.label_("gidOutputType", "OutRq_on_point").label = !bulk; e = nodes(j, "elemIds", 3); break;
                case 1: j.label_("gidOutputType", "OutRq_on_line").label = !bulk; if (!pickElems(j, "elemIds", {4}, 3, e, bulk)) continue; break;
                case 2: j.label_("gidOutputType", "OutRq_on_surface").label = !bulk; if (!pickElems(j, "elemIds", {2, 3}, 3, e, bulk)) continue; break;
                case 3: j.label_("gidOutputType", "OutRq_on_layer").label = !bulk; e = boxElem(int(choose(4)), j, "box"); break;
                default: {
                    if (bulk) { j.label_("gidOutputType", chance(1, 2) ? "Bulk_current_on_surface" : "OutRq_on_surface").label = false; if (!pickElems(j, "elemIds", {}, 3, e, true)) continue; break; }
                    cls = "FarField"; type = O::electricFarField; lab = "farField";
                    j.label_("gidOutputType", "Far_field"); e = boxElem(3, j, "box");
                    static const char* const k[]{"initialTheta", "finalTheta", "stepTheta", "initialPhi", "finalPhi", "stepPhi"};
                    double v[6]; for (int q = 0; q < 6; q++) { v[q] = q % 3 == 2 ? 0.5 + choose(10) : 15. * choose(13); j.add(k[q], number(v[q])); extra += " " + near(v[q] * M_PI / 180); }
                }
            }
            j.add("name", J::str(nm)); j.label_("type", chance(1, 6) ? " " + lab : lab);
            if (bulk) { int dir = int(choose(3)); size_t sk = choose(5); j.label_("direction", S(1, "xyz"[dir])); j.add("skip", J::num(sk)); extra = fmt(" dir %d skip %zu", dir, sk); }
            s = cls + " '" + nm + fmt("' type %d", type) + e;
            domain(j, s);
            d.truth.lines.push_back("request " + s + extra);
            a.push(j);
        }
        d.root.add("outputRequests", a);
    }
    void mesh() {
        IdPool cp, ep, lp;
        for (int i = 0; i < 3; i++) {
            n[i] = range(2, 5); double x = pick(std::vector<double>{0, -1.5, -0.0, 1. / 3, 100});
            for (int k = 0; k < n[i]; k++) { axis[i][k] = x; x += pick(std::vector<double>{1, 0.1, 0.25, 2. / 3, 3}); if (std::abs(x) < 1e-9) x = 0.5; }
        }
        grid();
        J la = J::arr();
        for (int i = range(0, 4); i > 0; i--) {
            J l = J::obj(); size_t id = lp.next(); S nm = name(), kept = nm; for (char& c : kept) if (c == ' ') c = '_';
            l.add("id", J::num(id)); l.add("name", J::str(nm)); la.push(l); layers.push_back(id);
            d.truth.lines.push_back(fmt("layer %zu '", id) + kept + "'");
        }
        d.root.add("layers", la);
        J ca = J::arr();
        std::vector<std::array<int, 3>> all;
        for (int x = 0; x < n[0]; x++) for (int y = 0; y < n[1]; y++) for (int z = 0; z < n[2]; z++) all.push_back({x, y, z});
        Rng r(seedChoice());
        for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below(uint32_t(i))]);
        size_t count = std::min<size_t>(all.size(), 8 + choose(big ? 120 : 12));
        for (size_t i = 0; i < count; i++) {
            size_t id = cp.next(); C c{id, {all[i][0], all[i][1], all[i][2]}};
            S t = fmt("%*zu", int(choose(8)), id);
            for (int k = 0; k < 3; k++) t += (chance(1, 3) ? "  " : " ") + numeral(axis[k][c.q[k]], false);
            ca.push(J::str(t, 4)); coords.push_back(c); lattice[all[i]] = id; d.coordIds.insert(id);
            d.truth.lines.push_back(fmt("coordinate %zu", id) + pos(c.q));
        }
        d.root.add("coordinates", ca);
        J ea = J::obj();
        static const char* const key[]{"hexahedra", "tetrahedra", "quadrilateral", "triangle", "line"};
        static const char* const cls[]{"Hexahedron8<double>", "Tetrahedron4", "Quadrilateral4<double>", "Triangle3", "Line2<double>"};
        static const int size[]{8, 4, 4, 3, 2};
        for (int k = 0; k < 5; k++) {
            J a = J::arr();
            for (int i = int(choose(big ? 20 : 4)); i > 0; i--) {
                E e; e.id = ep.next(); e.kind = k; e.mat = 0;
                std::set<size_t> used;
                if ((k == 2 || k == 3) && chance(2, 3)) {     // flat ones, for ports
                    int z = int(choose(n[2])); std::vector<size_t> level;
                    for (size_t c = 0; c < coords.size(); c++) if (coords[c].q[2] == z) level.push_back(c);
                    if (int(level.size()) >= size[k]) while (int(e.c.size()) < size[k]) { size_t c = choose(level.size()); while (used.count(level[c])) c = (c + 1) % level.size(); used.insert(level[c]); e.c.push_back(level[c]); }
                }
                while (int(e.c.size()) < size[k]) { size_t c = choose(coords.size()); while (used.count(c)) c = (c + 1) % coords.size(); used.insert(c); e.c.push_back(c); }
                if (k == 1) {                                  // flat ones are refused
                    double v[3][3];
                    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) v[a][b] = axis[b][coords[e.c[a + 1]].q[b]] - axis[b][coords[e.c[0]].q[b]];
                    if (std::abs(v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0])) < 1e-5) continue;
                }
                size_t m = d.matIds.empty() || chance(1, 5) ? 0 : *std::next(d.matIds.begin(), choose(d.matIds.size())), l = layers.empty() || chance(1, 5) ? 0 : pick(layers);
                e.mat = m;
                S sep = chance(1, 4) ? "\t" : " ";
                S t = fmt("%zu", e.id) + sep + fmt("%zu", m) + sep + fmt("%zu", l), s = S(cls[k]) + fmt(" %zu", e.id) + (l ? fmt(" layer L%zu", l) : " layer none") + (m ? fmt(" material M%zu", m) : " material none") + " :";
                for (size_t c : e.c) { t += sep + fmt("%zu", coords[c].id); s += fmt(" C%zu", coords[c].id); }
                J x = J::str(t, 3 + size[k]); x.ref = 1;       // tokens from the second on are ids
                a.push(x); elems.push_back(e); d.elemIds.insert(e.id);
                d.truth.lines.push_back("element " + s);
            }
            ea.add(key[k], a);
        }
        d.root.add("elements", ea);
        // materials nobody refers to, or their ids, may be left out
        if (J* m = d.root.at("materials")) {
            for (auto& x : m->kids) {
                J* id = x.second.at("materialId"); bool used = false;
                for (auto& e : elems) used |= e.mat && id->s == fmt("%zu", e.mat);
                if (used) id->required = m->required = true;
            }
        }
        J co = J::arr();
        for (int i = chance(1, 2) ? 0 : range(1, 3); i > 0; i--) {
            J j = J::obj(); bool named = !chance(1, 6); S nm = named ? name() : "";
            size_t id = coords[choose(coords.size())].id;
            S s = material(j, chance(2, 3), "-", nm, false);
            if (needsName(s)) { j.add("materialId", J::num(1 + choose(9))); named = true; }
            if (named) j.add("name", J::str(nm), needsName(s));
            j.add("coordIds", J::num(id)).as(0);
            d.truth.lines.push_back("connector " + s);
            d.truth.loose.push_back(fmt("Node<double> - layer none material <") + s + fmt("> : C%zu", id));
            co.push(j);
        }
        // connectors come after the materials of the document
        d.root.add("connectorOnPoint", co);
    }
    void make() {
        d.root.label_("_version", "0.14");
        if (chance(1, 2)) d.root.add("_format", J::str("Semba Data File in JSON format"), false).fixedKind = false;
        if (chance(1, 8)) d.root.add("comment", J::arr(), false).fixedKind = false;
        solver();
        materials();
        d.hasMesh = !chance(1, 12);
        if (J* o = d.root.at("solverOptions")) o->at("geometryScalingFactor")->required = d.hasMesh;
        if (!d.hasMesh) { d.truth.lines.push_back("no mesh"); return; }
        mesh(); sources(); requests();
    }
};

inline void store(const Doc& d) { for (auto& f : d.files) fs().put(fs().absolute(f.first), f.second); }
inline Doc generate(bool big = false) { Doc d; Maker(d, big).make(); store(d); return d; }

// ---- a model that was read, in the same words
struct Shown { std::vector<std::string> lines, loose; std::string problem; };
inline void settings(const Argument::Object& o, const std::string& path, std::vector<std::string>& out) {
    for (size_t i = 0; i < o.size(); i++) {
        if (o(i).isObject()) { out.push_back("setting " + path + o.getName(i) + "/ = {}"); settings(o(i), path + o.getName(i) + "/", out); }
        else out.push_back("setting " + path + o.getName(i) + " = " + o(i).getString());
    }
}
inline Shown show(const Data& data, const Doc& doc) {
    Shown r;
    Describer x; x.checkModels = false;
    auto& L = r.lines;
    if (data.solver) {
        L.push_back("solver " + data.solver->getName());
        std::vector<std::string> s; settings(data.solver->getSettings(), "", s);
        std::sort(s.begin(), s.end(), [](const std::string& a, const std::string& b) { return a.substr(0, a.find(" = ")) < b.substr(0, b.find(" = ")); });
        L.insert(L.end(), s.begin(), s.end());
    } else L.push_back("no solver");
    std::vector<std::string> connectors;
    if (!data.physicalModels) { r.problem = "no materials"; return r; }
    for (size_t i = 0; i < data.physicalModels->size(); i++) {
        auto* m = (*data.physicalModels)(i);
        std::string s = describe(*m);
        if (m->is<PhysicalModel::Volume::AnisotropicFerrite>()) { s += " imaginary"; auto M = m->castTo<PhysicalModel::Volume::AnisotropicFerrite>()->getRelPermeabilityMatI(); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) s += " " + num(M(a, b)); }
        if (doc.matIds.count(m->getId().toInt())) { L.push_back("material " + s); x.where[static_cast<const Geometry::Element::Model*>(m)] = "M" + m->getId().toStr(); }
        else {
            size_t a = s.find(' '), b = s.find(' ', a + 1);
            s = s.substr(0, a) + " -" + s.substr(b);
            connectors.push_back("connector " + s);
            x.where[static_cast<const Geometry::Element::Model*>(m)] = "<" + s + ">";
        }
    }
    if (!data.mesh) {
        L.push_back("no mesh");
        if (!data.sources || data.sources->size()) r.problem = "sources without a mesh";
        if (!data.outputRequests || data.outputRequests->size()) r.problem = "requests without a mesh";
        return r;
    }
    if (!data.mesh->is<Geometry::Mesh::Geometric>()) { r.problem = "the mesh is of another kind"; return r; }
    auto& m = *data.mesh->castTo<Geometry::Mesh::Geometric>();
    { std::string g = describeGrid(m.grid()); g.pop_back(); L.push_back(g); }
    for (size_t i = 0; i < m.layers().size(); i++) { auto* l = m.layers()(i); x.where[l] = "L" + l->getId().toStr(); L.push_back("layer " + l->getId().toStr() + " '" + l->getName() + "'"); }
    std::set<std::string> made, used;
    for (size_t i = 0; i < m.coords().size(); i++) {
        auto* c = m.coords()(i);
        bool known = doc.coordIds.count(c->getId().toInt());
        std::string p = num((*c)(0)) + " " + num((*c)(1)) + " " + num((*c)(2));
        x.where[c] = known ? "C" + c->getId().toStr() : "(" + p + ")";
        if (known) L.push_back("coordinate " + c->getId().toStr() + " " + p);
        else if (!made.insert(p).second) r.problem = "two coordinates were made at " + p;
    }
    std::map<const void*, std::string> looseText;
    for (size_t i = 0; i < m.elems().size(); i++) {
        auto* e = m.elems()(i);
        bool known = doc.elemIds.count(e->getId().toInt());
        std::string s = typeOf(typeid(*e)) + " " + (known ? e->getId().toStr() : "-") + " layer " + x.ref(e->getLayer(), "layer") + " material " + x.ref(e->getModel(), "material") + " :";
        for (size_t k = 0; k < e->numberOfCoordinates(); k++) { s += " " + x.ref(e->getV(k), "coordinate"); if (x.ref(e->getV(k), "coordinate")[0] == '(') { auto q = *e->getV(k); used.insert(num(q(0)) + " " + num(q(1)) + " " + num(q(2))); } }
        const void* p = static_cast<const void*>(static_cast<const Geometry::Elem*>(e));
        if (known) { L.push_back("element " + s); x.where[p] = "E" + e->getId().toStr(); }
        else { r.loose.push_back(s); x.where[p] = "[" + s + "]"; }
    }
    for (auto& q : made) if (!used.count(q)) r.problem = "a coordinate nobody uses was made at " + q;
    L.insert(L.end(), connectors.begin(), connectors.end());
    if (!data.sources || !data.outputRequests) { r.problem = "no sources or requests"; return r; }
    auto group = [&](const Geometry::Element::Group<const Geometry::Elem>& g) { std::string s; for (size_t i = 0; i < g.size(); i++) s += " " + x.ref(static_cast<const void*>(g(i)), "element"); return s; };
    for (size_t i = 0; i < data.sources->size(); i++) {
        const Source::Base& b = *(*data.sources)(i);
        std::string t = typeOf(typeid(b)); size_t k = t.rfind(':'); if (k != std::string::npos) t = t.substr(k + 1);
        std::string s = "source " + t + group(b.elems()) + " " + describe(b.getMagnitude());
        if (b.is<Source::PlaneWave>()) { auto& c = *b.castTo<Source::PlaneWave>(); s += c.isRandomic() ? fmt(" random %d ", int(c.getNumberOfRandomPlanewaves())) + num(c.getRelativeVariationOfRandomDelay()) : " " + vec(c.getDirection()) + " " + vec(c.getPolarization()); }
        if (b.is<Source::Generator>()) s += fmt(" %d", int(b.castTo<Source::Generator>()->getType()));
        if (b.is<Source::OnLine>()) s += fmt(" %d %d", int(b.castTo<Source::OnLine>()->getType()), int(b.castTo<Source::OnLine>()->getHardness()));
        if (b.is<Source::Port::WaveguideRectangular>()) { auto& c = *b.castTo<Source::Port::WaveguideRectangular>(); s += fmt(" %d %zu %zu ", int(c.getExcitationMode()), c.getMode().first, c.getMode().second) + vec(c.getOrigin()) + " " + num(c.getWidth()) + " " + num(c.getHeight()); }
        if (b.is<Source::Port::TEMCoaxial>()) { auto& c = *b.castTo<Source::Port::TEMCoaxial>(); s += fmt(" %d ", int(c.getExcitationMode())) + vec(c.getOrigin()) + " weight " + vec(c.getWeight(c.getOrigin() + Math::CVecR3(0.3, 0.4, 0.))); }
        L.push_back(s);
    }
    for (size_t i = 0; i < data.outputRequests->size(); i++) {
        const OutputRequest::Base& b = *(*data.outputRequests)(i);
        auto& o = b.domain();
        std::string t = b.is<OutputRequest::BulkCurrent>() ? "BulkCurrent" : b.is<OutputRequest::FarField>() ? "FarField" : "OutRq";
        std::string s = "request " + t + " '" + b.getName() + fmt("' type %d", int(b.getType())) + group(b.elems());
        s += fmt(" domain %d%d%d%d ", o.isTimeDomain(), o.isFrequencyDomain(), o.isLogFrequencySweep(), o.isUsingTransferFunction()) + num(o.getInitialTime()) + " " + num(o.getFinalTime()) + " " + num(o.getSamplingPeriod()) + " " + num(o.getInitialFrequency()) + " " + num(o.getFinalFrequency()) + " " + num(o.getFrequencyStep()) + " '" + o.getTransferFunctionFile() + "'";
        if (b.is<OutputRequest::BulkCurrent>()) s += fmt(" dir %d skip %zu", int(b.castTo<OutputRequest::BulkCurrent>()->getDir()), size_t(b.castTo<OutputRequest::BulkCurrent>()->getSkip()));
        if (b.is<OutputRequest::FarField>()) { auto& c = *b.castTo<OutputRequest::FarField>(); s += " " + num(c.getInitialTheta()) + " " + num(c.getFinalTheta()) + " " + num(c.getStepTheta()) + " " + num(c.getInitialPhi()) + " " + num(c.getFinalPhi()) + " " + num(c.getStepPhi()); }
        L.push_back(s);
    }
    if (!x.foreign.empty()) r.problem = "a reference to a " + x.foreign + " leads out of the model";
    return r;
}
// ---- comparison
inline std::vector<std::string> words(const std::string& s) {
    std::vector<std::string> w; std::string t;
    for (char c : s) if (c == ' ' || c == ',' || c == '(' || c == ')' || c == '[' || c == ']' || c == '<' || c == '>') { if (!t.empty()) w.push_back(t); t.clear(); if (c != ' ' && c != ',') w.push_back(std::string(1, c)); } else t += c;
    if (!t.empty()) w.push_back(t);
    return w;
}
inline bool number(const std::string& s, double& v) { if (s.empty()) return false; char* e; v = strtod(s.c_str(), &e); return !*e; }
inline bool matches(const std::string& want, const std::string& got, std::string* where = nullptr) {
    if (want == got) return true;
    auto w = words(want), g = words(got);
    size_t k = 0;
    for (size_t i = 0; i < w.size(); i++) {
        if (w[i] == "...") return true;
        double a, b, tol;
        if (w[i].compare(0, 7, "graded:") == 0) {
            // growing cells on one side: monotonous, from the step at the border to about the size asked for, covering about the padding
            int side; double border, step, size, pad;
            if (sscanf(w[i].c_str(), "graded:%d:%lf:%lf:%lf:%lf", &side, &border, &step, &size, &pad) != 5) return false;
            std::vector<double> p{border}; size_t from = k;
            while (k < g.size() && number(g[k], b) && (side ? b > border + 1e-6 * step : b < border - 1e-6 * step)) { p.push_back(b); k++; }
            if (!side) { p.push_back(p[0]); p.erase(p.begin()); std::reverse(p.begin(), p.end()); }
            if (p.size() < 2) return false;
            if (where) { *where = "for '" + w[i] + "' the cells"; for (size_t q = from; q < k; q++) *where += " " + g[q]; }
            double last = step;
            for (size_t q = 1; q < p.size(); q++) { double s = std::abs(p[q] - p[q - 1]); if (s < step * (1 - 1e-6) || s > size * 1.25 || (s < last && q + 1 < p.size())) return false; last = s; }
            double total = std::abs(p.back() - border);
            if (std::abs(last - size) > 1e-6 * size || total < pad * 0.5 || total > pad + size) return false;
            continue;
        }
        if (k >= g.size()) { if (where) *where = "nothing for '" + w[i] + "'"; return false; }
        if (where) *where = "'" + g[k] + "' for '" + w[i] + "'";
        if (w[i][0] == '~') { if (sscanf(w[i].c_str(), "~%lf:%lf", &a, &tol) != 2 || !number(g[k], b) || !(std::abs(a - b) <= tol || a == b)) return false; }
        else if (w[i][0] == '#') { if (!number(w[i].substr(1), a) || !number(g[k], b) || a != b) return false; }
        else if (w[i] != g[k] && !(number(w[i], a) && number(g[k], b) && a == b)) return false;
        k++;
    }
    if (k < g.size() && where) *where = "too much: '" + g[k] + "'";
    return k == g.size();
}
// what differs, or nothing
inline std::string mismatch(const Doc& doc, const Shown& got) {
    if (!got.problem.empty()) return got.problem;
    // connectors are shown after the materials, elements and coordinates of the document
    std::vector<std::string> want; std::vector<std::string> order{"no solver", "solver ", "setting ", "material ", "no mesh", "grid", "layer ", "coordinate ", "element ", "connector ", "source ", "request "};
    for (auto& o : order) for (auto& l : doc.truth.lines) if (l.compare(0, o.size(), o) == 0) want.push_back(l);
    for (size_t i = 0; i < std::max(want.size(), got.lines.size()); i++) {
        if (i >= want.size()) return "unexpected '" + got.lines[i] + "'";
        if (i >= got.lines.size()) return "missing '" + want[i] + "'";
        std::string where;
        if (!matches(want[i], got.lines[i], &where)) return where + ": instead of '" + want[i] + "' there is '" + got.lines[i] + "'";
    }
    std::vector<bool> used(got.loose.size());
    for (auto& w : doc.truth.loose) {
        bool found = false;
        for (size_t k = 0; k < used.size() && !found; k++) if (!used[k] && matches(w, got.loose[k])) used[k] = found = true;
        if (!found) return "missing element '" + w + "'";
    }
    for (size_t k = 0; k < used.size(); k++) if (!used[k]) return "unexpected element '" + got.loose[k] + "'";
    return "";
}
inline std::unique_ptr<Data> read(SimBuf& buf, Outcome& o, const char* what = "read", const std::function<void()>& arm = nullptr) {
    std::unique_ptr<Data> d; std::unique_ptr<std::istream> in(new std::istream(&buf));
    { SutScope s; d.reset(new Data); }
    if (arm) arm();
    o = call(what, [&] { Parser::JSON::Parser p; Data x = p.read(*in); std::swap(d->solver, x.solver); std::swap(d->mesh, x.mesh); std::swap(d->physicalModels, x.physicalModels); std::swap(d->sources, x.sources); std::swap(d->outputRequests, x.outputRequests); });
    takeOutput(); takeErrors();
    return d;
}
} // namespace project
