// Neighbour questions about generated meshes, under several heap layouts, with copies and failing allocations, against a table of shared nodes.
#include "sim/sim.h"
#include "sim/fs.h"
#include "geometry/graph/Connectivities.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Node.h"
#include <algorithm>
#include <array>
#include <memory>
using namespace SEMBA;
using namespace Geometry;
using namespace sim;
const char* const sim::kProperty = "C13";

namespace {
typedef std::vector<int> Nodes;
enum Kind { kTet4, kTet10, kHex8, kTri3, kTri6, kQuad4, kLine, kNode };
struct El { Kind kind; Nodes corners, nodes; size_t id; };      // corners in the order that makes the normal
struct Mesh {
    std::vector<Math::CVecR3> pos; std::vector<size_t> cid;
    std::vector<El> els;
};
bool isVol(Kind k) { return k <= kHex8; }
bool isSurf(Kind k) { return k >= kTri3 && k <= kQuad4; }
Nodes sorted(Nodes n) { std::sort(n.begin(), n.end()); return n; }

struct Builder {
    Mesh& m; std::map<std::pair<int, int>, int> mid;
    int middle(int a, int b) {
        if (a > b) std::swap(a, b);
        auto it = mid.find({a, b});
        if (it != mid.end()) return it->second;
        m.pos.push_back((m.pos[a] + m.pos[b]) * 0.5);
        return mid[{a, b}] = int(m.pos.size()) - 1;
    }
    // node indices of one second order simplex, from the corners its numbering assigns to every node
    template <class S, int NP, int NV> Nodes second(const S& s, const Nodes& c) {
        Nodes out;
        for (int i = 0; i < NP; i++) {
            std::vector<int> on;
            for (int v = 0; v < NV; v++) for (size_t k = 0; k < s.nodeIndex(i, v); k++) on.push_back(c[v]);
            out.push_back(on[0] == on[1] ? on[0] : middle(on[0], on[1]));
        }
        return out;
    }
};
const int hexFace[6][4] = {{0, 1, 2, 3}, {0, 3, 7, 4}, {0, 4, 5, 1}, {1, 5, 6, 2}, {2, 6, 7, 3}, {4, 7, 6, 5}};
const int tetFace[4][3] = {{0, 1, 2}, {1, 0, 3}, {2, 3, 0}, {3, 2, 1}};
int faces(const El& e) { return e.kind == kHex8 ? 6 : 4; }
Nodes faceCorners(const El& e, int f) {
    Nodes n;
    if (e.kind == kHex8) for (int i : hexFace[f]) n.push_back(e.corners[i]);
    else for (int i : tetFace[f]) n.push_back(e.corners[i]);
    return n;
}
Nodes faceNodes(Builder& b, const El& e, int f) {
    Nodes c = faceCorners(e, f), n = c;
    if (e.kind == kTet10) for (int i = 0; i < 3; i++) n.push_back(b.middle(c[i], c[(i + 1) % 3]));
    return sorted(n);
}
bool sameTurn(const Nodes& a, Nodes b) {        // same cyclic order
    for (size_t i = 0; i < b.size(); i++) { if (a == b) return true; std::rotate(b.begin(), b.begin() + 1, b.end()); }
    return false;
}

struct Real {       // the mesh as objects of the system
    Coordinate::Group<CoordR3> cg;
    std::vector<const CoordR3*> c;
    Geometry::Element::Group<ElemR> eg;
    std::map<size_t, const ElemR*> byId;
};
ElemR* make(const Mesh& m, const El& e, const std::vector<const CoordR3*>& c) {
    const CoordR3* v[10];
    for (size_t i = 0; i < e.nodes.size(); i++) v[i] = c[e.nodes[i]];
    ElemId id(e.id);
    switch (e.kind) {
        case kTet4: return new Tet4(id, v, nullptr, nullptr);
        case kTet10: return new Tet10(id, v, nullptr, nullptr);
        case kHex8: return new HexR8(id, v, nullptr, nullptr);
        case kTri3: return new Tri3(id, v, nullptr, nullptr);
        case kTri6: return new Tri6(id, v, nullptr, nullptr);
        case kQuad4: return new QuaR4(id, v, nullptr, nullptr);
        case kLine: return new LinR2(id, v, nullptr, nullptr);
        default: return new NodR(id, v, nullptr, nullptr);
    }
}
std::unique_ptr<Real> realize(const Mesh& m) {
    std::unique_ptr<Real> r;
    Outcome o = call("build", [&] {
        r.reset(new Real);
        for (size_t i = 0; i < m.pos.size(); i++) { auto* p = new CoordR3(CoordId(m.cid[i]), m.pos[i]); r->cg.add(p); r->c.push_back(p); }
        for (auto& e : m.els) { ElemR* p = make(m, e, r->c); r->eg.add(p); r->byId[e.id] = p; }
    });
    check(!o.threw, "harness", "the mesh could not be built: " + o.str());
    return r;
}

typedef std::pair<size_t, int> F;               // element id and face; id 0 is none
std::string str(F f) { return f.first ? fmt("%zu/%d", f.first, f.second) : std::string("none"); }
F of(const Geometry::Graph::Face& f) { return f.first ? F(f.first->getId().toInt(), int(f.second)) : F(0, 0); }

struct Truth {
    std::map<Nodes, std::vector<F>> vols;
    std::map<Nodes, std::vector<size_t>> surfs;
    std::map<F, Nodes> face;
    std::map<F, Nodes> corners;
};
struct Answers { std::string text; };

Answers ask(const Geometry::Graph::Connectivities& c, const Mesh& m, const Truth& t, Real& r, const char* who) {
    Answers a;
    std::map<F, F> neigh;
    auto say = [&](const std::string& s) { a.text += s + "\n"; };
    // answers are collected first, in a seeded order, then judged
    std::vector<F> faces_;
    for (auto& x : t.face) faces_.push_back(x.first);
    Outcome o;
    std::map<F, size_t> surfOf; std::map<F, bool> edge;
    std::map<size_t, F> in, out; std::map<size_t, bool> sEdge;
    size_t n = 0; bool rec = false, nullEdge = false;
    o = call("ask", [&] {
        for (auto& f : faces_) {
            Geometry::Graph::Face x(r.byId[f.first]->castTo<VolR>(), f.second);
            neigh[f] = of(c.getNeighFace(x));
            const SurfR* s = c.getNeighSurf(x);
            surfOf[f] = s ? s->getId().toInt() : 0;
            edge[f] = c.isDomainBoundary(x);
        }
        for (auto& e : m.els) if (isSurf(e.kind)) {
            const SurfR* s = r.byId[e.id]->castTo<SurfR>();
            in[e.id] = of(c.getInnerFace(s));
            out[e.id] = of(c.getOuterFace(s));
            sEdge[e.id] = c.isDomainBoundary(s);
        }
        n = c.size(); rec = c.existsReciprocity();
        nullEdge = c.isDomainBoundary(Geometry::Graph::Face(nullptr, 0));
    });
    check(!o.threw, "question-threw", fmt("%s: %s", who, o.str().c_str()));
    check(n == m.els.size(), "size", fmt("%s: size %zu for %zu elements", who, n, m.els.size()));
    check(nullEdge, "boundary", fmt("%s: no face is not a boundary", who));
    bool expectRec = true;
    for (auto& f : faces_) {
        const auto& all = t.vols.at(t.face.at(f));
        F g = neigh[f];
        bool any = false; size_t others = 0;
        for (auto& x : all) if (x.first != f.first) { others++; any = any || x == g; }
        if (!others) check(!g.first, "neighbour", fmt("%s: face %s has no neighbour, but %s was told", who, str(f).c_str(), str(g).c_str()));
        else check(any, "neighbour", fmt("%s: face %s has %zu neighbours, but %s was told", who, str(f).c_str(), others, str(g).c_str()));
        check(edge[f] == !others, "boundary", fmt("%s: face %s has %zu neighbours, but boundary is %d", who, str(f).c_str(), others, int(edge[f])));
        if (g.first) expectRec = expectRec && neigh[g] == f;
        auto s = t.surfs.find(t.face.at(f));
        if (s == t.surfs.end()) check(!surfOf[f], "surface", fmt("%s: face %s has no surface, but %zu was told", who, str(f).c_str(), surfOf[f]));
        else check(std::count(s->second.begin(), s->second.end(), surfOf[f]), "surface", fmt("%s: face %s has surfaces, but %zu was told", who, str(f).c_str(), surfOf[f]));
        say(str(f) + " " + str(g) + fmt(" %zu", surfOf[f]));
    }
    for (auto& e : m.els) if (isSurf(e.kind)) {
        F i = in[e.id], x = out[e.id];
        auto it = t.vols.find(sorted(e.nodes));
        std::vector<F> all; if (it != t.vols.end()) all = it->second;
        std::string what = fmt("%s: surface %zu with %zu volumes has inner %s and outer %s", who, e.id, all.size(), str(i).c_str(), str(x).c_str());
        if (all.empty()) check(!i.first && !x.first, "sides", what);
        else if (all.size() == 1) check(i == all[0] && !x.first, "sides", what);
        else {
            check(i != x && std::count(all.begin(), all.end(), i) && std::count(all.begin(), all.end(), x), "sides", what);
            if (all.size() == 2) {
                bool a0 = sameTurn(e.corners, t.corners.at(all[0])), a1 = sameTurn(e.corners, t.corners.at(all[1]));
                if (a0 != a1) { probe("side told by the normal"); check(i == (a0 ? all[0] : all[1]), "normal", what); }
            }
        }
        check(sEdge[e.id] == (all.size() < 2), "boundary", what + fmt(" and boundary %d", int(sEdge[e.id])));
        say(fmt("surface %zu ", e.id) + str(i) + " " + str(x));
    }
    check(rec == expectRec, "reciprocity", fmt("%s: reciprocity told %d", who, int(rec)));
    say(fmt("reciprocity %d", int(rec)));
    return a;
}

// the graph of elements and vertices: neighbours, components
std::string graphText(const Mesh& m, Real& r, const char* who) {
    std::vector<std::vector<size_t>> comps, again, neigh, ofNode;
    std::vector<size_t> order, nodeIds;
    Outcome o = call("graph", [&] {
        Geometry::Graph::Vertices<ElemR, CoordR3> g;
        g.init(r.eg);
        for (int k = 0; k < 2; k++) {
            auto& to = k ? again : comps;
            for (auto& comp : g.getConnectedComponents()) { to.emplace_back(); for (auto* e : comp) to.back().push_back(e->getId().toInt()); }
        }
        for (size_t i = 0; i < g.numElems(); i++) {
            order.push_back(g.elem(i)->elem()->getId().toInt());
            neigh.emplace_back();
            for (size_t j = 0; j < g.elem(i)->numNeighbors(); j++) neigh.back().push_back(g.elem(i)->getNeighbor(j)->elem()->getId().toInt());
        }
        for (size_t i = 0; i < g.numBounds(); i++) {
            nodeIds.push_back(g.bound(i)->elem()->getId().toInt());
            ofNode.emplace_back();
            for (size_t j = 0; j < g.bound(i)->numBounds(); j++) ofNode.back().push_back(g.bound(i)->getBound(j)->elem()->getId().toInt());
        }
    });
    check(!o.threw, "question-threw", fmt("%s: %s", who, o.str().c_str()));
    check(comps == again, "components", fmt("%s: asking for the components twice gives different answers", who));
    check(order.size() == m.els.size(), "size", fmt("%s: %zu elements in the graph", who, order.size()));
    std::map<int, std::vector<size_t>> at;
    for (auto& e : m.els) for (int n : e.nodes) at[n].push_back(e.id);
    check(nodeIds.size() == at.size(), "size", fmt("%s: %zu nodes in the graph instead of %zu", who, nodeIds.size(), at.size()));
    std::map<size_t, int> nodeOf; for (size_t i = 0; i < m.cid.size(); i++) nodeOf[m.cid[i]] = int(i);
    for (size_t i = 0; i < nodeIds.size(); i++) {
        auto a = at[nodeOf[nodeIds[i]]], b = ofNode[i];
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        check(a == b, "graph", fmt("%s: elements at node %zu are not those of the mesh", who, nodeIds[i]));
    }
    std::map<size_t, std::set<size_t>> want;
    for (auto& e : m.els) for (int n : e.nodes) for (size_t x : at[n]) if (x != e.id) want[e.id].insert(x);
    for (size_t i = 0; i < order.size(); i++) {
        std::set<size_t> s(neigh[i].begin(), neigh[i].end());
        check(s == want[order[i]] && s.size() == neigh[i].size(), "graph", fmt("%s: neighbours of element %zu are not those of the mesh", who, order[i]));
    }
    // components: a partition, connected inside, with nothing between two of them
    std::map<size_t, size_t> comp;
    for (size_t k = 0; k < comps.size(); k++) for (size_t e : comps[k]) { check(!comp.count(e), "components", fmt("%s: element %zu is in two components", who, e)); comp[e] = k; }
    check(comp.size() == m.els.size(), "components", fmt("%s: %zu elements in components", who, comp.size()));
    for (auto& w : want) for (size_t x : w.second) check(comp[w.first] == comp[x], "components", fmt("%s: neighbours %zu and %zu are in different components", who, w.first, x));
    for (auto& c : comps) {
        std::set<size_t> seen{c[0]}; std::vector<size_t> todo{c[0]};
        while (!todo.empty()) { size_t e = todo.back(); todo.pop_back(); for (size_t x : want[e]) if (seen.insert(x).second) todo.push_back(x); }
        check(seen.size() == c.size(), "components", fmt("%s: a component is not connected", who));
    }
    std::string s;
    for (auto& c : comps) { for (size_t e : c) s += fmt("%zu ", e); s += "| "; }
    s += "\n";
    for (size_t i = 0; i < order.size(); i++) { s += fmt("%zu:", order[i]); for (size_t e : neigh[i]) s += fmt(" %zu", e); s += "\n"; }
    return s;
}

void generate(Mesh& m) {
    int nx = chance(1, 2) ? 1 : range(2, 3), ny = chance(1, 4) ? 2 : 1, nz = chance(1, 8) ? 2 : 1;
    int cell = int(choose(3));                  // tets, hexes, both
    bool thin = chance(1, 4), moved = chance(1, 3);
    double jitter = cell != 0 && thin ? 0 : pick(std::vector<double>{0, 0.05, 0.15});
    double scale = pick(std::vector<double>{1, 1e-3, 100});
    Rng rng(seedChoice());
    auto noise = [&] { return jitter * (double(rng.below(2001)) / 1000 - 1); };
    auto at = [&](int i, int j, int k) { return i + (nx + 1) * (j + (ny + 1) * k); };
    for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
        Math::CVecR3 p(i + noise(), j + noise(), (k + noise()) * (thin ? 3e-3 : 1));
        if (moved) p += Math::CVecR3(313.7, -91.3, 17.9);
        m.pos.push_back(p * scale);
    }
    Builder b{m, {}};
    bool quadratic = cell != 1 && chance(1, 3), mixedTurn = chance(1, 3), leftHanded = chance(1, 3);
    static const Math::Simplex::Tetrahedron<2> tet2;
    static const Math::Simplex::Triangle<2> tri2;
    static const int kuhn[6][4] = {{0, 1, 2, 6}, {0, 2, 3, 6}, {0, 3, 7, 6}, {0, 7, 4, 6}, {0, 4, 5, 6}, {0, 5, 1, 6}};
    auto addTet = [&](Nodes c, bool second) {
        if (mixedTurn ? chance(1, 2) : leftHanded) std::swap(c[0], c[1]);
        std::rotate(c.begin(), c.begin() + choose(3), c.begin() + 3);
        El e{second ? kTet10 : kTet4, c, c, 0};
        if (second) e.nodes = b.second<decltype(tet2), 10, 4>(tet2, c);
        m.els.push_back(e);
    };
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        if (chance(1, 8)) continue;             // a hole
        Nodes h{at(i, j, k), at(i + 1, j, k), at(i + 1, j + 1, k), at(i, j + 1, k), at(i, j, k + 1), at(i + 1, j, k + 1), at(i + 1, j + 1, k + 1), at(i, j + 1, k + 1)};
        if (cell == 1 || (cell == 2 && chance(1, 2))) {
            if (mixedTurn ? chance(1, 2) : leftHanded) h = Nodes{h[4], h[5], h[6], h[7], h[0], h[1], h[2], h[3]};
            m.els.push_back({kHex8, h, h, 0});
        } else for (auto& q : kuhn) if (!chance(1, 12)) addTet({h[q[0]], h[q[1]], h[q[2]], h[q[3]]}, quadratic);
    }
    size_t vols = m.els.size();
    if (vols && chance(1, 4)) {                 // a volume on top of another: not a proper mesh, as users may make it
        const El e = m.els[choose(uint32_t(vols))];
        if (e.kind != kHex8) { addTet(e.corners, e.kind == kTet10); probe("two volumes in one place"); }
        else m.els.push_back(e);
    }
    vols = m.els.size();
    for (int n = vols ? range(0, 10) : 0; n > 0; n--) {
        const El e = m.els[choose(uint32_t(vols))];
        int f = int(choose(faces(e)));
        Nodes c = faceCorners(e, f);
        if (chance(1, 2)) std::reverse(c.begin(), c.end());
        std::rotate(c.begin(), c.begin() + choose(uint32_t(c.size())), c.end());
        El s{e.kind == kHex8 ? kQuad4 : kTri3, c, c, 0};
        if (e.kind == kTet10 && !chance(1, 6)) { s.kind = kTri6; s.nodes = b.second<decltype(tri2), 6, 3>(tri2, c); }
        m.els.push_back(s);
    }
    for (int n = int(choose(3)); n > 0; n--) {  // surfaces, lines and nodes anywhere
        int i = int(choose(nx)), j = int(choose(ny));
        Nodes c{at(i, j, 0), at(i + 1, j, 0), at(i, j + 1, nz)};
        switch (choose(3)) {
            case 0: m.els.push_back({kTri3, c, c, 0}); break;
            case 1: c.pop_back(); m.els.push_back({kLine, c, c, 0}); break;
            case 2: c.resize(1); m.els.push_back({kNode, c, c, 0}); break;
        }
    }
    // any order, any ids
    bool shuffled = chance(2, 3);
    std::set<size_t> used;
    auto newId = [&](size_t i) { size_t id = i + 1; if (shuffled) do id = 1 + rng.below(4000); while (!used.insert(id).second); return id; };
    for (size_t i = m.els.size(); shuffled && i > 1; i--) std::swap(m.els[i - 1], m.els[rng.below(uint32_t(i))]);
    for (size_t i = 0; i < m.els.size(); i++) m.els[i].id = newId(i);
    used.clear();
    for (size_t i = 0; i < m.pos.size(); i++) m.cid.push_back(newId(i));
    // coordinates no element uses may remain
    for (auto& e : m.els) if (isVol(e.kind)) for (int f = 0; f < faces(e); f++) faceNodes(b, e, f);
    for (size_t i = m.cid.size(); i < m.pos.size(); i++) m.cid.push_back(newId(i));
}
Truth truthOf(Mesh& m) {
    Truth t;
    Builder b{m, {}};
    // middles are found again by their place in the second order elements
    for (auto& e : m.els) {
        static const Math::Simplex::Tetrahedron<2> tet2; static const Math::Simplex::Triangle<2> tri2;
        if (e.kind == kTet10) for (int i = 0; i < 10; i++) { std::vector<int> on; for (int v = 0; v < 4; v++) for (size_t k = 0; k < tet2.nodeIndex(i, v); k++) on.push_back(e.corners[v]); if (on[0] != on[1]) b.mid[{std::min(on[0], on[1]), std::max(on[0], on[1])}] = e.nodes[i]; }
        if (e.kind == kTri6) for (int i = 0; i < 6; i++) { std::vector<int> on; for (int v = 0; v < 3; v++) for (size_t k = 0; k < tri2.nodeIndex(i, v); k++) on.push_back(e.corners[v]); if (on[0] != on[1]) b.mid[{std::min(on[0], on[1]), std::max(on[0], on[1])}] = e.nodes[i]; }
    }
    for (auto& e : m.els) {
        if (isVol(e.kind)) for (int f = 0; f < faces(e); f++) {
            Nodes n = faceNodes(b, e, f);
            F x(e.id, f);
            t.vols[n].push_back(x); t.face[x] = n; t.corners[x] = faceCorners(e, f);
        }
        if (isSurf(e.kind)) t.surfs[sorted(e.nodes)].push_back(e.id);
    }
    return t;
}
}

void sim::run() {
    setBudget(200000000);
    fs().reset();
    Mesh m, other;
    generate(m);
    bool second = chance(1, 3);
    if (second) generate(other);
    Truth t = truthOf(m), tOther;
    if (second) tOther = truthOf(other);
    size_t vols = 0; for (auto& e : m.els) vols += isVol(e.kind);
    log("%zu elements, %zu volumes, %zu coordinates", m.els.size(), vols, m.pos.size());
    std::string first, firstGraph;
    int rounds = range(2, 3);
    for (int k = 0; k < rounds; k++) {
        randomLayout();
        std::string who = fmt("round %d, %s", k, layoutName().c_str());
        std::unique_ptr<Real> r = realize(m), ro;
        if (second) ro = realize(other);
        // building the connectivities, first perhaps without memory
        for (int n = int(choose(3)); n > 0; n--) {
            uint32_t after = choose(400), many = chance(2, 3) ? 1 : 3;
            failAlloc(after, many);
            Outcome o = call("connect", [&] { Geometry::Graph::Connectivities c(r->eg); });
            bool fired = allocFired(); failAllocOff();
            if (fired) fault("allocation failure");
            check(!o.threw || (fired && o.badAlloc), "connect-threw", o.str());
        }
        typedef Geometry::Graph::Connectivities Conn;
        std::vector<std::unique_ptr<Conn>> conns;
        std::unique_ptr<Conn> c;
        Outcome o = call("connect", [&] { c.reset(new Conn(r->eg)); });
        check(!o.threw, "connect-threw", o.str());
        std::string text = ask(*c, m, t, *r, who.c_str()).text;
        if (k == 0) first = text;
        check(text == first, "layout-dependent", fmt("%s: the answers differ from those of the first round", who.c_str()));
        // copies and assignments, the original going away
        std::unique_ptr<Conn> oc;
        if (second) call("connect", [&] { oc.reset(new Conn(ro->eg)); });
        for (int n = int(choose(2)); n > 0; n--) {
            int how = int(choose(4)); bool fail = chance(1, 3); uint32_t after = choose(200);
            std::unique_ptr<Conn> d;
            Outcome x = call("prepare", [&] { if (how == 1) d.reset(new Conn); if (how == 2 && second) d.reset(new Conn(ro->eg)); });
            if (fail) failAlloc(after, 2);
            x = call("copy", [&] { if (how == 3) { const Conn& self = *c; *c = self; } else if (d) *d = *c; else d.reset(new Conn(*c)); });
            bool fired = allocFired(); failAllocOff();
            if (fired) fault("allocation failure");
            check(!x.threw || (fired && x.badAlloc), "copy-threw", x.str());
            if (!x.threw && how != 3) { call("destroy", [&] { c.reset(); }); c = std::move(d); probe("answers of a copy"); }
            else if (d) call("destroy", [&] { d.reset(); });
            std::string again = ask(*c, m, t, *r, (who + ", copied").c_str()).text;
            check(again == text, "copy-differs", fmt("%s: the copy answers otherwise", who.c_str()));
        }
        if (oc && k + 1 == rounds) ask(*oc, other, tOther, *ro, "another mesh");
        // questions that run out of memory
        if (chance(1, 3) && !t.face.empty()) {
            auto it = t.face.begin(); std::advance(it, choose(uint32_t(t.face.size())));
            F f = it->first, g; uint32_t after = choose(12);
            failAlloc(after, 1);
            Outcome x = call("ask", [&] { g = of(c->getNeighFace(Geometry::Graph::Face(r->byId[f.first]->castTo<VolR>(), f.second))); });
            bool fired = allocFired(); failAllocOff();
            if (fired) fault("allocation failure");
            check(!x.threw || (fired && x.badAlloc), "question-threw", x.str());
            if (!x.threw && first.find(str(f) + " ") != std::string::npos) {
                check(first.find("\n" + str(f) + " " + str(g) + " ") != std::string::npos || first.compare(0, str(f).size() + str(g).size() + 2, str(f) + " " + str(g) + " ") == 0, "memory", "out of memory, the neighbour of " + str(f) + " is " + str(g));
            }
        }
        // questions about what is not in the mesh
        if (chance(1, 3) && !m.els.empty()) {
            const El& e = m.els[choose(uint32_t(m.els.size()))];
            El strange = e; strange.id = 5001;
            F g(1, 1), h(1, 1), i(1, 1); bool edge = false; const SurfR* s = nullptr;
            Outcome x = call("ask about a stranger", [&] {
                std::unique_ptr<ElemR> p(make(m, strange, r->c));
                if (isVol(e.kind)) { Geometry::Graph::Face y(p->castTo<VolR>(), 0); g = of(c->getNeighFace(y)); s = c->getNeighSurf(y); h = F(0, 0); i = h; edge = c->isDomainBoundary(y); }
                else if (isSurf(e.kind)) { const SurfR* y = p->castTo<SurfR>(); h = of(c->getInnerFace(y)); i = of(c->getOuterFace(y)); g = F(0, 0); edge = c->isDomainBoundary(y); }
                else { g = of(c->getNeighFace(Geometry::Graph::Face(nullptr, 0))); s = c->getNeighSurf(Geometry::Graph::Face(nullptr, 0)); h = i = F(0, 0); edge = true; }
            });
            check(!x.threw && !g.first && !h.first && !i.first && !s && edge, "stranger", fmt("an element outside the mesh has neighbours, or %s", x.str().c_str()));
        }
        std::string g = graphText(m, *r, who.c_str());
        if (k == 0) firstGraph = g;
        check(g == firstGraph, "layout-dependent", fmt("%s: the graph differs from that of the first round", who.c_str()));
        call("destroy", [&] { c.reset(); oc.reset(); r.reset(); ro.reset(); });
    }
    if (vols > 1) nontrivial();
    state(hash(first + firstGraph));
}
