// Conversions of meshes to the grid and back, with sources destroyed in between and failing allocations.
#include "scn/parts.h"
const char* const sim::kProperty = "C21";
using namespace sim;
using namespace model;
namespace M = SEMBA::Geometry::Mesh;

struct Want1 { int kind; size_t id; std::vector<size_t> verts; long layer; const Geometry::Element::Model* mat; };
typedef std::map<size_t, std::array<double, 3>> Positions;   // aligned coordinates and where the grid has them

static std::string textOf(M::Unstructured& m) { Describer x; return x.mesh(m); }
static std::string textOf(M::Structured& m) { Describer x; return describeGrid(m.grid()) + x.mesh(m); }
template <class T> int kindOfElem(const Geometry::Element::Element<T>& e) {
    if (e.template is<Geometry::Element::Node<T>>()) return eNode;
    if (e.template is<Geometry::Element::Line2<T>>()) return eLine;
    if (e.template is<Geometry::Element::Quadrilateral4<T>>()) return eQuad;
    if (e.template is<Geometry::Element::Hexahedron8<T>>()) return eHex;
    return -1;
}
// m against what has to be in it; at() gives the expected position of a coordinate
template <class Mesh, class At> void compare(const Mesh& m, const std::vector<Want1>& want, const std::set<size_t>& coords, size_t count, const std::vector<PLayer>& layers, At&& at, const std::string& where) {
    check(m.layers().size() == layers.size(), "wrong-layers", fmt("%s has %zu layers instead of %zu", where.c_str(), m.layers().size(), layers.size()));
    for (auto& l : layers) check(m.layers().existId(LayerId(l.id)) && m.layers().getId(LayerId(l.id))->getName() == parts::layerName(l.name), "wrong-layers", fmt("%s has another layer %zu", where.c_str(), l.id));
    check(m.coords().size() == count, "wrong-coordinates", fmt("%s has %zu coordinates instead of %zu", where.c_str(), m.coords().size(), count));
    for (size_t id : coords) {
        check(m.coords().existId(CoordId(id)), "wrong-coordinates", fmt("%s lacks coordinate %zu", where.c_str(), id));
        at(id, *m.coords().getId(CoordId(id)));
    }
    for (auto& w : want) check(m.elems().existId(ElemId(w.id)), "wrong-elements", fmt("%s lacks the %s %zu", where.c_str(), elemName(w.kind), w.id));
    std::set<size_t> known; for (auto& w : want) known.insert(w.id);
    for (size_t i = 0; i < m.elems().size(); i++) check(known.count(m.elems()(i)->getId().toInt()), "wrong-elements", fmt("%s has element %s, which does not lie on the grid", where.c_str(), m.elems()(i)->getId().toStr().c_str()));
    check(m.elems().size() == want.size(), "wrong-elements", fmt("%s has %zu elements instead of %zu", where.c_str(), m.elems().size(), want.size()));
    for (auto& w : want) {
        auto& e = *m.elems().getId(ElemId(w.id));
        std::string here = fmt("%s, %s %zu", where.c_str(), elemName(w.kind), w.id);
        check(kindOfElem(e) == w.kind, "wrong-elements", here + " has another type");
        check(e.getModel() == w.mat, "wrong-elements", here + " has another material");
        const Geometry::Element::Layer* l = e.getLayer();
        check(w.layer < 0 ? l == nullptr : l == m.layers().getId(LayerId(size_t(w.layer))), "wrong-elements", here + (l ? " refers to a layer outside the mesh" : " has lost its layer"));
        check(w.layer < 0 || l->getId().toInt() == size_t(w.layer), "wrong-elements", here + " has another layer");
        for (size_t k = 0; k < w.verts.size(); k++) {
            check(e.getV(k) == m.coords().getId(CoordId(w.verts[k])), "wrong-elements", fmt("%s has another vertex %zu, or one outside the mesh", here.c_str(), k));
        }
    }
}

void sim::run() {
    setBudget(200000000);
    randomLayout();
    fs().reset();
    fs().mkdirs("/work");
    Want w; w.missing = false; w.maxElems = 10; w.maxSrcs = 1; w.maxReqs = 1; w.span = pick(std::vector<double>{1, 1, 1000, 1e-3});
    Plan p = plan(w);
    // sheared shapes on grid points, which look aligned vertex by vertex
    if (p.mesh != kStructured && chance(1, 2)) for (int n = range(1, 2); n > 0; n--) {
        std::vector<size_t> c; for (size_t i = 0; i < p.elems.size(); i++) if (p.elems[i].kind == eQuad || p.elems[i].kind == eHex) c.push_back(i);
        if (c.empty()) break;
        PElem e = p.elems[pick(c)];
        size_t top = 0; for (auto& x : p.elems) top = std::max(top, x.id);
        e.id = top + 1;
        int a = int(choose(uint32_t(e.v.size()))), b = int(choose(uint32_t(e.v.size())));
        int other = int(choose(uint32_t(p.coords.size())));
        if (chance(1, 2)) std::swap(e.v[a], e.v[b]);
        else if (std::find(e.v.begin(), e.v.end(), other) == e.v.end()) e.v[a] = other;
        p.elems.push_back(e);
    }
    Data* d = nullptr;
    // positions within a tolerance of the grid
    std::vector<double> grid[3];
    bool sub = p.mesh == kUnstructured && chance(1, 2);
    for (int i = 0; i < 3; i++) {
        grid[i] = p.grid[i];
        if (sub && grid[i].size() > 2 && chance(1, 2)) grid[i].erase(grid[i].begin() + choose(uint32_t(grid[i].size())));
    }
    double tol = Geometry::Grid3::tolerance;
    if (p.mesh != kStructured && chance(1, 3)) {
        tol = pick(std::vector<double>{0.01, 0.04, 1e-4});
        double least = 1e300; for (auto& g : grid) for (size_t i = 1; i < g.size(); i++) least = std::min(least, g[i] - g[i - 1]);
        std::map<std::pair<int, int>, double> jitter;
        // (nothing is near 0 but 0 itself, for Math::Util::equal)
        for (auto& c : p.coords) for (int i = 0; i < 3; i++) if (c.pos[i] != 0 && c.q[i] % 4 == 0) { auto it = jitter.find({i, c.q[i]}); if (it == jitter.end()) { int k = int(choose(3)); it = jitter.insert({{i, c.q[i]}, (k == 0 ? 0 : k == 1 ? 0.5 : -0.5) * tol * least}).first; } c.pos[i] += it->second; }
        probe("positions off by less than the tolerance");
    }
    Outcome o = call("build", [&] { d = build(p); });
    check(!o.threw, "harness", "the model could not be built: " + o.str());
    // the truth
    auto index = [&](int dim, double x) { for (size_t i = 0; i < grid[dim].size(); i++) if (std::abs(x - grid[dim][i]) <= tol * (i ? grid[dim][i] - grid[dim][i - 1] : grid[dim][1] - grid[dim][0])) return int(i); return -1; };
    std::map<size_t, std::array<int, 3>> cell; std::set<size_t> on;
    for (auto& c : p.coords) {
        std::array<int, 3> k; bool all = true;
        for (int i = 0; i < 3; i++) all &= (k[i] = p.mesh == kStructured ? c.q[i] / 4 : index(i, c.pos[i])) >= 0;
        if (all) { cell[c.id] = k; on.insert(c.id); }
    }
    std::vector<Want1> aligned; size_t left = 0;
    for (auto& e : p.elems) {
        bool ok = e.kind <= eHex;
        std::set<std::array<int, 3>> pts; std::array<int, 3> lo{{1 << 20, 1 << 20, 1 << 20}}, hi{{-1, -1, -1}};
        for (int v : e.v) { auto it = cell.find(p.coords[v].id); if (it == cell.end()) { ok = false; break; } pts.insert(it->second); for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], it->second[i]); hi[i] = std::max(hi[i], it->second[i]); } }
        if (ok) {
            int dims = 0; for (int i = 0; i < 3; i++) dims += hi[i] > lo[i];
            ok = pts.size() == e.v.size() && e.v.size() == size_t(1) << dims && (e.kind == eNode ? 0 : e.kind == eLine ? 1 : e.kind == eQuad ? 2 : 3) == dims;
            for (auto& q : pts) for (int i = 0; i < 3; i++) ok &= q[i] == lo[i] || q[i] == hi[i];
        }
        if (!ok) { left++; continue; }
        Want1 x; x.kind = e.kind; x.id = e.id; x.layer = e.layer < 0 ? -1 : long(p.layers[e.layer].id);
        x.mat = e.mat < 0 ? nullptr : static_cast<const Geometry::Element::Model*>(d->physicalModels->getId(MatId(p.mats[e.mat].id)));
        for (int v : e.v) x.verts.push_back(p.coords[v].id);
        aligned.push_back(x);
    }
    if (left) probe("elements off the grid");
    if (!aligned.empty()) nontrivial();
    auto atCell = [&](size_t id, const CoordI3& c) { auto& k = cell.at(id); check(c(0) == k[0] && c(1) == k[1] && c(2) == k[2], "wrong-coordinates", fmt("coordinate %zu is at cell (%d %d %d) instead of (%d %d %d)", id, int(c(0)), int(c(1)), int(c(2)), k[0], k[1], k[2])); };
    auto atPos = [&](size_t id, const CoordR3& c) { auto& k = cell.at(id); for (int i = 0; i < 3; i++) check(c(i) == grid[i][k[i]], "wrong-coordinates", fmt("coordinate %zu is at (%g %g %g) instead of (%g %g %g)", id, c(0), c(1), c(2), grid[0][k[0]], grid[1][k[1]], grid[2][k[2]])); };
    std::string before = describe(*d);
    // one of the two is the mesh converted last; its source may be gone
    std::unique_ptr<M::Unstructured> u; std::unique_ptr<M::Structured> s;
    bool own = false;                                  // otherwise the mesh of the model is converted
    bool structured = p.mesh == kStructured;
    std::string firstS, firstU;
    for (int step = 0, n = range(1, 5); step < n; step++) {
        bool memory = chance(1, 4), drop = chance(1, 2);
        if (chance(1, 4)) randomLayout();
        std::unique_ptr<M::Unstructured> nu; std::unique_ptr<M::Structured> ns;
        M::Unstructured* fromU = own ? u.get() : structured ? nullptr : d->mesh->castTo<M::Unstructured>();
        M::Structured* fromS = own ? s.get() : structured ? d->mesh->castTo<M::Structured>() : nullptr;
        std::string was = fromU ? textOf(*fromU) : textOf(*fromS);
        std::vector<double> g[3]{grid[0], grid[1], grid[2]};
        std::unique_ptr<Geometry::Grid3> gr; { SutScope sc; gr.reset(new Geometry::Grid3(g)); }
        for (int attempt = 0; attempt < 2; attempt++) {
            if (memory && attempt == 0) failAlloc(choose(fromU ? 120 : 90) * (chance(1, 3) ? 8 : 1), chance(1, 2) ? 1 : 30);
            Outcome o = call(fromU ? "to the grid" : "from the grid", [&] {
                if (fromS) nu.reset(fromS->getMeshUnstructured());
                else if (!sub && fromU->is<M::Geometric>()) ns.reset(fromU->castTo<M::Geometric>()->getMeshStructured(tol));
                else ns.reset(fromU->getMeshStructured(*gr, tol));
            });
            bool ran = memory && attempt == 0 && allocFired();
            failAllocOff();
            if (ran) fault("allocation failure");
            check(!o.threw || (ran && o.badAlloc), "conversion-threw", "the conversion " + o.str());
            std::string now = fromU ? textOf(*fromU) : textOf(*fromS);
            check(now == was, "source-changed", "the conversion: " + difference(was, now));
            if (!o.threw) break;
        }
        if (drop && own) { SutScope sc; u.reset(); s.reset(); }
        else if (drop && d->mesh) {
            // the elements of sources and requests belong to the mesh that is gone
            std::string t = describe(*d); check(t == before, "source-changed", "the conversion: " + difference(before, t));
            SutScope sc; delete d->sources; d->sources = nullptr; delete d->outputRequests; d->outputRequests = nullptr; delete d->mesh; d->mesh = nullptr; probe("source destroyed");
        }
        { SutScope sc; u = std::move(nu); s = std::move(ns); gr.reset(); }
        own = true;
        size_t count = p.coords.size();
        if (s) {
            for (int i = 0; i < 3; i++) check(s->grid().getPos(i) == grid[i], "wrong-grid", "the converted mesh has another grid");
            compare(*s, aligned, on, count, p.layers, atCell, "the mesh on the grid");
            std::string t = textOf(*s); if (firstS.empty()) firstS = t; check(t == firstS, "conversion-differs", "converting again: " + difference(firstS, t));
        } else {
            compare(*u, aligned, on, count, p.layers, atPos, "the mesh off the grid");
            std::string t = textOf(*u); if (firstU.empty()) firstU = t; check(t == firstU, "conversion-differs", "converting again: " + difference(firstU, t));
        }
        // what referred to elements of the source can be made to refer to the converted ones
        if (d->mesh && !aligned.empty() && chance(1, 2)) {
            Geometry::Element::Group<const Geometry::Elem> group; std::vector<size_t> ids;
            { SutScope sc; for (auto& x : aligned) if ((x.id + step) % 3 != 0) { if (structured) group.add(d->mesh->castTo<M::Structured>()->elems().getId(ElemId(x.id))); else group.add(d->mesh->castTo<M::Unstructured>()->elems().getId(ElemId(x.id))); ids.push_back(x.id); } }
            Outcome o = call("reassign", [&] { if (s) s->reassign(group); else u->reassign(group); });
            check(!o.threw, "reassign-threw", "reassigning " + o.str());
            check(group.size() == ids.size(), "wrong-reassignment", fmt("%zu elements became %zu", ids.size(), group.size()));
            for (size_t id : ids) {
                const Geometry::Elem* want = s ? static_cast<const Geometry::Elem*>(s->elems().getId(ElemId(id))) : static_cast<const Geometry::Elem*>(u->elems().getId(ElemId(id)));
                check(group.existId(ElemId(id)) && group.getId(ElemId(id)) == want, "wrong-reassignment", fmt("element %zu does not refer to the converted mesh", id));
            }
            SutScope sc; group.clear();
        }
        state(hash((s ? textOf(*s) : textOf(*u)) + (s ? "s" : "u")));
    }
    SutScope sc;
    u.reset(); s.reset();
    delete d;
}
