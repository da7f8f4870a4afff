// Collections of elements under seeded histories of edits, some refused or out of memory, against plain records of what every element refers to.
#include "sim/sim.h"
#include "geometry/element/Group.h"
#include "geometry/element/Line2.h"
#include "geometry/element/LineConformal.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Polygon.h"
#include "geometry/element/Polyhedron.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/coordinate/Conformal.h"
#include "geometry/coordinate/Relative.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <set>
using namespace SEMBA;
using namespace Geometry;
using namespace sim;
const char* const sim::kProperty = "C30";

namespace {
enum Kind { kNode, kLine, kPolyline, kQuad, kHex, kConformal, kTri3, kTri6, kPolygon, kTet4, kTet10, kKinds };
const char* const names[] = {"node", "line", "polyline", "quadrilateral", "hexahedron", "conformal line", "triangle", "second order triangle", "polygon", "tetrahedron", "second order tetrahedron"};
bool armed = false;
void arm(int one = 4) { armed = chance(1, one); if (armed) { uint32_t at = choose(chance(1, 2) ? 5 : chance(3, 4) ? 25 : 80), many = chance(1, 3) ? 100000 : 1; failAlloc(at, many); } }
// whether it was done
bool settle(const Outcome& o, const std::string& what, bool mayRefuse = false) {
    bool fired = armed && allocFired();
    failAllocOff();
    if (fired) fault("allocation failure");
    check(!o.threw || mayRefuse || (fired && o.badAlloc), "good-request-refused", what + ": " + o.str());
    return !o.threw;
}
typedef std::array<double, 3> P;
std::vector<int> verticesOf(Kind k, int n) {
    static const Math::Simplex::Triangle<2> tri; static const Math::Simplex::Tetrahedron<2> tet;
    std::vector<int> v;
    if (k == kPolyline) return {0, n - 1};
    if (k == kTri6) { v.resize(3); for (int i = 0; i < 6; i++) for (int j = 0; j < 3; j++) if (tri.nodeIndex(i, j) == 2) v[j] = i; return v; }
    if (k == kTet10) { v.resize(4); for (int i = 0; i < 10; i++) for (int j = 0; j < 4; j++) if (tet.nodeIndex(i, j) == 2) v[j] = i; return v; }
    for (int i = 0; i < n; i++) v.push_back(i);
    return v;
}

template <class T> struct World {
    typedef Coordinate::Coordinate<T, 3> C;
    typedef Element::Element<T> E;
    typedef Element::Group<E> EG;
    typedef Coordinate::Group<C> CG;
    typedef Math::Vector::Cartesian<T, 3> V;
    struct El { size_t id; Kind kind; std::vector<const C*> v; const Layer::Layer* lay; const PhysicalModel::PhysicalModel* mat; };
    std::vector<std::unique_ptr<CG>> coords;                       // all generations, the last one in use
    std::vector<std::unique_ptr<Layer::Group<>>> lays;
    std::vector<std::unique_ptr<PMGroup>> mats;
    std::vector<const Layer::Layer*> twinLays;                     // others with identifiers in use
    std::vector<const PhysicalModel::PhysicalModel*> twinMats;
    std::map<const C*, std::pair<size_t, P>> at;                   // what every coordinate was made with
    std::unique_ptr<EG> g;
    std::vector<El> t;

    static bool real() { return sizeof(T) == sizeof(double); }
    std::string place(const C* c) { auto& a = at[c]; return fmt("%zu(%g %g %g)", a.first, a.second[0], a.second[1], a.second[2]); }
    std::string str(const El& e) { std::string r = fmt("%s %zu, material %zu, layer %zu, at", names[e.kind], e.id, e.mat ? e.mat->getId().toInt() : 0, e.lay ? e.lay->getId().toInt() : 0); for (auto c : e.v) r += " " + place(c); return r; }
    std::vector<const C*> now() { std::vector<const C*> r; for (size_t i = 0; i < coords.back()->size(); i++) r.push_back((*static_cast<const CG*>(coords.back().get()))(i)); return r; }
    const Layer::Layer* someLayer() { if (chance(1, 5)) return nullptr; const Layer::Group<>& l = *lays.back(); const Layer::Layer* x = l.size() ? l(choose(uint32_t(l.size()))) : nullptr; if (x && chance(1, 8)) { auto id = x->getId(); SutScope z; x = new Layer::Layer(id, "twin"); FrameworkScope q; twinLays.push_back(x); } return x; }
    const PhysicalModel::PhysicalModel* someMat() { if (chance(1, 5)) return nullptr; const PMGroup& l = *mats.back(); const PhysicalModel::PhysicalModel* x = l.size() ? l(choose(uint32_t(l.size()))) : nullptr; if (x && chance(1, 8)) { auto id = x->getId(); SutScope z; x = id.toInt() % 2 ? static_cast<const PhysicalModel::PhysicalModel*>(new PhysicalModel::Predefined::PMC(id)) : new PhysicalModel::Predefined::PEC(id); FrameworkScope q; twinMats.push_back(x); } return x; }
    static P place() { P p; for (double& x : p) x = real() ? 0.25 * (int(choose(33)) - 16) : int(choose(9)) - 4; return p; }
    static C* coordinate(size_t id, const P& p, int how) { V v = V(); for (size_t d = 0; d < 3; d++) v(d) = T(p[d]); return make(static_cast<C*>(nullptr), id, v, how); }
    static CoordR3* make(CoordR3*, size_t id, const Math::CVecR3& v, int) { return new CoordR3(CoordId(id), v); }
    static CoordI3* make(CoordI3*, size_t id, const Math::CVecI3& v, int how) {
        if (how < 0) return new CoordConf(CoordId(id), v, Math::Constants::CartesianAxis(-how % 3), 0.25 * (-how % 4));
        if (how % 4 == 3) return new CoordRel(CoordId(id), v, Math::CVecR3(0.25, 0, 0.5));
        return new CoordI3(CoordId(id), v);
    }
    bool conformal(const C* c) { return dynamic_cast<const CoordConf*>(static_cast<const Coordinate::Base*>(c)) != nullptr; }
    // A generation of coordinates with the given ids, moved or not.
    void generation(const std::vector<std::pair<size_t, P>>& wanted, const std::set<size_t>& conf) {
        std::unique_ptr<CG> c;
        std::vector<std::pair<const C*, std::pair<size_t, P>>> made; made.reserve(wanted.size());
        { SutScope z; c.reset(new CG()); for (auto& w : wanted) { C* x = coordinate(w.first, w.second, conf.count(w.first) ? -1 - int(w.first) : int(w.first)); c->add(x); made.push_back({x, w}); } }
        for (auto& m : made) at[m.first] = m.second;
        coords.push_back(std::move(c));
    }
    void layers(const std::vector<size_t>& ids) { std::unique_ptr<Layer::Group<>> l; { SutScope z; l.reset(new Layer::Group<>()); for (size_t i : ids) l->add(new Layer::Layer(LayerId(i), "L")); } lays.push_back(std::move(l)); }
    void models(const std::vector<size_t>& ids) { std::unique_ptr<PMGroup> l; { SutScope z; l.reset(new PMGroup()); for (size_t i : ids) { if (i % 2) l->add(new PhysicalModel::Predefined::PEC(MatId(i))); else l->add(new PhysicalModel::Predefined::PMC(MatId(i))); } } mats.push_back(std::move(l)); }

    template <size_t N, class K> static E* fixed(const El& e) { const C* v[N]; std::copy(e.v.begin(), e.v.end(), v); return new K(ElemId(e.id), v, e.lay, e.mat); }
    template <class Q> static E* own(CoordR3*, const Q& e) {
        switch (e.kind) {
            case kTri3: return fixed<3, Tri3>(e);
            case kTri6: return fixed<6, Tri6>(e);
            case kPolygon: return new Element::Polygon(ElemId(e.id), e.v, e.lay, e.mat);
            case kTet4: return fixed<4, Tet4>(e);
            default: return fixed<10, Tet10>(e);
        }
    }
    template <class Q> static E* own(CoordI3*, const Q& e) {
        const CoordI3* v[2] = {e.v[0], e.v[1]};
        return new LinConf(ElemId(e.id), v, Math::CVecR3(0, 0, 1), e.lay, e.mat);
    }
    static E* make(const El& e) {
        switch (e.kind) {
            case kNode: return fixed<1, Element::Node<T>>(e);
            case kLine: return fixed<2, Element::Line2<T>>(e);
            case kPolyline: return new Element::Polyline<T>(ElemId(e.id), e.v, e.lay, e.mat);
            case kQuad: return fixed<4, Element::Quadrilateral4<T>>(e);
            case kHex: return fixed<8, Element::Hexahedron8<T>>(e);
            default: return own(static_cast<C*>(nullptr), e);
        }
    }
    static int count(Kind k) { switch (k) { case kNode: return 1; case kLine: case kConformal: return 2; case kQuad: case kTet4: return 4; case kHex: return 8; case kTri3: return 3; case kTri6: return 6; case kTet10: return 10; case kPolyline: return range(2, 6); default: return range(5, 8); } }
    El element() {
        El e; e.id = 0;
        static const Kind both[] = {kNode, kLine, kLine, kPolyline, kQuad, kHex}, reals[] = {kTri3, kTri6, kPolygon, kTet4, kTet10};
        std::vector<const C*> c = now(), conf;
        for (auto x : c) if (!real() && conformal(x)) conf.push_back(x);
        if (chance(1, 2)) e.kind = both[choose(6)];
        else if (real()) e.kind = reals[choose(5)];
        else e.kind = conf.size() < 2 ? kLine : kConformal;
        if (e.kind == kConformal) c = conf;
        int n = count(e.kind);
        if (c.size() < size_t(n)) { e.kind = kNode; n = 1; }
        for (int tries = 0;; tries++) {
            e.v.clear();
            std::vector<const C*> rest = c;
            for (int i = 0; i < n; i++) { size_t k = choose(uint32_t(rest.size())); e.v.push_back(rest[k]); rest.erase(rest.begin() + long(k)); }
            if (e.kind == kPolyline && chance(1, 4)) { e.v.push_back(e.v[0]); probe("closed polyline"); }
            bool flat = false;
            if (e.kind == kTet4) for (int d = 0; d < 3; d++) flat |= at[e.v[0]].second[d] == at[e.v[1]].second[d] && at[e.v[0]].second[d] == at[e.v[2]].second[d] && at[e.v[0]].second[d] == at[e.v[3]].second[d];
            if (!flat) break;
            if (tries > 20) { e.kind = kNode; n = 1; }
        }
        e.lay = someLayer(); e.mat = someMat();
        return e;
    }

    // What one element tells.
    void compare(const E* x, const El& e, const std::string& what) {
        size_t id = 0, nv = 0, nc = 0, nf = 0; std::vector<const C*> v, vert, sc, sv, sideV; V lo, hi; const C* first = nullptr; const C* last = nullptr; const Layer::Layer* lay = nullptr; const Class::Identifiable<MatId>* mat = nullptr; size_t layId = 99, matId = 99; bool mine = false; const C* some = now().empty() ? nullptr : now()[choose(uint32_t(now().size()))]; bool isSome = false; std::string kind; size_t face = 0; size_t nsc = 0, nsv = 0; bool equal = false, same = false; uint32_t r = choose(1000);
        std::vector<const C*> bad; 
        Outcome o = call("questions", [&] {
            id = x->getId().toInt(); nv = x->numberOfVertices(); nc = x->numberOfCoordinates(); nf = x->numberOfFaces();
            for (size_t i = 0; i < nc; i++) v.push_back(x->getV(i));
        });
        check(!o.threw, "question-threw", what + ": asking " + str(e) + " " + o.str());
        auto differs = [&](const std::string& how) { violation("element-differs", what + ": " + str(e) + " " + how); };
        if (id != e.id) differs(fmt("has id %zu", id));
        if (v != e.v) { std::string is; for (auto c : v) is += " " + (at.count(c) ? place(c) : std::string("?")); differs("is at" + is); }
        std::vector<int> vi = verticesOf(e.kind, int(e.v.size()));
        if (nv != vi.size()) differs(fmt("has %zu vertices", nv));
        o = call("questions", [&] {
            vert = x->getVertices(); std::vector<const C*> all = x->getCoordinates(); if (all != v) bad = all;
            auto b = x->getBound(); lo = b.getMin(); hi = b.getMax();
            first = x->getMinV(); last = x->getMaxV(); lay = x->getLayer(); mat = x->getModel(); layId = x->getLayerId().toInt(); matId = x->getMatId().toInt();
            mine = x->isCoordinate(v[r % v.size()]); if (some) isSome = x->isCoordinate(some);
            if (nf) { face = r % nf; nsc = x->numberOfSideCoordinates(face); nsv = x->numberOfSideVertices(face); sc = x->getSideCoordinates(face); sv = x->getSideVertices(face); for (size_t i = 0; i < nsc; i++) sideV.push_back(x->getSideV(face, i)); }
            std::unique_ptr<E> copy(dynamic_cast<E*>(x->clone())); equal = *copy == *x; same = copy->getId() == x->getId();
        });
        check(!o.threw, "question-threw", what + ": asking " + str(e) + " " + o.str());
        if (!bad.empty()) differs("tells other coordinates in a list");
        for (size_t i = 0; i < vi.size(); i++) if (vert[i] != e.v[size_t(vi[i])]) differs(fmt("has another vertex %zu", i));
        if (lay != e.lay || layId != (e.lay ? e.lay->getId().toInt() : 0)) differs(fmt("tells layer %zu", layId));
        if (mat != e.mat || matId != (e.mat ? e.mat->getId().toInt() : 0)) differs(fmt("tells material %zu", matId));
        P l = at[e.v[0]].second, h = l, small = at[vert[0]].second, large = small;
        for (auto c : e.v) for (int d = 0; d < 3; d++) { l[d] = std::min(l[d], at[c].second[d]); h[d] = std::max(h[d], at[c].second[d]); }
        for (auto c : vert) { small = std::min(small, at[c].second); large = std::max(large, at[c].second); }
        for (int d = 0; d < 3; d++) if (double(lo(d)) != l[d] || double(hi(d)) != h[d]) differs(fmt("reaches from %g to %g in direction %d", double(lo(d)), double(hi(d)), d));
        if (at[first].second != small) differs("has its first vertex at " + place(first));
        if (at[last].second != large) differs("has its last vertex at " + place(last));
        bool has = some && std::any_of(e.v.begin(), e.v.end(), [&](const C* c) { return at[c] == at[some] && conformal(c) == conformal(some); });
        if (!mine || (some && isSome != has)) differs("does not know its coordinates");
        if (sc.size() != nsc || sv.size() != nsv || sc != sideV) differs(fmt("tells other coordinates of its side %zu", face));
        for (auto c : sv) if (std::find(vert.begin(), vert.end(), c) == vert.end()) differs(fmt("tells a side %zu with other vertices", face));
        if (!equal || !same) differs("differs from its copy");
        probe(names[e.kind]);
    }
    template <class W> static void volumes(CoordI3*, W&, const std::string&) {}
    // faces of volumes
    template <class W> static void volumes(CoordR3*, W& w, const std::string& what) {
        std::vector<Element::Face> faces; Outcome o; std::vector<P> pts;
        for (size_t i = 0; i < w.t.size(); i++) {
            if (w.t[i].kind != kTet4 && w.t[i].kind != kTet10 && w.t[i].kind != kHex) continue;
            const VolR* v = static_cast<const EG&>(*w.g)(i)->template castTo<VolR>();
            size_t f = choose(uint32_t(v->numberOfFaces()));
            faces.push_back(Element::Face(v, f));
            for (size_t j = 0; j < v->numberOfSideCoordinates(f); j++) pts.push_back(w.at[v->getSideV(f, j)].second);
            size_t found = 99; bool threw = false; bool small = chance(1, 2);
            o = call("which face", [&] {
                std::vector<const CoordR3*> c = v->getSideVertices(f);
                std::rotate(c.begin(), c.begin() + 1, c.end());
                std::unique_ptr<SurfR> s;
                if (c.size() == 3) s.reset(new Tri3(ElemId(1), c.data())); else s.reset(new QuaR4(ElemId(1), c.data()));
                found = v->getFaceNumber(s.get());
                if (c.size() == 4 && small) { s.reset(new Tri3(ElemId(1), c.data())); try { v->getFaceNumber(s.get()); } catch (const Element::Error::SurfNotFound&) { threw = true; } }
                else if (c.size() == 3 && small) { c.push_back(c[0]); s.reset(new QuaR4(ElemId(1), c.data())); try { v->getFaceNumber(s.get()); } catch (const Element::Error::SurfNotFound&) { threw = true; } }
                else threw = true;
            });
            check(!o.threw && found == f, "wrong-face", what + fmt(": face %zu of ", f) + w.str(w.t[i]) + fmt(" is taken as %zu ", found) + o.str());
            check(threw, "wrong-face", what + ": a surface of another shape is taken as a face of " + w.str(w.t[i]));
        }
        BoxR3 b; o = call("bound of faces", [&] { b = w.g->getBound(faces); });
        check(!o.threw, "question-threw", what + ": extent of faces " + o.str());
        for (int d = 0; d < 3 && !pts.empty(); d++) {
            double lo = HUGE_VAL, hi = -HUGE_VAL; for (auto& p : pts) { lo = std::min(lo, p[d]); hi = std::max(hi, p[d]); }
            check(b.getMin()(d) == lo && b.getMax()(d) == hi, "wrong-extent", what + fmt(": the faces reach from %g to %g instead of from %g to %g", b.getMin()(d), b.getMax()(d), lo, hi));
        }
    }
    template <class W> static void places(CoordI3*, W&, const std::string&) {}
    template <class W> static void places(CoordR3*, W& w, const std::string& what) {
        P lo = place(), hi = place(), pt = place(); for (int d = 0; d < 3; d++) { if (hi[d] < lo[d]) std::swap(lo[d], hi[d]); if (chance(1, 2)) { lo[d] -= 4; hi[d] += 4; } pt[d] += 0.125; }
        std::vector<size_t> in; const CoordR3* near = nullptr;
        Outcome o = call("places", [&] {
            auto r = w.g->getInsideBound(BoxR3(Math::CVecR3(lo[0], lo[1], lo[2]), Math::CVecR3(hi[0], hi[1], hi[2])));
            for (size_t i = 0; i < r.size(); i++) in.push_back(r(i)->getId().toInt());
            near = w.g->getClosestVertex(Math::CVecR3(pt[0], pt[1], pt[2]));
        });
        check(!o.threw, "question-threw", what + ": asking for places " + o.str());
        std::vector<size_t> want; double least = HUGE_VAL, is = HUGE_VAL;
        auto dist = [&](const P& p) { double s = 0; for (int d = 0; d < 3; d++) s += (p[d] - pt[d]) * (p[d] - pt[d]); return s; };
        for (auto& e : w.t) { bool inside = true; for (auto c : e.v) { for (int d = 0; d < 3; d++) inside &= w.at[c].second[d] >= lo[d] && w.at[c].second[d] <= hi[d]; least = std::min(least, dist(w.at[c].second)); if (c == near) is = dist(w.at[c].second); } if (inside) want.push_back(e.id); }
        check(in == want, "wrong-inside", what + fmt(": %zu elements are told inside of a box instead of %zu", in.size(), want.size()));
        check(w.t.empty() ? near == nullptr : near && is <= least * (1 + 1e-12), "wrong-closest", what + fmt(": the coordinate closest to (%g %g %g) is told as ", pt[0], pt[1], pt[2]) + (near ? w.place(near) : std::string("none")) + fmt(", at %g instead of %g", std::sqrt(is), std::sqrt(least)));
        if (!want.empty()) probe("elements in a box");
    }
    // What the collection tells.
    void compare(const std::string& what) {
        size_t n = 0; { SutScope z; n = g->size(); }
        check(n == t.size(), "wrong-size", what + fmt(": %zu elements instead of %zu", n, t.size()));
        for (size_t i = 0; i < n; i++) compare(static_cast<const EG&>(*g)(i), t[i], what);
        // by material and layer
        std::set<size_t> ms, ls; for (int k = range(1, 3); k > 0; k--) { ms.insert(choose(6)); ls.insert(choose(5)); }
        size_t oneM = *ms.begin(), oneL = *ls.begin(); bool list = chance(1, 2), con = chance(1, 2), down = chance(1, 2);
        std::vector<size_t> byM, byL, byML; std::map<size_t, std::vector<size_t>> byLayers; std::map<size_t, std::vector<size_t>> wantLayers; std::vector<std::vector<size_t>> index; size_t indexed = 0; std::vector<size_t> byC, wantC; size_t cid = 1 + choose(14); BoxR3 bound; bool found = true;
        Outcome o = call("selections", [&] {
            auto ids = [](std::vector<size_t>& to, const std::vector<const E*>& from) { for (auto e : from) to.push_back(e->getId().toInt()); };
            auto all = [](const Element::Group<const E>& s) { std::vector<const E*> r; for (size_t i = 0; i < s.size(); i++) r.push_back(s(i)); return r; };
            std::vector<MatId> m; for (size_t i : ms) m.push_back(MatId(i)); if (m.size() > 1) m.push_back(m[0]); if (down) std::reverse(m.begin(), m.end());
            std::vector<LayerId> l; for (size_t i : ls) l.push_back(LayerId(i)); if (down) std::reverse(l.begin(), l.end());
            const EG& cg = *g;
            if (con) { ids(byM, all(list ? cg.getMatId(m) : cg.getMatId(MatId(oneM)))); ids(byL, all(list ? cg.getLayerId(l) : cg.getLayerId(LayerId(oneL)))); ids(byML, all(cg.getMatLayerId(MatId(oneM), LayerId(oneL)))); }
            else { ids(byM, all(list ? g->getMatId(m) : g->getMatId(MatId(oneM)))); ids(byL, all(list ? g->getLayerId(l) : g->getLayerId(LayerId(oneL)))); ids(byML, all(g->getMatLayerId(MatId(oneM), LayerId(oneL)))); }
            for (auto& p : cg.separateByLayers()) ids(byLayers[p.first.toInt()], p.second);
            auto c = cg.getCoordId(CoordId(cid)); ids(byC, all(c));
            bound = cg.getBound();
        });
        check(!o.threw, "question-threw", what + ": selecting " + o.str());
        std::vector<size_t> wM, wL, wML;
        P lo{{HUGE_VAL, HUGE_VAL, HUGE_VAL}}, hi{{-HUGE_VAL, -HUGE_VAL, -HUGE_VAL}};
        for (auto& e : t) {
            size_t m = e.mat ? e.mat->getId().toInt() : 0, l = e.lay ? e.lay->getId().toInt() : 0;
            if (list ? ms.count(m) : m == oneM) wM.push_back(e.id);
            if (list ? ls.count(l) : l == oneL) wL.push_back(e.id);
            if (m == oneM && l == oneL) wML.push_back(e.id);
            wantLayers[l].push_back(e.id);
            bool has = false; for (auto c : e.v) { has |= at[c].first == cid; for (int d = 0; d < 3; d++) { lo[d] = std::min(lo[d], at[c].second[d]); hi[d] = std::max(hi[d], at[c].second[d]); } }
            if (has) wantC.push_back(e.id);
        }
        auto text = [](const std::vector<size_t>& v) { std::string r; for (size_t i : v) r += fmt(" %zu", i); return r.empty() ? std::string(" none") : r; };
        check(byM == wM, "wrong-by-material", what + ": elements of some materials are told as" + text(byM) + " instead of" + text(wM));
        check(byL == wL, "wrong-by-layer", what + ": elements of some layers are told as" + text(byL) + " instead of" + text(wL));
        check(byML == wML, "wrong-by-both", what + ": elements of a material and layer are told as" + text(byML) + " instead of" + text(wML));
        check(byLayers == wantLayers, "wrong-by-layer", what + ": the elements are separated by layers in another way");
        check(byC == wantC, "wrong-by-coordinate", what + fmt(": elements with coordinate %zu are told as", cid) + text(byC) + " instead of" + text(wantC));
        for (int d = 0; d < 3 && !t.empty(); d++) check(bound.getMin()(d) == lo[d] && bound.getMax()(d) == hi[d], "wrong-extent", what + fmt(": the collection reaches from %g to %g instead of from %g to %g in direction %d", bound.getMin()(d), bound.getMax()(d), lo[d], hi[d], d));
        // by the ids of vertices
        if (!t.empty()) {
            const El& e = t[choose(uint32_t(t.size()))]; std::vector<size_t> key; for (int i : verticesOf(e.kind, int(e.v.size()))) key.push_back(at[e.v[size_t(i)]].first);
            std::reverse(key.begin(), key.end());
            auto vertexIds = [&](const El& x) { std::vector<size_t> k; for (int i : verticesOf(x.kind, int(x.v.size()))) k.push_back(at[x.v[size_t(i)]].first); std::sort(k.begin(), k.end()); return k; };
            size_t got = 0, entries = 0;
            o = call("index", [&] { indexed = 0; std::vector<CoordId> k; for (size_t i : key) k.push_back(CoordId(i)); found = index_(k, got, entries); });
            if (found) {
                check(!o.threw, "question-threw", what + ": index by vertices " + o.str());
                std::sort(key.begin(), key.end()); std::set<std::vector<size_t>> distinct; bool ok = false;
                for (auto& x : t) { distinct.insert(vertexIds(x)); if (x.id == got) ok = vertexIds(x) == key; }
                check(ok && entries == distinct.size(), "wrong-by-vertices", what + fmt(": the element with the vertices of ") + str(e) + fmt(" is told as %zu", got));
            }
        }
        places(static_cast<C*>(nullptr), *this, what);
        if (chance(1, 2)) volumes(static_cast<C*>(nullptr), *this, what);
    }
    bool index_(const std::vector<CoordId>& k, size_t& got, size_t& entries) {
        Element::IndexByVertexId i = static_cast<const EG&>(*g).getIndexByVertexId();
        entries = i.size();
        auto it = i.find(k);
        got = it == i.end() ? 0 : it->second->getId().toInt();
        return true;
    }

    template <class F> bool edit(const std::string& what, bool mayRefuse, F&& f) {
        log("%s (of %zu elements)", what.c_str(), t.size());
        arm();
        Outcome o = call("edit", f);
        takeOutput();
        return settle(o, what, mayRefuse);
    }
    void step() {
        std::string what; bool done = true;
        size_t one = t.empty() ? 0 : choose(uint32_t(t.size()));
        switch (t.empty() && chance(2, 3) ? 0 : choose(15)) {
            case 0: case 1: case 2: case 13: {            // new elements
                std::vector<El> es; int how = int(choose(4)); bool bad = false;
                if (t.size() > 60) break;
                size_t next = 0; for (auto& e : t) next = std::max(next, e.id);
                for (int n = range(1, 3); n > 0; n--) { El e = element(); if (how == 0) { e.id = t.empty() || chance(1, 2) ? ++next + choose(3) : t[one].id; next = std::max(next, e.id); for (auto& x : t) bad |= x.id == e.id; for (auto& x : es) bad |= x.id == e.id; } es.push_back(e); }
                what = fmt("adding %zu elements%s", es.size(), how == 0 ? " with ids" : "");
                done = edit(what, bad, [&] {
                    SEMBA::Group::Group<E> made; made.reserve(es.size());
                    for (auto& e : es) made.add(make(e));
                    if (how == 0) g->add(made); else g->addId(made);
                });
                check(!done || !bad, "taken-id-accepted", what);
                if (bad) probe("taken id refused");
                if (done && how != 0) { const EG& cg = *g; check(cg.size() == t.size() + es.size(), "wrong-size", what); for (size_t i = 0; i < es.size(); i++) { es[i].id = cg(t.size() + i)->getId().toInt(); check(es[i].id > next, "taken-id-accepted", what + fmt(" gives id %zu", es[i].id)); } }
                if (done) for (auto& e : es) t.push_back(e);
                break;
            }
            case 3: case 4: {                             // another material or layer for all or one
                bool lay = chance(1, 2), all = chance(1, 3), missing = !all && (t.empty() || chance(1, 5));
                const Layer::Layer* l = someLayer(); auto m = someMat();
                size_t id = missing ? 1000 : all ? 0 : t[one].id;
                what = fmt("%s %zu for %s %zu", lay ? "layer" : "material", lay ? (l ? l->getId().toInt() : 0) : (m ? m->getId().toInt() : 0), all ? "all" : "element", id);
                done = edit(what, missing, [&] { if (lay) { if (all) g->setLayer(l); else g->setLayer(ElemId(id), l); } else { if (all) g->setModel(m); else g->setModel(ElemId(id), m); } });
                check(!done || !missing, "missing-accepted", what);
                if (done) for (auto& e : t) if (all || e.id == id) { if (lay) e.lay = l; else e.mat = m; }
                break;
            }
            case 5: {                                     // removal by materials
                std::set<size_t> ms; for (int k = range(1, 2); k > 0; k--) ms.insert(choose(7));
                what = "removing the elements of materials"; for (size_t m : ms) what += fmt(" %zu", m);
                bool list = ms.size() > 1 || chance(1, 2), down = chance(1, 2);
                done = edit(what, false, [&] { if (list) { std::vector<MatId> v; for (size_t m : ms) v.push_back(MatId(m)); if (down) std::reverse(v.begin(), v.end()); g->removeMatId(v); } else g->removeMatId(MatId(*ms.begin())); });
                if (done) t.erase(std::remove_if(t.begin(), t.end(), [&](const El& e) { return ms.count(e.mat ? e.mat->getId().toInt() : 0) != 0; }), t.end());
                break;
            }
            case 6: case 7: {                             // another generation of coordinates
                std::vector<std::pair<size_t, P>> w; std::set<size_t> conf; bool moved = chance(1, 2), hole = chance(1, 3); size_t lost = 0;
                for (auto c : now()) { auto a = at[c]; if (moved && chance(1, 2)) a.second = place(); if (!real() && conformal(c)) conf.insert(a.first); w.push_back(a); }
                if (hole && w.size() > 2) { size_t k = choose(uint32_t(w.size())); lost = w[k].first; w.erase(w.begin() + long(k)); }
                if (!real() && chance(1, 6) && !conf.empty()) { conf.erase(conf.begin()); }
                generation(w, conf);
                std::map<size_t, const C*> byId; for (auto c : now()) byId[at[c].first] = c;
                bool bad = false; for (auto& e : t) for (auto c : e.v) { auto it = byId.find(at[c].first); bad |= it == byId.end() || (e.kind == kConformal && !conformal(it->second)); }
                what = fmt("other coordinates%s", lost ? fmt(" without %zu", lost).c_str() : "");
                CG& c = *coords.back();
                done = edit(what, bad, [&] { g->reassignPointers(c); });
                check(!done || !bad, "missing-accepted", what);
                if (bad) probe("refused coordinates");
                if (done) for (auto& e : t) for (auto& c : e.v) c = byId[at[c].first];
                else coords.erase(coords.end() - 1);     // gone again
                if (done && coords.size() > 1) { auto old = std::move(coords.front()); coords.erase(coords.begin()); SutScope z; old.reset(); }
                break;
            }
            case 8: {                                     // other layers or materials
                bool lay = chance(1, 2); std::vector<size_t> ids; size_t n = lay ? lays.back()->size() : mats.back()->size(); size_t lost = n && chance(1, 3) ? 1 + choose(5) : 0;
                for (size_t i = 0; i < n; i++) { size_t id = lay ? static_cast<const Layer::Group<>&>(*lays.back())(i)->getId().toInt() : static_cast<const PMGroup&>(*mats.back())(i)->getId().toInt(); if (id != lost) ids.push_back(id); }
                std::reverse(ids.begin(), ids.end());
                bool bad = false;
                for (auto& e : t) { size_t id = lay ? (e.lay ? e.lay->getId().toInt() : 0) : (e.mat ? e.mat->getId().toInt() : 0); bad |= id && std::find(ids.begin(), ids.end(), id) == ids.end(); }
                what = fmt("other %s%s", lay ? "layers" : "materials", lost ? fmt(" without %zu", lost).c_str() : "");
                if (lay) layers(ids); else models(ids);
                done = edit(what, bad, [&] { if (lay) g->reassignPointers(*lays.back()); else { SEMBA::Group::Identifiable<Element::Model, MatId> all(*mats.back()); g->reassignPointers(all); } });
                check(!done || !bad, "missing-accepted", what);
                if (bad) probe(lay ? "refused layers" : "refused materials");
                if (done) {
                    for (auto& e : t) {
                        if (lay && e.lay) { const Layer::Layer* was = e.lay; e.lay = static_cast<const Layer::Group<>&>(*lays.back()).getId(was->getId()); }
                        if (!lay && e.mat) { auto was = e.mat; e.mat = static_cast<const PMGroup&>(*mats.back()).getId(was->getId()); }
                    }
                    SutScope z; if (lay) lays.front().reset(); else mats.front().reset(); FrameworkScope q; if (lay) lays.erase(lays.begin()); else mats.erase(mats.begin());
                } else if (lay) { { SutScope z; lays.back().reset(); } lays.pop_back(); } else { { SutScope z; mats.back().reset(); } mats.pop_back(); }
                break;
            }
            case 9: {                                     // one vertex
                if (t.empty() || now().empty()) break;
                El& e = t[one]; size_t j = choose(uint32_t(e.v.size())); std::vector<const C*> cs = now(); const C* c = cs[choose(uint32_t(cs.size()))];
                if (e.kind != kPolyline && std::find(e.v.begin(), e.v.end(), c) != e.v.end()) c = e.v[j];
                bool bad = e.kind == kConformal && !conformal(c);
                what = fmt("coordinate %zu of ", j) + str(e) + " set to " + place(c);
                done = edit(what, bad, [&] { (*g)(one)->setV(j, c); });
                check(!done || !bad, "missing-accepted", what);
                if (bad) probe("refused coordinate");
                if (done) e.v[j] = c;
                break;
            }
            case 10: {                                    // through a selection
                size_t m = choose(6); const Layer::Layer* l = someLayer(); what = fmt("layer %zu for all of material %zu", l ? l->getId().toInt() : 0, m);
                done = edit(what, false, [&] { auto s = g->getMatId(MatId(m)); s.setLayer(l); });
                if (done) for (auto& e : t) if ((e.mat ? e.mat->getId().toInt() : 0) == m) e.lay = l;
                break;
            }
            case 11: {                                    // the copies take over
                what = "copying all";
                std::unique_ptr<EG> copy; bool how = chance(1, 2);
                done = edit(what, false, [&] { if (how) copy.reset(new EG(g->cloneElems())); else copy.reset(static_cast<EG*>(g->clone())); });
                if (done) { SutScope z; g = std::move(copy); FrameworkScope q; }
                break;
            }
            case 12: {                                    // removal by place in the list, or of all
                if (t.empty()) break;
                bool all = chance(1, 8); what = all ? "removing all" : "removing one";
                done = edit(what, false, [&] { if (all) g->clear(); else g->remove(one); });
                if (done) { if (all) t.clear(); else t.erase(t.begin() + long(one)); }
                break;
            }
            default: what = "other objects"; others(static_cast<C*>(nullptr)); break;
        }
        if (what.empty()) return;
        compare((done ? "" : "after a failed ") + what);
        std::string st; for (auto& e : t) st += str(e) + ";";
        state(hash(st));
    }
    // Equality of elements, and closed surfaces
    void others(CoordR3*) {
        std::vector<const CoordR3*> c; for (auto x : now()) c.push_back(x);
        if (c.size() < 20) return;
        static const int faces[12][5] = {{0, 1, 2, 3, 4}, {0, 5, 10, 6, 1}, {1, 6, 11, 7, 2}, {2, 7, 12, 8, 3}, {3, 8, 13, 9, 4}, {4, 9, 14, 5, 0}, {15, 16, 11, 6, 10}, {16, 17, 12, 7, 11}, {17, 18, 13, 8, 12}, {18, 19, 14, 9, 13}, {19, 15, 10, 5, 14}, {19, 18, 17, 16, 15}};
        int how = int(choose(4)), which = int(choose(12)), side = int(choose(5));
        bool refused = false; size_t nf = 0, nv = 0, sides = 0; BoxR3 b; bool same = true, eqLonger = true, eqShorter = true;
        std::string what = how == 0 ? "a closed dodecahedron" : how == 1 ? "a dodecahedron with a face missing" : how == 2 ? "a dodecahedron with two faces missing" : "a dodecahedron with another vertex in a face";
        log("%s", what.c_str());
        arm(6);
        Outcome o = call("polyhedron", [&] {
            std::vector<std::unique_ptr<Element::Polygon>> own; std::vector<const Element::Polygon*> f;
            for (int i = 0; i < 12; i++) {
                if ((how == 1 && i == which) || (how == 2 && (i == which || i == (which + 1) % 12))) continue;
                std::vector<const CoordR3*> v; for (int j : faces[i]) v.push_back(c[size_t(j)]);
                if (how == 3 && i == which) { int j = faces[i][side], k = j; while (std::find(faces[i], faces[i] + 5, k) != faces[i] + 5) k = (k + 1) % 20; v[size_t(side)] = c[size_t(k)]; }
                own.emplace_back(new Element::Polygon(ElemId(i + 1), v)); f.push_back(own.back().get());
            }
            std::vector<const CoordR3*> more; for (int j : faces[0]) more.push_back(c[size_t(j)]); more.push_back(c[5]);
            Element::Polygon longer(ElemId(1), more); const Element::Polygon* first = which == 0 ? own[0].get() : f[0];
            if (first->getId() == ElemId(1)) { eqLonger = longer == *first; eqShorter = *first == longer; } else eqLonger = eqShorter = false;
            try {
                Element::Polyhedron p(ElemId(7), f);
                nf = p.numberOfFaces(); nv = p.numberOfVertices(); b = p.getBoundOfFace(size_t(which));
                for (size_t i = 0; i < nf; i++) sides += p.getSideCoordinates(i).size();
                Element::Polyhedron q(p); same = q == p && q.numberOfVertices() == nv;
            } catch (const Element::Error::NotClosed&) { refused = true; }
        });
        if (!settle(o, what)) return;
        check(!eqLonger && !eqShorter, "different-are-equal", "a polygon of five coordinates is equal to one of six");
        check(refused == (how != 0), "wrong-closed", what + (refused ? " is refused" : " is accepted"));
        if (refused) { probe("open polyhedron refused"); return; }
        check(nf == 12 && nv == 20 && sides == 60 && same, "polyhedron-differs", what + fmt(" has %zu faces, %zu vertices and %zu sides", nf, nv, sides));
        for (int d = 0; d < 3; d++) { double lo = HUGE_VAL, hi = -HUGE_VAL; for (int j : faces[which]) { double v = at[c[size_t(j)]].second[size_t(d)]; lo = std::min(lo, v); hi = std::max(hi, v); } check(b.getMin()(size_t(d)) == lo && b.getMax()(size_t(d)) == hi, "wrong-extent", what + ": extent of a face"); }
        probe("polyhedron");
    }
    // Conformal lines, and coordinates on the edges and inside of cells
    void others(CoordI3*) {
        std::vector<const CoordI3*> c; for (auto x : now()) c.push_back(x);
        if (c.size() < 2) return;
        const CoordI3* v[2] = {c[choose(uint32_t(c.size()))], c[choose(uint32_t(c.size()))]};
        bool good = true; for (auto x : v) good &= conformal(x);
        bool withId = chance(1, 2); bool refused = false, right = true;
        std::string what = "a conformal line between coordinates" + std::string(good ? "" : ", one of them not conformal");
        log("%s", what.c_str());
        arm(6);
        Outcome o = call("conformal line", [&] {
            try {
                std::unique_ptr<LinConf> l(withId ? new LinConf(ElemId(3), v, Math::CVecR3(0, 1, 0)) : new LinConf(v, Math::CVecR3(0, 1, 0)));
                right = l->getV(0) == v[0] && l->getV(1) == v[1] && l->getNorm() == Math::CVecR3(0, 1, 0);
                LinConf m(*l); right &= m.getV(0) == v[0] && m.getV(1) == v[1] && m.getNorm() == Math::CVecR3(0, 1, 0) && m == *l;
            } catch (const Element::Error::Coord::NotConf&) { refused = true; }
        });
        if (settle(o, what)) {
            check(refused == !good, "wrong-conformal", what + (refused ? " is refused" : " is accepted"));
            check(right, "conformal-differs", what);
            probe(good ? "conformal line built" : "conformal line refused");
        }
        P p = place(), q = place(); double len = 0.25 * (1 + choose(3)), r[3]; for (double& x : r) x = 0.25 * choose(4); int dir = int(choose(3)), dir2 = int(choose(3));
        std::array<std::vector<double>, 3> line; for (auto& l : line) { l.push_back(double(choose(3)) - 1); for (int i = 0; i < 6; i++) l.push_back(l.back() + pick(std::vector<double>{1, 0.5, 2})); }
        for (int d = 0; d < 3; d++) { p[d] = choose(5); q[d] = choose(5); }
        std::string wrong;
        auto both = [&](bool ok, const char* s) { if (!ok && wrong.empty()) { FrameworkScope f; wrong = s; } };
        log("coordinates in cell (%g %g %g)", p[0], p[1], p[2]);
        Outcome o2 = call("coordinates", [&] {
            std::vector<double> ls[3]; for (int d = 0; d < 3; d++) ls[d] = std::vector<double>(line[d].begin(), line[d].end());
            Grid3 grid(ls);
            Math::CVecI3 a{Math::Int(p[0]), Math::Int(p[1]), Math::Int(p[2])}, b{Math::Int(q[0]), Math::Int(q[1]), Math::Int(q[2])};
            CoordConf conf(CoordId(5), a, Math::Constants::CartesianAxis(dir), len), conf2(CoordId(6), b, Math::Constants::CartesianAxis(dir2), 0);
            CoordRel rel(CoordId(7), a, Math::CVecR3(r[0], r[1], r[2])), rel2(CoordId(8), b, Math::CVecR3(0, 0, 0.75));
            CoordRel split(CoordId(9), Math::CVecR3(p[0] + r[0], p[1] + r[1], p[2] + r[2]));
            std::unique_ptr<CoordR3> u(conf.toUnstructured(grid)), w(rel.toUnstructured(grid)), w2(split.toUnstructured(grid)), u2(conf2.toUnstructured(grid));
            for (int d = 0; d < 3; d++) {
                double lo = line[d][size_t(p[d])], step = line[d][size_t(p[d]) + 1] - lo;
                both((*u)(size_t(d)) == lo + (d == dir ? len * step : 0), "a coordinate on an edge is elsewhere");
                both((*w)(size_t(d)) == lo + r[d] * step && (*w2)(size_t(d)) == lo + r[d] * step, "a coordinate in a cell is elsewhere");
                both((*u2)(size_t(d)) == line[d][size_t(q[d])], "a coordinate at a corner is elsewhere");
            }
            both(u->getId() == CoordId(5) && w->getId() == CoordId(7), "another id");
            std::unique_ptr<CoordConf> cc(conf.clone()); std::unique_ptr<CoordRel> cr(rel.clone());
            both(*cc == conf && !(*cc != conf) && *cr == rel && !(*cr != rel), "a copy is not equal");
            both(!(conf == conf2) && !(rel == rel2) && !(conf == rel), "different ones are equal");
            CoordConf longer(CoordId(5), a, Math::Constants::CartesianAxis(dir), len + 0.125), turned(CoordId(5), a, Math::Constants::CartesianAxis((dir + 1) % 3), len); CoordRel off(CoordId(7), a, Math::CVecR3(r[0], r[1] + 0.125, r[2]));
            both(conf != longer && conf != turned && rel != off && !(longer == conf), "different ones are equal");
            conf2 = conf; rel2 = rel;
            both(conf2 == conf && conf2.getLength() == len && conf2.getDir() == Math::Constants::CartesianAxis(dir) && rel2 == rel && rel2.rel() == Math::CVecR3(r[0], r[1], r[2]) && rel2.pos() == a, "an assignment gives something else");
        });
        check(!o2.threw, "question-threw", "coordinates in cells: " + o2.str());
        check(wrong.empty(), "coordinate-differs", fmt("coordinates in cell (%g %g %g), at (%g %g %g) of it or %g along direction %d: ", p[0], p[1], p[2], r[0], r[1], r[2], len, dir) + wrong);
        probe("coordinates in cells");
    }
    void run() {
        std::vector<std::pair<size_t, P>> w; std::set<size_t> conf; int n = chance(1, 2) ? range(20, 26) : range(2, 14); size_t id = 0;
        for (int i = 0; i < n; i++) { id += 1 + (chance(1, 6) ? choose(3) : 0); P p = place(); w.push_back({id, p}); if (chance(1, 2)) conf.insert(id); }
        generation(w, conf);
        std::vector<size_t> l, m; for (size_t i = 1; i <= 4; i++) if (chance(3, 4)) l.push_back(i); for (size_t i = 1; i <= 5; i++) if (chance(3, 4)) m.push_back(i);
        layers(l); models(m);
        { SutScope z; g.reset(new EG()); }
        for (int k = range(3, 24); k > 0; k--) step();
        SutScope z; g.reset(); coords.clear(); lays.clear(); mats.clear();
        for (auto x : twinLays) delete x;
        for (auto x : twinMats) delete x;
    }
};
}

void sim::run() {
    setBudget(40000000);
    randomLayout();
    if (chance(1, 2)) { World<Math::Real> w; w.run(); } else { World<Math::Int> w; w.run(); }
    nontrivial();
}
