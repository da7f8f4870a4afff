// Coordinate collections and the elements on them, under seeded histories with allocation failures.
#include "sim/sim.h"
#include "geometry/coordinate/Group.h"
#include "geometry/element/Group.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Node.h"
#include <memory>
#include <algorithm>
#include <cmath>
using namespace SEMBA;
using namespace SEMBA::Geometry;
const char* const sim::kProperty = "C19";

typedef std::array<double, 4> P3;      // a position and whether it is a grid position
static bool same(const P3& a, const P3& b) {
    if (a[3] != b[3]) return false;
    for (int k = 0; k < 3; k++) if (!(std::fabs(a[k] - b[k]) <= 1e-8 * (std::fabs(a[k]) + std::fabs(b[k])))) return false;
    return true;
}
static std::string pstr(const P3& p) { return sim::fmt("(%g %g %g%s)", p[0], p[1], p[2], p[3] ? " grid" : ""); }

typedef Coordinate::Base Base;
template <class C> static const CoordI3* listAll(const Coordinate::Group<C>& g, const Math::CVecI3& v, std::vector<const Base*>& out) {
    SEMBA::Group::Group<const C> r = g.getAllInPos(v); for (size_t i = 0; i < r.size(); i++) out.push_back(r(i)); return nullptr;
}
template <class C> static void allInPos(const Coordinate::Group<C>& g, const Math::CVecI3& v, std::vector<const Base*>& out) { listAll(g, v, out); }
static void allInPos(const CoordR3Group&, const Math::CVecI3&, std::vector<const Base*>&) {}
static P3 posOf(const Base* c) {
    if (c->is<CoordI3>()) { auto p = c->castTo<CoordI3>()->pos(); return {double(p(0)), double(p(1)), double(p(2)), 1}; }
    auto p = c->castTo<CoordR3>()->pos(); return {p(0), p(1), p(2), 0};
}
static Math::CVecR3 vecR(const P3& p) { return Math::CVecR3(p[0], p[1], p[2]); }
static Math::CVecI3 vecI(const P3& p) { return Math::CVecI3(Math::Int(p[0]), Math::Int(p[1]), Math::Int(p[2])); }

struct Reals { typedef CoordR3 C; static const int kinds = 1; static C* make(size_t id, const P3& p) { return new CoordR3(CoordId(id), vecR(p)); } static const char* name() { return "real"; } };
struct Grids { typedef CoordI3 C; static const int kinds = 2; static C* make(size_t id, const P3& p) { return new CoordI3(CoordId(id), vecI(p)); } static const char* name() { return "grid"; } };
struct Mixed { typedef Base C; static const int kinds = 3; static C* make(size_t id, const P3& p) { if (p[3]) return new CoordI3(CoordId(id), vecI(p)); return new CoordR3(CoordId(id), vecR(p)); } static const char* name() { return "real and grid"; } };

static const Base* addOne(CoordR3Group& g, const P3& p, bool o) { return g.addPos(vecR(p), o); }
static const Base* addOne(CoordI3Group& g, const P3& p, bool o) { return g.addPos(vecI(p), o); }
static const Base* addOne(Coordinate::Group<Base>& g, const P3& p, bool o) { return p[3] ? g.addPos(vecI(p), o) : g.addPos(vecR(p), o); }
typedef std::vector<Math::CVecR3> VR; typedef std::vector<Math::CVecI3> VI;
static SEMBA::Group::Group<CoordR3> addAll(CoordR3Group& g, const VR& r, const VI&, bool, bool o) { return g.addPos(r, o); }
static SEMBA::Group::Group<CoordI3> addAll(CoordI3Group& g, const VR&, const VI& i, bool, bool o) { return g.addPos(i, o); }
static SEMBA::Group::Group<Base> addAll(Coordinate::Group<Base>& g, const VR& r, const VI& i, bool grid, bool o) { return grid ? g.addPos(i, o) : g.addPos(r, o); }
template <class K> struct World {
    typedef typename K::C C; typedef Coordinate::Group<C> G;
    typedef SEMBA::Group::Group<C> Plain;
    static const bool real = (K::kinds & 1) != 0;
    struct Obj { size_t id; P3 pos; const Base* p; };
    typedef std::shared_ptr<Obj> Ref;
    typedef std::vector<Ref> List;
    struct Col { std::unique_ptr<G> g; List ref; };
    std::vector<Col> cols;
    std::vector<P3> asked;      // positions ever used
    static const Base* find(const G& g, const P3& p) { if (p[3]) return g.getPos(vecI(p)); return g.getPos(vecR(p)); }
    static std::string str(const List& l) { std::string s = "["; for (auto& r : l) s += sim::fmt("%s%zu:%s", s.size() > 1 ? " " : "", r->id, pstr(r->pos).c_str()); return s + "]"; }

    std::string differs(G& g, const List& ref) {
        using namespace sim;
        std::string bad;
        Outcome o = call("inspect", [&] {
            FrameworkScope f0;
            auto sut = [&](auto&& f) { SutScope s; return f(); };
            const G& cg = g;
            size_t n = sut([&] { return cg.size(); });
            if (n != ref.size()) { bad = fmt("size %zu instead of %zu", n, ref.size()); return; }
            for (size_t i = 0; i < n; i++) {
                const Base* c = sut([&]() -> const Base* { return cg(i); });
                if (c != ref[i]->p) { bad = fmt("member %zu is another object", i); return; }
                if (c->getId().toInt() != ref[i]->id) { bad = fmt("member %zu has id %zu", i, c->getId().toInt()); return; }
                if (!same(posOf(c), ref[i]->pos)) { bad = fmt("member %zu is at ", i) + pstr(posOf(c)) + " instead of " + pstr(ref[i]->pos); return; }
                const Base* byId = sut([&]() -> const Base* { return cg.getId(CoordId(ref[i]->id)); });
                if (byId != c) { bad = fmt("id %zu finds another member", ref[i]->id); return; }
            }
            auto look = [&](const P3& p) {
                size_t there = 0; for (auto& r : ref) there += same(r->pos, p);
                const Base* got = sut([&] { return find(cg, p); });
                if (!got && there) { bad = "the member at " + pstr(p) + " is not found by position"; return false; }
                if (got) {
                    bool member = false; for (auto& r : ref) member |= r->p == got;
                    if (!member) { bad = "position " + pstr(p) + " finds something that is not a member"; return false; }
                    if (!same(posOf(got), p)) { bad = "position " + pstr(p) + " finds a member at " + pstr(posOf(got)); return false; }
                }
                if (p[3]) {
                    std::vector<const Base*> all;
                    sut([&] { allInPos(cg, vecI(p), all); return 0; });
                    std::set<const Base*> s(all.begin(), all.end());
                    if (s.size() != all.size() || all.size() != there) { bad = fmt("%zu members at ", all.size()) + pstr(p) + fmt(", expected %zu", there); return false; }
                    for (auto& r : ref) if (same(r->pos, p) != (s.count(r->p) > 0)) { bad = "wrong members listed at " + pstr(p); return false; }
                }
                return true;
            };
            for (auto& r : ref) if (!look(r->pos)) return;
            for (auto& p : asked) if (!look(p)) return;
        });
        if (o.threw) return "queries: " + o.str();
        return bad;
    }
    void expect(Col& c, const List& want, const char* what) {
        std::string d = differs(*c.g, want);
        sim::check(d.empty(), "coordinates-differ", std::string(what) + ": " + d + "; expected " + str(want));
        c.ref = want;
    }
    P3 somePos(const List& l) {
        using namespace sim;
        if (!l.empty() && chance(1, 3)) return l[choose(uint32_t(l.size()))]->pos;
        if (!asked.empty() && chance(1, 4)) return asked[choose(uint32_t(asked.size()))];
        P3 p; for (int k = 0; k < 3; k++) p[k] = int(choose(3)) - 1;
        if (chance(1, 4)) p[choose(3)] *= 3;
        p[3] = K::kinds == 3 ? choose(2) : K::kinds == 2;
        return p;
    }
    bool arm() {
        using namespace sim;
        if (!chance(1, 4)) return false;
        uint32_t at = choose(chance(1, 3) ? 120 : 30), many = chance(1, 3) ? 100000 : 1;
        failAlloc(at, many);
        return true;
    }
    bool disarm() {
        bool f = sim::allocFired();
        sim::failAllocOff();
        if (f) sim::fault("allocation failure");
        return f;
    }
    void keepCol(Col& nc) {
        if (cols.size() < 3) cols.push_back(std::move(nc));
        else { size_t i = sim::choose(3); sim::SutScope s; cols[i] = std::move(nc); }
    }
    bool alone(const Col& c) {
        for (auto& x : cols) if (&x != &c) for (auto& r : x.ref) for (auto& q : c.ref) if (r == q) return false;
        return true;
    }
    template <class T> void elements(Col&, T*) {}
    void elements(Col& c, CoordR3*) { elementsOf<Math::Real>(c); }
    void elements(Col& c, CoordI3*) { elementsOf<Math::Int>(c); }
    // elements over a collection follow their vertices by id into another collection
    template <class T> void elementsOf(Col& c) {
        using namespace sim;
        if (c.ref.empty()) return;
        typedef Element::Group<Element::Element<T>> EG;
        std::unique_ptr<EG> eg, copy; Col nc;
        struct El { size_t id; std::vector<size_t> v; };
        std::vector<El> els;
        int n = range(1, 4);
        { SutScope s; eg.reset(new EG()); }
        for (int i = 0; i < n; i++) {
            El e; e.id = i * 3 + 2;
            int nv = range(1, 2);
            for (int k = 0; k < nv; k++) e.v.push_back(choose(uint32_t(c.ref.size())));
            els.push_back(e);
            const C* v[2] = {c.ref[e.v[0]]->p->template castTo<C>(), c.ref[e.v[nv - 1]]->p->template castTo<C>()};
            SutScope s;
            if (nv == 1) eg->add(new Element::Node<T>(ElemId(e.id), v));
            else eg->add(new Element::Line2<T>(ElemId(e.id), v));
        }
        arm();
        Outcome o = call("move to a copy", [&] {
            nc.g.reset(c.g->clone());
            copy.reset(eg->clone());
            copy->reassignPointers(*nc.g);
        });
        bool fired = disarm();
        check(!o.threw || fired, "copy-refused", o.str());
        List want = c.ref;
        expect(c, want, "source of a copy");
        call("check elements", [&] {
            FrameworkScope f;
            for (size_t i = 0; i < els.size(); i++)
                for (size_t k = 0; k < els[i].v.size(); k++)
                    check(eg->get(i)->getV(k) == c.ref[els[i].v[k]]->p, "element-vertices", "an element of the source changed");
            if (o.threw) return;
            check(copy->size() == els.size(), "element-vertices", "elements were lost");
            for (size_t i = 0; i < els.size(); i++) {
                check(copy->get(i)->getId().toInt() == els[i].id, "element-vertices", "an element has another id");
                for (size_t k = 0; k < els[i].v.size(); k++) {
                    const Base* v = copy->get(i)->getV(k);
                    bool member = false; for (size_t j = 0; j < nc.g->size(); j++) member |= nc.g->get(j) == v;
                    check(member, "element-vertices", "a moved element refers to something outside the new collection");
                    check(v->getId().toInt() == c.ref[els[i].v[k]]->id, "element-vertices", "a moved element refers to another vertex");
                    check(same(posOf(v), c.ref[els[i].v[k]]->pos), "element-vertices", "a moved element's vertex is elsewhere");
                }
            }
        });
        { SutScope s; eg.reset(); copy.reset(); }
        if (!o.threw) {
            probe("elements moved to a copy");
            List w; for (size_t i = 0; i < want.size() && i < nc.g->size(); i++) w.push_back(Ref(new Obj{want[i]->id, want[i]->pos, nc.g->get(i)}));
            expect(nc, w, "copy"); keepCol(nc);
        } else { SutScope s; nc.g.reset(); }
    }
    void step() {
        using namespace sim;
        size_t ci = choose(uint32_t(cols.size()));
        Col& c = cols[ci];
        switch (choose(12)) {
            case 0: case 1: case 2: {   // one position
                P3 p = somePos(c.ref);
                asked.push_back(p);
                bool overlap = chance(1, 3);
                bool there = false; for (auto& r : c.ref) there |= same(r->pos, p);
                log("addPos %s overlap=%d on collection %zu", pstr(p).c_str(), overlap, ci);
                const Base* got = nullptr;
                arm();
                Outcome o = call("addPos", [&] { got = addOne(*c.g, p, overlap); });
                bool fired = disarm();
                check(!o.threw || fired, "insertion-refused", o.str());
                List want = c.ref;
                if (!o.threw) {
                    check(got != nullptr, "addPos-result", "addPos gave nothing");
                    check(same(posOf(got), p), "addPos-result", "addPos gave a coordinate elsewhere");
                    if (overlap || !there) {
                        std::set<size_t> used{0}; for (auto& r : c.ref) used.insert(r->id);
                        check(!used.count(got->getId().toInt()), "assigned-id", "the new coordinate's id is zero or in use");
                        want.push_back(Ref(new Obj{got->getId().toInt(), p, got}));
                    } else {
                        bool member = false; for (auto& r : c.ref) member |= r->p == got;
                        check(member, "addPos-result", "addPos gave a coordinate that is not a member");
                        probe("position already there");
                    }
                }
                expect(c, want, "adding a position");
                break;
            }
            case 3: {                   // several positions
                int n = range(1, 4);
                std::vector<P3> ps; double kind = K::kinds == 3 ? choose(2) : K::kinds == 2;
                for (int i = 0; i < n; i++) { P3 p = somePos(c.ref); if (p[3] != kind) { p[3] = kind; for (int k = 0; k < 3; k++) p[k] = std::floor(p[k]); } ps.push_back(p); asked.push_back(p); }
                std::vector<Math::CVecR3> vr; std::vector<Math::CVecI3> vi; for (auto& p : ps) { vr.push_back(vecR(p)); vi.push_back(vecI(p)); }
                bool overlap = chance(1, 3);
                log("addPos of %d positions overlap=%d on collection %zu", n, overlap, ci);
                std::vector<const Base*> got;
                got.reserve(8);
                arm();
                Outcome o = call("addPos", [&] { Plain r = addAll(*c.g, vr, vi, kind != 0, overlap); FrameworkScope f; for (size_t i = 0; i < r.size(); i++) got.push_back(r(i)); });
                bool fired = disarm();
                check(!o.threw || fired, "insertion-refused", o.str());
                if (o.threw) { List w = c.ref; expect(c, w, "after a failed addition"); break; }
                List want = c.ref;
                std::set<size_t> used{0}; for (auto& r : c.ref) used.insert(r->id);
                size_t k = 0;
                for (auto& p : ps) {
                    bool there = false; for (auto& r : c.ref) there |= same(r->pos, p);
                    if (there && !overlap) continue;
                    // a position repeated within one call may be stored once or repeatedly
                    bool repeated = false; for (size_t i = c.ref.size(); i < want.size(); i++) repeated |= same(want[i]->pos, p);
                    if (k < got.size() && same(posOf(got[k]), p)) {
                        check(used.insert(got[k]->getId().toInt()).second, "assigned-id", "a new coordinate's id is zero or in use");
                        want.push_back(Ref(new Obj{got[k]->getId().toInt(), p, got[k]})); k++;
                    } else check(repeated && !overlap, "addPos-result", "a new position was not added");
                }
                check(k == got.size(), "addPos-result", "more coordinates were added than positions were new");
                expect(c, want, "adding positions");
                break;
            }
            case 4: {                   // coordinates with given ids
                int n = range(1, 2);
                std::vector<C*> raw; List add;
                for (int i = 0; i < n; i++) {
                    P3 p = somePos(c.ref); asked.push_back(p);
                    size_t id = choose(5) == 0 ? 0 : 1 + choose(30);
                    SutScope s; raw.push_back(K::make(id, p));
                    FrameworkScope f; add.push_back(Ref(new Obj{id, p, raw.back()}));
                }
                std::set<size_t> used{0}; for (auto& r : c.ref) used.insert(r->id);
                bool bad = false; for (auto& r : add) bad |= !used.insert(r->id).second;
                List want = c.ref; want.insert(want.end(), add.begin(), add.end());
                log("add %s to collection %zu", str(add).c_str(), ci);
                Plain keep; { SutScope s; keep = Plain(raw); }
                int how = choose(2);
                arm();
                Outcome o = call("add", [&] { if (how) c.g->add(raw); else c.g->add(keep); });
                bool fired = disarm();
                { SutScope s; keep.clear(); }
                if (o.threw) { check(bad || fired, "insertion-refused", o.str()); if (bad && !fired) { probe("insertion rejected"); fault("zero or duplicate id"); } List w = c.ref; expect(c, w, "after a failed insertion"); }
                else { check(!bad, "bad-insertion-accepted", "a zero or duplicate id was accepted"); expect(c, want, "insertion"); }
                break;
            }
            case 5: {                   // remove
                if (c.ref.empty()) break;
                std::vector<size_t> pos; int n = range(1, 3);
                for (int i = 0; i < n; i++) pos.push_back(choose(uint32_t(c.ref.size())));
                List want; for (size_t i = 0; i < c.ref.size(); i++) if (!std::count(pos.begin(), pos.end(), i)) want.push_back(c.ref[i]);
                std::vector<CoordId> ids; for (size_t i : pos) ids.push_back(CoordId(c.ref[i]->id));
                int how = choose(n == 1 ? 4 : 2);
                log("remove %d of collection %zu", n, ci);
                arm();
                Outcome o = call("remove", [&] { if (how == 0) c.g->remove(pos); else if (how == 1) c.g->removeId(ids); else if (how == 2) c.g->remove(pos[0]); else c.g->removeId(ids[0]); });
                bool fired = disarm();
                check(!o.threw || fired, "removal-refused", o.str());
                List before = c.ref;
                if (o.threw) expect(c, before, "after a failed removal"); else expect(c, want, "removal");
                break;
            }
            case 6: {                   // scale
                if (!real || !alone(c)) break;
                static const std::vector<double> factors{2, 0.5, 10, 0.1, -1, -2};
                double f = pick(factors);
                double m = 1; for (auto& r : c.ref) for (int k = 0; k < 3 && !r->pos[3]; k++) if (double x = r->pos[k]) { m = std::max(m, std::fabs(x)); if (std::fabs(x * f) < 1e-4) f = 2; }
                if (m * std::fabs(f) > 1e6) f = 0.5;
                log("scale collection %zu by %g", ci, f);
                arm();
                Outcome o = call("scale", [&] { scale(*c.g, f); });
                bool fired = disarm();
                check(!o.threw || fired, "scaling-refused", o.str());
                List want = c.ref;
                if (!o.threw) for (auto& r : want) { if (r->pos[3]) continue; for (int k = 0; k < 3; k++) r->pos[k] *= f; if (asked.size() < 60) asked.push_back(r->pos); }
                if (f < 0) probe("scaled by a negative factor");
                expect(c, want, o.threw ? "after a failed scaling" : "scaling");
                break;
            }
            case 7: {                   // copies
                bool deep = chance(1, 2);
                Col nc;
                log("%s copy of collection %zu", deep ? "deep" : "shared", ci);
                arm();
                Outcome o = call("copy", [&] { if (deep) nc.g.reset(c.g->clone()); else nc.g.reset(new G(*c.g)); });
                bool fired = disarm();
                check(!o.threw || fired, "copy-refused", o.str());
                if (o.threw) break;
                List want;
                for (size_t i = 0; i < c.ref.size(); i++) want.push_back(deep ? Ref(new Obj{c.ref[i]->id, c.ref[i]->pos, i < nc.g->size() ? nc.g->get(i) : nullptr}) : c.ref[i]);
                if (deep) for (size_t i = 0; i < want.size(); i++) check(want[i]->p != c.ref[i]->p, "copy-shares", "a deep copy shares its members");
                expect(nc, want, "copy"); keepCol(nc);
                break;
            }
            case 8: {                   // assignment
                size_t di = choose(uint32_t(cols.size()));
                Col& d = cols[di];
                int how = choose(3);
                List want = c.ref, before = d.ref;
                log("collection %zu = collection %zu", di, ci);
                arm();
                Outcome o = call("assign", [&] {
                    if (how == 0) *d.g = *c.g;
                    else if (how == 1) { Plain& p = *c.g; *d.g = p; }
                    else { Plain p(static_cast<Plain&>(*c.g)); *d.g = std::move(p); }
                });
                bool fired = disarm();
                check(!o.threw || fired, "assignment-refused", o.str());
                if (o.threw) expect(d, before, "after a failed assignment"); else expect(d, want, "assignment");
                break;
            }
            case 9: elements(c, (C*) nullptr); break;
            case 10: {                  // replace a member
                if (c.ref.empty()) break;
                size_t at = choose(uint32_t(c.ref.size()));
                P3 p = somePos(c.ref); asked.push_back(p);
                size_t id = chance(1, 2) ? c.ref[at]->id : choose(31);
                C* raw; { SutScope s; raw = K::make(id, p); }
                bool bad = id == 0; for (size_t i = 0; i < c.ref.size(); i++) bad |= i != at && c.ref[i]->id == id;
                List want = c.ref; want[at] = Ref(new Obj{id, p, raw});
                log("replace member %zu of collection %zu by %zu:%s", at, ci, id, pstr(p).c_str());
                Plain keep; if (chance(1, 2)) { SutScope s; keep = Plain(raw); }
                arm();
                Outcome o = call("set", [&] { c.g->set(at, raw); });
                bool fired = disarm();
                { SutScope s; keep.clear(); }
                if (o.threw) { check(bad || fired, "insertion-refused", o.str()); if (bad && !fired) { probe("replacement rejected"); fault("zero or duplicate id"); } List w = c.ref; expect(c, w, "after a failed replacement"); }
                else { check(!bad, "bad-insertion-accepted", "a zero or duplicate id was accepted"); expect(c, want, "replacement"); probe("member replaced"); }
                break;
            }
            default:
                if (chance(1, 3)) { log("clear collection %zu", ci); { SutScope s; c.g->clear(); } expect(c, List(), "clear"); }
                break;
        }
        for (auto& x : cols) { std::string d = differs(*x.g, x.ref); check(d.empty(), "other-collection", "another collection changed: " + d + "; expected " + str(x.ref)); }
        std::string st; for (auto& x : cols) st += str(x.ref) + ";";
        state(st);
    }
    template <class T> static void scale(Coordinate::Group<T>& g, double f) { g.applyScalingFactor(f); }
    static void scale(CoordI3Group&, double) {}
    void run() {
        using namespace sim;
        Col c; { SutScope s; c.g.reset(new G()); }
        cols.push_back(std::move(c));
        int n = range(4, 26);
        log("history of %d operations on %s coordinates, heap %s", n, K::name(), layoutName().c_str());
        for (int i = 0; i < n; i++) step();
        nontrivial();
        while (!cols.empty()) { size_t i = choose(uint32_t(cols.size())); { SutScope s; cols[i].g.reset(); } cols.erase(cols.begin() + i); for (auto& x : cols) { List w = x.ref; expect(x, w, "after another collection was released"); } }
    }
};

void sim::run() {
    setBudget(20000000);
    randomLayout();
    switch (choose(3)) { case 0: { World<Grids> w; w.run(); break; } case 1: { World<Reals> w; w.run(); break; } default: { World<Mixed> w; w.run(); } }
}
