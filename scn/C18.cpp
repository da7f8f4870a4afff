// Identified collections against a plain list, under seeded histories with rejected and out-of-memory operations.
#include "sim/sim.h"
#include "geometry/layer/Group.h"
#include "geometry/coordinate/Group.h"
#include "geometry/element/Group.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "source/Group.h"
#include "source/PlaneWave.h"
#include "source/Generator.h"
#include "outputRequest/Group.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include <memory>
#include <algorithm>
using namespace SEMBA;
const char* const sim::kProperty = "C18";

struct Layers {
    typedef Geometry::Layer::Layer T; typedef Geometry::LayerId Id; typedef Geometry::Layer::Group<> G;
    static T* make(size_t id, int serial) { return new T(Id(id), sim::fmt("n%d", serial)); }
    static int serial(const T* t) { return atoi(t->getName().c_str() + 1); }
    static const char* name() { return "layers"; }
    template <class F> static void kinds(F&& f) { f((T*) nullptr, "layers", [](int) { return true; }, [](int) { return true; }); }
};
struct Models {
    typedef PhysicalModel::PhysicalModel T; typedef PhysicalModel::Id Id; typedef PhysicalModel::Group<> G;
    static T* make(size_t id, int serial) {
        if (serial % 3 == 0) return new PhysicalModel::Predefined::SMA(Id(id), sim::fmt("n%d", serial));
        if (serial % 3 == 1) return new PhysicalModel::Predefined::PEC(Id(id), sim::fmt("n%d", serial));
        return new PhysicalModel::Predefined::PMC(Id(id), sim::fmt("n%d", serial));
    }
    static int serial(const T* t) { return atoi(t->getName().c_str() + 1); }
    static const char* name() { return "materials"; }
    template <class F> static void kinds(F&& f) {
        auto none = [](int) { return false; }; auto all = [](int) { return true; };
        if (sim::chance(1, 4)) f((PhysicalModel::Predefined::Predefined*) nullptr, "predefined", all, none);
        else if (sim::chance(1, 2)) { auto is = [](int s) { return s % 3 == 1; }; f((PhysicalModel::Predefined::PEC*) nullptr, "conductors", is, is); }
        else { auto is = [](int s) { return s % 3 == 0; }; f((PhysicalModel::Predefined::SMA*) nullptr, "absorbers", is, is); }
    }
};
struct Coords {
    typedef Geometry::CoordR3 T; typedef Geometry::CoordId Id; typedef Geometry::Coordinate::Group<T> G;
    static T* make(size_t id, int serial) { return new T(Id(id), Math::CVecR3(serial, serial % 3, 0)); }
    static int serial(const T* t) { return int(t->pos()(0) + 0.5); }
    static const char* name() { return "coordinates"; }
    template <class F> static void kinds(F&& f) { f((T*) nullptr, "real coordinates", [](int) { return true; }, [](int) { return true; }); }
};
struct Elems {
    typedef Geometry::ElemR T; typedef Geometry::ElemId Id; typedef Geometry::Element::Group<T> G;
    static const Geometry::CoordR3* at(int i) {
        static std::map<int, std::unique_ptr<Geometry::CoordR3>> all;
        sim::FrameworkScope f;
        auto& c = all[i]; if (!c) c.reset(new Geometry::CoordR3(Geometry::CoordId(i), Math::CVecR3(i, i * i % 7, i % 3)));
        return c.get();
    }
    static T* make(size_t id, int serial) {
        const Geometry::CoordR3* v[6]; for (int k = 0; k < 6; k++) v[k] = at(serial + k);
        switch (serial % 4) {
            case 0: return new Geometry::NodR(Id(id), v);
            case 1: return new Geometry::LinR2(Id(id), v);
            case 2: return new Geometry::Tri3(Id(id), v);
            default: return new Geometry::Tri6(Id(id), v);
        }
    }
    static int serial(const T* t) { return int(t->getV(0)->getId().toInt()); }
    static const char* name() { return "elements"; }
    template <class F> static void kinds(F&& f) {
        auto none = [](int) { return false; };
        switch (sim::choose(5)) {
            case 0: f((Geometry::Tri*) nullptr, "triangles", [](int s) { return s % 4 >= 2; }, none); break;
            case 1: { auto is = [](int s) { return s % 4 == 2; }; f((Geometry::Tri3*) nullptr, "flat triangles", is, is); break; }
            case 2: { auto is = [](int s) { return s % 4 == 1; }; f((Geometry::LinR2*) nullptr, "lines", is, is); break; }
            case 3: { auto is = [](int s) { return s % 4 == 0; }; f((Geometry::NodR*) nullptr, "nodes", is, is); break; }
            default: f((Geometry::SurfR*) nullptr, "surfaces", [](int s) { return s % 4 >= 2; }, none);
        }
    }
};

template <class K> struct World {
    typedef typename K::T T; typedef typename K::Id Id; typedef typename K::G G;
    typedef SEMBA::Group::Group<T> Plain;
    struct Ref { size_t id; int serial; const T* p; };
    typedef std::vector<Ref> List;
    struct Col { std::unique_ptr<G> g; List ref; size_t top = 0; };   // top: largest id it may have seen since created, cleared or assigned
    std::vector<Col> cols;
    int nextSerial = 1;
    size_t maxId = 14;

    static std::string str(const List& l) { std::string s = "["; for (auto& r : l) s += sim::fmt("%s%zu:n%d", s.size() > 1 ? " " : "", r.id, r.serial); return s + "]"; }
    // empty when the collection is that list, otherwise what differs
    static std::string differs(G& g, const List& ref, size_t maxId) {
        using sim::fmt;
        std::string bad;
        sim::Outcome o = sim::call("inspect", [&] {
            sim::FrameworkScope f0;
            auto sut = [&](auto&& f) { sim::SutScope s; return f(); };
            size_t n = sut([&] { return g.size(); });
            if (n != ref.size()) { bad = fmt("size %zu instead of %zu", n, ref.size()); return; }
            if (sut([&] { return g.empty(); }) != ref.empty()) { bad = "empty() is wrong"; return; }
            const G& cg = g;
            for (size_t i = 0; i < n; i++) {
                const T* t = sut([&] { return cg(i); });
                if (t != ref[i].p) { bad = fmt("member %zu is another object", i); return; }
                size_t id = sut([&] { return t->getId().toInt(); });
                if (id != ref[i].id) { bad = fmt("member %zu has id %zu instead of %zu", i, id, ref[i].id); return; }
                if (sut([&] { return K::serial(t); }) != ref[i].serial) { bad = fmt("member %zu has other content", i); return; }
            }
            std::vector<size_t> ids = sut([&] { std::vector<size_t> r; for (auto& x : cg.getIds()) r.push_back(x.toInt()); return r; });
            if (ids.size() != n) { bad = "getIds() has another length"; return; }
            for (size_t i = 0; i < n; i++) if (ids[i] != ref[i].id) { bad = fmt("getIds()[%zu] is %zu", i, ids[i]); return; }
            size_t top = maxId;
            for (auto& r : ref) top = std::max(top, r.id + 1);
            for (size_t id = 0; id <= top + 1; id++) {
                const T* want = nullptr;
                for (auto& r : ref) if (r.id == id) want = r.p;
                bool ex = sut([&] { return cg.existId(Id(id)); });
                if (ex != (want != nullptr)) { bad = fmt("existId(%zu) says %d", id, ex); return; }
                const T* got = nullptr; bool threw = false;
                if (!want && (id * 7 + ref.size()) % 5) continue;   // refusing lookups are slow: some of them
                for (int k = 0; k < 2; k++) {
                    try { got = sut([&] { return k ? static_cast<const T*>(g.getId(Id(id))) : cg.getId(Id(id)); }); } catch (const std::exception&) { threw = true; got = nullptr; }
                    if (want && got != want) { bad = fmt("getId(%zu) %s", id, threw ? "throws" : "gives another object"); return; }
                    if (!want && !threw) { bad = fmt("getId(%zu) finds something that is not there", id); return; }
                }
            }
        });
        if (o.threw) return "queries: " + o.str();
        return bad;
    }
    void expect(Col& c, const List& want, const char* what) {
        std::string d = differs(*c.g, want, maxId);
        sim::check(d.empty(), "collection-differs", std::string(what) + ": " + d + "; expected " + str(want));
        c.ref = want;
        c.top = std::max(c.top, largest(want));
    }
    static size_t largest(const List& l) { size_t m = 0; for (auto& r : l) m = std::max(m, r.id); return m; }
    Ref fresh(size_t id) {
        int s = nextSerial++;
        T* t; { sim::SutScope ss; t = K::make(id, s); }
        return Ref{id, s, t};
    }
    size_t someId(const List& l) {
        using namespace sim;
        switch (choose(5)) {
            case 0: return maxId + 1 + choose(3);
            case 1: if (!l.empty()) return l[choose(uint32_t(l.size()))].id;
            case 2: return 0;
            default: return 1 + choose(uint32_t(maxId));
        }
    }
    static bool rejects(const List& have, const std::vector<Ref>& add) {
        std::set<size_t> ids; for (auto& r : have) ids.insert(r.id);
        for (auto& r : add) if (r.id == 0 || !ids.insert(r.id).second) return true;
        return false;
    }
    // arms an allocation failure for the next call, sometimes
    bool arm() {
        using namespace sim;
        if (!chance(1, 4)) return false;
        uint32_t at = choose(30), many = chance(1, 3) ? 100000 : 1;
        if (chance(1, 3)) at = choose(120);
        failAlloc(at, many);
        return true;
    }
    bool disarm() {
        using namespace sim;
        bool f = allocFired();
        failAllocOff();
        if (f) fault("allocation failure");
        return f;
    }
    // judges an operation that inserts: on success the list must be want, otherwise as before
    void judge(Col& c, const sim::Outcome& o, bool fired, bool mustReject, const List& want, const char* what) {
        using namespace sim;
        if (o.threw) {
            check(mustReject || fired, "good-insertion-refused", std::string(what) + ": " + o.str());
            if (mustReject && !fired) { probe("insertion rejected"); fault("zero or duplicate id"); }
            List before = c.ref;
            expect(c, before, fmt("after a failed %s", what).c_str());
            return;
        }
        check(!mustReject, "bad-insertion-accepted", std::string(what) + " of a zero or duplicate id was accepted");
        expect(c, want, what);
    }
    void step() {
        using namespace sim;
        size_t ci = choose(uint32_t(cols.size()));
        Col& c = cols[ci];
        switch (choose(14)) {
            case 0: case 1: {   // add members with given ids
                int n = choose(4) == 0 ? range(2, 4) : 1;
                std::vector<Ref> add;
                for (int i = 0; i < n; i++) add.push_back(fresh(chance(3, 4) ? 1 + choose(uint32_t(maxId)) : someId(c.ref)));
                bool bad = rejects(c.ref, add);
                List want = c.ref; want.insert(want.end(), add.begin(), add.end());
                int how = n == 1 ? choose(3) : 1 + choose(2);
                log("add %s to collection %zu", str(add).c_str(), ci);
                std::vector<T*> raw; for (auto& r : add) raw.push_back(const_cast<T*>(r.p));
                Plain keep;
                if (how == 2) { SutScope s; keep = Plain(raw); }
                arm();
                Outcome o = call("add", [&] { if (how == 0) c.g->add(raw[0]); else if (how == 1) c.g->add(raw); else c.g->add(keep); });
                bool fired = disarm();
                judge(c, o, fired, bad, want, "insertion");
                { SutScope s; keep.clear(); }
                break;
            }
            case 2: case 3: {   // add members with assigned ids
                int n = range(1, 3);
                std::vector<Ref> add;
                for (int i = 0; i < n; i++) add.push_back(fresh(chance(1, 2) ? 0 : someId(c.ref)));
                std::vector<T*> raw; for (auto& r : add) raw.push_back(const_cast<T*>(r.p));
                int how = n == 1 ? choose(3) : 1 + choose(2);
                log("add %d members to collection %zu with assigned ids", n, ci);
                Plain keep;
                { SutScope s; keep = Plain(raw); }
                arm();
                Outcome o = call("addId", [&] { if (how == 0) c.g->addId(raw[0]); else if (how == 1) c.g->addId(raw); else c.g->addId(keep); });
                bool fired = disarm();
                List want = c.ref;
                if (!o.threw) {
                    std::set<size_t> used{0}; for (auto& r : c.ref) used.insert(r.id);
                    size_t first = add[0].p->getId().toInt();
                    check(first > largest(c.ref) && first <= c.top + 1, "assigned-id", fmt("the first assigned id is %zu; the largest was %zu; %s", first, c.top, str(c.ref).c_str()));
                    for (auto& r : add) {
                        r.id = r.p->getId().toInt();
                        check(r.id == first + size_t(&r - &add[0]), "assigned-id", fmt("assigned id %zu does not follow %zu", r.id, first));
                        check(used.insert(r.id).second, "assigned-id", fmt("assigned id %zu is zero or in use; %s", r.id, str(c.ref).c_str()));
                        want.push_back(r);
                    }
                }
                if (o.threw) c.top += add.size();
                judge(c, o, fired, false, want, "insertion with assigned ids");
                { SutScope s; keep.clear(); }
                break;
            }
            case 4: {           // remove by position
                if (c.ref.empty()) break;
                std::vector<size_t> pos;
                int n = chance(1, 2) ? 1 : range(1, 4);
                for (int i = 0; i < n; i++) pos.push_back(choose(uint32_t(c.ref.size())));
                List want;
                for (size_t i = 0; i < c.ref.size(); i++) if (!std::count(pos.begin(), pos.end(), i)) want.push_back(c.ref[i]);
                log("remove %zu position(s) from collection %zu", pos.size(), ci);
                bool one = n == 1 && chance(1, 2);
                arm();
                Outcome o = call("remove", [&] { if (one) c.g->remove(pos[0]); else c.g->remove(pos); });
                bool fired = disarm();
                check(!o.threw || fired, "removal-refused", o.str());
                List before = c.ref;
                if (o.threw) expect(c, before, "after a failed removal"); else expect(c, want, "removal by position");
                break;
            }
            case 5: {           // remove by id
                std::vector<size_t> ids;
                int n = range(1, 3);
                for (int i = 0; i < n; i++) ids.push_back(someId(c.ref));
                List want;
                for (auto& r : c.ref) if (!std::count(ids.begin(), ids.end(), r.id)) want.push_back(r);
                std::vector<Id> v; for (size_t i : ids) v.push_back(Id(i));
                log("remove %zu id(s) from collection %zu", ids.size(), ci);
                bool one = n == 1 && chance(1, 2);
                arm();
                Outcome o = call("removeId", [&] { if (one) c.g->removeId(v[0]); else c.g->removeId(v); });
                bool fired = disarm();
                check(!o.threw || fired, "removal-refused", o.str());
                List before = c.ref;
                if (o.threw) expect(c, before, "after a failed removal"); else expect(c, want, "removal by id");
                break;
            }
            case 6: {           // sub-selection by id, kept as a new collection
                std::vector<size_t> ids;
                int n = range(0, 5);
                for (int i = 0; i < n; i++) ids.push_back(someId(c.ref));
                std::vector<Id> v; for (size_t i : ids) v.push_back(Id(i));
                List want;
                for (auto& r : c.ref) if (std::count(ids.begin(), ids.end(), r.id)) want.push_back(r);
                log("select %zu id(s) of collection %zu", ids.size(), ci);
                Col nc;
                arm();
                Outcome o = call("getId(ids)", [&] { nc.g.reset(new G(c.g->getId(v))); });
                bool fired = disarm();
                check(!o.threw || fired, "selection-refused", o.str());
                List before = c.ref;
                expect(c, before, "source of a selection");
                if (!o.threw) { expect(nc, want, "selection by id"); keepCol(nc, ci); }
                break;
            }
            case 7: {           // sub-selection by position
                if (c.ref.empty()) break;
                std::vector<size_t> pos;
                int n = range(0, 4);
                for (int i = 0; i < n; i++) pos.push_back(choose(uint32_t(c.ref.size())));
                List want;
                for (size_t i = 0; i < c.ref.size(); i++) if (std::count(pos.begin(), pos.end(), i)) want.push_back(c.ref[i]);
                log("select %zu position(s) of collection %zu", pos.size(), ci);
                Col nc;
                arm();
                Outcome o = call("get(positions)", [&] { Plain p = c.g->get(pos); nc.g.reset(new G(p)); });
                bool fired = disarm();
                check(!o.threw || fired, "selection-refused", o.str());
                if (!o.threw) { expect(nc, want, "selection by position"); keepCol(nc, ci); }
                break;
            }
            case 8: {           // copy, shared or deep
                bool deep = chance(1, 2);
                log("%s copy of collection %zu", deep ? "deep" : "shared", ci);
                Col nc;
                arm();
                Outcome o = call("copy", [&] { if (deep) nc.g.reset(c.g->clone()); else nc.g.reset(new G(*c.g)); });
                bool fired = disarm();
                check(!o.threw || fired, "copy-refused", o.str());
                List before = c.ref;
                expect(c, before, "source of a copy");
                if (!o.threw) {
                    List want = c.ref;
                    if (deep) { SutScope s; for (size_t i = 0; i < want.size() && i < nc.g->size(); i++) { FrameworkScope f; check(nc.g->get(i) != want[i].p, "copy-shares", "a deep copy shares its members"); want[i].p = nc.g->get(i); } }
                    nc.top = c.top; expect(nc, want, "copy"); keepCol(nc, ci);
                }
                break;
            }
            case 9: {           // assignment
                size_t di = choose(uint32_t(cols.size()));
                Col& d = cols[di];
                int how = choose(3);
                log("collection %zu = collection %zu", di, ci);
                List want = c.ref, before = d.ref;
                arm();
                Outcome o = call("assign", [&] {
                    if (how == 0) *d.g = *c.g;
                    else if (how == 1) { Plain& p = *c.g; *d.g = p; }
                    else { Plain p(static_cast<Plain&>(*c.g)); *d.g = std::move(p); }
                });
                bool fired = disarm();
                check(!o.threw || fired, "assignment-refused", o.str());
                if (o.threw) expect(d, before, "after a failed assignment"); else { if (&c != &d) d.top = largest(want); expect(d, want, "assignment"); }
                expect(c, want, "source of an assignment");
                break;
            }
            case 10: {          // everything of another collection
                size_t si = choose(uint32_t(cols.size()));
                if (si == ci && cols.size() > 1) si = (si + 1) % cols.size();
                Col& s = cols[si];
                bool bad = rejects(c.ref, s.ref);
                List want = c.ref; want.insert(want.end(), s.ref.begin(), s.ref.end());
                log("add all of collection %zu to collection %zu", si, ci);
                arm();
                Outcome o = call("add", [&] { c.g->add(*s.g); });
                bool fired = disarm();
                judge(c, o, fired, bad, want, "insertion of a collection");
                break;
            }
            case 13: default: {
                if (!chance(1, 3)) {    // an out-of-memory or plain lookup must not disturb anything
                    size_t id = someId(c.ref);
                    arm();
                    call("getId", [&] { c.g->getId(Id(id)); });
                    disarm();
                    List before = c.ref; expect(c, before, "after a lookup");
                    break;
                }
                log("clear collection %zu", ci);
                { SutScope s; c.g->clear(); }
                c.top = 0;
                expect(c, List(), "clear");
                break;
            }
            case 11: {          // replace a member
                if (c.ref.empty()) break;
                size_t at = choose(uint32_t(c.ref.size()));
                Ref r = fresh(chance(1, 3) ? c.ref[at].id : someId(c.ref));
                bool bad = r.id == 0;
                for (size_t i = 0; i < c.ref.size(); i++) bad |= i != at && c.ref[i].id == r.id;
                List want = c.ref; want[at] = r;
                bool keepIt = chance(1, 2);     // whether somebody else holds it too
                log("replace member %zu of collection %zu by %zu:n%d", at, ci, r.id, r.serial);
                T* raw = const_cast<T*>(r.p);
                Plain keep;
                if (keepIt) { SutScope s; keep = Plain(raw); }
                arm();
                Outcome o = call("set", [&] { c.g->set(at, raw); });
                bool fired = disarm();
                judge(c, o, fired, bad, want, "replacement");
                if (!o.threw) probe("member replaced");
                { SutScope s; keep.clear(); }
                break;
            }
            case 12: {          // selection by kind
                K::kinds([&](auto* k, const char* name, auto is, auto only) { byKind(c, ci, k, name, is, only); });
                break;
            }
        }
        // the other collections are not disturbed
        for (auto& x : cols) if (x.g) { std::string d = differs(*x.g, x.ref, maxId); sim::check(d.empty(), "other-collection", "another collection changed: " + d + "; expected " + str(x.ref)); }
        std::string st; for (auto& x : cols) st += str(x.ref) + ";";
        for (char& ch : st) if (ch == 'n') ch = ' ';
        state(st);
    }
    template <class T2, class F1, class F2> void byKind(Col& c, size_t ci, T2*, const char* name, F1&& is, F2&& only) {
        using namespace sim;
        bool strict = chance(1, 2), readOnly = chance(1, 2);
        List want;
        for (auto& r : c.ref) if (strict ? only(r.serial) : is(r.serial)) want.push_back(r);
        size_t all = 0; for (auto& r : c.ref) all += is(r.serial);
        log("select the %s%s of collection %zu", strict ? "exact " : "", name, ci);
        std::unique_ptr<SEMBA::Group::Group<T2>> g; std::unique_ptr<SEMBA::Group::Group<const T2>> cg;
        size_t n = 0; bool none = false;
        arm();
        Outcome o = call("getOf", [&] {
            G& s = *c.g; const G& cs = s;
            n = cs.template sizeOf<T2>(); none = cs.template emptyOf<T2>();
            if (readOnly) cg.reset(new SEMBA::Group::Group<const T2>(strict ? cs.template getOfOnly<T2>() : cs.template getOf<T2>()));
            else g.reset(new SEMBA::Group::Group<T2>(strict ? s.template getOfOnly<T2>() : s.template getOf<T2>()));
        });
        bool fired = disarm();
        check(!o.threw || fired, "selection-refused", o.str());
        if (!o.threw) {
            check(n == all && none == (all == 0), "kind-selection", fmt("%zu %s are counted (none: %d), there are %zu in %s", n, name, none, all, str(c.ref).c_str()));
            std::vector<const T*> got;
            call("inspect selection", [&] { size_t m = readOnly ? cg->size() : g->size(); for (size_t i = 0; i < m; i++) { const T2* p = readOnly ? (*cg)(i) : (*g)(i); const T* q = dynamic_cast<const T*>(p); FrameworkScope f; got.push_back(q); } });
            bool ok = got.size() == want.size();
            for (size_t i = 0; ok && i < got.size(); i++) ok = got[i] == want[i].p;
            check(ok, "kind-selection", fmt("selecting the %s%s gives %zu members that are not ", strict ? "exact " : "", name, got.size()) + str(want));
            probe("selected by kind");
        }
        { SutScope s; g.reset(); cg.reset(); }
        List before = c.ref;
        expect(c, before, "source of a selection by kind");
    }
    void keepCol(Col& nc, size_t) {
        if (cols.size() < 3) cols.push_back(std::move(nc));
        else { size_t i = sim::choose(3); sim::SutScope s; cols[i] = std::move(nc); }
    }
    void run() {
        using namespace sim;
        Col c; { SutScope s; c.g.reset(new G()); }
        cols.push_back(std::move(c));
        maxId = range(3, 14);
        int n = range(4, 28);
        log("history of %d operations on %s, heap %s", n, K::name(), layoutName().c_str());
        for (int i = 0; i < n; i++) step();
        nontrivial();
        while (!cols.empty()) { size_t i = choose(uint32_t(cols.size())); { SutScope s; cols[i].g.reset(); } cols.erase(cols.begin() + i); for (auto& x : cols) { List w = x.ref; expect(x, w, "after another collection was released"); } }
    }
};

// Collections without ids.
struct Sources {
    typedef Source::Base T; typedef Source::Group<> G;
    static T* make(int serial) {
        if (serial % 2) return new Source::PlaneWave(nullptr, Geometry::Element::Group<Geometry::Vol>(), serial, 0.5);
        return new Source::Generator(nullptr, Geometry::Element::Group<const Geometry::Nod>(), serial % 4 ? Source::Generator::voltage : Source::Generator::current, Source::Generator::soft);
    }
    static bool same(const T* t, int serial) {
        if (serial % 2) { auto* p = dynamic_cast<const Source::PlaneWave*>(t); return p && p->getNumberOfRandomPlanewaves() == serial; }
        auto* g = dynamic_cast<const Source::Generator*>(t); return g && g->getType() == (serial % 4 ? Source::Generator::voltage : Source::Generator::current);
    }
    static const char* name() { return "sources"; }
    template <class F> static void kinds(F&& f) {
        if (sim::chance(1, 2)) { auto is = [](int s) { return s % 2 == 1; }; f((Source::PlaneWave*) nullptr, "plane waves", is, is); }
        else { auto is = [](int s) { return s % 2 == 0; }; f((Source::Generator*) nullptr, "generators", is, is); }
    }
};
struct Requests {
    typedef OutputRequest::Base T; typedef OutputRequest::Group<> G;
    static T* make(int serial) {
        std::string name = sim::fmt("n%d", serial);
        if (serial % 3 == 0) return new OutRqElem(OutputRequest::Domain(), OutputRequest::Base::electric, name, Geometry::Element::Group<Geometry::Elem>());
        if (serial % 3 == 1) return new OutputRequest::BulkCurrent(OutputRequest::Domain(), name, Geometry::Element::Group<const Geometry::Elem>(), Math::Constants::x, 1);
        return new OutputRequest::FarField(OutputRequest::Domain(), name, Geometry::Element::Group<Geometry::Vol>(), 0, 1, 1, 0, 1, 1);
    }
    static bool same(const T* t, int serial) { return t->getName() == sim::fmt("n%d", serial); }
    static const char* name() { return "output requests"; }
    template <class F> static void kinds(F&& f) {
        auto none = [](int) { return false; };
        if (sim::chance(1, 3)) { auto is = [](int s) { return s % 3 == 1; }; f((OutputRequest::BulkCurrent*) nullptr, "bulk currents", is, is); }
        else if (sim::chance(1, 2)) { auto is = [](int s) { return s % 3 == 2; }; f((OutputRequest::FarField*) nullptr, "far fields", is, is); }
        else f((OutRqElem*) nullptr, "requests on elements", [](int s) { return s % 3 != 2; }, [](int s) { return s % 3 == 0; });
        (void) none;
    }
};

template <class K> struct Listed {
    typedef typename K::T T; typedef typename K::G G;
    typedef SEMBA::Group::Group<T> Plain;
    struct Ref { int serial; const T* p; };
    typedef std::vector<Ref> List;
    struct Col { std::unique_ptr<G> g; List ref; };
    std::vector<Col> cols;
    int nextSerial = 1;
    static std::string str(const List& l) { std::string s = "["; for (auto& r : l) s += sim::fmt("%sn%d", s.size() > 1 ? " " : "", r.serial); return s + "]"; }
    static std::string differs(G& g, const List& ref) {
        std::string bad;
        sim::Outcome o = sim::call("inspect", [&] {
            const G& cg = g;
            if (g.size() != ref.size() || cg.empty() != ref.empty()) { size_t n = g.size(); sim::FrameworkScope f; bad = sim::fmt("size %zu instead of %zu", n, ref.size()); return; }
            for (size_t i = 0; i < ref.size(); i++) {
                bool ok = cg(i) == ref[i].p && g(i) == ref[i].p && g.get(i) == ref[i].p;
                if (!ok) { sim::FrameworkScope f; bad = sim::fmt("member %zu is another object", i); return; }
                if (!K::same(ref[i].p, ref[i].serial)) { sim::FrameworkScope f; bad = sim::fmt("member %zu has other content", i); return; }
            }
        });
        if (o.threw) return "queries: " + o.str();
        return bad;
    }
    void expect(Col& c, const List& want, const std::string& what) {
        std::string d = differs(*c.g, want);
        sim::check(d.empty(), "collection-differs", what + ": " + d + "; expected " + str(want));
        c.ref = want;
    }
    Ref fresh() { int s = nextSerial++; T* t; { sim::SutScope ss; t = K::make(s); } return Ref{s, t}; }
    bool armed = false;
    void arm() { using namespace sim; armed = chance(1, 4); if (armed) { uint32_t at = choose(chance(1, 3) ? 60 : 10), many = chance(1, 3) ? 100000 : 1; failAlloc(at, many); } }
    // what is there after an operation that may have run out of memory
    void judge(Col& c, const sim::Outcome& o, const List& want, const std::string& what) {
        using namespace sim;
        bool fired = armed && allocFired();
        failAllocOff();
        if (fired) fault("allocation failure");
        check(!o.threw || (fired && o.badAlloc), "good-operation-refused", what + ": " + o.str());
        List w = o.threw ? c.ref : want;
        expect(c, w, (o.threw ? "after a failed " : "") + what);
    }
    void keep(Col& nc) {
        if (cols.size() < 3) cols.push_back(std::move(nc));
        else { size_t i = sim::choose(3); sim::SutScope s; cols[i] = std::move(nc); }
    }
    std::vector<size_t> somePositions(const List& l) { std::vector<size_t> p; if (!l.empty()) for (int n = sim::range(0, 4); n > 0; n--) p.push_back(sim::choose(uint32_t(l.size()))); return p; }
    void step() {
        using namespace sim;
        size_t ci = choose(uint32_t(cols.size()));
        Col& c = cols[ci];
        switch (choose(10)) {
            case 0: case 1: {
                std::vector<Ref> add; for (int n = chance(1, 2) ? 1 : range(0, 4); n > 0; n--) add.push_back(fresh());
                if (!c.ref.empty() && chance(1, 6)) add.push_back(c.ref[choose(uint32_t(c.ref.size()))]);   // one it has already
                std::vector<T*> raw; for (auto& r : add) raw.push_back(const_cast<T*>(r.p));
                Plain hold; { SutScope s; hold = Plain(raw); }
                int how = raw.size() == 1 ? choose(4) : 1 + choose(3);
                log("add %zu to collection %zu", add.size(), ci);
                List want = c.ref; want.insert(want.end(), add.begin(), add.end());
                arm();
                Outcome o = call("add", [&] { if (how == 0) c.g->add(raw[0]); else if (how == 1) c.g->add(raw); else if (how == 2) c.g->add(hold); else { Plain again(hold); c.g->add(std::move(again)); } });
                judge(c, o, want, "insertion");
                if (!o.threw || chance(1, 2)) { List h; for (auto& r : add) h.push_back(r); bool same; { SutScope s; same = hold.size() == h.size(); for (size_t i = 0; same && i < h.size(); i++) same = hold.get(i) == h[i].p; } check(same, "collection-differs", "the collection inserted was changed"); }
                { SutScope s; hold.clear(); }
                break;
            }
            case 2: {
                if (c.ref.empty()) break;
                std::vector<size_t> pos = somePositions(c.ref);
                bool one = pos.size() == 1 && chance(1, 2);
                List want; for (size_t i = 0; i < c.ref.size(); i++) if (!std::count(pos.begin(), pos.end(), i)) want.push_back(c.ref[i]);
                log("remove %zu position(s) from collection %zu", pos.size(), ci);
                arm();
                Outcome o = call("remove", [&] { if (one) c.g->remove(pos[0]); else c.g->remove(pos); });
                judge(c, o, want, "removal");
                break;
            }
            case 3: {
                std::vector<size_t> pos = somePositions(c.ref);
                List want; for (size_t i = 0; i < c.ref.size(); i++) if (std::count(pos.begin(), pos.end(), i)) want.push_back(c.ref[i]);
                log("select %zu position(s) of collection %zu", pos.size(), ci);
                Col nc;
                arm();
                Outcome o = call("get(positions)", [&] { nc.g.reset(new G(c.g->get(pos))); });
                judge(c, o, c.ref, "selection");
                if (!o.threw) { expect(nc, want, "selection by position"); keep(nc); }
                break;
            }
            case 4: {
                bool deep = chance(1, 2);
                log("%s copy of collection %zu", deep ? "deep" : "shared", ci);
                Col nc;
                arm();
                Outcome o = call("copy", [&] { if (deep) nc.g.reset(c.g->clone()); else nc.g.reset(new G(*c.g)); });
                judge(c, o, c.ref, "copy");
                if (!o.threw) {
                    List want = c.ref;
                    if (deep) { for (size_t i = 0; i < want.size(); i++) { const T* p; { SutScope s; p = i < nc.g->size() ? nc.g->get(i) : nullptr; } check(!p || p != want[i].p, "copy-shares", "a deep copy shares its members"); want[i].p = p; } }
                    expect(nc, want, "copy"); keep(nc);
                }
                break;
            }
            case 5: {
                size_t di = choose(uint32_t(cols.size()));
                Col& d = cols[di];
                int how = choose(4);
                log("collection %zu = collection %zu", di, ci);
                List want = c.ref;
                Plain other; if (how == 3) { SutScope s; Plain p(static_cast<Plain&>(*c.g)); other = std::move(p); }
                arm();
                Outcome o = call("assign", [&] {
                    if (how == 0) *d.g = *c.g;
                    else if (how == 1) { Plain& p = *c.g; *d.g = p; }
                    else if (how == 2) { Plain p(static_cast<Plain&>(*c.g)); *d.g = std::move(p); }
                    else { Plain& p = *d.g; p = other; }
                });
                judge(d, o, want, "assignment");
                expect(c, want, "source of an assignment");
                { SutScope s; other.clear(); }
                break;
            }
            case 6: {
                size_t si = choose(uint32_t(cols.size()));
                Col& s = cols[si];
                List want = c.ref; want.insert(want.end(), s.ref.begin(), s.ref.end());
                if (want.size() > 40) break;
                log("add all of collection %zu to collection %zu", si, ci);
                bool plain = chance(1, 2);
                arm();
                Outcome o = call("add", [&] { if (plain) { Plain& p = *s.g; c.g->add(p); } else c.g->add(*s.g); });
                judge(c, o, want, "insertion of a collection");
                if (si == ci) probe("collection added to itself");
                break;
            }
            case 7: {
                if (c.ref.empty()) break;
                size_t at = choose(uint32_t(c.ref.size()));
                bool own = chance(1, 4);
                Ref r = own ? c.ref[choose(uint32_t(c.ref.size()))] : fresh();
                T* raw = const_cast<T*>(r.p);
                Plain hold; if (own || chance(1, 2)) { SutScope s; hold = Plain(raw); }
                log("replace member %zu of collection %zu by n%d", at, ci, r.serial);
                List want = c.ref; want[at] = r;
                arm();
                Outcome o = call("set", [&] { c.g->set(at, raw); });
                judge(c, o, want, "replacement");
                { SutScope s; hold.clear(); }
                break;
            }
            case 8: { K::kinds([&](auto* k, const char* name, auto is, auto only) { byKind(c, ci, k, name, is, only); }); break; }
            default: {
                if (!chance(1, 3)) break;
                log("clear collection %zu", ci);
                { SutScope s; c.g->clear(); }
                expect(c, List(), "clear");
            }
        }
        for (auto& x : cols) if (x.g) { std::string d = differs(*x.g, x.ref); sim::check(d.empty(), "other-collection", "another collection changed: " + d + "; expected " + str(x.ref)); }
        std::string st = K::name(); for (auto& x : cols) { st += fmt(" %zu", x.ref.size()); for (size_t i = 0; i < x.ref.size(); i++) st += fmt("%c", 'a' + x.ref[i].serial % 6); }
        state(st);
    }
    template <class T2, class F1, class F2> void byKind(Col& c, size_t ci, T2*, const char* name, F1&& is, F2&& only) {
        using namespace sim;
        bool strict = chance(1, 2), readOnly = chance(1, 2);
        List want; size_t all = 0;
        for (auto& r : c.ref) { if (strict ? only(r.serial) : is(r.serial)) want.push_back(r); all += is(r.serial); }
        log("select the %s%s of collection %zu", strict ? "exact " : "", name, ci);
        std::vector<const T*> got; size_t n = 0; bool none = false;
        arm();
        Outcome o = call("getOf", [&] {
            G& s = *c.g; const G& cs = s;
            n = cs.template sizeOf<T2>(); none = cs.template emptyOf<T2>();
            if (readOnly) { SEMBA::Group::Group<const T2> g(strict ? cs.template getOfOnly<T2>() : cs.template getOf<T2>()); for (size_t i = 0; i < g.size(); i++) { const T* q = g(i); FrameworkScope f; got.push_back(q); } }
            else { SEMBA::Group::Group<T2> g(strict ? s.template getOfOnly<T2>() : s.template getOf<T2>()); for (size_t i = 0; i < g.size(); i++) { const T* q = g(i); FrameworkScope f; got.push_back(q); } }
        });
        judge(c, o, c.ref, "selection by kind");
        if (o.threw) return;
        check(n == all && none == (all == 0), "kind-selection", fmt("%zu %s are counted (none: %d) in ", n, name, none) + str(c.ref));
        bool ok = got.size() == want.size();
        for (size_t i = 0; ok && i < got.size(); i++) ok = got[i] == want[i].p;
        check(ok, "kind-selection", fmt("selecting the %s%s gives %zu members that are not ", strict ? "exact " : "", name, got.size()) + str(want));
    }
    void run() {
        using namespace sim;
        Col c; { SutScope s; c.g.reset(new G()); }
        cols.push_back(std::move(c));
        int n = range(4, 28);
        log("history of %d operations on %s, heap %s", n, K::name(), layoutName().c_str());
        for (int i = 0; i < n; i++) step();
        nontrivial();
        while (!cols.empty()) { size_t i = choose(uint32_t(cols.size())); { SutScope s; cols[i].g.reset(); } cols.erase(cols.begin() + i); for (auto& x : cols) expect(x, List(x.ref), "after another collection was released"); }
    }
};

void sim::run() {
    setBudget(20000000);
    randomLayout();
    switch (choose(6)) {
        case 4: { Listed<Sources> w; w.run(); break; }
        case 5: { Listed<Requests> w; w.run(); break; }
        case 2: { World<Elems> w; w.run(); break; }
        case 0: { World<Layers> w; w.run(); break; }
        case 1: { World<Models> w; w.run(); break; }
        default: { World<Coords> w; w.run(); break; }
    }
}
