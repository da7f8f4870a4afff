// Wires assembled from generated lines whose wires are known, under several heap layouts, from copies and after failed attempts.
#include "sim/sim.h"
#include "sim/fs.h"
#include "util/wire/Group.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/predefined/PEC.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Node.h"
#include <algorithm>
#include <memory>
using namespace SEMBA;
using namespace Geometry;
using namespace sim;
const char* const sim::kProperty = "C14";

namespace {
struct Ln { int a, b, mat, layer; size_t id; };
struct Chain {                  // one wire, lines and nodes along its direction
    int mat, layer, left = -1, right = -1;
    bool loop = false;
    std::vector<int> nodes, lines;
    std::vector<bool> rev;      // per line
};
struct World {
    int nodes = 0;
    std::vector<size_t> nodeId;
    std::vector<Ln> lines;
    std::vector<Chain> chains;
    std::vector<size_t> layerId, matId;      // by index; layer 0 is none
    int wires, extremes, conns;              // materials: wires, then extremes, then connectors, then one PEC
    std::vector<Ln> others;                  // lines of other materials
    bool bad = false, maybe = false;
    std::string why;
};
int nMats(const World& w) { return w.wires + w.extremes + w.conns + 1; }
bool isExtremes(const World& w, int m) { return m >= w.wires && m < w.wires + w.extremes; }
std::string matName(const World& w, int m) { return fmt("%s%d", m < w.wires ? "w" : isExtremes(w, m) ? "x" : m < nMats(w) - 1 ? "c" : "p", m); }

void generate(World& w) {
    w.wires = range(1, 2); w.extremes = int(choose(3)); w.conns = range(1, 2);
    int layers = range(1, 2);
    bool noLayer = chance(1, 6);
    auto layer = [&] { return noLayer && chance(1, 2) ? 0 : 1 + int(choose(layers)); };
    auto connector = [&] { return w.wires + w.extremes + int(choose(w.conns)); };
    auto line = [&](int a, int b, int mat, int lay) { w.lines.push_back({a, b, mat, lay, 0}); return int(w.lines.size()) - 1; };
    struct End { int chain; bool tail, conn; };
    std::vector<End> ends;
    for (int n = range(1, 5); n > 0; n--) {
        Chain c;
        c.mat = int(choose(w.wires + w.extremes)); c.layer = layer();
        c.loop = chance(1, 6);
        int len = c.loop ? range(3, 5) : range(1, 4);
        for (int i = 0; i < len + (c.loop ? 0 : 1); i++) c.nodes.push_back(w.nodes++);
        if (c.loop) c.nodes.push_back(c.nodes[0]);
        for (int i = 0; i < len; i++) { c.lines.push_back(line(c.nodes[i], c.nodes[i + 1], c.mat, c.layer)); c.rev.push_back(false); }
        int self = int(w.chains.size());
        if (!c.loop) {
            bool can = !isExtremes(w, c.mat);
            for (int side = 0; side < 2; side++) {
                int many = can && chance(1, 2) ? chance(1, 4) ? 2 : 1 : 0;
                if (!many) { ends.push_back({self, side == 1, false}); continue; }
                int m = connector();
                (side ? c.right : c.left) = m;
                bool outward = many == 1 && chance(1, 12);
                for (int k = 0; k < many; k++) {
                    int fresh = w.nodes++, at = side ? c.nodes.back() : c.nodes.front();
                    int l = outward ? line(at, fresh, m, c.layer) : line(fresh, at, m, c.layer);
                    bool rev = (side == 1) != outward;
                    if (side) { c.nodes.push_back(fresh); c.lines.push_back(l); c.rev.push_back(rev); }
                    else { c.nodes.insert(c.nodes.begin(), fresh); c.lines.insert(c.lines.begin(), l); c.rev.insert(c.rev.begin(), rev); }
                }
                if (outward) { w.maybe = true; w.why = "a connector pointing away from its wire"; }
                else ends.push_back({self, side == 1, true});
            }
        }
        w.chains.push_back(c);
    }
    // ends meeting at one node
    auto merge = [&](int from, int to) {
        for (auto& l : w.lines) { if (l.a == from) l.a = to; if (l.b == from) l.b = to; }
        for (auto& c : w.chains) for (int& x : c.nodes) if (x == from) x = to;
    };
    auto nodeOf = [&](const End& e) { auto& c = w.chains[e.chain]; return e.tail ? c.nodes.back() : c.nodes.front(); };
    Rng rng(seedChoice());
    for (size_t i = ends.size(); i > 1; i--) std::swap(ends[i - 1], ends[rng.below(uint32_t(i))]);
    size_t at = 0;
    while (at < ends.size()) {
        size_t many = chance(1, 2) ? 1 : chance(1, 2) ? 2 : 3 + choose(2);
        many = std::min(many, ends.size() - at);
        if (many == 2) {
            End a = ends[at], b = ends[at + 1];
            Chain& ca = w.chains[a.chain]; Chain& cb = w.chains[b.chain];
            bool split = a.chain != b.chain && (ca.layer != cb.layer || a.conn || b.conn || a.tail == b.tail || ca.mat != cb.mat);
            if (split) { merge(nodeOf(b), nodeOf(a)); probe("two ends meeting"); }
        } else if (many > 2) {
            bool ok = true;             // no chain of two lines closing on itself
            for (size_t i = 0; i < many; i++) for (size_t j = 0; j < i; j++)
                if (ends[at + i].chain == ends[at + j].chain && w.chains[ends[at + i].chain].lines.size() < 3) ok = false;
            if (ok) { for (size_t i = 1; i < many; i++) merge(nodeOf(ends[at + i]), nodeOf(ends[at])); probe("branching"); }
        }
        at += many;
    }
    // connectors that cannot belong to a wire
    if (chance(1, 6)) {
        auto badLine = [&](int to, int mat, int lay, const char* why) { line(w.nodes++, to, mat, lay); w.bad = true; w.why = why; };
        std::vector<int> free, joined;      // chains with a plain free start, or with a left connector
        for (size_t i = 0; i < w.chains.size(); i++) {
            auto& c = w.chains[i]; if (c.loop) continue;
            int deg = 0; for (auto& l : w.lines) deg += (l.a == c.nodes[0]) + (l.b == c.nodes[0]);
            if (deg == 1 && c.left < 0) free.push_back(int(i));
            if (deg == 1 && c.left >= 0 && !c.rev[0]) joined.push_back(int(i));
        }
        int what = int(choose(4));
        if (what == 1 && !free.empty() && layers == 2) {
            auto& c = w.chains[pick(free)];
            badLine(c.nodes[0], connector(), c.layer == 1 ? 2 : 1, "a connector in another layer");
        } else if (what == 2 && !joined.empty() && w.conns == 2) {
            auto& c = w.chains[pick(joined)];
            int other = c.left == w.wires + w.extremes ? c.left + 1 : c.left - 1;
            badLine(c.nodes[0], other, c.layer, "two connectors in series");
        } else if (what == 3 && !free.empty() && isExtremes(w, w.chains[free[0]].mat)) {
            auto& c = w.chains[free[0]];
            badLine(c.nodes[0], connector(), c.layer, "a connector at a wire that has its ends");
        } else { badLine(w.nodes, connector(), layer(), "a lone connector"); w.nodes++; w.lines.back().b = w.nodes - 1; }
    }
    // any order, any ids
    std::set<size_t> used;
    bool shuffled = chance(3, 4);
    auto newId = [&](size_t i) { size_t id = i + 1; if (shuffled) do id = 1 + rng.below(3000); while (!used.insert(id).second); return id; };
    for (size_t i = 0; i < w.lines.size(); i++) w.lines[i].id = newId(i);
    for (int n = int(choose(4)); n > 0; n--) w.others.push_back({int(choose(w.nodes)), w.nodes, nMats(w) - (chance(1, 2) ? 1 : 0), layer(), newId(w.lines.size() + n)});
    w.nodes++;
    used.clear();
    for (int i = 0; i < w.nodes; i++) w.nodeId.push_back(newId(i));
    used.clear();
    for (int i = 0; i < nMats(w); i++) w.matId.push_back(newId(i));
    used.clear();
    for (int i = 0; i < 3; i++) w.layerId.push_back(i ? newId(i) : 0);
}
// the order lines are stored in: drawn once, the same in every round
std::vector<const Ln*> order(const World& w, uint64_t seed) {
    std::vector<const Ln*> all;
    for (auto& l : w.lines) all.push_back(&l);
    for (auto& l : w.others) all.push_back(&l);
    Rng rng(seed);
    for (size_t i = all.size(); seed && i > 1; i--) std::swap(all[i - 1], all[rng.below(uint32_t(i))]);
    return all;
}
template <class M, class T> void fill(M& m, const World& w, const std::vector<const Ln*>& all, PhysicalModel::Group<>& mats) {
    typedef Coordinate::Coordinate<T, 3> C;
    std::vector<const C*> c;
    for (int i = 0; i < w.nodes; i++) { auto* p = new C(CoordId(w.nodeId[i]), Math::Vector::Cartesian<T, 3>(T(i % 4), T(i / 4 % 4), T(i / 16))); m.coords().add(p); c.push_back(p); }
    for (int i = 1; i < 3; i++) m.layers().add(new Layer::Layer(LayerId(w.layerId[i]), fmt("layer%d", i)));
    for (auto* l : all) {
        const C* v[2] = {c[l->a], c[l->b]};
        m.elems().add(new Geometry::Element::Line2<T>(ElemId(l->id), v, l->layer ? m.layers().getId(LayerId(w.layerId[l->layer])) : nullptr,
            l->mat < nMats(w) ? mats.getId(MatId(w.matId[l->mat])) : nullptr));
    }
    const C* v[1] = {c[0]};
    m.elems().add(new Geometry::Element::Node<T>(ElemId(4000), v, nullptr, mats.getId(MatId(w.matId[0]))));
}
Data* realize(const World& w, bool structured, const std::vector<const Ln*>& all) {
    Data* d = nullptr;
    Outcome o = call("build", [&] {
        using namespace PhysicalModel;
        d = new Data;
        d->physicalModels = new PhysicalModel::Group<>;
        for (int i = 0; i < nMats(w); i++) {
            PhysicalModel::Id id(w.matId[i]); std::string n = matName(w, i);
            if (i < w.wires) d->physicalModels->add(new PhysicalModel::Wire::Wire(id, n, 0.001 * (i + 1), 0.5, 1e-7));
            else if (isExtremes(w, i)) {
                PhysicalModel::Wire::Wire base(id, "base", 0.001 * (i + 1), 0.5, 1e-7);
                Multiport::RLC l(PhysicalModel::Id(9001), "ownL", Multiport::Multiport::sRLC, 1, 2, 3);
                Multiport::RLC r(PhysicalModel::Id(9002), "ownR", Multiport::Multiport::pRLC, 4, 5, 6);
                d->physicalModels->add(new PhysicalModel::Wire::Extremes(n, base, &l, &r));
            } else if (i < nMats(w) - 1) {
                if (i % 2) d->physicalModels->add(new Multiport::RLC(id, n, Multiport::Multiport::sRLC, i, 2, 3));
                else d->physicalModels->add(new Multiport::Predefined(id, n, Multiport::Multiport::matched));
            } else d->physicalModels->add(new Predefined::PEC(id, n));
        }
        if (structured) {
            std::vector<Math::Real> p[3]; for (int k = 0; k < 3; k++) for (int i = 0; i < 9; i++) p[k].push_back(i);
            auto* m = new Mesh::Structured(Grid3(p)); d->mesh = m;
            fill<Mesh::Structured, Math::Int>(*m, w, all, *d->physicalModels);
        } else {
            auto* m = new Mesh::Unstructured; d->mesh = m;
            fill<Mesh::Unstructured, Math::Real>(*m, w, all, *d->physicalModels);
        }
    });
    check(!o.threw, "harness", "the mesh could not be built: " + o.str());
    return d;
}

struct Got {
    std::vector<size_t> ids, nodes; std::vector<bool> rev;
    std::string name, left, right; size_t model, self, layer; bool same = false, own = true; double radius = 0;
};
template <class T> const Coordinate::Group<Coordinate::Coordinate<T, 3>>& coordsOf(const Data& d);
template <> const Coordinate::Group<CoordR3>& coordsOf<Math::Real>(const Data& d) { return d.mesh->castTo<Mesh::Unstructured>()->coords(); }
template <> const Coordinate::Group<CoordI3>& coordsOf<Math::Int>(const Data& d) { return d.mesh->castTo<Mesh::Structured>()->coords(); }

template <class T> Outcome assemble(const Data& d, std::vector<Got>& got) {
    got.clear();
    const auto& coords = coordsOf<T>(d);
    return call("assemble", [&] {
        Util::Wire::Group<T> g(d);
        for (size_t i = 0; i < g.numberOfWires(); i++) {
            Got w;
            const auto* p = g.getWire(i);
            for (size_t k = 0; k < p->numberOfCoordinates(); k++) {
                w.nodes.push_back(p->getV(k)->getId().toInt());
                w.own = w.own && coords.existId(p->getV(k)->getId()) && coords.getId(p->getV(k)->getId()) == p->getV(k);
            }
            for (auto& id : g.getIdsOfWire(i)) w.ids.push_back(id.toInt());
            w.rev = g.getRevOfWire(i);
            const PhysicalModel::Wire::Extremes* m = g.getMat(p->getMatId());
            w.same = p->getModel() == m;
            w.name = m->getName(); w.radius = m->getRadius();
            w.left = m->getExtreme(0) ? m->getExtreme(0)->getName() : "";
            w.right = m->getExtreme(1) ? m->getExtreme(1)->getName() : "";
            w.model = p->getMatId().toInt(); w.self = p->getId().toInt(); w.layer = p->getLayerId().toInt();
            got.push_back(w);
        }
    });
}
std::string str(const std::vector<size_t>& v) { std::string s; for (size_t x : v) s += fmt("%s%zu", s.empty() ? "" : " ", x); return s; }
std::string str(const std::vector<Got>& all) {
    std::string s;
    for (auto& g : all) {
        s += fmt("wire %zu: ids %s nodes %s layer %zu model %zu %s [%s|%s] rev ", g.self, str(g.ids).c_str(), str(g.nodes).c_str(), g.layer, g.model, g.name.c_str(), g.left.c_str(), g.right.c_str());
        for (bool b : g.rev) s += b ? '1' : '0';
        s += "\n";
    }
    return s;
}

void judge(const World& w, const Outcome& o, const std::vector<Got>& got, const std::string& who) {
    if (w.bad) {
        check(o.threw && o.logic, "accepted", fmt("%s: %s was accepted, or %s", who.c_str(), w.why.c_str(), o.str().c_str()));
        probe("refused");
        return;
    }
    if (w.maybe && o.threw) { check(o.logic, "refused", fmt("%s: %s", who.c_str(), o.str().c_str())); return; }
    check(!o.threw, "refused", fmt("%s: %s", who.c_str(), o.str().c_str()));
    std::map<size_t, size_t> chainOf;            // by line id
    for (size_t i = 0; i < w.chains.size(); i++) for (int l : w.chains[i].lines) chainOf[w.lines[l].id] = i;
    check(got.size() == w.chains.size(), "wires", fmt("%s: %zu wires instead of %zu", who.c_str(), got.size(), w.chains.size()));
    std::set<size_t> seen; std::map<int, int> count;
    for (size_t n = 0; n < got.size(); n++) {
        const Got& g = got[n];
        check(!g.ids.empty() && chainOf.count(g.ids[0]), "wires", fmt("%s: wire %zu has lines that are not wires", who.c_str(), n));
        size_t k = chainOf[g.ids[0]];
        check(seen.insert(k).second, "wires", fmt("%s: line %zu is in two wires", who.c_str(), g.ids[0]));
        const Chain& c = w.chains[k];
        std::string name = fmt("%s: wire %zu", who.c_str(), n);
        std::vector<size_t> ids, nodes;
        for (int l : c.lines) ids.push_back(w.lines[l].id);
        for (int x : c.nodes) nodes.push_back(w.nodeId[x]);
        std::string told = fmt(" is lines %s along %s instead of %s along %s", str(g.ids).c_str(), str(g.nodes).c_str(), str(ids).c_str(), str(nodes).c_str());
        // a loop may start anywhere
        for (size_t r = 0; c.loop && r < ids.size() && nodes[0] != g.nodes[0]; r++) {
            std::rotate(ids.begin(), ids.begin() + 1, ids.end());
            nodes.pop_back(); std::rotate(nodes.begin(), nodes.begin() + 1, nodes.end()); nodes.push_back(nodes[0]);
        }
        check(g.nodes == nodes, "path", name + told);
        std::vector<size_t> back(ids.rbegin(), ids.rend());
        check(g.ids == ids || g.ids == back, "lines", name + told);
        check(g.own, "foreign-coordinate", name + " has coordinates that are not those of the mesh");
        check(g.rev.size() == g.ids.size(), "reversal", name + " has another number of marks than lines");
        std::map<size_t, bool> rev; for (size_t i = 0; i < c.lines.size(); i++) rev[w.lines[c.lines[i]].id] = c.rev[i];
        for (size_t i = 0; i < g.ids.size(); i++) check(g.rev[i] == rev[g.ids[i]], "reversal", name + told + fmt(", and line %zu is marked %d", g.ids[i], int(g.rev[i])));
        std::string l = c.left < 0 ? "" : matName(w, c.left), r = c.right < 0 ? "" : matName(w, c.right), mat = matName(w, c.mat);
        if (isExtremes(w, c.mat)) { l = "ownL"; r = "ownR"; } else mat += fmt("_%d", ++count[c.mat]);
        check(g.name == mat, "material", name + fmt(" has material %s instead of %s", g.name.c_str(), mat.c_str()));
        check(g.left == l && g.right == r, "connectors", name + told + fmt(" and has ends [%s|%s] instead of [%s|%s]", g.left.c_str(), g.right.c_str(), l.c_str(), r.c_str()));
        check(g.same && g.radius == 0.001 * (c.mat + 1), "material", name + " has a material of other content");
        check(g.layer == w.layerId[c.layer], "layer", name + fmt(" has layer %zu", g.layer));
        check(g.self == n + 1, "id", name + fmt(" has id %zu", g.self));
    }
}
}

void sim::run() {
    setBudget(100000000);
    fs().reset();
    World w;
    generate(w);
    bool structured = chance(1, 2);
    uint32_t seed = seedChoice();
    auto all = order(w, seed);
    std::string text;
    for (size_t i = 0; i < all.size(); i++) text += fmt("%zu:%zu>%zu/%d ", all[i]->id, w.nodeId[all[i]->a], w.nodeId[all[i]->b], all[i]->mat);
    log("%s; %s %s", text.c_str(), structured ? "structured" : "unstructured", w.bad || w.maybe ? w.why.c_str() : "");
    std::string first;
    int rounds = range(2, 3);
    for (int k = 0; k < rounds; k++) {
        randomLayout();
        std::string who = fmt("round %d, %s", k, layoutName().c_str());
        Data* d = realize(w, structured, all);
        auto go = [&](std::vector<Got>& got) { return structured ? assemble<Math::Int>(*d, got) : assemble<Math::Real>(*d, got); };
        for (int n = int(choose(3)); n > 0; n--) {
            uint32_t after = choose(800), many = chance(2, 3) ? 1 : 4;
            std::vector<Got> got;
            failAlloc(after, many);
            Outcome o = go(got);
            bool fired = allocFired(); failAllocOff();
            if (fired) fault("allocation failure");
            if (!o.threw || !o.badAlloc) judge(w, o, got, who + ", short of memory"); else check(fired, "refused", who + ": " + o.str());
        }
        if (chance(1, 4)) {
            Data* c = nullptr;
            Outcome o = call("copy", [&] { c = new Data(*d); delete d; });
            check(!o.threw, "harness", o.str());
            d = c;
            who += ", a copy";
        }
        std::vector<Got> got;
        Outcome o = go(got);
        judge(w, o, got, who);
        std::string t = o.threw ? o.what : str(got);
        if (k == 0) first = t;
        check(t == first, "layout-dependent", who + ": the wires differ from those of the first round: " + t + " / " + first);
        call("destroy", [&] { delete d; });
    }
    nontrivial();
    state(hash(text + first));
}
