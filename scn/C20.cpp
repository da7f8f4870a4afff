// Histories of copying, assigning, changing and destroying models and meshes, some of them out of memory.
#include "scn/model.h"
const char* const sim::kProperty = "C20";
using namespace sim;
using namespace model;

namespace {
struct Live { Data* d; std::string text; };
std::vector<Live> live;
std::string textOf(const Data& d, const char* when) {
    std::string foreign, s = describe(d, &foreign);
    check(foreign.empty() || !d.mesh, "foreign-reference", fmt("a %s of %s is not one of its own model's", foreign.c_str(), when));
    return s;
}
void checkAll(const char* after) {
    for (size_t i = 0; i < live.size(); i++) {
        std::string s = textOf(*live[i].d, fmt("model %zu after %s", i, after).c_str());
        check(s == live[i].text, "changed", fmt("model %zu after %s: %s", i, after, difference(live[i].text, s).c_str()));
    }
}
bool oom() {
    if (!chance(1, 4)) return false;
    static const std::vector<uint32_t> most{8, 60, 400};
    failAlloc(choose(pick(most)), chance(2, 3) ? 1 : 4);
    return true;
}
bool oomOver() { bool f = allocFired(); failAllocOff(); if (f) fault("allocation failure"); return f; }

template <class T> bool assign(T& to, T& from, std::true_type) { to = from; return true; }
template <class T> bool assign(T&, T&, std::false_type) { return false; }      // a kind that can not be assigned
template <class T, class B> bool assignAs(B& to, B& from) {
    return typeid(to) == typeid(T) && assign(dynamic_cast<T&>(to), dynamic_cast<T&>(from), std::is_assignable<T&, T&>());
}
bool assignTo(Source::Base& to, Source::Base& from) {
    using namespace Source;
    return assignAs<PlaneWave>(to, from) || assignAs<Generator>(to, from) || assignAs<OnLine>(to, from) || assignAs<Dipole>(to, from) || assignAs<Port::WaveguideRectangular>(to, from) || assignAs<Port::TEMCoaxial>(to, from);
}
bool assignTo(PhysicalModel::PhysicalModel& to, PhysicalModel::PhysicalModel& from) {
    using namespace PhysicalModel;
    return assignAs<Predefined::PEC>(to, from) || assignAs<Predefined::PMC>(to, from) || assignAs<Predefined::SMA>(to, from) || assignAs<Volume::Classic>(to, from) || assignAs<Volume::Dispersive>(to, from)
        || assignAs<Volume::PML>(to, from) || assignAs<Volume::AnisotropicCrystal>(to, from) || assignAs<Volume::AnisotropicFerrite>(to, from) || assignAs<Wire::Wire>(to, from) || assignAs<Wire::Extremes>(to, from)
        || assignAs<Gap::Gap>(to, from) || assignAs<Multiport::Predefined>(to, from) || assignAs<Multiport::RLC>(to, from) || assignAs<Multiport::Dispersive>(to, from) || assignAs<Surface::Multilayer>(to, from)
        || assignAs<Surface::SIBC>(to, from) || assignAs<Surface::SIBCFile>(to, from);
}
std::string told(Source::Base& s) {
    std::string r = s.str() + " " + describe(s.getMagnitude());
    auto g = s.elems();
    for (size_t i = 0; i < g.size(); i++) r += fmt(" %p", (const void*) g(i));
    return r;
}
std::string told(PhysicalModel::PhysicalModel& m) { return describe(m); }
// Copies of one part, assigned to each other, and destroyed in any order.
template <class B> void part(B* source, B* other, const char* kind) {
    if (typeid(*source) != typeid(*other)) other = source;
    B *a = nullptr, *b = nullptr;
    std::string want = told(*source), was = told(*other);
    oom();
    Outcome o = call("part copy", [&] { a = source->template cloneTo<B>(); b = other->template cloneTo<B>(); });
    bool fired = oomOver();
    check(!o.threw || (fired && o.badAlloc), "copy-failed", fmt("copying a %s ", kind) + o.str());
    if (a) check(told(*a) == want, "copy-differs", fmt("a copied %s is described otherwise: ", kind) + difference(want, told(*a)));
    if (b) check(told(*b) == was, "copy-differs", fmt("a copied %s is described otherwise: ", kind) + difference(was, told(*b)));
    if (a && b) {
        bool self = chance(1, 8), done = false;
        oom();
        o = call("part assign", [&] { done = assignTo(*b, self ? *b : *a); });
        fired = oomOver();
        check(!o.threw || (fired && o.badAlloc), "copy-failed", fmt("assigning a %s ", kind) + o.str());
        check(told(*a) == want, "changed", fmt("assigning a %s changed its source: ", kind) + difference(want, told(*a)));
        if (!o.threw) { const std::string& w = self || !done ? was : want; check(told(*b) == w, "copy-differs", fmt("the target of assigning a %s: ", kind) + difference(w, told(*b))); if (done) probe("part assigned"); }
        bool first = chance(1, 2);
        std::string left = told(*b);
        { SutScope s; delete (first ? a : b); }
        if (first) { a = nullptr; check(told(*b) == left, "changed", fmt("destroying a %s changed what it was assigned to", kind)); }
        else { b = nullptr; check(told(*a) == want, "changed", fmt("destroying the target of an assignment changed a %s", kind)); }
        nontrivial();
    }
    SutScope s;
    delete a; delete b;
}

// One change a user may make to a model. Returns what it did.
std::string modify(Data& d, const std::vector<size_t>& maxIds) {
    int what = int(choose(12)), a = int(choose(4));
    double x = pick(std::vector<double>{2, 0.5, 1e-3});
    size_t id = 5000 + choose(50);
    SutScope s;
    switch (what) {
        case 0: case 1: if (d.mesh) { d.mesh->applyScalingFactor(x); return "scaling"; } break;
        case 2: if (d.mesh && d.mesh->is<Geometry::Mesh::Unstructured>()) {
            auto& m = *d.mesh->castTo<Geometry::Mesh::Unstructured>();
            if (m.coords().existId(CoordId(id))) break;
            m.coords().add(new CoordR3(CoordId(id), Math::CVecR3(x * 100, 3, a)));
            return "adding a coordinate";
        } break;
        case 3: if (d.mesh && d.mesh->is<Geometry::Mesh::Unstructured>()) {
            auto& m = *d.mesh->castTo<Geometry::Mesh::Unstructured>();
            if (m.layers().existId(LayerId(id))) break;
            m.layers().add(new Geometry::Layer::Layer(LayerId(id), "late"));
            return "adding a layer";
        } break;
        case 4: if (d.mesh && d.mesh->is<Geometry::Mesh::Unstructured>()) {
            auto& m = *d.mesh->castTo<Geometry::Mesh::Unstructured>();
            if (m.elems().empty()) break;
            auto* e = m.elems()(a % m.elems().size());
            if (m.layers().empty()) e->setLayer(nullptr); else e->setLayer(m.layers()(a % m.layers().size()));
            if (!d.physicalModels || d.physicalModels->empty()) e->setModel(nullptr); else e->setModel((*d.physicalModels)(a % d.physicalModels->size()));
            return "moving an element to another layer and material";
        } break;
        case 5: if (d.physicalModels && !d.physicalModels->existId(MatId(id))) { d.physicalModels->add(new PhysicalModel::Predefined::PEC(MatId(id), "late")); return "adding a material"; } break;
        case 6: if (d.sources) { d.sources->clear(); return "removing the sources"; } break;
        case 7: if (d.outputRequests && !d.outputRequests->empty()) { (*d.outputRequests)(0)->setName("renamed"); return "renaming a request"; } break;
        case 10: case 11: if (d.physicalModels) for (size_t i = 0; i < d.physicalModels->size(); i++) {
            auto* m = (*d.physicalModels)(i);
            if (!m->is<PhysicalModel::Wire::Extremes>()) continue;
            auto* e = m->castTo<PhysicalModel::Wire::Extremes>();
            if (what == 10) { e->swapExtremes(); return "swapping the ends of a wire"; }
            e->setExtreme(a & 1, e->getExtreme(a >> 1));
            return "setting an end of a wire";
        } break;
        case 8: if (d.outputRequests) { d.outputRequests->clear(); return "removing the requests"; } break;
        case 9: if (d.mesh && d.mesh->is<Geometry::Mesh::Structured>()) {
            auto& m = *d.mesh->castTo<Geometry::Mesh::Structured>();
            m.bounds().setBound(a % 3, a & 1, a < 2 ? nullptr : new PhysicalModel::Bound::PMC(MatId(0)));
            return "setting a bound";
        } break;
    }
    return "";
}
}

void sim::run() {
    setBudget(60000000);
    randomLayout();
    fs().reset();
    live.clear();
    Want w; w.noMesh = true; w.maxElems = 6; w.maxMats = 4;
    for (int n = range(1, 2); n > 0; n--) {
        Plan p = plan(w);
        Data* d = nullptr;
        Outcome o = call("build", [&] { d = build(p); });
        check(!o.threw, "harness", "the model could not be built: " + o.str());
        live.push_back({d, textOf(*d, "the model built")});
    }
    for (int n = range(2, 12); n > 0; n--) {
        size_t i = choose(live.size()), j = choose(live.size());
        std::string what;
        switch (choose(10)) {
            case 0: case 1: case 2: {     // copy
                if (live.size() >= 5) break;
                what = "copying";
                bool clone = chance(1, 3);
                Data* d = nullptr;
                const Data& from = *live[i].d;
                oom();
                Outcome o = call(clone ? "clone" : "copy", [&] { d = clone ? from.clone() : new Data(from); });
                bool fired = oomOver();
                check(!o.threw || (fired && o.badAlloc), "copy-failed", fmt("copying model %zu %s", i, o.str().c_str()));
                if (o.threw) break;
                std::string s = textOf(*d, "a copy");
                check(s == live[i].text, "copy-differs", difference(live[i].text, s));
                live.push_back({d, s});
                nontrivial();
                break;
            }
            case 3: case 4: {             // assign
                what = i == j ? "assigning a model to itself" : "assigning";
                oom();
                Outcome o = call("assign", [&] { *live[i].d = *live[j].d; });
                bool fired = oomOver();
                check(!o.threw || (fired && o.badAlloc), "copy-failed", fmt("assigning model %zu to %zu %s", j, i, o.str().c_str()));
                std::string s = textOf(*live[i].d, "the target of an assignment");
                if (!o.threw) check(s == live[j].text, "copy-differs", difference(live[j].text, s));
                else probe("assignment out of memory");
                live[i].text = s;
                nontrivial();
                break;
            }
            case 5: {                     // destroy
                if (live.size() < 2) break;
                what = "destroying";
                Data* d = live[i].d;
                live.erase(live.begin() + i);
                Outcome o = call("destroy", [&] { delete d; });
                check(!o.threw, "destroy-threw", o.str());
                nontrivial();
                break;
            }
            case 6: case 7: {             // change
                std::string did;
                did = modify(*live[i].d, {});
                if (did.empty()) break;
                log("%s of %zu", did.c_str(), i);
                what = did;
                std::string s = textOf(*live[i].d, "a changed model");
                live[i].text = s;
                break;
            }
            case 8: {                     // a mesh on its own, copied and changed beside its model
                const Geometry::Mesh::Mesh* m = live[i].d->mesh;
                if (!m) break;
                what = "copying and changing a mesh";
                Geometry::Mesh::Mesh* c = nullptr;
                oom();
                Outcome o = call("mesh copy", [&] { c = m->cloneTo<Geometry::Mesh::Mesh>(); });
                bool fired = oomOver();
                check(!o.threw || (fired && o.badAlloc), "copy-failed", "copying a mesh " + o.str());
                if (o.threw) break;
                // as the mesh of a model sharing the materials
                Data holder;
                holder.physicalModels = live[i].d->physicalModels;
                holder.mesh = c;
                Data as;
                as.physicalModels = live[i].d->physicalModels;
                as.mesh = live[i].d->mesh;
                std::string a = textOf(as, "the mesh copied"), b = textOf(holder, "a mesh copy");
                check(a == b, "copy-differs", difference(a, b));
                { SutScope s; c->applyScalingFactor(3.); }
                checkAll("scaling a mesh copy");
                const Geometry::Mesh::Mesh* other = live[j].d->mesh;
                if (other && typeid(*other) == typeid(*c)) {
                    as.physicalModels = live[j].d->physicalModels; as.mesh = live[j].d->mesh;
                    std::string want = textOf(as, "the mesh assigned");
                    oom();
                    o = call("mesh assign", [&] {
                        if (c->is<Geometry::Mesh::Geometric>()) *c->castTo<Geometry::Mesh::Geometric>() = *other->castTo<Geometry::Mesh::Geometric>();
                        else if (c->is<Geometry::Mesh::Unstructured>()) *c->castTo<Geometry::Mesh::Unstructured>() = *other->castTo<Geometry::Mesh::Unstructured>();
                        else *c->castTo<Geometry::Mesh::Structured>() = *other->castTo<Geometry::Mesh::Structured>();
                    });
                    fired = oomOver();
                    check(!o.threw || (fired && o.badAlloc), "copy-failed", "assigning a mesh " + o.str());
                    // its materials are those of either model
                    if (!o.threw) { holder.physicalModels = live[j].d->physicalModels; std::string s = textOf(holder, "the target of a mesh assignment"); check(s == want, "copy-differs", difference(want, s)); }
                    else {
                        probe("mesh assignment out of memory");
                        std::string foreign, s = describe(holder, &foreign);
                        check(foreign.empty() || foreign == "material", "foreign-reference", "a " + foreign + " of a mesh whose assignment failed is not one of its own");
                    }
                    nontrivial();
                }
                holder.mesh = nullptr; holder.physicalModels = nullptr; as.mesh = nullptr; as.physicalModels = nullptr;
                { SutScope s; delete c; }
                break;
            }
            case 9: {                     // sources and requests copied on their own
                if (chance(1, 2)) {
                    auto *a = live[i].d->sources, *b = live[j].d->sources;
                    if (!a || !b || a->empty() || b->empty()) break;
                    what = "copying and assigning a source";
                    auto *x = (*a)(choose(uint32_t(a->size()))), *y = (*b)(choose(uint32_t(b->size())));
                    part<Source::Base>(x, y, "source");
                } else {
                    auto *a = live[i].d->physicalModels, *b = live[j].d->physicalModels;
                    if (!a || !b || a->empty() || b->empty()) break;
                    what = "copying and assigning a material";
                    auto *x = (*a)(choose(uint32_t(a->size()))), *y = (*b)(choose(uint32_t(b->size())));
                    part<PhysicalModel::PhysicalModel>(x, y, "material");
                }
                break;
            }
        }
        if (what.empty()) continue;
        checkAll(what.c_str());
        uint64_t h = 0;
        for (auto& l : live) h = h * 31 + hash(l.text);
        state(h);
    }
    while (!live.empty()) {
        size_t i = choose(live.size());
        Data* d = live[i].d;
        live.erase(live.begin() + i);
        { SutScope s; delete d; }
        checkAll("destroying");
    }
}
