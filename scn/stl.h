// Generated ASCII STL files with known truth.
#pragma once
#include "sim/sim.h"
#include "sim/stream.h"
#include <array>
#include <cstdlib>
#include <cmath>

struct StlFacet { std::array<double, 3> v[3]; int solid; };
struct StlDoc {
    std::string text;
    std::vector<std::string> names;
    std::vector<StlFacet> facets;
    std::vector<std::pair<size_t, size_t>> inside;   // [after the word "facet", end of "endloop")
};

inline std::string stlNumber(double& v) {
    // a decimal text and the double it denotes
    static const char* forms[] = {"%g", "%.9e", "%.17g", "%f", "%+.6E"};
    std::string s = sim::fmt(forms[sim::choose(5)], v);
    v = strtod(s.c_str(), nullptr);
    return s;
}
inline StlDoc genStl(int maxSolids, int maxFacets, bool anyLines = false) {
    using namespace sim;
    StlDoc d;
    int nPool = range(3, 12);
    std::vector<std::array<double, 3>> pool;
    std::vector<std::array<std::string, 3>> texts;
    Rng r(seedChoice());
    for (int i = 0; i < nPool; i++) {
        std::array<double, 3> p; std::array<std::string, 3> t;
        for (int k = 0; k < 3; k++) {
            switch (r.below(4)) {
                case 0: p[k] = int(r.below(9)) - 4; break;
                case 1: p[k] = (int(r.below(2001)) - 1000) * 1e-3; break;
                case 2: p[k] = (int(r.below(1000)) + 1) * 1e4; break;
                default: p[k] = 0; break;
            }
        }
        p[r.below(3)] += 100 * (i + 1);     // positions of the pool differ clearly
        for (int k = 0; k < 3; k++) t[k] = stlNumber(p[k]);
        pool.push_back(p); texts.push_back(t);
    }
    const char* nl = chance(1, 4) ? "\r\n" : "\n";
    int indentMode = choose(3);
    auto ind = [&](int depth) {
        std::string s;
        if (indentMode == 0) s = std::string(depth * 2, ' ');
        else if (indentMode == 1) for (int i = 0; i < depth; i++) s += r.below(2) ? "\t" : "  ";
        return s;
    };
    const bool loose = anyLines && chance(1, 5);         // numbers broken into lines at any space
    auto gap = [&]() -> std::string { if (loose && r.below(4) == 0) return nl; return indentMode == 1 && r.below(3) == 0 ? "  " : " "; };
    if (loose) probe("numbers broken into lines");
    int ns = range(1, maxSolids);
    static const std::vector<std::string> stems{"a", "solid1", "PEC", "body_part", "x-7", "vertex", "outer", "facet", "endloop", "42"};
    for (int s = 0; s < ns; s++) {
        std::string name = chance(1, 8) ? "" : pick(stems) + (chance(1, 2) ? std::to_string(s) : "");
        d.names.push_back(name);
        d.text += ind(0) + "solid" + (name.empty() ? "" : " " + name + (chance(1, 6) ? " made by hand" : "")) + nl;
        int nf = range(0, maxFacets);
        for (int f = 0; f < nf; f++) {
            StlFacet fc; fc.solid = s;
            size_t b = d.text.size();
            d.text += ind(1) + "facet";
            b = d.text.size() + 1;
            d.text += " normal 0 0 1"; d.text += nl;
            d.text += ind(2) + "outer loop" + nl;
            int i0 = choose(nPool), i1 = choose(nPool), i2 = choose(nPool);
            if (i1 == i0) i1 = (i1 + 1) % nPool;
            while (i2 == i0 || i2 == i1) i2 = (i2 + 1) % nPool;
            int ids[3] = {i0, i1, i2};
            for (int k = 0; k < 3; k++) {
                fc.v[k] = pool[ids[k]];
                d.text += ind(3) + "vertex";
                for (int c = 0; c < 3; c++) d.text += gap() + texts[ids[k]][c];
                if (loose && r.below(4) == 0) d.text += " "; else d.text += nl;
            }
            d.text += ind(2) + "endloop";
            d.inside.push_back({b, d.text.size()});
            d.text += nl;
            d.text += ind(1) + "endfacet" + nl;
            d.facets.push_back(fc);
        }
        d.text += "endsolid" + (name.empty() || chance(1, 3) ? "" : " " + name);
        if (s + 1 < ns || !chance(1, 4)) d.text += nl;
        if (chance(1, 5)) d.text += nl;
    }
    return d;
}

#include "parser/stl/Parser.h"
#include "geometry/mesh/Geometric.h"

using SEMBA::Data;

inline std::unique_ptr<Data> readStl(sim::SimBuf& buf, sim::Outcome& o) {
    std::unique_ptr<Data> d;
    o = sim::call("read stl", [&] {
        std::istream in(&buf);
        SEMBA::Parser::STL::Parser p;
        d.reset(new Data(p.read(in)));
    });
    if (o.threw) d.reset();
    return d;
}
inline std::string facetStr(const StlFacet& f) {
    std::string s;
    for (int k = 0; k < 3; k++) s += sim::fmt("(%.17g %.17g %.17g)", f.v[k][0], f.v[k][1], f.v[k][2]);
    return s;
}
// The triangles of a model read from STL; every structural invariant that holds for any result is checked here.
inline std::vector<StlFacet> stlTriangles(const Data& d, std::vector<std::string>& names) {
    using namespace SEMBA; using sim::check; using sim::fmt;
    check(d.mesh != nullptr, "no-mesh", "model without mesh");
    check(d.mesh->is<Geometry::Mesh::Geometric>(), "no-mesh", "mesh of the wrong kind");
    const Geometry::Mesh::Geometric* m = d.mesh->castTo<Geometry::Mesh::Geometric>();
    std::map<const Geometry::Layer::Layer*, int> layerPos;
    std::set<size_t> lids;
    for (size_t i = 0; i < m->layers().size(); i++) {
        const Geometry::Layer::Layer* l = m->layers()(i);
        layerPos[l] = int(i);
        names.push_back(l->getName());
        check(l->getId().toInt() != 0 && lids.insert(l->getId().toInt()).second, "layer-ids", "layer ids are not distinct and non-zero");
    }
    std::set<const void*> coords;
    for (size_t i = 0; i < m->coords().size(); i++) coords.insert(m->coords()(i));
    check(d.physicalModels && d.physicalModels->size() == 1, "material", "not exactly one material");
    check((*d.physicalModels)(0)->is<PhysicalModel::Predefined::PEC>(), "material", "material is not a perfect conductor");
    check(d.sources && d.sources->size() == 0 && d.outputRequests && d.outputRequests->size() == 0, "extra-content", "sources or output requests not empty");
    std::vector<StlFacet> r;
    std::map<std::array<double, 3>, const void*> at;
    std::set<size_t> eids;
    for (size_t i = 0; i < m->elems().size(); i++) {
        const Geometry::ElemR* e = m->elems()(i);
        check(e->is<Geometry::Tri3>(), "element-kind", "an element is not a triangle");
        check(e->getId().toInt() != 0 && eids.insert(e->getId().toInt()).second, "element-ids", "element ids are not distinct and non-zero");
        StlFacet f; f.solid = -1;
        check(e->getLayer() != nullptr && layerPos.count(e->getLayer()), "layer", "triangle in no layer of the model");
        f.solid = layerPos[e->getLayer()];
        check(e->getModel() == (*d.physicalModels)(0), "material", "triangle does not carry the model's material");
        check(e->numberOfCoordinates() == 3, "element-kind", "triangle without three vertices");
        for (int k = 0; k < 3; k++) {
            const Geometry::CoordR3* c = e->getV(k);
            check(c && coords.count(c), "vertex", "vertex is not a coordinate of the model");
            for (int x = 0; x < 3; x++) f.v[k][x] = c->pos()(x);
            auto it = at.insert({f.v[k], c}).first;
            check(it->second == c, "vertex-sharing", "equal positions do not share a coordinate");
        }
        r.push_back(f);
    }
    return r;
}
inline bool sameFacet(const StlFacet& a, const StlFacet& b) {
    for (int k = 0; k < 3; k++) for (int x = 0; x < 3; x++) if (a.v[k][x] != b.v[k][x]) return false;
    return true;
}
inline void compareStl(const Data& d, const StlDoc& doc) {
    using sim::check; using sim::fmt;
    std::vector<std::string> names;
    std::vector<StlFacet> got = stlTriangles(d, names);
    check(names.size() == doc.names.size(), "layers", fmt("%zu layers for %zu solids", names.size(), doc.names.size()));
    for (size_t i = 0; i < names.size(); i++) check(names[i] == doc.names[i], "layer-name", "layer '" + names[i] + "' for solid '" + doc.names[i] + "'");
    std::set<std::array<double, 3>> at;
    for (auto& f : doc.facets) for (auto& v : f.v) at.insert(v);
    auto& cs = d.mesh->castTo<SEMBA::Geometry::Mesh::Geometric>()->coords();
    check(cs.size() >= at.size() && cs.size() <= 3 * doc.facets.size(), "extra-content", fmt("%zu coordinates for %zu positions", cs.size(), at.size()));
    for (size_t i = 0; i < cs.size(); i++) check(at.count({cs(i)->pos()(0), cs(i)->pos()(1), cs(i)->pos()(2)}) == 1, "extra-content", "a coordinate is not a vertex of the file");
    check(got.size() == doc.facets.size(), "facet-count", fmt("%zu triangles for %zu facets", got.size(), doc.facets.size()));
    for (size_t i = 0; i < got.size(); i++) {
        check(sameFacet(got[i], doc.facets[i]), "vertex", fmt("facet %zu: ", i) + facetStr(got[i]) + " instead of " + facetStr(doc.facets[i]));
        check(got[i].solid == doc.facets[i].solid, "layer", fmt("facet %zu is in layer %d, its solid is %d", i, got[i].solid, doc.facets[i].solid));
    }
}
