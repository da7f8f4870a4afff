// Random models: a plan (plain data, made in the framework), the Data built from it, and a canonical text of any Data.
#pragma once
#include "sim/sim.h"
#include "sim/fs.h"
#include <cstring>
#include <memory>
#include <array>
#include <map>
#include <string>
#include <vector>
#include "Data.h"
#include "geometry/mesh/Geometric.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "math/function/Gaussian.h"
#include "math/function/LinearInterpolation.h"
#include "physicalModel/bound/Mur1.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/SMA.h"
#include "physicalModel/bound/Periodic.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/surface/SIBC.h"
#include "physicalModel/surface/SIBCFile.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/wire/Wire.h"
#include "physicalModel/wire/Extremes.h"
#include "source/PlaneWave.h"
#include "source/Generator.h"
#include "source/Dipole.h"
#include "source/OnLine.h"
#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"

namespace model {
using namespace sim;
using namespace SEMBA;
using Geometry::CoordR3; using Geometry::CoordI3; using Geometry::ElemR; using Geometry::ElemI;
using Geometry::CoordId; using Geometry::ElemId; using Geometry::LayerId;

enum MatKind { mPEC, mClassic, mPMC, mSMA, mDispersive, mDispersiveFile, mPML, mCrystal, mFerrite, mWire, mWireRLC, mWireFile, mExtremes, mGap, mPortPredefined, mPortRLC, mPortFile, mMultilayer, mSIBC, mSIBCFile, mMatKinds };
enum ElemKind { eNode, eLine, eQuad, eHex, eTri3, eTet4, eTri6, eTet10, eElemKinds };
enum SrcKind { sPlaneWave, sGenerator, sOnLine, sDipole, sWaveguide, sCoaxial, sPlaneWaveRandom, sSrcKinds };
enum ReqKind { rElem, rBulk, rFarField, rReqKinds };
enum MeshKind { kUnstructured, kGeometric, kStructured, kNoMesh };
enum MagKind { gNone, gGaussian, gTable };

struct PMat { int kind; size_t id; std::string name; double p[10]; };
struct PLayer { size_t id; std::string name; };
struct PCoord { size_t id; std::array<int, 3> q; std::array<double, 3> pos; };   // q: quarters of a grid cell
struct PElem { int kind; size_t id; std::vector<int> v; int layer, mat; };
struct PSrc { int kind; std::vector<int> elems; int mag; double p[10]; };
struct PReq { int kind; std::vector<int> elems; std::string name; int type; double p[12]; bool time, freq; std::string tf; };
struct Plan {
    bool hasSolver = false;
    std::string solver;
    std::map<std::string, std::string> settings, nested;
    std::vector<PMat> mats;
    std::vector<PLayer> layers;
    std::vector<double> grid[3];
    std::vector<PCoord> coords;
    std::vector<PElem> elems;
    std::vector<PSrc> srcs;
    std::vector<PReq> reqs;
    int mesh = kUnstructured;
    int bounds[3][2];                 // 0 none, 1.. kind
    bool hasMats = true, hasSrcs = true, hasReqs = true;
    double scale = 0;                 // geometryScalingFactor, 0 = not set
};
struct Want {
    int maxElems = 10, maxMats = 5, maxLayers = 3, maxSrcs = 2, maxReqs = 2;
    bool structured = true, noMesh = false, quadratic = true, offGrid = true, ports = true;
    bool nullLayer = true, nullMat = true, missing = true;
    std::vector<std::string> names{"a", "Layer one", "metal", "b", "x/y", "A", "Wire-2", "metal", "glass__oo 11"};
    double span = 1.0;                // size of the grid
    double far = 0.0;                 // distance from the origin
    int only = -1;                    // mesh kind
};

inline const char* elemName(int k) { static const char* n[]{"node", "line", "quad", "hex", "tri3", "tet4", "tri6", "tet10"}; return n[k]; }
inline int elemSize(int k) { static const int n[]{1, 2, 4, 8, 3, 4, 6, 10}; return n[k]; }

struct IdPool {
    std::set<size_t> used;
    int style = choose(3);            // 0 consecutive, 1 gaps, 2 anything
    size_t last = 0;
    size_t next() {
        size_t id;
        switch (style) {
            case 0: id = last + 1; break;
            case 1: id = last + 1 + choose(4); break;
            default: do id = 1 + choose(200); while (used.count(id));
        }
        last = std::max(last, id); used.insert(id);
        return id;
    }
};

inline double value() {
    static const std::vector<double> v{1, 0.5, 2.25, 1e-3, 3e8, 0.1, 7, 12345.678, 1e-12, 0.333333333333};
    return pick(v);
}

class Planner {
    Plan& p;
    const Want& w;
    std::map<std::array<int, 3>, int> at;
    IdPool coordIds, elemIds;
public:
    Planner(Plan& p, const Want& w) : p(p), w(w) {}
    int coord(std::array<int, 3> q) {
        auto it = at.find(q);
        if (it != at.end()) return it->second;
        PCoord c;
        c.id = coordIds.next(); c.q = q;
        for (int d = 0; d < 3; d++) {
            const auto& g = p.grid[d];
            int i = q[d] / 4, r = q[d] % 4;
            c.pos[d] = r == 0 ? g[i] : g[i] + (g[i + 1] - g[i]) * r / 4.;
        }
        p.coords.push_back(c);
        at[q] = int(p.coords.size()) - 1;
        return int(p.coords.size()) - 1;
    }
    // kind at a cell; planeXY: quads parallel to xy
    int elem(int kind, bool plain, bool planeXY, bool hasMat, bool wholeBox = false) {
        PElem e;
        e.kind = kind; e.id = elemIds.next();
        e.layer = p.layers.empty() || (w.nullLayer && chance(1, 8)) ? -1 : int(choose(p.layers.size()));
        e.mat = !hasMat || p.mats.empty() || (w.nullMat && chance(1, 8)) ? -1 : int(choose(p.mats.size()));
        int lo[3], hi[3];
        for (int d = 0; d < 3; d++) {
            int n = int(p.grid[d].size()) - 1;
            lo[d] = int(choose(n));
            hi[d] = lo[d] + 1 + (wholeBox ? int(choose(n - lo[d])) : 0);
        }
        int off = !plain && w.offGrid && p.mesh != kStructured && chance(1, 4) ? 1 + int(choose(3)) : 0;
        auto corner = [&](int x, int y, int z, int n = 4) {   // offsets in quarters of the cell
            int b[3]{x, y, z}; std::array<int, 3> q;
            for (int d = 0; d < 3; d++) {
                int span = 4 * (hi[d] - lo[d]);
                q[d] = 4 * lo[d] + (b[d] == 4 ? span : b[d] == 0 ? 0 : span * b[d] / 4);
                if (off && b[d] == 4) q[d] -= off;
            }
            return coord(q);
        };
        switch (kind) {
            case eNode: e.v = {corner(chance(1, 2) ? 4 : 0, 0, 0)}; break;
            case eLine: {
                int a[3]{0, 0, 0}; a[choose(3)] = 4;
                if (p.mesh != kStructured && chance(1, 6)) a[choose(3)] = 4;
                int f = corner(0, 0, 0), t = corner(a[0], a[1], a[2]);
                if (chance(1, 3)) std::swap(f, t);
                e.v = {f, t};
                break;
            }
            case eQuad: {
                int d = planeXY ? 2 : int(choose(3)), a = (d + 1) % 3, b = (d + 2) % 3;
                int c[4][3]{};
                c[1][a] = 4; c[2][a] = c[2][b] = 4; c[3][b] = 4;
                int turn = int(choose(4)), flip = int(choose(2));
                for (int i = 0; i < 4; i++) { int k = ((flip ? 4 - i : i) + turn) % 4; e.v.push_back(corner(c[k][0], c[k][1], c[k][2])); }
                break;
            }
            case eHex: e.v = {corner(0, 0, 0), corner(4, 0, 0), corner(4, 4, 0), corner(0, 4, 0), corner(0, 0, 4), corner(4, 0, 4), corner(4, 4, 4), corner(0, 4, 4)}; break;
            case eTri3: e.v = {corner(0, 0, 0), corner(4, 0, 0), corner(0, 4, chance(1, 2) ? 4 : 0)}; break;
            case eTet4: e.v = {corner(0, 0, 0), corner(4, 0, 0), corner(0, 4, 0), corner(0, 0, 4)}; break;
            case eTri6: e.v = {corner(0, 0, 0), corner(2, 0, 0), corner(0, 2, 0), corner(4, 0, 0), corner(2, 2, 0), corner(0, 4, 0)}; break;
            case eTet10: {
                static const int c[10][3]{{0,0,0},{2,0,0},{0,2,0},{0,0,2},{4,0,0},{2,2,0},{2,0,2},{0,4,0},{0,2,2},{0,0,4}};
                for (auto& k : c) e.v.push_back(corner(k[0], k[1], k[2]));
                break;
            }
        }
        std::set<int> distinct(e.v.begin(), e.v.end());
        if (distinct.size() != e.v.size()) { off = 0; e.v.clear(); return elem(kind, true, planeXY, hasMat, wholeBox); }
        p.elems.push_back(e);
        return int(p.elems.size()) - 1;
    }
    void make() {
        p.hasSolver = !w.missing || !chance(1, 6);
        if (p.hasSolver) {
            p.solver = chance(1, 2) ? "cudg3d" : "ugrfdtd";
            int n = int(choose(4));
            static const std::vector<std::string> k{"finalTime", "timeStep", "cfl", "order", "useLTS"}, v{"1e-9", "0.8", "1", "text", "two words", ""};
            for (int i = 0; i < n; i++) p.settings[pick(k)] = pick(v);
            if (chance(1, 3)) p.nested["depth"] = pick(v);
        }
        p.hasMats = !w.missing || !chance(1, 12);
        p.hasSrcs = !w.missing || !chance(1, 10);
        p.hasReqs = !w.missing || !chance(1, 10);
        IdPool matIds, layIds;
        if (p.hasMats) for (int n = range(0, w.maxMats); n > 0; n--) {
            PMat m;
            m.kind = chance(1, 3) ? int(choose(2)) : int(choose(mMatKinds));
            m.id = matIds.next(); m.name = pick(w.names);
            for (double& d : m.p) d = value();
            p.mats.push_back(m);
        }
        if (p.mesh == kNoMesh) {
            for (int n = p.hasSrcs ? range(0, 2) : 0; n > 0; n--) { PSrc s; s.kind = chance(1, 2) ? sDipole : sGenerator; s.mag = int(choose(3)); for (double& d : s.p) d = value(); p.srcs.push_back(s); }
            return;
        }
        for (int n = range(0, w.maxLayers); n > 0; n--) p.layers.push_back({layIds.next(), pick(w.names)});
        for (int d = 0; d < 3; d++) {
            int n = range(2, 4);
            double x = chance(1, 2) ? 0 : chance(1, 2) ? -0.5 * w.span : 10 * w.span;
            x += w.far;
            double step = w.span / 4;
            for (int i = 0; i < n; i++) { p.grid[d].push_back(x); x += chance(1, 3) ? step * 3 : step; }
        }
        memset(p.bounds, 0, sizeof p.bounds);
        if (p.mesh == kStructured) for (auto& b : p.bounds) for (int& x : b) x = int(choose(6));
        if (chance(1, 4)) for (int n = range(1, 2); n > 0; n--) coord({4 * int(choose(p.grid[0].size())), 4 * int(choose(p.grid[1].size())), 4 * int(choose(p.grid[2].size()))});
        int kinds = p.mesh == kStructured ? 4 : w.quadratic ? int(eElemKinds) : 6;
        for (int n = range(0, w.maxElems); n > 0; n--) elem(int(choose(kinds)), false, false, true, chance(1, 4));
        if (p.hasSrcs) for (int n = range(0, w.maxSrcs); n > 0; n--) {
            PSrc s;
            s.kind = w.ports ? int(choose(sSrcKinds)) : int(choose(4));
            s.mag = int(choose(3));
            for (double& d : s.p) d = value();
            int k = s.kind == sGenerator ? eNode : s.kind == sOnLine ? eLine : s.kind == sWaveguide || s.kind == sCoaxial ? eQuad : eHex;
            for (int m = s.kind == sGenerator || s.kind == sOnLine ? range(1, 3) : 1; m > 0; m--) s.elems.push_back(elem(k, true, true, false));
            p.srcs.push_back(s);
        }
        if (p.hasReqs) for (int n = range(0, w.maxReqs); n > 0; n--) {
            PReq r;
            r.kind = int(choose(rReqKinds));
            r.name = pick(w.names);
            static const std::vector<int> types{0, 1, 2, 3, 4, 7, 8};
            r.type = pick(types);
            for (double& d : r.p) d = value();
            r.time = chance(1, 2); r.freq = chance(1, 2);
            if (r.freq && chance(1, 3)) r.tf = "transfer.txt";
            if (r.kind == rFarField) r.elems = {elem(eHex, true, false, false)};
            else if (r.kind == rElem && !p.elems.empty() && chance(1, 3)) {
                std::set<int> s;
                for (int m = range(1, 3); m > 0; m--) s.insert(int(choose(p.elems.size())));
                r.elems.assign(s.begin(), s.end());
            } else for (int m = range(1, 3); m > 0; m--) r.elems.push_back(elem(int(choose(4)), true, false, false));
            p.reqs.push_back(r);
        }
    }
};

inline Plan plan(const Want& w = Want()) {
    Plan p;
    fs().put(fs().cwd + "/material.disp", "dispersive");
    if (w.only >= 0) p.mesh = w.only;
    else if (w.noMesh && chance(1, 8)) p.mesh = kNoMesh;
    else p.mesh = w.structured ? int(choose(3)) : int(choose(2));
    Planner(p, w).make();
    log("model: mesh kind %d, %zu layers, %zu materials, %zu coordinates, %zu elements, %zu sources, %zu requests", p.mesh, p.layers.size(), p.mats.size(), p.coords.size(), p.elems.size(), p.srcs.size(), p.reqs.size());
    return p;
}

// ---- building (inside the system) -------------------------------------------------------------------
inline PhysicalModel::PhysicalModel* buildMat(const PMat& m) {
    using namespace PhysicalModel;
    PhysicalModel::Id id(m.id);
    const double* p = m.p;
    Math::Axis::Local axis(Math::CVecR3(p[0], p[1], p[2]), Math::CVecR3(p[3], p[4], p[5]));
    switch (m.kind) {
        case mPEC: return new Predefined::PEC(id, m.name);
        case mPMC: return new Predefined::PMC(id, m.name);
        case mSMA: return new Predefined::SMA(id, m.name);
        case mClassic: return new Volume::Classic(id, m.name, p[0], p[1], p[2], p[3]);
        case mDispersive: { std::vector<Volume::PoleResidue> v; for (int i = 0; i < int(p[4]) % 3; i++) v.push_back({{p[5], p[6 + i]}, {p[7], p[8]}}); return new Volume::Dispersive(id, m.name, p[0], p[1], 0., 0., v); }
        case mDispersiveFile: return new Volume::Dispersive(id, m.name, FileSystem::Project("material.disp"));
        case mPML: return new Volume::PML(id, m.name, axis);
        case mCrystal: return new Volume::AnisotropicCrystal(id, m.name, axis, Math::CVecR3(p[6], p[7], p[8]), p[9]);
        case mFerrite: return new Volume::AnisotropicFerrite(id, m.name, axis, p[6], p[7], p[8]);
        case mWire: return new Wire::Wire(id, m.name, p[0], p[1], p[2]);
        case mWireRLC: return new Wire::Wire(id, m.name, p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
        case mWireFile: return new Wire::Wire(id, m.name, p[0], "wire.disp");
        case mExtremes: { Wire::Wire w(id, m.name, p[0], p[1], p[2]); Multiport::RLC a(PhysicalModel::Id(m.id + 1000), "left", Multiport::Multiport::sRLC, p[3], p[4], p[5]); return new Wire::Extremes(m.name, w, &a, p[6] > 1 ? &a : nullptr); }
        case mGap: return new Gap::Gap(id, m.name, p[0]);
        case mPortPredefined: return new Multiport::Predefined(id, m.name, p[0] < 1 ? Multiport::Multiport::shortCircuit : Multiport::Multiport::openCircuit);
        case mPortRLC: return new Multiport::RLC(id, m.name, p[0] < 1 ? Multiport::Multiport::sRLC : Multiport::Multiport::pRLC, p[1], p[2], p[3]);
        case mPortFile: return new Multiport::Dispersive(id, m.name, "port.disp");
        case mMultilayer: {
            std::vector<Surface::Multilayer::Layer> l;
            for (int i = 0; i <= int(p[0]) % 3; i++) l.push_back(Surface::Multilayer::Layer(p[1 + i], p[4], p[5], p[6]));
            std::vector<Surface::Multilayer::FittingOptions> o;
            if (p[7] > 1) o.push_back(Surface::Multilayer::FittingOptions({p[8], p[9]}, 3));
            return new Surface::Multilayer(id, m.name, l, o);
        }
        case mSIBC: { Math::MatC22 a, b; a(0, 0) = p[0]; a(1, 0) = p[1]; b(0, 1) = p[2]; std::vector<Surface::SIBC::PoleResidue> v; if (p[3] > 1) v.push_back({{p[4], p[5]}, a}); return new Surface::SIBC(id, m.name, a, b, v); }
        case mSIBCFile: return new Surface::SIBCFile(id, m.name, FileSystem::Project("sibc.mibc"));
    }
    return nullptr;
}
inline const PhysicalModel::Bound::Bound* buildBound(int k) {
    using namespace PhysicalModel::Bound;
    switch (k) { case 1: return new PEC(MatId(0)); case 2: return new PMC(MatId(0)); case 3: return new PML(MatId(0)); case 4: return new Mur1(MatId(0)); case 5: return new Periodic(MatId(0)); }
    return nullptr;
}
inline Source::Magnitude::Magnitude* buildMag(int k, const double* p) {
    switch (k) {
        case gGaussian: return new Source::Magnitude::Magnitude(new Math::Function::Gaussian(p[0] + 0.1, p[1], p[2]));
        case gTable: return new Source::Magnitude::Magnitude(new Math::Function::LinearInterpolation<Math::Real, Math::Real>(std::vector<std::pair<double, double>>{{0, p[0]}, {1, p[1]}, {2.5, p[2]}}));
    }
    return nullptr;
}
template <class T> Geometry::ElemR* elemAs(const PElem& e, const std::vector<const CoordR3*>& v, const Geometry::Element::Layer* l, const Geometry::Element::Model* m) {
    std::vector<const CoordR3*> a;
    for (int i : e.v) a.push_back(v[i]);
    return new T(ElemId(e.id), a.data(), l, m);
}
template <class T> Geometry::ElemI* elemAsI(const PElem& e, const std::vector<const CoordI3*>& v, const Geometry::Element::Layer* l, const Geometry::Element::Model* m) {
    std::vector<const CoordI3*> a;
    for (int i : e.v) a.push_back(v[i]);
    return new T(ElemId(e.id), a.data(), l, m);
}
inline Data* build(const Plan& p) {
    std::unique_ptr<Data> d(new Data);
    if (p.hasSolver) {
        Solver::Settings s; s.setObject();
        for (auto& k : p.settings) { Solver::Settings v; v.setString(k.second); s.addMember(k.first, v); }
        if (!p.nested.empty()) { Solver::Settings n; n.setObject(); for (auto& k : p.nested) { Solver::Settings v; v.setString(k.second); n.addMember(k.first, v); } s.addMember("nested", n); }
        if (p.scale != 0) { Solver::Settings v; v.setReal(p.scale); s.addMember("geometryScalingFactor", v); }
        d->solver = new Solver::Info(p.solver, s);
    }
    std::vector<const Geometry::Element::Model*> mats;
    if (p.hasMats) {
        d->physicalModels = new PhysicalModel::Group<>;
        for (auto& m : p.mats) { PhysicalModel::PhysicalModel* x = buildMat(m); d->physicalModels->add(x); mats.push_back(x); }
    }
    Geometry::Layer::Group<> layers;
    std::vector<const Geometry::Element::Layer*> lays;
    for (auto& l : p.layers) { auto* x = new Geometry::Layer::Layer(LayerId(l.id), l.name); layers.add(x); lays.push_back(x); }
    auto lay = [&](const PElem& e) { return e.layer < 0 ? nullptr : lays[e.layer]; };
    auto mat = [&](const PElem& e) { return e.mat < 0 ? nullptr : mats[e.mat]; };
    std::vector<Geometry::Elem*> el;   // elements of the mesh
    if (p.mesh == kStructured) {
        Geometry::Coordinate::Group<CoordI3> cg; std::vector<const CoordI3*> cs;
        for (auto& c : p.coords) { auto* x = new CoordI3(CoordId(c.id), Math::CVecI3(c.q[0] / 4, c.q[1] / 4, c.q[2] / 4)); cg.add(x); cs.push_back(x); }
        Geometry::Element::Group<ElemI> eg;
        for (auto& e : p.elems) {
            ElemI* x = nullptr;
            switch (e.kind) {
                case eNode: x = elemAsI<Geometry::NodI>(e, cs, lay(e), mat(e)); break;
                case eLine: x = elemAsI<Geometry::LinI2>(e, cs, lay(e), mat(e)); break;
                case eQuad: x = elemAsI<Geometry::QuaI4>(e, cs, lay(e), mat(e)); break;
                case eHex: x = elemAsI<Geometry::HexI8>(e, cs, lay(e), mat(e)); break;
            }
            eg.add(x);
        }
        Geometry::BoundTerminations3 b;
        for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) b.setBound(i, k, buildBound(p.bounds[i][k]));
        std::vector<double> g[3]{p.grid[0], p.grid[1], p.grid[2]};
        auto* m = new Geometry::Mesh::Structured(Geometry::Grid3(g), cg, eg, layers, b);
        d->mesh = m;
        for (auto& e : p.elems) el.push_back(m->elems().getId(ElemId(e.id)));
    } else if (p.mesh != kNoMesh) {
        Geometry::Coordinate::Group<CoordR3> cg; std::vector<const CoordR3*> cs;
        for (auto& c : p.coords) { auto* x = new CoordR3(CoordId(c.id), Math::CVecR3(c.pos[0], c.pos[1], c.pos[2])); cg.add(x); cs.push_back(x); }
        Geometry::Element::Group<ElemR> eg;
        for (auto& e : p.elems) {
            ElemR* x = nullptr;
            switch (e.kind) {
                case eNode: x = elemAs<Geometry::NodR>(e, cs, lay(e), mat(e)); break;
                case eLine: x = elemAs<Geometry::LinR2>(e, cs, lay(e), mat(e)); break;
                case eQuad: x = elemAs<Geometry::QuaR4>(e, cs, lay(e), mat(e)); break;
                case eHex: x = elemAs<Geometry::HexR8>(e, cs, lay(e), mat(e)); break;
                case eTri3: x = elemAs<Geometry::Tri3>(e, cs, lay(e), mat(e)); break;
                case eTet4: x = elemAs<Geometry::Tet4>(e, cs, lay(e), mat(e)); break;
                case eTri6: x = elemAs<Geometry::Tri6>(e, cs, lay(e), mat(e)); break;
                case eTet10: x = elemAs<Geometry::Tet10>(e, cs, lay(e), mat(e)); break;
            }
            eg.add(x);
        }
        Geometry::Mesh::Unstructured* m;
        std::vector<double> g[3]{p.grid[0], p.grid[1], p.grid[2]};
        if (p.mesh == kGeometric) m = new Geometry::Mesh::Geometric(Geometry::Grid3(g), cg, eg, layers);
        else m = new Geometry::Mesh::Unstructured(cg, eg, layers);
        d->mesh = m;
        for (auto& e : p.elems) el.push_back(m->elems().getId(ElemId(e.id)));
    }
    auto group = [&](const std::vector<int>& ids) { Geometry::Element::Group<> g; for (int i : ids) g.add(el[i]); return g; };
    if (p.hasSrcs) {
        d->sources = new Source::Group<>;
        for (auto& s : p.srcs) {
            auto g = group(s.elems);
            const double* q = s.p;
            auto* mag = buildMag(s.mag, q + 6);
            switch (s.kind) {
                case sPlaneWave: d->sources->add(new Source::PlaneWave(mag, g, Math::CVecR3(0, 0, q[0]), Math::CVecR3(q[1], q[2], 0))); break;
                case sPlaneWaveRandom: d->sources->add(new Source::PlaneWave(mag, g, Math::Int(3), q[0])); break;
                case sGenerator: d->sources->add(new Source::Generator(mag, g, q[0] < 1 ? Source::Generator::voltage : Source::Generator::current, q[1] < 1 ? Source::Generator::soft : Source::Generator::hard)); break;
                case sOnLine: d->sources->add(new Source::OnLine(mag, g, q[0] < 1 ? Source::OnLine::electric : Source::OnLine::magnetic, q[1] < 1 ? Source::OnLine::hard : Source::OnLine::soft)); break;
                case sDipole: d->sources->add(new Source::Dipole(mag, g, q[0], Math::CVecR3(q[1], q[2], q[3]), Math::CVecR3(q[4], q[5], 0))); break;
                case sWaveguide: d->sources->add(new Source::Port::WaveguideRectangular(mag, g, q[0] < 1 ? Source::Port::Waveguide::TE : Source::Port::Waveguide::TM, {1, q[1] < 1 ? 0 : 2})); break;
                case sCoaxial: d->sources->add(new Source::Port::TEMCoaxial(mag, g, q[0] < 1 ? Source::Port::TEM::voltage : Source::Port::TEM::current, Math::CVecR3(q[1], q[2], q[3]), q[4], q[4] * 2.5)); break;
            }
        }
    }
    if (p.hasReqs) {
        d->outputRequests = new OutputRequest::Group<>;
        for (auto& r : p.reqs) {
            auto g = group(r.elems);
            OutputRequest::Domain dom(r.time, r.p[0], r.p[1], r.p[2], r.freq, r.p[3], r.p[4], r.p[5], r.p[6] > 1, !r.tf.empty(), r.tf);
            switch (r.kind) {
                case rElem: d->outputRequests->add(new OutRqElem(dom, OutputRequest::Base::Type(r.type), r.name, g)); break;
                case rBulk: d->outputRequests->add(new OutputRequest::BulkCurrent(dom, r.name, g, Math::Constants::y, Math::UInt(r.p[7]))); break;
                case rFarField: d->outputRequests->add(new OutputRequest::FarField(dom, r.name, g, 0, r.p[7], 0.1, 0, r.p[8], 0.2)); break;
            }
        }
    }
    return d.release();
}

// ---- canonical text of any model (framework side; only reads) ----------------------------------------
inline std::string num(double v) { return fmt("%.17g", v); }
inline std::string vec(const Math::CVecR3& v) { return num(v(0)) + " " + num(v(1)) + " " + num(v(2)); }
inline std::string typeOf(const std::type_info& t) {
    std::string s = demangle(t.name());
    for (const char* drop : {"SEMBA::", "Geometry::", "Element::", "PhysicalModel::", "Source::", "OutputRequest::"}) for (size_t k; (k = s.find(drop)) != std::string::npos;) s.erase(k, strlen(drop));
    return s;
}

inline std::string describe(const Argument::Object& o) {
    switch (o.getType()) {
        case Argument::Object::Type::Dictionary: { std::string s = "{"; for (size_t i = 0; i < o.size(); i++) s += o.getName(i) + "=" + describe(o(i)) + ";"; return s + "}"; }
        case Argument::Object::Type::Array: { std::string s = "["; for (size_t i = 0; i < o.size(); i++) s += describe(o(i)) + ";"; return s + "]"; }
        case Argument::Object::Type::Null: return "null";
        default: { std::string s = "'"; for (auto& t : o.getGenericString()) s += t + "'"; return s; }
    }
}
inline std::string describe(const PhysicalModel::PhysicalModel& m) {
    using namespace PhysicalModel;
    std::string s = typeOf(typeid(m)) + " " + m.getId().toStr() + " '" + m.getName() + "'";
    if (m.is<Volume::Classic>()) { auto& c = *m.castTo<Volume::Classic>(); s += " " + num(c.getRelativePermittivity()) + " " + num(c.getRelativePermeability()) + " " + num(c.getElectricConductivity()) + " " + num(c.getMagneticConductivity()); }
    if (m.is<Volume::Dispersive>()) { auto& c = *m.castTo<Volume::Dispersive>(); s += " file '" + std::string(c.getFile()) + "' " + num(c.getElectricConductivity()); for (size_t i = 0; i < c.getPoleNumber(); i++) s += " (" + num(c.getPole(i).real()) + "," + num(c.getPole(i).imag()) + ":" + num(c.getResidue(i).real()) + "," + num(c.getResidue(i).imag()) + ")"; }
    if (m.is<Volume::PML>()) { auto a = m.castTo<Volume::PML>()->getOrientation(); s += " " + vec(a.getEulerAngles()) + " " + vec(a.getOrigin()); }
    if (m.is<Volume::Anisotropic>()) {
        auto& c = *m.castTo<Volume::Anisotropic>();
        s += " " + vec(c.getLocalAxe().getEulerAngles()) + " " + vec(c.getLocalAxe().getOrigin());
        for (auto& M : {c.getRelPermittivityMatR(), c.getRelPermeabilityMatR()}) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += " " + num(M(i, j));
    }
    if (m.is<Volume::AnisotropicCrystal>()) { auto& c = *m.castTo<Volume::AnisotropicCrystal>(); s += " " + vec(c.getPrincipalAxesRelativePermittivity()) + " " + num(c.getRelativePermeability()); }
    if (m.is<Wire::Wire>()) {
        auto& c = *m.castTo<Wire::Wire>();
        s += " " + num(c.getRadius()) + " " + num(c.isDispersive()) + num(c.isSeriesParallel());
        s += " " + num(c.getSeriesResistance()) + " " + num(c.getSeriesInductance()) + " " + num(c.getSeriesCapacitance()) + " " + num(c.getParallelResistance()) + " " + num(c.getParallelInductance()) + " " + num(c.getParallelCapacitance()) + " '" + c.getFilename() + "'";
    }
    if (m.is<Wire::Extremes>()) for (int i = 0; i < 2; i++) { auto* e = m.castTo<Wire::Extremes>()->getExtreme(i); s += e ? " end " + describe(*e) : " no end"; }
    if (m.is<Gap::Gap>()) s += " " + num(m.castTo<Gap::Gap>()->getWidth());
    if (m.is<Multiport::Multiport>()) s += fmt(" type %d", int(m.castTo<Multiport::Multiport>()->getType()));
    if (m.is<Multiport::RLC>()) { auto& c = *m.castTo<Multiport::RLC>(); s += " " + num(c.getR()) + " " + num(c.getL()) + " " + num(c.getC()); }
    if (m.is<Multiport::Dispersive>()) s += " '" + m.castTo<Multiport::Dispersive>()->getFilename() + "'";
    if (m.is<Surface::Multilayer>()) {
        auto& c = *m.castTo<Surface::Multilayer>();
        for (size_t i = 0; i < c.getNumberOfLayers(); i++) s += " (" + num(c.getThickness(i)) + "," + num(c.getLayer(i).getRelPermittivity()) + "," + num(c.getLayer(i).getRelPermeability()) + "," + num(c.getElecCond(i)) + ")";
        if (c.hasFittingOptions()) { auto o = c.getFittingOptions(); s += " fit " + num(o.getMinMaxFreq().first) + " " + num(o.getMinMaxFreq().second) + fmt(" %zu", o.getNumberOfPoles()); }
    }
    if (m.is<Surface::SIBC>()) {
        auto& c = *m.castTo<Surface::SIBC>();
        for (auto& M : {c.getZInfinity(), c.getZLinear()}) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) s += " " + num(M(i, j).real()) + "," + num(M(i, j).imag());
        for (auto& q : c.getPoleZ()) s += " pole " + num(q.first.real()) + "," + num(q.first.imag());
    }
    if (m.is<Surface::SIBCFile>()) s += " '" + std::string(m.castTo<Surface::SIBCFile>()->getFile()) + "'";
    return s;
}
inline std::string describe(const Source::Magnitude::Magnitude* m) {
    if (!m) return "no magnitude";
    std::string s = typeOf(typeid(*m));
    for (double t : {0., 0.5, 1., 1.7, 2.5, 10.}) s += " " + num(m->Source::Magnitude::Magnitude::evaluate(t));
    return s;
}
template <class T> std::string describeGrid(const T& g) {
    std::string s = "grid";
    for (int d = 0; d < 3; d++) { s += " |"; for (double x : g.getPos(d)) s += " " + num(x); }
    return s + "\n";
}
// Everything reachable, with each reference named by its place in this model, or FOREIGN.
struct Describer {
    std::map<const void*, std::string> where;
    std::string foreign;               // first reference that points outside
    bool checkModels;
    std::string ref(const void* p, const char* what) {
        if (!p) return "none";
        auto it = where.find(p);
        if (it != where.end()) return it->second;
        if (foreign.empty()) foreign = what;
        return std::string("FOREIGN ") + what;
    }
    template <class T> std::string elem(const Geometry::Element::Element<T>& e) {
        std::string s = typeOf(typeid(e)) + " " + e.getId().toStr() + " layer " + ref(e.getLayer(), "layer") + " material " + ref(e.getModel(), "material") + " :";
        for (size_t i = 0; i < e.numberOfCoordinates(); i++) s += " " + ref(e.getV(i), "coordinate");
        return s + "\n";
    }
    template <class M> std::string mesh(const M& m) {
        std::string s;
        for (size_t i = 0; i < m.layers().size(); i++) { auto* l = m.layers()(i); where[l] = "L" + l->getId().toStr(); s += "layer " + l->getId().toStr() + " '" + l->getName() + "'\n"; }
        for (size_t i = 0; i < m.coords().size(); i++) {
            auto* c = m.coords()(i);
            where[c] = "C" + c->getId().toStr();
            s += "coordinate " + c->getId().toStr();
            for (int d = 0; d < 3; d++) s += " " + num((*c)(d));
            s += "\n";
        }
        for (size_t i = 0; i < m.elems().size(); i++) {
            auto* e = m.elems()(i);
            s += elem(*e);
            where[static_cast<const void*>(static_cast<const Geometry::Elem*>(e))] = "E" + e->getId().toStr();
        }
        return s;
    }
    std::string group(const Geometry::Element::Group<const Geometry::Elem>& g, bool known) {
        std::string s = " elements";
        for (size_t i = 0; i < g.size(); i++) s += " " + (known ? ref(static_cast<const void*>(g(i)), "element") : g(i)->getId().toStr());
        return s;
    }
    std::string data(const Data& d) {
        std::string s;
        if (d.solver) s += "solver '" + d.solver->getName() + "' " + describe(d.solver->getSettings()) + "\n"; else s += "no solver\n";
        if (d.physicalModels) for (size_t i = 0; i < d.physicalModels->size(); i++) {
            auto* m = (*d.physicalModels)(i);
            where[static_cast<const Geometry::Element::Model*>(m)] = "M" + m->getId().toStr();
            s += "material " + describe(*m) + "\n";
        } else s += "no materials\n";
        if (!d.mesh) s += "no mesh\n";
        else if (d.mesh->is<Geometry::Mesh::Structured>()) {
            auto& m = *d.mesh->castTo<Geometry::Mesh::Structured>();
            s += "structured " + describeGrid(m.grid());
            for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) { auto* b = m.bounds()(i, k); s += "bound " + (b ? typeOf(typeid(*b)) : std::string("none")) + "\n"; }
            s += mesh(m);
        } else {
            if (d.mesh->is<Geometry::Mesh::Geometric>()) s += "geometric " + describeGrid(d.mesh->castTo<Geometry::Mesh::Geometric>()->grid());
            else s += "unstructured\n";
            s += mesh(*d.mesh->castTo<Geometry::Mesh::Unstructured>());
        }
        if (d.sources) for (size_t i = 0; i < d.sources->size(); i++) {
            const Source::Base& b = *(*d.sources)(i);
            s += "source " + typeOf(typeid(b)) + group(b.elems(), d.mesh != nullptr) + " " + describe(b.getMagnitude());
            if (b.is<Source::PlaneWave>()) { auto& c = *b.castTo<Source::PlaneWave>(); s += c.isRandomic() ? fmt(" random %d ", int(c.getNumberOfRandomPlanewaves())) + num(c.getRelativeVariationOfRandomDelay()) : " " + vec(c.getDirection()) + " " + vec(c.getPolarization()); }
            if (b.is<Source::Generator>()) s += fmt(" %d", int(b.castTo<Source::Generator>()->getType()));
            if (b.is<Source::OnLine>()) s += fmt(" %d %d", int(b.castTo<Source::OnLine>()->getType()), int(b.castTo<Source::OnLine>()->getHardness()));
            if (b.is<Source::Port::WaveguideRectangular>()) { auto& c = *b.castTo<Source::Port::WaveguideRectangular>(); s += fmt(" %d %zu %zu ", int(c.getExcitationMode()), c.getMode().first, c.getMode().second) + vec(c.getOrigin()) + " " + num(c.getWidth()) + " " + num(c.getHeight()); }
            if (b.is<Source::Port::TEMCoaxial>()) { auto& c = *b.castTo<Source::Port::TEMCoaxial>(); s += fmt(" %d ", int(c.getExcitationMode())) + vec(c.getOrigin()) + " weight " + vec(c.getWeight(c.getOrigin() + Math::CVecR3(0.3, 0.4, 0.))); }
            s += "\n";
            if (b.is<Source::Dipole>() || b.is<Source::Port::TEMCoaxial>() || b.is<Source::Generator>()) s += b.str();
        } else s += "no sources\n";
        if (d.outputRequests) for (size_t i = 0; i < d.outputRequests->size(); i++) {
            const OutputRequest::Base& b = *(*d.outputRequests)(i);
            auto& o = b.domain();
            s += "request " + typeOf(typeid(b)) + " '" + b.getName() + fmt("' type %d", int(b.getType())) + group(b.elems(), d.mesh != nullptr);
            s += fmt(" domain %d%d%d%d ", o.isTimeDomain(), o.isFrequencyDomain(), o.isLogFrequencySweep(), o.isUsingTransferFunction()) + num(o.getInitialTime()) + " " + num(o.getFinalTime()) + " " + num(o.getSamplingPeriod()) + " " + num(o.getInitialFrequency()) + " " + num(o.getFinalFrequency()) + " " + num(o.getFrequencyStep()) + " '" + o.getTransferFunctionFile() + "'";
            if (b.is<OutputRequest::BulkCurrent>()) s += fmt(" dir %d skip %zu", int(b.castTo<OutputRequest::BulkCurrent>()->getDir()), size_t(b.castTo<OutputRequest::BulkCurrent>()->getSkip()));
            if (b.is<OutputRequest::FarField>()) { auto& c = *b.castTo<OutputRequest::FarField>(); s += " " + num(c.getInitialTheta()) + " " + num(c.getFinalTheta()) + " " + num(c.getStepTheta()) + " " + num(c.getInitialPhi()) + " " + num(c.getFinalPhi()) + " " + num(c.getStepPhi()); }
            s += "\n";
        } else s += "no requests\n";
        return s;
    }
};
inline std::string describe(const Data& d, std::string* foreign = nullptr) {
    Describer x;
    std::string s = x.data(d);
    if (foreign) *foreign = x.foreign;
    return s;
}
inline std::string difference(const std::string& a, const std::string& b) {
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        size_t ei = a.find('\n', i), ej = b.find('\n', j);
        if (ei == std::string::npos) ei = a.size();
        if (ej == std::string::npos) ej = b.size();
        std::string x = a.substr(std::min(i, a.size()), ei - std::min(i, a.size())), y = b.substr(std::min(j, b.size()), ej - std::min(j, b.size()));
        if (x != y) return "'" + x + "' became '" + y + "'";
        i = ei + 1; j = ej + 1;
    }
    return "no difference";
}
} // namespace model
