// Materials, sources, output requests and their domains under seeded histories of making, copying, assigning and editing, some of them out of memory, against plain records of what was given.
#include "sim/sim.h"
#include "sim/fs.h"
#include "geometry/element/Group.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Hexahedron8.h"
#include "math/function/BandLimited.h"
#include "math/function/Gaussian.h"
#include "math/function/LinearInterpolation.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "physicalModel/bound/Mur1.h"
#include "physicalModel/bound/Mur2.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/Periodic.h"
#include "physicalModel/bound/SMA.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/surface/SIBC.h"
#include "physicalModel/surface/SIBCFile.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/wire/Extremes.h"
#include "source/Dipole.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/PlaneWave.h"
#include "source/magnitude/Numerical.h"
#include "source/port/TEMCoaxial.h"
#include "source/port/WaveguideRectangular.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <typeinfo>
using namespace SEMBA;
using namespace sim;
const char* const sim::kProperty = "C32";

namespace {
namespace PM = PhysicalModel;
namespace OR = OutputRequest;
typedef std::map<std::string, std::string> Facts;
typedef std::array<double, 3> V3;
typedef Math::CVecR3 Vec;
std::string num(double v) { return fmt("%.17g", v == 0 ? 0 : v); }
std::string about(double v) { return fmt("%%%.17g", v); }        // relatively
std::string near(double v) { return fmt("~%.17g", v); }            // absolutely or relatively
bool same(const std::string& a, const std::string& b) {
    if (a == b) return true;
    std::istringstream x(a), y(b); std::string s, t;
    auto split = [](std::string v) { for (char& c : v) if (c == ',') c = ' '; return v; };
    x.str(split(a)); y.str(split(b));
    while (x >> s) {
        if (!(y >> t)) return false;
        if (s == t) continue;
        if (s[0] != t[0] || (s[0] != '~' && s[0] != '%')) return false;
        double p = std::strtod(s.c_str() + 1, nullptr), q = std::strtod(t.c_str() + 1, nullptr), size = std::abs(p) + std::abs(q);
        if (!(std::abs(p - q) <= 1e-9 * size + (s[0] == '~' ? 1e-7 : 0))) return false;
    }
    return !(y >> t);
}
std::string str(const V3& v) { return num(v[0]) + " " + num(v[1]) + " " + num(v[2]); }
std::string str(const Vec& v) { return str(V3{{v(0), v(1), v(2)}}); }
Vec vec(const V3& v) { return Vec(v[0], v[1], v[2]); }
std::string str(const std::complex<double>& c) { return num(c.real()) + "," + num(c.imag()); }
std::string yes(bool b) { return b ? "yes" : "no"; }
std::string difference(const Facts& is, const Facts& want) {
    for (auto& e : want) { auto f = is.find(e.first); if (f == is.end()) return e.first + " is missing"; if (!same(f->second, e.second)) return e.first + " is " + shown(f->second) + " instead of " + shown(e.second); }
    for (auto& e : is) if (!want.count(e.first)) return e.first + " is there";
    return "";
}
bool armed = false;
void arm(int one = 4) { armed = chance(1, one); if (armed) { uint32_t at = choose(chance(1, 2) ? 4 : chance(3, 4) ? 30 : 90), many = chance(1, 3) ? 100000 : 1; failAlloc(at, many); } }
// whether it was done; one that is to be refused is, for what it is
bool settle(const Outcome& o, const std::string& what, bool refused = false) {
    bool fired = armed && allocFired();
    failAllocOff(); armed = false;
    if (fired) fault("allocation failure");
    check(!o.threw || refused || (fired && o.badAlloc), "operation-refused", what + ": " + o.str());
    check(o.threw || !refused, "bad-data-accepted", what);
    if (refused) { probe("refusal"); check(fired || !o.badAlloc, "operation-refused", what + ": " + o.str()); }
    return !o.threw;
}
template <class B, class... T> struct Kinds {
    template <class K> static void copyAs(const B& x, B*& r) { if (typeid(x) == typeid(K)) r = new K(dynamic_cast<const K&>(x)); }
    static B* copy(const B& x) { B* r = nullptr; int a[] = {(copyAs<T>(x, r), 0)...}; (void)a; return r; }
    template <class K> static void set(B& to, const B& from, std::true_type, bool& done) { dynamic_cast<K&>(to) = dynamic_cast<const K&>(from); done = true; }
    template <class K> static void set(B&, const B&, std::false_type, bool&) {}
    template <class K> static void assignAs(B& to, const B& from, bool& done) { if (typeid(from) == typeid(K)) set<K>(to, from, std::is_assignable<K&, const K&>(), done); }
    static bool assign(B& to, const B& from) { bool done = false; int a[] = {(assignAs<T>(to, from, done), 0)...}; (void)a; return done; }
};
template <class B> struct Slot { std::unique_ptr<B> p; Facts f; std::string kind; std::vector<std::string> shows; };

std::string someName() { static const std::vector<std::string> v{"a", "copper", "thin sheet", "x@y", "", "a name that does not fit into a short string buffer"}; return pick(v); }
double value() { static const std::vector<double> v{0, 1, 2.5, 1e-9, 3.25, 1e9, 0.125, 7, 12.5, 1e-3}; return pick(v); }
double angle() { static const std::vector<double> v{0, 0, 0.5, 1.25, -0.75, 3}; return pick(v); }
V3 point() { V3 p; for (double& x : p) x = 0.25 * (int(choose(17)) - 8); return p; }
std::string g(double v) { return fmt("%g", v); }
// What a description has to show: a line with the words in this order.
void described(const Class::Printable& p, const std::vector<std::string>& shows, const std::string& what) {
    std::string text; { SutScope z; text = p.str(); }
    for (auto& w : shows) {
        bool found = false; std::istringstream in(text); std::string line;
        while (std::getline(in, line)) { std::istringstream a(line), b(w); std::vector<std::string> l, k; std::string t; while (a >> t) l.push_back(t); while (b >> t) k.push_back(t); found |= std::search(l.begin(), l.end(), k.begin(), k.end()) != l.end(); }
        check(found, "not-shown", what + " is described without " + shown(w) + ": " + shown(text));
    }
}

// ---- materials
typedef Kinds<PM::PhysicalModel, PM::Predefined::PEC, PM::Predefined::PMC, PM::Predefined::SMA, PM::Bound::PEC, PM::Bound::PMC, PM::Bound::SMA, PM::Bound::PML, PM::Bound::Mur1, PM::Bound::Mur2, PM::Bound::Periodic, PM::Volume::Classic,
    PM::Volume::Dispersive, PM::Volume::PML, PM::Volume::AnisotropicCrystal, PM::Volume::AnisotropicFerrite, PM::Wire::Wire, PM::Wire::Extremes, PM::Gap::Gap, PM::Multiport::Predefined, PM::Multiport::RLC, PM::Multiport::Dispersive,
    PM::Surface::Multilayer, PM::Surface::SIBC, PM::Surface::SIBCFile> Models;
typedef Slot<PM::PhysicalModel> Model;
std::vector<Model> models;
const PM::Multiport::Multiport::Type kRlc[] = {PM::Multiport::Multiport::sRLC, PM::Multiport::Multiport::sRLpC, PM::Multiport::Multiport::sRCpL, PM::Multiport::Multiport::sRpLC, PM::Multiport::Multiport::sLCpR, PM::Multiport::Multiport::sLpRC, PM::Multiport::Multiport::sCpLR, PM::Multiport::Multiport::pRLC};
const PM::Multiport::Multiport::Type kSet[] = {PM::Multiport::Multiport::shortCircuit, PM::Multiport::Multiport::openCircuit, PM::Multiport::Multiport::matched};
const char* const kSetShown[] = {"Short circuit", "Open circuit", "Matched"};

void axes(Facts& f, const Math::Axis::Local& a) { f["euler angles"] = str(a.getEulerAngles()); f["origin"] = str(a.getOrigin()); }
void matrix(Facts& f, const std::string& k, const Math::MatR33& m, bool plain) {
    double trace = 0, square = 0, skew = 0;
    for (size_t i = 0; i < 3; i++) { trace += m(i, i); for (size_t j = 0; j < 3; j++) { square += m(i, j) * m(i, j); skew += std::abs(m(i, j) + m(j, i)); } }
    f[k + " trace"] = near(trace); f[k + " squares"] = near(square); f[k + " symmetry"] = skew < 1e-9 ? "against" : "other";
    if (plain) for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) f[k + fmt(" %zu %zu", i, j)] = near(m(i, j));
}
// the same from what was given: a diagonal, or one pair of opposite numbers
void given(Facts& f, const std::string& k, const V3& d, double pair, bool plain) {
    double m[3][3] = {{d[0], pair, 0}, {-pair, d[1], 0}, {0, 0, d[2]}}, square = 0;
    for (auto& r : m) for (double x : r) square += x * x;
    f[k + " trace"] = near(d[0] + d[1] + d[2]); f[k + " squares"] = near(square); f[k + " symmetry"] = d[0] == 0 && d[1] == 0 && d[2] == 0 ? "against" : "other";
    if (plain) for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) f[k + fmt(" %zu %zu", i, j)] = near(m[i][j]);
}
void table(Facts& f, const std::string& k, const Math::MatC22& m) { for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 2; j++) f[k + fmt(" %zu %zu", i, j)] = str(m(i, j)); }
void ports(Facts& f, const std::string& at, const PM::Multiport::Multiport& m);
void told(Facts& f, const PM::PhysicalModel& m, const std::string& at = "") {
    f[at + "name"] = m.getName(); f[at + "id"] = m.getId().toStr();
    if (m.is<PM::Multiport::Multiport>()) ports(f, at, *m.castTo<PM::Multiport::Multiport>());
    if (m.is<PM::Volume::Classic>()) {
        auto& c = *m.castTo<PM::Volume::Classic>();
        f["permittivity"] = num(c.getRelativePermittivity()); f["permeability"] = num(c.getRelativePermeability()); f["conductivity"] = num(c.getElectricConductivity()); f["magnetic conductivity"] = num(c.getMagneticConductivity());
        f["absolute permittivity"] = about(c.getPermittivity()); f["absolute permeability"] = about(c.getPermeability()); f["impedance"] = about(c.getImpedance()); f["admittance"] = about(c.getAdmitance()); f["vacuum"] = yes(c.isVacuum());
    }
    if (m.is<PM::Volume::Dispersive>()) {
        auto& c = *m.castTo<PM::Volume::Dispersive>();
        std::multiset<std::string> poles;
        size_t n = c.getPoleNumber();
        for (size_t i = 0; i < n && i < 100; i++) poles.insert(str(c.getPole(i)) + " with " + about(c.getResidue(i).real()) + "," + about(c.getResidue(i).imag()));
        f["poles"] = fmt("%zu", n); size_t k = 0; for (auto& p : poles) f[fmt("pole %zu", k++)] = p;
        f["dispersive"] = yes(c.isDispersive()); f["classic"] = yes(c.isClassic()); f["simply conductive"] = yes(c.isSimplyConductive()); f["conductivity"] = about(c.getElectricConductivity()); f["file"] = c.getFile();
    }
    if (m.is<PM::Volume::PML>()) { auto& c = *m.castTo<PM::Volume::PML>(); axes(f, c.getOrientation()); Vec z = c.getGlobalZAxis(); f["length of z"] = near(z.norm()); if (c.getOrientation().getEulerAngles() == Vec(0, 0, 0)) f["z"] = near(z(0)) + " " + near(z(1)) + " " + near(z(2)); }
    if (m.is<PM::Volume::AnisotropicCrystal>()) { auto& c = *m.castTo<PM::Volume::AnisotropicCrystal>(); f["principal axes"] = str(c.getPrincipalAxesRelativePermittivity()); f["permeability"] = num(c.getRelativePermeability()); }
    if (m.is<PM::Volume::Anisotropic>()) {
        auto& c = *m.castTo<PM::Volume::Anisotropic>(); bool plain = c.getLocalAxe().getEulerAngles() == Vec(0, 0, 0);
        axes(f, c.getLocalAxe()); matrix(f, "permittivity matrix", c.getRelPermittivityMatR(), plain); matrix(f, "permeability matrix", c.getRelPermeabilityMatR(), plain);
        matrix(f, "conductivity matrix", c.getElectricConductivityMat(), true); matrix(f, "magnetic conductivity matrix", c.getMagneticConductivityMat(), true);
        if (m.is<PM::Volume::AnisotropicFerrite>()) matrix(f, "imaginary permeability", m.castTo<PM::Volume::AnisotropicFerrite>()->getRelPermeabilityMatI(), plain);
    }
    if (m.is<PM::Gap::Gap>()) f["width"] = num(m.castTo<PM::Gap::Gap>()->getWidth());
    if (m.is<PM::Wire::Wire>()) {
        auto& c = *m.castTo<PM::Wire::Wire>();
        f["radius"] = num(c.getRadius()); f["series and parallel"] = yes(c.isSeriesParallel()); f["dispersive"] = yes(c.isDispersive()); f["file"] = c.getFilename();
        f["series R"] = num(c.getSeriesResistance()); f["series L"] = num(c.getSeriesInductance()); f["series C"] = num(c.getSeriesCapacitance());
        f["parallel R"] = num(c.getParallelResistance()); f["parallel L"] = num(c.getParallelInductance()); f["parallel C"] = num(c.getParallelCapacitance());
    }
    if (m.is<PM::Wire::Extremes>()) { auto& c = *m.castTo<PM::Wire::Extremes>(); for (size_t i = 0; i < 2; i++) if (c.getExtreme(i)) told(f, *c.getExtreme(i), fmt("extreme %zu ", i)); }
    if (m.is<PM::Surface::Multilayer>()) {
        auto& c = *m.castTo<PM::Surface::Multilayer>();
        f["layers"] = fmt("%zu", c.getNumberOfLayers());
        for (size_t i = 0; i < c.getNumberOfLayers() && i < 100; i++) {
            auto l = c.getLayer(i);
            f[fmt("layer %zu", i)] = num(l.getThickness()) + " " + num(l.getRelPermittivity()) + " " + num(l.getRelPermeability()) + " " + num(l.getElecCond());
            f[fmt("layer %zu by number", i)] = num(c.getThickness(i)) + " " + about(c.getPermittivity(i)) + " " + about(c.getPermeability(i)) + " " + num(c.getElecCond(i)) + " " + num(c.getMagnCond(i));
            f[fmt("layer %zu absolute", i)] = about(l.getPermittivity()) + " " + about(l.getPermeability());
        }
        f["fitting"] = "no"; if (c.hasFittingOptions()) { auto o = c.getFittingOptions(); f["fitting"] = num(o.getMinMaxFreq().first) + " " + num(o.getMinMaxFreq().second) + fmt(" %zu", o.getNumberOfPoles()); }
    }
    if (m.is<PM::Surface::SIBC>()) {
        auto& c = *m.castTo<PM::Surface::SIBC>();
        table(f, "at infinity", c.getZInfinity()); table(f, "linear", c.getZLinear()); auto v = c.getPoleZ();
        f["poles"] = fmt("%zu %zu", c.getNumberOfPoles(), v.size());
        for (size_t i = 0; i < v.size(); i++) { f[fmt("pole %zu", i)] = str(v[i].first); table(f, fmt("residue %zu", i), v[i].second); }
    }
    if (m.is<PM::Surface::SIBCFile>()) f["file"] = m.castTo<PM::Surface::SIBCFile>()->getFile();
}
void ports(Facts& f, const std::string& at, const PM::Multiport::Multiport& m) {
    f[at + "type"] = fmt("%d", int(m.getType()));
    if (m.is<PM::Multiport::RLC>()) { auto& c = *m.castTo<PM::Multiport::RLC>(); f[at + "R"] = num(c.getR()); f[at + "L"] = num(c.getL()); f[at + "C"] = num(c.getC()); }
    if (m.is<PM::Multiport::Dispersive>()) f[at + "file"] = m.castTo<PM::Multiport::Dispersive>()->getFilename();
}
struct Plan { std::string kind; Facts f; std::vector<std::string> shows; bool refused = false; std::function<PM::PhysicalModel*()> make; };
template <class K> void plain(Plan& p, const char* kind, size_t id) { p.kind = kind; p.f["name"] = kind; p.make = [id] { return new K(MatId(id)); }; }
Model* someModel(const std::function<bool(const PM::PhysicalModel&)>& is) { std::vector<Model*> v; for (auto& m : models) if (is(*m.p)) v.push_back(&m); return v.empty() ? nullptr : v[choose(uint32_t(v.size()))]; }
Model* somePort() { return someModel([](const PM::PhysicalModel& m) { return m.is<PM::Multiport::Multiport>(); }); }
void extreme(Facts& f, size_t i, const Facts* of) {
    std::string at = fmt("extreme %zu ", i);
    for (auto e = f.begin(); e != f.end();) if (e->first.compare(0, at.size(), at) == 0) e = f.erase(e); else ++e;
    if (of) for (auto& e : *of) f[at + e.first] = e.second;
}
Plan planModel() {
    Plan p; size_t id = choose(40); std::string n = someName(); p.f["name"] = n; p.f["id"] = fmt("%zu", id);
    MatId mid(id);
    std::array<double, 8> v; for (double& x : v) x = value();
    switch (choose(21)) {
        case 0: { bool named = chance(1, 2); int k = int(choose(3)); static const char* const k3[] = {"PEC", "PMC", "SMA"}; p.kind = k3[k]; if (!named) p.f["name"] = k3[k]; p.shows = {"Id: " + p.f["id"], "Name: " + p.f["name"]};
            p.make = [=]() -> PM::PhysicalModel* { switch (k) { case 0: return named ? new PM::Predefined::PEC(mid, n) : new PM::Predefined::PEC(mid); case 1: return named ? new PM::Predefined::PMC(mid, n) : new PM::Predefined::PMC(mid); default: return named ? new PM::Predefined::SMA(mid, n) : new PM::Predefined::SMA(mid); } }; break; }
        case 1: switch (choose(7)) {
            case 0: plain<PM::Bound::PEC>(p, "PEC", id); break; case 1: plain<PM::Bound::PMC>(p, "PMC", id); break; case 2: plain<PM::Bound::SMA>(p, "SMA", id); break; case 3: plain<PM::Bound::PML>(p, "PML", id); break;
            case 4: plain<PM::Bound::Mur1>(p, "Mur1", id); break; case 5: plain<PM::Bound::Mur2>(p, "Mur2", id); break; default: plain<PM::Bound::Periodic>(p, "Periodic", id); } p.kind = "bound " + p.kind; break;
        case 2: case 3: {
            int count = int(choose(5)); double d[4] = {1, 1, 0, 0}; for (int i = 0; i < count; i++) d[i] = value();
            p.kind = "classic"; p.shows = {"Id: " + p.f["id"], "Rel. elec. permittivity: " + g(d[0]), "Rel. magn. permeability: " + g(d[1]), "Electric conductivity: " + g(d[2]), "Magnetic conductivity: " + g(d[3])};
            double inf = std::numeric_limits<double>::infinity(), z = d[0] <= 0 ? inf : std::sqrt(d[1] * Math::Constants::mu0 / (d[0] * Math::Constants::eps0));
            p.f["permittivity"] = num(d[0]); p.f["permeability"] = num(d[1]); p.f["conductivity"] = num(d[2]); p.f["magnetic conductivity"] = num(d[3]); p.f["absolute permittivity"] = about(d[0] * Math::Constants::eps0); p.f["absolute permeability"] = about(d[1] * Math::Constants::mu0);
            p.f["impedance"] = about(z); p.f["admittance"] = about(d[1] <= 0 ? inf : 1 / z); p.f["vacuum"] = yes(d[0] == 1 && d[1] == 1 && d[2] == 0 && d[3] == 0);
            double a = d[0], b = d[1], c = d[2], e = d[3];
            p.make = [=] { switch (count) { case 0: return new PM::Volume::Classic(mid, n); case 1: return new PM::Volume::Classic(mid, n, a); case 2: return new PM::Volume::Classic(mid, n, a, b); case 3: return new PM::Volume::Classic(mid, n, a, b, c); default: return new PM::Volume::Classic(mid, n, a, b, c, e); } };
            break;
        }
        case 4: case 5: {
            std::vector<PM::Volume::PoleResidue> poles; for (int i = int(choose(4)); i > 0; i--) poles.push_back({{-1 - double(choose(5)), double(choose(3))}, {value(), value()}});
            double cond = chance(1, 2) ? 0 : value(), magn = chance(1, 10) ? 2 : 0; p.refused = magn != 0;
            // the conductivity may also be given as a pole, anywhere among the others
            double given = cond; size_t others = poles.size();
            if (cond == 0 && chance(1, 3)) { given = value(); poles.insert(poles.begin() + choose(uint32_t(poles.size() + 1)), PM::Volume::PoleResidue(std::complex<double>(0), std::complex<double>(given / 2 / Math::Constants::eps0, 0))); probe("conductivity as a pole"); }
            p.kind = "dispersive"; p.f["file"] = "";
            std::multiset<std::string> all; for (auto& e : poles) { all.insert(str(e.first) + " with " + about(e.second.real()) + "," + about(e.second.imag())); p.shows.push_back(g(e.first.real()) + " " + g(e.first.imag()) + " " + g(e.second.real()) + " " + g(e.second.imag())); }
            if (cond != 0) all.insert(str(std::complex<double>(0)) + " with " + about(cond / 2 / Math::Constants::eps0) + "," + about(0));
            size_t k = 0; for (auto& e : all) p.f[fmt("pole %zu", k++)] = e;
            p.f["poles"] = fmt("%zu", all.size()); p.f["dispersive"] = yes(!all.empty()); p.f["classic"] = p.f["simply conductive"] = yes(others == 0); p.f["conductivity"] = about(given);
            p.shows.push_back("Number of pole residue pairs: " + p.f["poles"]);
            double a = v[0], b = v[1]; p.make = [=] { return new PM::Volume::Dispersive(mid, n, a, b, cond, magn, poles); };
            if (cond != 0 && !poles.empty()) probe("conductivity beside poles");
            break;
        }
        case 6: {
            std::string file = chance(1, 4) ? "missing.dat" : "there.dat"; p.refused = file[0] == 'm'; p.kind = "dispersive from file";
            p.f["file"] = file; p.f["poles"] = "0"; p.f["dispersive"] = "no"; p.f["classic"] = p.f["simply conductive"] = "no"; p.f["conductivity"] = about(0);
            p.make = [=] { return new PM::Volume::Dispersive(mid, n, FileSystem::Project(file)); };
            break;
        }
        case 7: case 8: case 9: {
            V3 e{{angle(), angle(), angle()}}, o = point(), d{{1 + value(), 1 + value(), 1 + value()}}; if (chance(1, 2)) e = V3{{0, 0, 0}}; bool zero = e == V3{{0, 0, 0}};
            for (double& x : d) if (x > 1e4) x = 6;
            double k = 0.5 * choose(7); std::array<double, 2> mu{{1 + 0.5 * choose(5), 1 + 0.25 * choose(7)}};
            p.f["euler angles"] = str(e); p.f["origin"] = str(o);
            auto make = [=] { return Math::Axis::Local(vec(e), vec(o)); };
            int what = int(choose(3)); double m0 = mu[0], m1 = mu[1];
            if (what == 0) { p.kind = "PML volume"; p.f["length of z"] = near(1); if (zero) p.f["z"] = near(0) + " " + near(0) + " " + near(1); p.make = [=] { return new PM::Volume::PML(mid, n, make()); }; break; }
            given(p.f, "conductivity matrix", V3{{0, 0, 0}}, 0, true); given(p.f, "magnetic conductivity matrix", V3{{0, 0, 0}}, 0, true);
            if (what == 1) {
                p.kind = "crystal"; p.f["principal axes"] = str(d); p.f["permeability"] = num(m0); given(p.f, "permittivity matrix", d, 0, zero); given(p.f, "permeability matrix", V3{{m0, m0, m0}}, 0, zero);
                p.make = [=] { return new PM::Volume::AnisotropicCrystal(mid, n, make(), vec(d), m0); };
            } else {
                p.kind = "ferrite"; given(p.f, "permittivity matrix", V3{{m1, m1, m1}}, 0, zero); given(p.f, "permeability matrix", V3{{m0, m0, 1}}, 0, zero); given(p.f, "imaginary permeability", V3{{0, 0, 0}}, k, zero);
                p.make = [=] { return new PM::Volume::AnisotropicFerrite(mid, n, make(), k, m0, m1); };
            }
            break;
        }
        case 10: { double w = v[0]; p.kind = "gap"; p.f["width"] = num(w); p.shows = {"Width: " + g(w), "Name: " + n}; p.make = [=] { return new PM::Gap::Gap(mid, n, w); }; break; }
        case 11: case 12: {
            int how = int(choose(3)); p.kind = "wire"; p.f["radius"] = num(v[0]); p.f["series and parallel"] = yes(how == 1); p.f["dispersive"] = yes(how == 2); p.f["file"] = how == 2 ? "wire file.dat" : "";
            static const char* const k6[] = {"series R", "series L", "series C", "parallel R", "parallel L", "parallel C"};
            for (int i = 0; i < 6; i++) p.f[k6[i]] = num(i < (how == 0 ? 2 : how == 1 ? 6 : 0) ? v[1 + i] : 0);
            p.shows = {"Radius: " + g(v[0]), "Name: " + n};
            if (how == 0) for (auto& s : {"Resistance: " + g(v[1]), "Inductance: " + g(v[2])}) p.shows.push_back(s);
            if (how == 1) for (auto& s : {"Series Resistance: " + g(v[1]), "Series Inductance: " + g(v[2]), "Series Capacitance: " + g(v[3]), "Parallel Resistance: " + g(v[4]), "Parallel Inductance: " + g(v[5]), "Parallel Capacitance: " + g(v[6])}) p.shows.push_back(s);
            if (how == 2) p.shows.push_back("wire file.dat");
            p.make = [=] { switch (how) { case 0: return new PM::Wire::Wire(mid, n, v[0], v[1], v[2]); case 1: return new PM::Wire::Wire(mid, n, v[0], v[1], v[2], v[3], v[4], v[5], v[6]); default: return new PM::Wire::Wire(mid, n, v[0], "wire file.dat"); } };
            break;
        }
        case 13: case 14: {
            Model* w = someModel([](const PM::PhysicalModel& m) { return typeid(m) == typeid(PM::Wire::Wire); });
            if (!w) return planModel();
            Model* a = chance(1, 4) ? nullptr : somePort(); Model* b = chance(1, 4) ? nullptr : somePort();
            p.kind = "wire with extremes"; p.f = w->f; p.f["name"] = n; extreme(p.f, 0, a ? &a->f : nullptr); extreme(p.f, 1, b ? &b->f : nullptr); p.shows = {"Radius: " + g(std::stod(p.f["radius"]))};
            const PM::PhysicalModel *x = w->p.get(), *l = a ? a->p.get() : nullptr, *r = b ? b->p.get() : nullptr;
            p.make = [=] { return new PM::Wire::Extremes(n, *x->castTo<PM::Wire::Wire>(), l ? l->castTo<PM::Multiport::Multiport>() : nullptr, r ? r->castTo<PM::Multiport::Multiport>() : nullptr); };
            probe("wire with extremes");
            break;
        }
        case 15: { int k = int(choose(3)); p.kind = "port"; p.f["type"] = fmt("%d", int(kSet[k])); p.shows = {std::string("Type: ") + kSetShown[k]}; p.make = [=] { return new PM::Multiport::Predefined(mid, n, kSet[k]); }; break; }
        case 16: { int k = int(choose(8)); p.kind = "RLC port"; p.f["type"] = fmt("%d", int(kRlc[k])); p.f["R"] = num(v[0]); p.f["L"] = num(v[1]); p.f["C"] = num(v[2]); p.shows = {"Resistance: " + g(v[0]), "Inductance: " + g(v[1]), "Capacitance: " + g(v[2])}; p.make = [=] { return new PM::Multiport::RLC(mid, n, kRlc[k], v[0], v[1], v[2]); }; break; }
        case 17: { std::string f = "some port.dat"; p.kind = "port from file"; p.f["type"] = fmt("%d", int(PM::Multiport::Multiport::dispersive)); p.f["file"] = f; p.shows = {"Type: Dispersive"}; p.make = [=] { return new PM::Multiport::Dispersive(mid, n, f); }; break; }
        case 18: {
            std::vector<std::array<double, 4>> l; std::vector<std::array<double, 3>> o;
            for (int i = int(choose(5)); i > 0; i--) l.push_back({{value(), chance(1, 12) ? 0 : 1 + value(), chance(1, 12) ? 0 : 1 + value(), value()}});
            for (int i = chance(1, 10) ? 2 : int(choose(2)); i > 0; i--) o.push_back({{value(), value(), double(choose(9))}});
            p.refused = o.size() > 1; p.kind = "multilayer"; p.f["layers"] = fmt("%zu", l.size()); p.shows = {"Id: " + p.f["id"], "Number of layers: " + p.f["layers"]};
            for (size_t i = 0; i < l.size(); i++) {
                auto& e = l[i]; p.refused |= e[1] == 0 || e[2] == 0;
                p.f[fmt("layer %zu", i)] = num(e[0]) + " " + num(e[1]) + " " + num(e[2]) + " " + num(e[3]); p.f[fmt("layer %zu absolute", i)] = about(e[1] * Math::Constants::eps0) + " " + about(e[2] * Math::Constants::mu0);
                p.f[fmt("layer %zu by number", i)] = num(e[0]) + " " + about(e[1] * Math::Constants::eps0) + " " + about(e[2] * Math::Constants::mu0) + " " + num(e[3]) + " " + num(0);
                p.shows.push_back(fmt("%zu ", i) + g(e[3]));
            }
            p.f["fitting"] = o.empty() ? "no" : num(o[0][0]) + " " + num(o[0][1]) + fmt(" %d", int(o[0][2]));
            p.make = [=] {
                std::vector<PM::Surface::Multilayer::Layer> a; std::vector<PM::Surface::Multilayer::FittingOptions> b;
                for (auto& e : l) a.push_back(PM::Surface::Multilayer::Layer(e[0], e[1], e[2], e[3]));
                for (auto& e : o) b.push_back(PM::Surface::Multilayer::FittingOptions({e[0], e[1]}, size_t(e[2])));
                return o.empty() ? new PM::Surface::Multilayer(mid, n, a) : new PM::Surface::Multilayer(mid, n, a, b);
            };
            break;
        }
        case 19: {
            std::vector<std::array<std::complex<double>, 5>> t(2 + choose(3)); for (auto& r : t) for (auto& c : r) c = {value(), value()};
            p.kind = "SIBC"; static const char* const k2[] = {"at infinity", "linear"};
            for (size_t m = 0; m < t.size(); m++) for (int i = 0; i < 4; i++) p.f[(m < 2 ? std::string(k2[m]) : fmt("residue %zu", m - 2)) + fmt(" %d %d", i / 2, i % 2)] = str(t[m][i]);
            for (size_t m = 2; m < t.size(); m++) p.f[fmt("pole %zu", m - 2)] = str(t[m][4]);
            p.f["poles"] = fmt("%zu %zu", t.size() - 2, t.size() - 2);
            p.make = [=] {
                auto mat = [&](size_t m) { Math::MatC22 r; for (size_t i = 0; i < 4; i++) r(i / 2, i % 2) = t[m][i]; return r; };
                std::vector<PM::Surface::SIBC::PoleResidue> z; for (size_t m = 2; m < t.size(); m++) z.push_back({t[m][4], mat(m)});
                return new PM::Surface::SIBC(mid, n, mat(0), mat(1), z);
            };
            break;
        }
        default: { std::string f = pick(std::vector<std::string>{"a.mibc", "long folder name/of the table.mibc", "a.txt", "mibc", "a.mibc.old"}); p.refused = f.size() < 5 || f.substr(f.size() - 5) != ".mibc"; p.kind = "SIBC from file"; p.f["file"] = f; p.shows = {f}; p.make = [=] { return new PM::Surface::SIBCFile(mid, n, FileSystem::Project(f)); }; }
    }
    return p;
}
// ---- elements for sources and requests
typedef Geometry::Element::Group<const Geometry::Elem> Elems;
std::unique_ptr<Geometry::Element::Group<Geometry::Elem>> pool;
std::unique_ptr<Geometry::CoordR3Group> coords;
struct El { Geometry::Elem* e; size_t id; int what; bool mat; V3 lo, hi; };   // 0 node, 1 line, 2 surface at the bottom, 3 surface upright, 4 volume
std::vector<El> elems;
std::unique_ptr<PM::Predefined::PEC> metal;
template <class K, size_t N> void element(int what, const std::vector<V3>& at, bool mat) {
    El e; e.id = elems.size() + 1; e.what = what; e.mat = mat; e.lo = e.hi = at[0];
    for (auto& p : at) for (int d = 0; d < 3; d++) { e.lo[d] = std::min(e.lo[d], p[d]); e.hi[d] = std::max(e.hi[d], p[d]); }
    { SutScope z; const Geometry::CoordR3* v[N]; for (size_t i = 0; i < N; i++) { auto* c = new Geometry::CoordR3(Geometry::CoordId(coords->size() + 1), vec(at[i])); coords->add(c); v[i] = c; } e.e = new K(Geometry::ElemId(e.id), v, nullptr, mat ? metal.get() : nullptr); pool->add(e.e); }
    elems.push_back(e);
}
void world() {
    elems.clear();
    { SutScope z; pool.reset(new Geometry::Element::Group<Geometry::Elem>()); coords.reset(new Geometry::CoordR3Group()); metal.reset(new PM::Predefined::PEC(MatId(5))); }
    auto at = [](double x, double y, double z) { return V3{{x, y, z}}; };
    for (int i = 0; i < 3; i++) element<Geometry::NodR, 1>(0, {at(i, 0, 0)}, i == 2);
    for (int i = 0; i < 3; i++) element<Geometry::LinR2, 2>(1, {at(i, 0, 0), at(i, 2, 0)}, i == 2);
    for (int i = 0; i < 3; i++) { double a = i, w = 1 + i; element<Geometry::QuaR4, 4>(2, {at(a, 1, 0), at(a + w, 1, 0), at(a + w, 3, 0), at(a, 3, 0)}, i == 2); }
    for (int i = 0; i < 2; i++) element<Geometry::QuaR4, 4>(3, {at(i, 0, 0), at(i, 2, 0), at(i, 2, 1), at(i, 0, 1)}, false);
    for (int i = 0; i < 3; i++) { double a = i, b = i + 1; element<Geometry::HexR8, 8>(4, {at(a, 0, 0), at(b, 0, 0), at(b, 1, 0), at(a, 1, 0), at(a, 0, 1), at(b, 0, 1), at(b, 1, 1), at(a, 1, 1)}, i == 2); }
}
typedef std::set<size_t> Ids;
std::string str(const Ids& s) { std::string r; for (size_t i : s) r += fmt("%s%zu", r.empty() ? "" : " ", i); return r; }
Ids some(const std::vector<int>& what, bool none = true) { Ids r; std::vector<size_t> c; for (auto& e : elems) if (std::count(what.begin(), what.end(), e.what)) c.push_back(e.id); for (size_t i : c) if (chance(1, 2)) r.insert(i); if (r.empty() && !none) r.insert(c[choose(uint32_t(c.size()))]); return r; }
template <class T> Geometry::Element::Group<T> group(const Ids& s) { std::vector<T*> v; for (size_t i : s) v.push_back(dynamic_cast<T*>(elems[i - 1].e)); return Geometry::Element::Group<T>(v); }
Elems all(const Ids& s) { std::vector<const Geometry::Elem*> v; for (size_t i : s) v.push_back(elems[i - 1].e); return Elems(v); }
void holds(Facts& f, const Elems& e) {
    Ids ids; bool own = true; size_t n = e.size();
    for (size_t i = 0; i < n; i++) { size_t id = e(i)->getId().toInt(); ids.insert(id); own &= id >= 1 && id <= elems.size() && e(i) == elems[id - 1].e; }
    f["elements"] = str(ids) + (own ? "" : ", not those of the mesh") + (n == ids.size() ? "" : fmt(", %zu in all", n));
}
// ---- excitations
struct Mag { int kind; double p[3]; std::vector<std::pair<double, double>> t; };     // 0 gaussian, 1 band limited, 2 table
Mag someMag() {
    Mag m; m.kind = int(choose(3));
    for (double& x : m.p) x = 0.5 * (1 + choose(5));
    if (m.kind == 1) m.p[1] += m.p[0];
    if (m.kind == 2) { double x = 0; for (int n = range(2, 5); n > 0; n--) { m.t.push_back({x, 0.5 * choose(9)}); x += 0.5 * (1 + choose(3)); } }
    return m;
}
Math::FunctionRR* function(const Mag& m) {
    switch (m.kind) {
        case 0: return new Math::Function::Gaussian(m.p[0], m.p[1], m.p[2]);
        case 1: return new Math::Function::BandLimited(m.p[0], m.p[1]);
        default: return new Math::Function::LinearInterpolation<Math::Real, Math::Real>(std::vector<std::pair<Math::Real, Math::Real>>(m.t.begin(), m.t.end()));
    }
}
Source::Magnitude::Magnitude* magnitude(const Mag& m) { std::unique_ptr<Math::FunctionRR> f(function(m)); auto* r = new Source::Magnitude::Magnitude(f.get()); f.release(); return r; }
double at(const Mag& m, double t) {
    const double pi = std::acos(-1.0);
    if (m.kind == 0) { double a = (t - m.p[1]) / m.p[0]; return std::exp(-a * a / 2) * std::cos(2 * pi * m.p[2] * t); }
    if (m.kind == 1) { double w = pi * (m.p[1] - m.p[0]), d = t - 20 / m.p[0], s = 10 / m.p[1]; return (d == 0 ? 1 : std::sin(w * d) / (w * d)) * std::exp(-d * d / (s * s) / 2) * std::cos(pi * (m.p[1] + m.p[0]) * d); }
    if (t <= m.t.front().first) return m.t.front().second;
    for (size_t i = 1; i < m.t.size(); i++) if (t <= m.t[i].first) return m.t[i - 1].second + (t - m.t[i - 1].first) / (m.t[i].first - m.t[i - 1].first) * (m.t[i].second - m.t[i - 1].second);
    return m.t.back().second;
}
double when(const Mag& m, int i) { return m.kind == 1 ? 20 / m.p[0] + 0.3 * i : 0.375 + 0.75 * i; }
std::string sample(double v) { return near(v); }
// ---- sources
typedef Kinds<Source::Base, Source::PlaneWave, Source::Dipole, Source::Generator, Source::OnLine, Source::Port::WaveguideRectangular, Source::Port::TEMCoaxial> Sources;
struct Src : Slot<Source::Base> { Mag m; std::vector<int> takes; bool hasMag = true; double in = 0, out = 0; };
std::vector<Src> sources;
void told(Facts& f, const Source::Base& s, const Mag& m, bool hasMag) {
    f["name"] = s.getName(); holds(f, s.elems());
    const Source::Magnitude::Magnitude* g = s.getMagnitude();
    f["excitation"] = g ? "some" : "none";
    if (g && hasMag) {
        std::unique_ptr<Source::Magnitude::Magnitude> same(magnitude(m));
        f["excitation is"] = *g == *same && *same == *g ? "the one given" : "another";
        for (int i = 0; i < 3; i++) f[fmt("excitation at %d", i)] = sample(g->evaluate(when(m, i)));
    }
    f["file of the excitation"] = s.getMagnitudeFilename();
    if (s.is<Source::PlaneWave>()) {
        auto& c = *s.castTo<Source::PlaneWave>(); f["random"] = yes(c.isRandomic()); f["random number"] = fmt("%ld", long(c.getNumberOfRandomPlanewaves())); f["random delay"] = num(c.getRelativeVariationOfRandomDelay());
        if (!c.isRandomic()) {
            Vec d = c.getDirection(), p = c.getPolarization(); f["direction"] = near(d(0)) + " " + near(d(1)) + " " + near(d(2)); f["polarization"] = near(p(0)) + " " + near(p(1)) + " " + near(p(2));
            double dn = d.norm(), pn = p.norm(), th = c.getTheta(), ph = c.getPhi(), al = c.getAlpha(), be = c.getBeta();
            auto from = [](double l, double t, double u) { return near(l * std::sin(t) * std::cos(u)) + " " + near(l * std::sin(t) * std::sin(u)) + " " + near(l * std::cos(t)); };
            f["direction by angles"] = from(dn, th, ph); f["polarization by angles"] = from(pn, al, be);
            if (g && hasMag) { auto e = c.getElectromagneticField(when(m, 1)); f["electric field"] = near(e.first(0)) + " " + near(e.first(1)) + " " + near(e.first(2)); const double z = 376.730313668; f["magnetic field by impedance"] = near(e.second(0) * z) + " " + near(e.second(1) * z) + " " + near(e.second(2) * z); }
        }
    }
    if (s.is<Source::Generator>()) f["type"] = fmt("%d", int(s.castTo<Source::Generator>()->getType()));
    if (s.is<Source::OnLine>()) { auto& c = *s.castTo<Source::OnLine>(); f["type"] = fmt("%d", int(c.getType())); f["hardness"] = fmt("%d", int(c.getHardness())); }
    if (s.is<Source::Port::Port>()) f["origin"] = str(s.castTo<Source::Port::Port>()->getOrigin());
    if (s.is<Source::Port::TEMCoaxial>()) f["type"] = fmt("%d", int(s.castTo<Source::Port::TEMCoaxial>()->getExcitationMode()));
    if (s.is<Source::Port::WaveguideRectangular>()) { auto& c = *s.castTo<Source::Port::WaveguideRectangular>(); f["type"] = fmt("%d", int(c.getExcitationMode())); f["mode"] = fmt("%zu %zu", c.getMode().first, c.getMode().second); f["size"] = num(c.getWidth()) + " " + num(c.getHeight()); }
}
void extent(const Ids& s, V3& lo, V3& hi) { lo = V3{{1e9, 1e9, 1e9}}; hi = V3{{-1e9, -1e9, -1e9}}; for (size_t i : s) for (int d = 0; d < 3; d++) { lo[d] = std::min(lo[d], elems[i - 1].lo[d]); hi[d] = std::max(hi[d], elems[i - 1].hi[d]); } }
void place(Facts& f, const Ids& s, bool waveguide) {
    V3 lo, hi; extent(s, lo, hi);
    if (waveguide) { f["origin"] = str(lo); f["size"] = num(hi[0] - lo[0]) + " " + num(hi[1] - lo[1]); }
    else f["origin"] = str(V3{{(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, (lo[2] + hi[2]) / 2}});
}
struct SPlan { Src s; bool refused = false; std::function<Source::Base*(Source::Magnitude::Magnitude*)> make; };
SPlan planSource() {
    SPlan p; Src& s = p.s; s.m = someMag(); Facts& f = s.f; Ids ids;
    auto mag = [&] { f["excitation"] = "some"; f["excitation is"] = "the one given"; for (int i = 0; i < 3; i++) f[fmt("excitation at %d", i)] = sample(at(s.m, when(s.m, i))); f["file of the excitation"] = ""; };
    mag();
    switch (choose(7)) {
        case 0: case 1: {
            s.kind = "plane wave"; f["name"] = "PlaneWave"; s.takes = {4}; ids = some({4}); int how = int(choose(3));
            if (how == 2) { int n = range(1, 50); double v = value(); f["random"] = "yes"; f["random number"] = fmt("%d", n); f["random delay"] = num(v); p.make = [=](Source::Magnitude::Magnitude* m) { return new Source::PlaneWave(m, group<Geometry::Vol>(ids), Math::Int(n), v); }; probe("random plane waves"); break; }
            f["random"] = "no"; f["random number"] = "0"; f["random delay"] = num(0);
            V3 d = point(), q = point(); double a[4] = {angle(), angle(), angle(), angle()};
            if (how == 0 && chance(3, 4)) q = chance(1, 2) ? V3{{d[1], -d[0], 0}} : V3{{0, d[2], -d[1]}};
            if (how == 0 && chance(1, 4)) { double tiny = std::ldexp(1.0, -7 * range(0, 3)); for (double& x : d) x *= tiny; for (double& x : q) x *= tiny; }
            if (how == 1) {
                if (chance(3, 4)) { a[2] = a[0] + std::acos(-1.0) / 2; a[3] = a[1]; }
                d = V3{{std::sin(a[0]) * std::cos(a[1]), std::sin(a[0]) * std::sin(a[1]), std::cos(a[0])}}; q = V3{{std::sin(a[2]) * std::cos(a[3]), std::sin(a[2]) * std::sin(a[3]), std::cos(a[2])}};
            }
            double dn = 0, qn = 0, dq = 0; for (int i = 0; i < 3; i++) { dn += d[i] * d[i]; qn += q[i] * q[i]; dq += d[i] * q[i]; } dn = std::sqrt(dn); qn = std::sqrt(qn);
            p.refused = dn == 0 || qn == 0 || std::abs(dq) > 1e-5 * dn * qn;
            if (!p.refused) {
                f["direction"] = f["direction by angles"] = near(d[0]) + " " + near(d[1]) + " " + near(d[2]); f["polarization"] = f["polarization by angles"] = near(q[0]) + " " + near(q[1]) + " " + near(q[2]);
                double e = at(s.m, when(s.m, 1)); f["electric field"] = near(q[0] * e) + " " + near(q[1] * e) + " " + near(q[2] * e);
                f["magnetic field by impedance"] = near(e * (d[1] * q[2] - d[2] * q[1])) + " " + near(e * (d[2] * q[0] - d[0] * q[2])) + " " + near(e * (d[0] * q[1] - d[1] * q[0]));
            }
            std::array<double, 4> b{{a[0], a[1], a[2], a[3]}};
            p.make = [=](Source::Magnitude::Magnitude* m) { return how == 0 ? new Source::PlaneWave(m, group<Geometry::Vol>(ids), vec(d), vec(q)) : new Source::PlaneWave(m, group<Geometry::Vol>(ids), std::make_pair(b[0], b[1]), std::make_pair(b[2], b[3])); };
            break;
        }
        case 2: { s.kind = "dipole"; f["name"] = "Dipole"; s.takes = {4}; ids = some({4}); double l = value(); V3 o = point(), q = point(); s.shows = {"Length: " + g(l)}; p.make = [=](Source::Magnitude::Magnitude* m) { return new Source::Dipole(m, group<Geometry::Vol>(ids), l, vec(o), vec(q)); }; break; }
        case 3: { s.kind = "generator"; f["name"] = "Generator"; s.takes = {0}; ids = some({0}); int t = range(1, 2); bool hard = chance(1, 2); f["type"] = fmt("%d", t); s.shows = {t == 1 ? "Type: Voltage" : "Type: Current"}; p.make = [=](Source::Magnitude::Magnitude* m) { return new Source::Generator(m, group<const Geometry::Nod>(ids), Source::Generator::Type(t), hard ? Source::Generator::hard : Source::Generator::soft); }; break; }
        case 4: { s.kind = "source on lines"; f["name"] = "OnLine"; s.takes = {1}; ids = some({1}); int t = range(1, 2), h = range(1, 2); f["type"] = fmt("%d", t); f["hardness"] = fmt("%d", h); s.shows = {t == 1 ? "Type: Electric Field" : "Type: Magnetic Field", h == 1 ? "Hardness: Hard" : "Hardness: Soft"}; p.make = [=](Source::Magnitude::Magnitude* m) { return new Source::OnLine(m, group<const Geometry::Lin>(ids), Source::OnLine::Type(t), Source::OnLine::Hardness(h)); }; break; }
        case 5: {
            s.kind = "waveguide port"; f["name"] = "Rectangular_waveguide_port"; s.takes = {2}; int bad = chance(1, 3) ? range(1, 3) : 0; ids = bad == 1 ? Ids() : bad == 2 ? some({3}, false) : some({2}, false);
            bool te = chance(1, 2); size_t a = choose(4), b = choose(4); if (bad == 3) a = b = 0; else if (a + b == 0) a = 1; p.refused = bad != 0;
            f["type"] = fmt("%d", te ? 0 : 1); f["mode"] = fmt("%zu %zu", a, b); if (!p.refused) place(f, ids, true); s.shows = {std::string("Mode: ") + (te ? "TE" : "TM") + fmt(" %zu, %zu", a, b)};
            p.make = [=](Source::Magnitude::Magnitude* m) { return new Source::Port::WaveguideRectangular(m, group<const Geometry::Surf>(ids), te ? Source::Port::Waveguide::TE : Source::Port::Waveguide::TM, {a, b}); };
            break;
        }
        default: {
            s.kind = "coaxial port"; f["name"] = "Coaxial_TEM_port"; s.takes = {2}; ids = some({2}); bool volt = chance(1, 2); V3 o = point(); double in = 0.25 * (1 + choose(4)), out = in + 0.5; s.in = in; s.out = out;
            f["type"] = fmt("%d", volt ? 0 : 1); f["origin"] = str(o); s.shows = {"Inner/Outer radii: " + g(in) + "/" + g(out), std::string("Excitation mode: ") + (volt ? "voltage" : "current")};
            p.make = [=](Source::Magnitude::Magnitude* m) { return new Source::Port::TEMCoaxial(m, group<const Geometry::Surf>(ids), volt ? Source::Port::TEM::voltage : Source::Port::TEM::current, vec(o), in, out); };
        }
    }
    f["elements"] = str(ids);
    return p;
}
// ---- requests
typedef OR::OutputRequest<Geometry::Elem> OnElems; typedef OR::OutputRequest<Geometry::Vol> OnVols; typedef OR::OutputRequest<Geometry::Nod> OnNodes;
typedef Kinds<OR::Base, OnElems, OnVols, OnNodes, OR::BulkCurrent, OR::FarField> Requests;
struct Req : Slot<OR::Base> { std::vector<int> takes; };
std::vector<Req> requests;
struct Dom { bool time, freq, log, transfer; double v[6]; std::string file; };
Dom someDomain() { Dom d; d.time = chance(1, 2); d.freq = chance(1, 2); d.log = chance(1, 2); d.transfer = chance(1, 2); for (double& x : d.v) x = value(); d.file = someName(); return d; }
OR::Domain domain(const Dom& d) { return OR::Domain(d.time, d.v[0], d.v[1], d.v[2], d.freq, d.v[3], d.v[4], d.v[5], d.log, d.transfer, d.file); }
void wanted(Facts& f, const Dom& d) {
    f["time"] = yes(d.time); f["frequency"] = yes(d.freq); f["logarithmic"] = yes(d.log); f["transfer"] = yes(d.transfer); f["transfer file"] = d.transfer ? d.file : "";
    static const char* const k[] = {"first time", "last time", "sampling", "first frequency", "last frequency", "frequency step"}; for (int i = 0; i < 6; i++) f[k[i]] = num(d.v[i]);
    static const OR::Domain::Type t[] = {OR::Domain::NONE, OR::Domain::TRAN, OR::Domain::FREQ, OR::Domain::FRTR, OR::Domain::TIME, OR::Domain::TITR, OR::Domain::TIFR, OR::Domain::ALL};
    f["domain"] = fmt("%d", int(t[d.time * 4 + d.freq * 2 + d.transfer]));
}
void told(Facts& f, const OR::Domain& d) {
    f["time"] = yes(d.isTimeDomain()); f["frequency"] = yes(d.isFrequencyDomain()); f["logarithmic"] = yes(d.isLogFrequencySweep()); f["transfer"] = yes(d.isUsingTransferFunction()); f["transfer file"] = d.getTransferFunctionFile();
    f["first time"] = num(d.getInitialTime()); f["last time"] = num(d.getFinalTime()); f["sampling"] = num(d.getSamplingPeriod()); f["first frequency"] = num(d.getInitialFrequency()); f["last frequency"] = num(d.getFinalFrequency()); f["frequency step"] = num(d.getFrequencyStep());
    f["domain"] = fmt("%d", int(d.getDomainType()));
}
const OR::Base::Type kTypes[] = {OR::Base::electric, OR::Base::magnetic, OR::Base::electricFieldNormals, OR::Base::magneticFieldNormals, OR::Base::surfaceCurrentDensity, OR::Base::bulkCurrentElectric, OR::Base::bulkCurrentMagnetic, OR::Base::current, OR::Base::voltage, OR::Base::electricFarField};
const char* const kTypesShown[] = {"Electric field", "Magnetic field", "Electric field normals", "Magnetic field normals", "Surface current density", "Bulk current electric", "Bulk current magnetic", "Current", "Voltage", "Electric far field"};
void told(Facts& f, const OR::Base& r) {
    f["name"] = r.getName(); f["type"] = fmt("%d", int(r.getType())); holds(f, r.elems()); told(f, r.domain());
    if (r.is<OR::BulkCurrent>()) { auto& c = *r.castTo<OR::BulkCurrent>(); f["direction"] = fmt("%d", int(c.getDir())); f["skip"] = fmt("%zu", size_t(c.getSkip())); }
    if (r.is<OR::FarField>()) { auto& c = *r.castTo<OR::FarField>(); f["theta"] = num(c.getInitialTheta()) + " " + num(c.getFinalTheta()) + " " + num(c.getStepTheta()); f["phi"] = num(c.getInitialPhi()) + " " + num(c.getFinalPhi()) + " " + num(c.getStepPhi()); }
}
void showsOf(Req& r, size_t type) { r.shows = {std::string("Type: ") + kTypesShown[type]}; }
struct RPlan { Req r; bool refused = false; std::function<OR::Base*()> make; };
RPlan planRequest() {
    RPlan p; Req& r = p.r; Facts& f = r.f; Ids ids; Dom d = someDomain(); std::string n = someName(); size_t type = choose(10); wanted(f, d); f["name"] = n;
    switch (choose(5)) {
        case 0: { r.kind = "bulk current"; r.takes = {0, 1, 2, 4}; ids = some(r.takes); type = 5 + choose(2); int dir = int(choose(3)); size_t skip = choose(5); f["direction"] = fmt("%d", dir); f["skip"] = fmt("%zu", skip);
            bool both = chance(1, 2); if (!both) type = 5; p.make = [=]() -> OR::Base* { return both ? new OR::BulkCurrent(domain(d), n, all(ids), Math::Constants::CartesianAxis(dir), skip, kTypes[type]) : new OR::BulkCurrent(domain(d), n, all(ids), Math::Constants::CartesianAxis(dir), skip); }; break; }
        case 1: { r.kind = "far field"; r.takes = {4}; ids = some({4}); type = 9; double a[6]; for (double& x : a) x = value(); f["theta"] = num(a[0]) + " " + num(a[1]) + " " + num(a[2]); f["phi"] = num(a[3]) + " " + num(a[4]) + " " + num(a[5]); std::array<double, 6> b; std::copy(a, a + 6, b.begin());
            p.make = [=] { return new OR::FarField(domain(d), n, group<Geometry::Vol>(ids), b[0], b[1], b[2], b[3], b[4], b[5]); }; break; }
        case 2: { r.kind = "request on volumes"; r.takes = {4}; ids = some({4}); p.make = [=] { return new OnVols(domain(d), kTypes[type], n, group<Geometry::Vol>(ids)); }; break; }
        case 3: { r.kind = "request on nodes"; r.takes = {0}; ids = some({0}); p.make = [=] { return new OnNodes(domain(d), kTypes[type], n, group<Geometry::Nod>(ids)); }; break; }
        default: { r.kind = "request"; r.takes = {0, 1, 2, 3, 4}; ids = some(r.takes); p.make = [=] { return new OnElems(domain(d), kTypes[type], n, group<Geometry::Elem>(ids)); }; }
    }
    if ((type == 5 || type == 6) && r.kind != "bulk current" && r.kind != "far field") for (size_t i : ids) p.refused |= elems[i - 1].mat;
    f["type"] = fmt("%d", int(kTypes[type])); f["elements"] = str(ids); showsOf(r, type);
    if (r.kind == "far field") { r.shows.push_back("Initial theta: " + g(std::stod(f["theta"]))); }
    if (!n.empty()) r.shows.push_back("Name: " + n);
    return p;
}
// ---- what is common to them
Facts now(const Model& s) { Facts f; SutScope z; told(f, *s.p); return f; }
Facts now(const Src& s) { Facts f; SutScope z; told(f, *s.p, s.m, s.hasMag); return f; }
Facts now(const Req& s) { Facts f; SutScope z; told(f, *s.p); return f; }
template <class S> void compare(std::vector<S>& v, const std::string& what) {
    for (auto& s : v) { std::string d = difference(now(s), s.f); check(d.empty(), "data-differs", "after " + what + ", of the " + s.kind + ": " + d); }
}
template <class S> void record(const S& s, S& r) { r.f = s.f; r.kind = s.kind; r.shows = s.shows; }
void also(const Model&, Model&) {}
void also(const Src& s, Src& r) { r.m = s.m; r.takes = s.takes; r.hasMag = s.hasMag; r.in = s.in; r.out = s.out; }
void also(const Req& s, Req& r) { r.takes = s.takes; }
template <class All, class B, class S> void common(std::vector<S>& v) {
    if (v.empty()) return;
    size_t a = choose(uint32_t(v.size()));
    S& x = v[a];
    switch (choose(4)) {
        case 0: case 1: {
            bool clone = chance(1, 2); std::string what = (clone ? "cloning the " : "copying the ") + x.kind; log("%s", what.c_str());
            S n; record(x, n); also(x, n);
            arm();
            if (settle(call("copy", [&] { n.p.reset(clone ? x.p->template cloneTo<B>() : All::copy(*x.p)); }), what)) {
                check(typeid(*n.p) == typeid(*x.p), "kind-differs", what);
                std::string d = difference(now(n), n.f); check(d.empty(), "copy-differs", what + ": " + d);
                if (v.size() < 6) v.push_back(std::move(n)); else { size_t k = choose(uint32_t(v.size())); SutScope z; std::swap(v[k].p, n.p); FrameworkScope f; record(n, v[k]); also(n, v[k]); }
                probe("copy");
            }
            SutScope z; n.p.reset();
            break;
        }
        case 2: {
            size_t b = choose(uint32_t(v.size())); for (size_t k = 0; k < v.size() && typeid(*v[b].p) != typeid(*x.p); k++) b = (b + 1) % v.size();
            S& y = v[b]; std::string what = "assigning the " + y.kind + (a == b ? " to itself" : ""); log("%s", what.c_str());
            bool done = false;
            arm();
            if (settle(call("assignment", [&] { done = All::assign(*x.p, *y.p); }), what)) { if (done) { S n; record(y, n); also(y, n); record(n, x); also(n, x); probe("assignment"); } }
            else if (a != b) { SutScope z; v.erase(v.begin() + long(a)); }
            break;
        }
        default: if (v.size() > 1) { log("removing the %s", x.kind.c_str()); SutScope z; v.erase(v.begin() + long(a)); }
    }
}

void stepModels() {
    if (models.empty() || chance(1, 4)) {
        Plan p = planModel(); Model n; n.f = p.f; n.kind = p.kind; n.shows = p.shows; std::string what = "making a " + p.kind; log("%s", what.c_str());
        arm();
        if (settle(call("make", [&] { n.p.reset(p.make()); }), what, p.refused)) { if (models.size() < 7) models.push_back(std::move(n)); else { size_t k = choose(uint32_t(models.size())); SutScope z; std::swap(models[k].p, n.p); FrameworkScope f; record(n, models[k]); } }
        SutScope z; n.p.reset(); takeErrors();
        return;
    }
    Model& x = models[choose(uint32_t(models.size()))];
    switch (choose(6)) {
        case 0: {
            std::string n = someName(); log("naming the %s %s", x.kind.c_str(), shown(n).c_str());
            arm();
            if (settle(call("name", [&] { x.p->setName(n); }), "naming")) { std::string was = "Name: " + x.f["name"]; x.f["name"] = n; for (auto& w : x.shows) if (w == was) w = "Name: " + n; }
            break;
        }
        case 1: {
            size_t id = choose(40); log("giving the %s the id %zu", x.kind.c_str(), id);
            call("id", [&] { x.p->setId(MatId(id)); });
            std::string was = "Id: " + x.f["id"]; x.f["id"] = fmt("%zu", id); for (auto& w : x.shows) if (w == was) w = "Id: " + x.f["id"];
            break;
        }
        case 2: {
            Model* e = someModel([](const PM::PhysicalModel& m) { return m.is<PM::Wire::Extremes>(); });
            if (!e) break;
            auto* w = e->p->castTo<PM::Wire::Extremes>();
            if (chance(1, 3)) {
                log("swapping the extremes");
                Facts a, b; for (auto& f : e->f) { if (!f.first.compare(0, 10, "extreme 0 ")) a[f.first.substr(10)] = f.second; if (!f.first.compare(0, 10, "extreme 1 ")) b[f.first.substr(10)] = f.second; }
                arm(); if (settle(call("swap", [&] { w->swapExtremes(); }), "swapping extremes")) { extreme(e->f, 0, b.empty() ? nullptr : &b); extreme(e->f, 1, a.empty() ? nullptr : &a); probe("extremes swapped"); }
            } else {
                size_t i = choose(2); Model* port = chance(1, 4) ? nullptr : somePort(); bool own = port && chance(1, 5); const PM::Multiport::Multiport* to = port ? port->p->castTo<PM::Multiport::Multiport>() : nullptr;
                Facts f; if (port) f = port->f;
                if (own) { to = w->getExtreme(chance(1, 2)); f.clear(); if (to) { SutScope z; told(f, *to); } }
                log("setting extreme %zu", i);
                arm(); if (settle(call("extreme", [&] { w->setExtreme(i, to); }), "setting an extreme")) { extreme(e->f, i, to ? &f : nullptr); probe("extreme set"); }
            }
            break;
        }
        case 3: if (chance(1, 2)) described(*x.p, x.shows, "the " + x.kind); break;
        default: common<Models, PM::PhysicalModel>(models);
    }
}
void stepSources() {
    if (sources.empty() || chance(1, 4)) {
        SPlan p = planSource(); std::string what = "making a " + p.s.kind; log("%s", what.c_str());
        Source::Magnitude::Magnitude* m = nullptr; bool none = chance(1, 6);
        if (none) { p.s.hasMag = false; p.s.f["excitation"] = "none"; p.s.f.erase("excitation is"); p.s.f.erase("electric field"); p.s.f.erase("magnetic field by impedance"); for (int i = 0; i < 3; i++) p.s.f.erase(fmt("excitation at %d", i)); }
        else { SutScope z; m = magnitude(p.s.m); }
        arm();
        if (settle(call("make", [&] { p.s.p.reset(p.make(m)); }), what, p.refused)) { if (sources.size() < 6) sources.push_back(std::move(p.s)); else { size_t k = choose(uint32_t(sources.size())); SutScope z; std::swap(sources[k].p, p.s.p); FrameworkScope f; record(p.s, sources[k]); also(p.s, sources[k]); } }
        SutScope z; p.s.p.reset(); takeOutput();
        return;
    }
    Src& x = sources[choose(uint32_t(sources.size()))];
    switch (choose(5)) {
        case 0: case 1: {
            bool adding = chance(1, 3) && x.kind != "coaxial port", coax = x.kind == "coaxial port", guide = x.kind == "waveguide port", upright = (coax || guide) && chance(1, 4);
            Ids is, to = upright ? some({3}, false) : some(x.takes, guide || coax ? false : true), want = to;
            for (size_t i = 1; i <= elems.size(); i++) if ((" " + x.f["elements"] + " ").find(fmt(" %zu ", i)) != std::string::npos) is.insert(i);
            if (adding) { for (size_t i : is) want.erase(i); to = want; want.insert(is.begin(), is.end()); }
            std::string what = (adding ? "adding elements to the " : "setting the elements of the ") + x.kind; log("%s: %s", what.c_str(), str(to).c_str());
            std::unique_ptr<Elems> e; { SutScope z; e.reset(new Elems(all(to))); }
            arm();
            if (settle(call("elements", [&] { if (adding) x.p->add(*e); else x.p->set(*e); }), what, upright)) {
                x.f["elements"] = str(want); if (coax || guide) place(x.f, want, guide);
                if (coax) { V3 lo, hi; extent(want, lo, hi); double by = (hi[0] - lo[0] + hi[1] - lo[1]) / 4; x.in *= by; x.out *= by; for (auto& w : x.shows) if (!w.compare(0, 6, "Inner/")) w = "Inner/Outer radii: " + g(x.in) + "/" + g(x.out); }
                probe("elements set");
            }
            SutScope z; e.reset();
            break;
        }
        case 2: described(*x.p, x.shows, "the " + x.kind); break;
        default: common<Sources, Source::Base>(sources);
    }
}
void stepRequests() {
    if (requests.empty() || chance(1, 4)) {
        RPlan p = planRequest(); std::string what = "making a " + p.r.kind; log("%s", what.c_str());
        arm();
        if (settle(call("make", [&] { p.r.p.reset(p.make()); }), what, p.refused)) { if (requests.size() < 6) requests.push_back(std::move(p.r)); else { size_t k = choose(uint32_t(requests.size())); SutScope z; std::swap(requests[k].p, p.r.p); FrameworkScope f; record(p.r, requests[k]); also(p.r, requests[k]); } }
        SutScope z; p.r.p.reset();
        return;
    }
    Req& x = requests[choose(uint32_t(requests.size()))];
    switch (choose(8)) {
        case 0: {
            std::string n = someName(); log("naming the %s %s", x.kind.c_str(), shown(n).c_str());
            arm();
            if (settle(call("name", [&] { x.p->setName(n); }), "naming")) { for (size_t i = 0; i < x.shows.size(); i++) if (!x.shows[i].compare(0, 5, "Name:")) x.shows.erase(x.shows.begin() + long(i--)); x.f["name"] = n; if (!n.empty()) x.shows.push_back("Name: " + n); }
            break;
        }
        case 1: { double v = value(); bool last = chance(1, 2); log("changing the domain"); call("domain", [&] { if (last) x.p->domain().setFinalTime(v); else x.p->domain().setSamplingPeriod(v); }); x.f[last ? "last time" : "sampling"] = num(v); break; }
        case 2: {
            log("replacing the domain"); Dom d = someDomain(); bool from = chance(1, 3), copied = chance(1, 3); Req& y = requests[choose(uint32_t(requests.size()))]; OR::Domain n; { SutScope z; n = domain(d); }
            arm();
            if (settle(call("domain", [&] { if (copied) { OR::Domain m(from ? y.p->domain() : n); x.p->domain() = m; } else x.p->domain() = from ? y.p->domain() : n; }), "replacing the domain")) {
                if (!from) wanted(x.f, d); else { Facts f; { SutScope z; told(f, y.p->domain()); } for (auto& e : f) x.f[e.first] = y.f[e.first]; }
                bool same = false; { SutScope z; same = x.p->domain() == (from ? y.p->domain() : n); } check(same, "domains-differ", "a domain that was just assigned is told to differ");
                size_t which = choose(11); Dom o = d; if (!from) { switch (which) { case 0: o.time = !o.time; break; case 1: o.freq = !o.freq; break; case 2: o.log = !o.log; break; case 3: o.transfer = !o.transfer; break; case 4: o.transfer = true; o.file += "x"; break; default: o.v[which - 5] += 1; } SutScope z; same = x.p->domain() == domain(o); FrameworkScope f; check(!same, "domains-differ", "domains of other data are told to be the same"); }
            }
            break;
        }
        case 3: case 4: {
            bool adding = chance(1, 3); Ids is, to = some(x.takes), want = to;
            for (size_t i = 1; i <= elems.size(); i++) if ((" " + x.f["elements"] + " ").find(fmt(" %zu ", i)) != std::string::npos) is.insert(i);
            if (adding) { for (size_t i : is) want.erase(i); to = want; want.insert(is.begin(), is.end()); }
            std::string what = (adding ? "adding elements to the " : "setting the elements of the ") + x.kind; log("%s: %s", what.c_str(), str(to).c_str());
            std::unique_ptr<Elems> e; { SutScope z; e.reset(new Elems(all(to))); }
            arm();
            if (settle(call("elements", [&] { if (adding) x.p->add(*e); else x.p->set(*e); }), what)) x.f["elements"] = str(want);
            SutScope z; e.reset();
            break;
        }
        case 5: described(*x.p, x.shows, "the " + x.kind); break;
        default: common<Requests, OR::Base>(requests);
    }
}
}

void sim::run() {
    setBudget(60000000);
    fs().reset(); fs().put("/work/there.dat", "0 1\n");
    randomLayout();
    { SutScope z; models.clear(); sources.clear(); requests.clear(); }
    world();
    int about = int(choose(3));
    for (int n = range(4, 40); n > 0; n--) {
        int what = chance(1, 6) ? int(choose(3)) : about;
        if (what == 0) stepModels(); else if (what == 1) stepSources(); else stepRequests();
        compare(models, "this"); compare(sources, "this"); compare(requests, "this");
        if (chance(1, 4)) { std::string st; for (auto& m : models) st += m.kind + m.f["name"] + ";"; for (auto& m : sources) st += m.kind + m.f["elements"] + ";"; for (auto& m : requests) st += m.kind + m.f["elements"] + m.f["domain"] + ";"; state(hash(st)); }
    }
    { SutScope z; models.clear(); sources.clear(); requests.clear(); }
    { SutScope z; pool.reset(); coords.reset(); metal.reset(); }
    nontrivial();
}
