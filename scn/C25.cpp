// Mesher and solver options under seeded histories of settings, refused and out-of-memory ones included.
#include "sim/sim.h"
#include "sim/fs.h"
#include "mesher/Options.h"
#include "solver/Options.h"
#include <memory>
#include <cmath>
#include <cstring>
#include <iostream>
#include <sstream>
#include <new>
using namespace SEMBA;
const char* const sim::kProperty = "C25";
typedef std::map<std::string, std::string> Shown;

static std::string num(double r) { return sim::fmt("%.17g", r); }
// in system scope
static Shown show(const Mesher::Options& o) {
    sim::FrameworkScope f0;
    auto sut = [&](auto&& f) { sim::SutScope s; return f(); };
    Shown r;
    static const char* const modes[]{"Structured", "Relaxed", "Slanted", "Conformal"};
    static const char* const meshers[]{"AMesher", "DMesher", "HMesher"};
    int mode = int(sut([&] { return o.getMode(); })), mesher = int(sut([&] { return o.getMesher(); }));
    r["mode"] = mode >= 0 && mode < 4 ? modes[mode] : "?";
    r["mesher"] = mesher >= 0 && mesher < 3 ? meshers[mesher] : "?";
    r["structured"] = sut([&] { return o.isStructured(); }) ? "1" : "0";
    r["relaxed"] = sut([&] { return o.isRelaxed(); }) ? "1" : "0";
    r["subgridPoints"] = sim::fmt("%d", sut([&] { return o.getSubgridPoints(); }));
    r["forbiddenLength"] = num(sut([&] { return o.getForbiddenLength(); }));
    r["geometryScalingFactor"] = num(sut([&] { return o.getScalingFactor(); }));
    // read as they are in memory: a bool that was never set is neither
    auto yes = [](bool b) { unsigned char c; memcpy(&c, &b, 1); return sim::fmt("%d", int(c)); };
    r["snap"] = yes(sut([&] { return o.isSnap(); }));
    r["vtkExport"] = yes(sut([&] { return o.isVtkExport(); }));
    r["postmshExport"] = yes(sut([&] { return o.isPostmshExport(); }));
    r["postsmbExport"] = yes(sut([&] { return o.isPostsmbExport(); }));
    r["contourRefinement"] = yes(sut([&] { return o.isContourRefinement(); }));
    r["unwantedConnectionsInfo"] = yes(sut([&] { return o.isUnwantedConnectionsInfo(); }));
    r["structuredCellsInfo"] = yes(sut([&] { return o.isStructuredCellsInfo(); }));
    r["slantedWires"] = yes(sut([&] { return o.isSlanted(); }));
    r["slantedThreshold"] = num(sut([&] { return o.getSlantedThreshold(); }));
    r["gridStepSet"] = sut([&] { return o.isGridStepSet(); }) ? "1" : "0";
    static const char* const b[3][2]{{"lowerXBound", "upperXBound"}, {"lowerYBound", "upperYBound"}, {"lowerZBound", "upperZBound"}};
    for (size_t d = 0; d < 3; d++) for (size_t p = 0; p < 2; p++) {
        std::string t = sut([&] { return Mesher::Options::toStr(o.getBoundTermination(d, p)); });
        r[b[d][p]] = t;
    }
    return r;
}
static Shown show(const Solver::Options& o) {
    sim::FrameworkScope f0;
    auto sut = [&](auto&& f) { sim::SutScope s; return f(); };
    Shown r;
    auto yes = [](bool b) { unsigned char c; memcpy(&c, &b, 1); return sim::fmt("%d", int(c)); };
    r["runSimulation"] = yes(sut([&] { return o.isRunSimulation(); }));
    r["forceRestarting"] = yes(sut([&] { return o.isForceRestarting(); }));
    r["resumeSimulation"] = yes(sut([&] { return o.isResumeSimulation(); }));
    r["timeStep"] = num(sut([&] { return o.getTimeStep(); }));
    r["cfl"] = num(sut([&] { return o.getCFL(); }));
    r["defaultSamplingPeriod"] = num(sut([&] { return o.getSamplingPeriod(); }));
    r["flush"] = num(sut([&] { return o.getFlush(); }));
    r["finalTime"] = num(sut([&] { return o.getFinalTime(); }));
    r["steps"] = sim::fmt("%zu", sut([&] { return o.getNumberOfTimeSteps(); }));
    std::string a = sut([&] { return o.getAdditionalArguments(); });
    r["additionalArguments"] = a;
    r["arguments"];
    std::istringstream args(sut([&] { return o.toArgsStr(); }));
    for (std::string t, last; args >> t; last = t) r["arguments"] += " " + (last == "-cfl" || last == "-flush" ? sim::fmt("%g", strtod(t.c_str(), nullptr)) : t);
    return r;
}
// what the options say of themselves when they are printed, by the lines' titles
template<class O> static std::map<std::string, std::string> printed(const O& o) {
    sim::FrameworkScope f0;
    sim::takeOutput();
    { sim::SutScope s; o.printInfo(); std::cout.flush(); }
    std::map<std::string, std::string> r;
    std::istringstream in(sim::takeOutput());
    for (std::string l; std::getline(in, l);) {
        size_t c = l.find(':'), v = c == std::string::npos ? c : l.find_first_not_of(' ', c + 1);
        if (c == std::string::npos) r[l]; else r[l.substr(0, c)] = v == std::string::npos ? "" : l.substr(v);
    }
    return r;
}
static std::string told(const Mesher::Options& o, Shown& r) {
    auto t = printed(o);
    static const char* const b[6][2]{{"lowerXBound", "Lower X Bound"}, {"upperXBound", "Upper X Bound"}, {"lowerYBound", "Lower Y Bound"}, {"upperYBound", "Upper Y Bound"}, {"lowerZBound", "Lower Z Bound"}, {"upperZBound", "Upper Z Bound"}};
    for (auto& x : b) if (!t.count(x[1]) || t[x[1]] != r[x[0]]) return std::string(x[1]) + " is printed as '" + t[x[1]] + "', not '" + r[x[0]] + "'";
    bool says = false; for (auto& l : t) says |= l.first.find("structured mesh") != std::string::npos;
    if (says != (r["structured"] == "1")) return "a structured mesh is printed wrongly";
    return "";
}
static std::string told(const Solver::Options& o, Shown& r) {
    auto t = printed(o);
    static const char* const b[][2]{{"runSimulation", "Run simulation"}, {"finalTime", "Final time"}, {"timeStep", "Time step"}, {"cfl", "CFL"}, {"defaultSamplingPeriod", "Default sampling period"}, {"forceRestarting", "Force restarting"}, {"resumeSimulation", "Resume simulation"}, {"flush", "Flush"}};
    for (auto& x : b) {
        double want = strtod(r[x[0]].c_str(), nullptr), got = strtod(t[x[1]].c_str(), nullptr);
        if (!t.count(x[1]) || t[x[1]].empty() || !(want == got || std::abs(got - want) <= 1e-5 * std::abs(want) || (want != want && got != got))) return std::string(x[1]) + " is printed as '" + t[x[1]] + "', not '" + r[x[0]] + "'";
    }
    std::string a = r["additionalArguments"], g = t["Additional arguments"];
    a.erase(0, a.find_first_not_of(' ')); if (a.find('\n') == std::string::npos && a != g) return "Additional arguments are printed as '" + g + "', not '" + a + "'";
    return "";
}
static std::string differs(const Shown& got, const Shown& want) {
    for (auto& x : want) { auto it = got.find(x.first); if (it == got.end() || it->second != x.second) return x.first + " is '" + (it == got.end() ? "nothing" : sim::shown(it->second, 60)) + "' instead of '" + sim::shown(x.second, 60) + "'"; }
    return "";
}

struct Given { std::vector<std::pair<std::string, std::string>> v; std::vector<char> kinds; bool bad = false; };
static std::string str(const Given& g) { std::string s; for (auto& x : g.v) s += (s.empty() ? "" : ", ") + x.first + ": " + sim::shown(x.second, 40); return "{" + s + "}"; }
enum Kind { YES, REAL, INT, MODE, MESHER, BOUND, TEXT, COUNT };
struct Key { const char* name; Kind kind; };
static const std::vector<Key> kMesher{{"contourRefinement", YES}, {"snap", YES}, {"unwantedConnectionsInfo", YES}, {"structuredCellsInfo", YES}, {"vtkExport", YES}, {"postmshExport", YES}, {"postsmbExport", YES}, {"slantedWires", YES},
    {"slantedThreshold", REAL}, {"mesher", MESHER}, {"mode", MODE}, {"subgridPoints", INT}, {"forbiddenLength", REAL}, {"geometryScalingFactor", REAL},
    {"upperXBound", BOUND}, {"lowerXBound", BOUND}, {"upperYBound", BOUND}, {"lowerYBound", BOUND}, {"upperZBound", BOUND}, {"lowerZBound", BOUND}};
static const std::vector<Key> kSolver{{"runSimulation", YES}, {"finalTime", REAL}, {"numberOfTimeSteps", COUNT}, {"timeStep", REAL}, {"cfl", REAL}, {"defaultSamplingPeriod", REAL}, {"forceRestarting", YES}, {"resumeSimulation", YES}, {"flush", REAL}, {"additionalArguments", TEXT}};

static Given generate(const std::vector<Key>& keys) {
    using namespace sim;
    Given g;
    int n = range(0, 6);
    std::set<std::string> used;
    for (int i = 0; i < n; i++) {
        const Key& k = pick(keys);
        if (!used.insert(k.name).second) continue;
        std::string v;
        switch (k.kind) {
        case YES: v = choose(2) ? "0" : "1"; break;
        case REAL: { static const std::vector<std::string> r{"0.5", "1e-9", "3", "0.79999999999", "2.5e-12", "1.0", "0", "0.0"}; v = pick(r); break; }
        case INT: { static const std::vector<std::string> r{"1", "0", "7", "-2"}; v = pick(r); break; }
        case COUNT: { static const std::vector<std::string> r{"1", "100", "65536", "0"}; v = pick(r); break; }
        case MODE: { static const std::vector<std::string> r{"Structured", "Relaxed", "Slanted", "Conformal"}; v = pick(r); break; }
        case MESHER: { static const std::vector<std::string> r{"AMesher", "DMesher", "HMesher"}; v = pick(r); break; }
        case BOUND: { static const std::vector<std::string> r{"PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2"}; v = pick(r); break; }
        default: { static const std::vector<std::string> r{"-mtln", "-attw 0.1 -pmlalpha 0.2 0.1 -pmlcorr 0.1 14", "-x"}; v = pick(r); }
        }
        if (k.kind != TEXT && !g.bad && chance(1, 10)) {    // refused
            static const std::vector<std::string> r{"nonsense", "structured", "1x", "PECs", "mesher", "--", "PM"};
            v = pick(r); g.bad = true;
        }
        g.v.push_back({k.name, v});
    }
    if (chance(1, 8)) g.v.push_back({"somethingElse", "17"});
    return g;
}
struct SolverModel { bool steps = false; double final_ = 0; double step = 0; };
static void apply(const Given& g, Shown& s, SolverModel* m) {
    for (auto& x : g.v) {
        if (x.first == "somethingElse") continue;
        if (m && (x.first == "finalTime" || x.first == "numberOfTimeSteps")) continue;
        char* end; double d = strtod(x.second.c_str(), &end);
        bool real = false;
        for (auto* ks : {&kMesher, &kSolver}) for (auto& k : *ks) if (x.first == k.name && k.kind == REAL) real = true;
        s[x.first] = real ? num(d) : x.second;
        if (m && x.first == "timeStep") m->step = d;
        if (x.first == "mode") { s["structured"] = x.second == "Structured" ? "1" : "0"; s["relaxed"] = x.second == "Slanted" || x.second == "Relaxed" ? "1" : "0"; }
    }
    if (!m) return;
    // a number of steps given together with a final time is the one that counts
    for (const char* key : {"finalTime", "numberOfTimeSteps"}) for (auto& x : g.v) if (x.first == key) { m->steps = key[0] == 'n'; m->final_ = strtod(x.second.c_str(), nullptr); }
    s["finalTime"] = num(m->steps ? m->final_ * m->step : m->final_);
    std::string args;
    double cfl = strtod(s["cfl"].c_str(), nullptr), flush = strtod(s["flush"].c_str(), nullptr), end = m->steps ? m->final_ * m->step : m->final_;
    if (cfl != 0.8) args += " -cfl " + sim::fmt("%g", cfl);
    if (s["resumeSimulation"] == "1") args += " -r " + sim::fmt("%zu", size_t(std::floor(m->step != 0.0 ? end / m->step : end)));
    if (s["forceRestarting"] == "1") args += " -s";
    if (flush != 0.0) args += " -flush " + sim::fmt("%g", flush);
    s["arguments"] = args;
    s["steps"] = sim::fmt("%zu", m->steps ? size_t(m->final_) : m->step != 0.0 ? size_t(std::ceil(m->final_ / m->step)) : size_t(0));
}

template <class O> struct World {
    struct One { O* o; Shown want; SolverModel m; };
    std::vector<One> all;
    const std::vector<Key>& keys; bool solver;
    World(const std::vector<Key>& k, bool s) : keys(k), solver(s) {}
    // an object on memory with the given content before
    static O* make(const O* from, unsigned char fill) {
        sim::SutScope s;
        void* p = ::operator new(sizeof(O));
        memset(p, fill, sizeof(O));
        return from ? new (p) O(*from) : new (p) O();
    }
    static void release(O* o) { sim::SutScope s; delete o; }
    Shown shown_(const O& o) { Shown r; { sim::SutScope s; sim::Outcome x; sim::FrameworkScope f; std::string bad; x = sim::call("look", [&] { Shown t = show(o); sim::FrameworkScope f2; r = t; bad = told(o, r); }); sim::check(bad.empty(), "options-printed-wrongly", bad); sim::check(!x.threw, "options-differ", "looking at the options " + x.str()); } return r; }
    void expect(const char* after) {
        for (size_t i = 0; i < all.size(); i++) {
            std::string d = differs(shown_(*all[i].o), all[i].want);
            sim::check(d.empty(), "options-differ", std::string(after) + ", options " + sim::fmt("%zu", i) + ": " + d);
        }
    }
    void run() {
        using namespace sim;
        O* a = make(nullptr, (unsigned char)choose(256));
        O* b = make(nullptr, (unsigned char)(1 + choose(255)));
        Shown base = shown_(*a);
        std::string d = differs(shown_(*b), base);
        check(d.empty(), "options-differ", "new options depend on memory content: " + d);
        release(b);
        all.push_back({a, base, SolverModel()});
        int n = range(2, 12);
        for (int i = 0; i < n; i++) {
            size_t k = choose(uint32_t(all.size()));
            One& w = all[k];
            switch (choose(6)) {
            case 4: {
                if (all.size() >= 3) break;
                log("copy of options %zu", k);
                O* c = make(w.o, (unsigned char)choose(256));
                One copy{c, w.want, w.m};
                all.push_back(copy);
                expect("after a copy");
                break;
            }
            case 5: {
                size_t j = choose(uint32_t(all.size()));
                log("options %zu = options %zu", k, j);
                Outcome r = call("assign", [&] { *w.o = *all[j].o; });
                check(!r.threw, "settings-refused", r.str());
                w.want = all[j].want; w.m = all[j].m;
                expect("after an assignment");
                break;
            }
            default: {
                Given g = generate(keys);
                log("options %zu get %s%s", k, str(g).c_str(), g.bad ? ", to be refused" : "");
                std::unique_ptr<Solver::Settings> s;
                { SutScope q; s.reset(new Solver::Settings()); for (auto& x : g.v) (*s)(x.first).setString(x.second); if (g.v.empty() && i % 2) s->setObject(); }
                if (chance(1, 4)) failAlloc(choose(40), chance(1, 3) ? 100000 : 1);
                Outcome r = call("set", [&] { w.o->set(*s); });
                bool fired = allocFired(); failAllocOff();
                if (fired) fault("allocation failure");
                if (r.threw) {
                    check(g.bad || fired, "settings-refused", str(g) + " " + r.str());
                    if (g.bad && !fired) fault("refused setting");
                } else {
                    check(!g.bad, "bad-settings-accepted", str(g) + " was accepted");
                    apply(g, w.want, solver ? &w.m : nullptr);
                }
                { SutScope q; s.reset(); }
                expect(r.threw ? ("after refusing " + str(g)).c_str() : ("after " + str(g)).c_str());
            }
            }
            std::string st; for (auto& x : all) for (auto& y : x.want) st += y.second + ",";
            state(st);
        }
        nontrivial();
        while (!all.empty()) { size_t k = choose(uint32_t(all.size())); release(all[k].o); all.erase(all.begin() + long(k)); expect("after others were released"); }
    }
};
void sim::run() {
    fs().reset();
    setBudget(20000000);
    randomLayout();
    if (choose(2)) { World<Solver::Options> w(kSolver, true); w.run(); }
    else { World<Mesher::Options> w(kMesher, false); w.run(); }
}
