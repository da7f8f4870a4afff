// VTK exports on a failing disk, crashes in the middle, and exporting again.
#include "scn/vtk.h"
#include "exporter/vtk/Exporter.h"
const char* const sim::kProperty = "C09";
using namespace sim;
using namespace model;

static std::string kindOf(Op o) { return opName(o); }

void sim::run() {
    setBudget(100000000);
    randomLayout();
    fs().reset(); fs().lateErrors = true;
    fs().mkdirs("/work/sub"); fs().mkdirs("/data");
    Want w; w.missing = false; w.maxElems = 5; w.maxMats = 3; w.maxLayers = 2;
    Plan p = plan(w);
    Data* d = nullptr;
    Outcome o = call("build", [&] { d = build(p); });
    check(!o.threw, "harness", "the model could not be built: " + o.str());
    std::string text = describe(*d), name = pick(std::vector<std::string>{"case", "sub/case", "/data/case.dat"});
    // a clean export, to know the files and the operations
    fs().keepTrace = true; fs().trace.clear();
    o = call("clean export", [&] { Exporter::VTK::Exporter e(d, name); });
    check(!o.threw, "export-threw", "a clean export " + o.str());
    auto clean = vtk::written(name);
    auto trace = fs().trace;
    fs().keepTrace = false;
    check(!clean.empty(), "no-collection", "nothing was written");
    for (auto& e : clean) if (e.first == ".pvd") fs().erase(fs().absolute(name) + ".pvd");
    if (chance(2, 3)) { for (auto& e : clean) if (e.first != ".pvd" && e.first != ".vtk") fs().erase(fs().absolute(name) + e.first); fs().erase(fs().absolute(name) + ".vtk"); }
    fs().markDurable();
    for (int n = range(1, 3); n > 0; n--) {
        fs().faults.clear(); fs().capacity = -1;
        fs().shortTransfers = chance(1, 3); fs().interrupts = chance(1, 4); fs().xfer = Rng(seedChoice());
        bool crash = chance(1, 4);
        Fault f;
        bool limited = !crash && chance(1, 5);
        if (limited) {
            uint64_t total = 0; for (auto& e : clean) total += e.second.size();
            fs().capacity = choose(uint32_t(total + 10));
        } else {
            Op op = trace[choose(uint32_t(trace.size()))].first;
            if (chance(1, 2)) op = pick(std::vector<Op>{Op::Create, Op::Write, Op::Close, Op::Mkdir});
            uint64_t count = 0; for (auto& t : trace) count += t.first == op;
            f.accept = [op](Op x, const std::string&) { return x == op; };
            f.at = count ? choose(uint32_t(count)) : 0;
            f.sticky = chance(1, 3); f.partial = chance(1, 2);
            f.crash = crash;
            fs().faults.push_back(f);
        }
        bool fired = false;
        if (crash) {
            std::string res;
            bool ended = isolated([&] {
                Outcome o = call("export, crashing", [&] { Exporter::VTK::Exporter e(d, name); });
                setResult(o.threw ? "T" + o.str() : "R");
                crashNow();
            }, &res);
            (void)ended;
            // the crash point may not have been reached; the child ends by a crash in any case
            fs().faults.clear();
            if (chance(3, 4)) fs().loseVolatile(); else fs().markDurable();
            probe("crash"); nontrivial();
        } else {
            int64_t before = fs().capacity;
            Outcome o = call("export", [&] { Exporter::VTK::Exporter e(d, name); });
            for (auto& x : fs().faults) fired |= x.fired > 0;
            bool full = limited && fs().capacity <= 0 && before >= 0;
            fs().faults.clear(); fs().capacity = -1;
            check(fs().openHandles == 0, "left-open", fmt("%d files are still open after an export that %s", fs().openHandles, o.str().c_str()));
            if (o.threw) {
                check(fired || limited, "export-threw", "an export met no fault and " + o.str());
                check(!o.badAlloc, "export-threw", "a fault ended as " + o.str());
                probe("reported");
            } else {
                auto now = vtk::written(name);
                std::string diff = vtk::differs(clean, now);
                check(diff.empty(), "incomplete-export", fmt("an export ended normally (%s) but %s", fired ? "a fault was met" : full ? "the disk was full" : "no fault was met", diff.c_str()));
            }
            if (fired || full) nontrivial();
            if (chance(1, 4)) { if (chance(1, 2)) fs().loseVolatile(); else fs().markDurable(); }
        }
        std::string s = describe(*d);
        check(s == text, "model-changed", difference(text, s));
        state(hash(fs().serialize()));
    }
    fs().shortTransfers = fs().interrupts = false;
    o = call("export again", [&] { Exporter::VTK::Exporter e(d, name); });
    check(!o.threw, "not-repaired", "exporting again " + o.str());
    std::string diff = vtk::differs(clean, vtk::written(name));
    check(diff.empty(), "not-repaired", "after exporting again, " + diff);
    vtk::verify(p, name);
    SutScope s2;
    delete d;
}
