// Exports in both formats, with storage faults and failing allocations in some, and the model described before and after.
#include "scn/gid.h"
#include "scn/vtk.h"
#include "exporter/gid/Exporter.h"
#include "exporter/vtk/Exporter.h"
const char* const sim::kProperty = "C12";
using namespace sim;
using namespace model;

void sim::run() {
    setBudget(200000000);
    randomLayout();
    fs().reset(); fs().lateErrors = true;
    fs().mkdirs("/work/sub"); fs().mkdirs("/data");
    Want w; w.missing = chance(1, 4); w.maxElems = 8; w.span = pick(std::vector<double>{1, 1, 1000, 1e-3});
    int models = chance(1, 3) ? 2 : 1;
    std::vector<Plan> plans; std::vector<Data*> ds; std::vector<std::string> texts;
    for (int i = 0; i < models; i++) {
        plans.push_back(plan(w));
        Plan& p = plans.back();
        p.hasMats = true;
        if (p.hasSolver && chance(2, 3)) p.scale = pick(std::vector<double>{0.001, 2, 1000, 0.3});
        Data* d = nullptr;
        Outcome o = call("build", [&] { d = build(p); });
        check(!o.threw, "harness", "the model could not be built: " + o.str());
        ds.push_back(d); texts.push_back(describe(*d));
    }
    std::map<std::pair<int, int>, std::string> first;      // model, format -> what was written
    std::vector<Exporter::GiD::Exporter*> open;
    static const char* const formats[]{"GiD text", "GiD binary", "VTK"};
    int no = 0;
    auto same = [&](const std::string& after) {
        for (int i = 0; i < models; i++) { std::string s = describe(*ds[i]); check(s == texts[i], "model-changed", after + " changed a model: " + difference(texts[i], s)); }
    };
    for (int n = range(2, 7); n > 0; n--) {
        int i = int(choose(models)), f = int(choose(3));
        // every export under a name of its own, so that nothing depends on what was there
        std::string name = fmt("/data/%d/case", no++), what = fmt("export of model %d as %s", i, formats[f]);
        fs().mkdirs(fmt("/data/%d", no - 1));
        fs().faults.clear(); fs().capacity = -1;
        fs().shortTransfers = chance(1, 3); fs().interrupts = chance(1, 4); fs().xfer = Rng(seedChoice());
        if (chance(1, 4)) randomLayout();
        int bad = int(choose(4)); // 0, 1: none, 2: storage, 3: memory
        if (bad == 2) {
            if (chance(1, 3)) fs().capacity = choose(3000);
            else { Fault x; Op op = pick(std::vector<Op>{Op::Create, Op::Write, Op::Close, Op::Mkdir, Op::Remove}); x.accept = [op](Op y, const std::string&) { return y == op; }; x.at = choose(6); x.sticky = chance(1, 3); x.partial = chance(1, 2); fs().faults.push_back(x); }
        }
        // the GiD library ends the process when its own memory runs out
        bool memory = bad == 3 && f == 2;
        if (memory) failAlloc(chance(1, 2) ? choose(60) : choose(2500), chance(1, 2) ? 1 : 1 + choose(200));
        Exporter::GiD::Exporter* e = nullptr;
        Outcome o = call(what.c_str(), [&] {
            if (f == 2) Exporter::VTK::Exporter v(ds[i], name);
            else e = new Exporter::GiD::Exporter(ds[i], name, f ? GiD_PostBinary : GiD_PostAscii);
        });
        bool ran = memory && allocFired();
        failAllocOff();
        bool fired = false; for (auto& x : fs().faults) fired |= x.fired > 0;
        bool full = fs().capacity >= 0;
        fs().faults.clear(); fs().capacity = -1;
        if (ran) fault("allocation failure");
        check(!o.threw || ran || fired || full, "export-threw", "an " + what + " met no fault and " + o.str());
        check(!o.badAlloc || ran, "export-threw", "an " + what + " " + o.str());
        same(what + (o.threw ? " (which failed)" : ""));
        nontrivial();
        if (e) { if (chance(1, 2)) { o = call("close", [&] { delete e; }); same("closing an " + what); } else open.push_back(e); }
        if (!o.threw && !fired && !full && !ran) {
            std::string all;
            if (f == 2) { vtk::verify(plans[i], name); for (auto& x : vtk::written(name)) all += x.first + "\n" + x.second; }
            else { gid::verifyFile(plans[i], name, f == 1, false); fs().get(gid::path(name, f == 1), all); if (f == 1) { std::string u; gz::unpack(all, false, u); all = u; } }
            auto& was = first[{i, f}];
            if (was.empty()) was = all;
            else {
                size_t k = 0; while (k < all.size() && k < was.size() && all[k] == was[k]) k++;
                check(all == was, "export-differs", fmt("an %s differs from the first one, at byte %zu: '%s' was '%s'", what.c_str(), k, shown(all.substr(k), 40).c_str(), shown(was.substr(k), 40).c_str()));
                probe("exported again");
            }
        }
        if (!open.empty() && chance(1, 3)) { auto* x = open.back(); open.pop_back(); call("close", [&] { delete x; }); same("closing an export"); }
        state(hash(fs().serialize()));
    }
    fs().shortTransfers = fs().interrupts = false;
    while (!open.empty()) { auto* x = open.back(); open.pop_back(); call("close", [&] { delete x; }); }
    same("closing the last export");
    check(fs().openHandles == 0, "left-open", fmt("%d files are still open", fs().openHandles));
    for (Data* d : ds) { SutScope s; delete d; }
}
