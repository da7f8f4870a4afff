// GiD exports on a failing disk, crashes in the middle, and exporting again.
#include "scn/gid.h"
#include "exporter/gid/Exporter.h"
const char* const sim::kProperty = "C11";
using namespace sim;
using namespace model;

void sim::run() {
    setBudget(100000000);
    randomLayout();
    fs().reset();
    fs().mkdirs("/work/sub"); fs().mkdirs("/data");
    Want w; w.missing = false; w.maxElems = pick(std::vector<int>{5, 5, 60}); w.maxMats = 3; w.maxLayers = 2;
    Plan p = plan(w);
    if (p.hasSolver && chance(1, 3)) p.scale = 1000;
    Data* d = nullptr;
    Outcome o = call("build", [&] { d = build(p); });
    check(!o.threw, "harness", "the model could not be built: " + o.str());
    std::string text = describe(*d), name = pick(std::vector<std::string>{"case", "sub/case", "/data/case.dat"});
    bool binary = chance(1, 2);
    auto mode = binary ? GiD_PostBinary : GiD_PostAscii;
    fs().keepTrace = true; fs().trace.clear();
    o = call("clean export", [&] { Exporter::GiD::Exporter e(d, name, mode); });
    check(!o.threw, "export-threw", "a clean export " + o.str());
    auto trace = fs().trace;
    fs().keepTrace = false;
    gid::verifyFile(p, name, binary, true);
    std::string file = gid::path(name, binary), clean, other = "/data/other";
    fs().get(file, clean);
    auto content = [&](bool closed) {
        std::string b, x; if (!fs().get(file, b)) return std::string("missing");
        if (!binary) return b == clean ? std::string() : fmt("it has %zu of %zu bytes", b.size(), clean.size());
        std::string want; gz::unpack(clean, true, want);
        std::string why = gz::unpack(b, closed, x);
        return why.empty() ? x == want ? std::string() : fmt("it has %zu of %zu bytes when unpacked", x.size(), want.size()) : why;
    };
    if (chance(1, 2)) fs().erase(file);
    // another exporter may be open meanwhile, and is not to be disturbed
    Exporter::GiD::Exporter* beside = nullptr;
    bool besideBinary = chance(1, 2);
    if (chance(1, 3)) { o = call("open another", [&] { beside = new Exporter::GiD::Exporter(d, other, besideBinary ? GiD_PostBinary : GiD_PostAscii); }); check(!o.threw, "export-threw", "another export " + o.str()); }
    fs().markDurable();
    for (int n = range(1, 3); n > 0; n--) {
        fs().faults.clear(); fs().capacity = -1;
        fs().shortTransfers = chance(1, 3); fs().interrupts = chance(1, 4); fs().xfer = Rng(seedChoice());
        bool crash = !beside && chance(1, 4), limited = !crash && chance(1, 4);
        if (limited) fs().capacity = choose(uint32_t(clean.size() + 10));
        else {
            Fault f;
            Op op = chance(1, 2) ? trace[choose(uint32_t(trace.size()))].first : pick(std::vector<Op>{Op::Create, Op::Write, Op::Close, Op::Remove});
            uint64_t count = 0; for (auto& t : trace) count += t.first == op;
            f.accept = [op](Op x, const std::string&) { return x == op; };
            f.at = count ? choose(uint32_t(count)) : 0;
            f.sticky = chance(1, 3); f.partial = chance(1, 2);
            f.crash = crash;
            fs().faults.push_back(f);
        }
        if (crash) {
            std::string res;
            isolated([&] { Outcome o = call("export, crashing", [&] { Exporter::GiD::Exporter e(d, name, mode); }); setResult(o.str()); crashNow(); }, &res);
            fs().faults.clear();
            if (chance(3, 4)) fs().loseVolatile(); else fs().markDurable();
            probe("crash"); nontrivial();
        } else {
            int before = fs().openHandles;
            Exporter::GiD::Exporter* e = nullptr;
            uint64_t removes = 0;
            Outcome o = call("export", [&] { e = new Exporter::GiD::Exporter(d, name, mode); });
            bool fired = false, full = limited && fs().capacity <= 0;
            for (auto& x : fs().faults) { fired |= x.fired > 0; }
            (void)removes;
            if (o.threw) {
                check(fired || limited, "export-threw", "an export met no fault and " + o.str());
                check(!o.badAlloc, "export-threw", "a fault ended as " + o.str());
                check(fs().openHandles == before, "left-open", fmt("%d files are still open after an export that %s", fs().openHandles - before, o.str().c_str()));
                probe("reported");
            } else {
                std::string diff = content(false);
                check(diff.empty(), "incomplete-export", fmt("an export ended normally (%s) but of %s, %s", fired ? "a fault was met" : full ? "the disk was full" : "no fault was met", file.c_str(), diff.c_str()));
                bool early = chance(1, 2);
                if (early) { fs().faults.clear(); fs().capacity = -1; }
                uint64_t firedBefore = 0; for (auto& x : fs().faults) firedBefore += x.fired;
                Outcome c = call("close", [&] { delete e; });
                check(!c.threw, "close-threw", "closing " + c.str());
                check(fs().openHandles == before, "left-open", fmt("%d files are still open after closing", fs().openHandles - before));
                uint64_t firedAfter = 0; for (auto& x : fs().faults) firedAfter += x.fired;
                bool quiet = firedAfter == firedBefore && !(limited && fs().capacity >= 0 && fs().capacity <= 64);
                diff = content(quiet);
                check(diff.empty(), "incomplete-export", fmt("a closed export (%s) has left %s: %s", quiet ? "closing met no fault" : "closing met a fault", file.c_str(), diff.c_str()));
                fired |= firedAfter > 0;
            }
            fs().faults.clear(); fs().capacity = -1;
            if (fired || full) nontrivial();
        }
        std::string s = describe(*d);
        check(s == text, "model-changed", difference(text, s));
        state(hash(fs().serialize()));
    }
    fs().shortTransfers = fs().interrupts = false;
    o = call("export again", [&] { Exporter::GiD::Exporter e(d, name, mode); });
    check(!o.threw, "not-repaired", "exporting again " + o.str());
    std::string diff = content(true);
    check(diff.empty(), "not-repaired", "after exporting again, " + diff);
    gid::verifyFile(p, name, binary, true);
    if (beside) {
        o = call("close another", [&] { delete beside; });
        check(!o.threw, "close-threw", "closing another export " + o.str());
        gid::verifyFile(p, other, besideBinary, true);
    }
    check(fs().openHandles == 0, "left-open", fmt("%d files are still open", fs().openHandles));
    SutScope s2;
    delete d;
}
