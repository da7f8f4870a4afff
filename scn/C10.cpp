// GiD exports of generated models, several open at once, read back by an independent reader.
#include "scn/gid.h"
#include "exporter/gid/Exporter.h"
const char* const sim::kProperty = "C10";
using namespace sim;
using namespace model;

void sim::run() {
    setBudget(200000000);
    randomLayout();
    fs().reset();
    fs().mkdirs("/work/sub dir"); fs().mkdirs("/data");
    Want w; w.missing = chance(1, 4); w.span = pick(std::vector<double>{1, 1, 1000, 1e-3}); w.maxElems = 8;
    w.names = {"a", "b", "Layer one", "x/y", "\"q\"", "a", "caf\xc3\xa9", "two\nlines", "50% d", "b;c", "'", "a b", "glass__oo 11", "  in  "};
    int models = chance(1, 3) ? 2 : 1;
    std::vector<Plan> plans; std::vector<Data*> ds; std::vector<std::string> texts;
    for (int i = 0; i < models; i++) {
        plans.push_back(plan(w));
        Plan& p = plans.back();
        p.hasMats = true;
        if (p.hasSolver && chance(1, 2)) p.scale = pick(std::vector<double>{1, 0.001, 2, 1000});
        Data* d = nullptr;
        Outcome o = call("build", [&] { d = build(p); });
        check(!o.threw, "harness", "the model could not be built: " + o.str());
        ds.push_back(d); texts.push_back(describe(*d));
    }
    struct Open { Exporter::GiD::Exporter* e; int model; bool binary; std::string name; };
    std::vector<Open> open;
    std::vector<std::string> names{"case", "/work/case.dat", "sub dir/case", "/data/out", "b"};
    std::map<std::string, std::pair<int, bool>> last;         // name -> what is there
    std::map<std::pair<int, bool>, std::string> first;
    for (int n = range(2, 9); n > 0; n--) {
        fs().shortTransfers = chance(1, 3); fs().interrupts = chance(1, 4); fs().xfer = Rng(seedChoice());
        if (chance(1, 6)) randomLayout();
        int what = int(choose(3));
        if (what == 0 || open.empty()) {
            if (open.size() >= 4) continue;
            std::vector<std::string> freeNames;
            for (auto& s : names) { bool taken = false; for (auto& o : open) taken |= o.name == s; if (!taken) freeNames.push_back(s); }
            Open x; x.e = nullptr; x.model = int(choose(models)); x.binary = chance(1, 3); x.name = pick(freeNames);
            Outcome o = call(fmt("open %s (%s, model %d)", x.name.c_str(), x.binary ? "binary" : "text", x.model).c_str(),
                             [&] { x.e = new Exporter::GiD::Exporter(ds[x.model], x.name, x.binary ? GiD_PostBinary : GiD_PostAscii); });
            check(!o.threw, "export-threw", "exporting to " + x.name + " " + o.str());
            open.push_back(x);
            last[x.name] = {x.model, x.binary};
            gid::verifyFile(plans[x.model], x.name, x.binary, false);
            if (!plans[x.model].elems.empty()) nontrivial();
            if (open.size() > 1) probe("several open");
            std::string s = describe(*ds[x.model]);
            check(s == texts[x.model], "model-changed", "the export: " + difference(texts[x.model], s));
        } else {
            size_t i = choose(uint32_t(open.size()));
            Open x = open[i];
            if (what == 1) {
                Outcome o = call(("flush " + x.name).c_str(), [&] { x.e->flushPostFile(); });
                check(!o.threw, "export-threw", "flushing " + x.name + " " + o.str());
                gid::verifyFile(plans[x.model], x.name, x.binary, false);
            } else {
                Outcome o = call(("close " + x.name).c_str(), [&] { delete x.e; });
                check(!o.threw, "export-threw", "closing " + x.name + " " + o.str());
                open.erase(open.begin() + i);
                gid::verifyFile(plans[x.model], x.name, x.binary, true);
            }
        }
        check(fs().openHandles == int(open.size()), "left-open", fmt("%d files are open for %zu exporters", fs().openHandles, open.size()));
        state(hash(fs().serialize()));
    }
    while (!open.empty()) {
        size_t i = choose(uint32_t(open.size()));
        Outcome o = call(("close " + open[i].name).c_str(), [&] { delete open[i].e; });
        check(!o.threw, "export-threw", "closing " + open[i].name + " " + o.str());
        open.erase(open.begin() + i);
    }
    fs().shortTransfers = fs().interrupts = false;
    check(fs().openHandles == 0, "left-open", fmt("%d files are still open", fs().openHandles));
    for (auto& l : last) {
        gid::verifyFile(plans[l.second.first], l.first, l.second.second, true);
        std::string b; fs().get(gid::path(l.first, l.second.second), b);
        auto& f = first[l.second];
        if (f.empty()) f = b;
        if (!l.second.second) check(f == b, "export-differs", "two exports of one model differ: " + l.first);
        else { std::string x, y; gz::unpack(f, true, x); gz::unpack(b, true, y); check(x == y, "export-differs", "two exports of one model differ: " + l.first); }
    }
    for (Data* d : ds) { SutScope s; delete d; }
}
