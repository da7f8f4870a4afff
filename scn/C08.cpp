// VTK exports of generated models, read back by an independent reader; repeated, under other names and heap layouts.
#include "scn/vtk.h"
#include "exporter/vtk/Exporter.h"
const char* const sim::kProperty = "C08";
using namespace sim;
using namespace model;

void sim::run() {
    setBudget(100000000);
    randomLayout();
    fs().reset();
    fs().mkdirs("/work/sub dir"); fs().mkdirs("/data");
    Want w; w.missing = chance(1, 4); w.span = pick(std::vector<double>{1, 1, 1000, 1e-3}); if (chance(1, 3)) w.far = 123456 * w.span;
    w.names = {"a", "b", "Layer one", "x/y", "x_y", "a&b", "x&#65;&amp;y", "aa&&bb", "glass__oo", "<c>", "\"q\"", "a", "caf\xc3\xa9", "a_2", "b;c", "'", "tab\there", "two\nlines"};
    int models = chance(1, 4) ? 2 : 1;
    std::vector<Plan> plans; std::vector<Data*> ds; std::vector<std::string> texts;
    for (int i = 0; i < models; i++) {
        plans.push_back(plan(w));
        Plan& p = plans.back();
        p.hasMats = true;
        Data* d = nullptr;
        Outcome o = call("build", [&] { d = build(p); });
        check(!o.threw, "harness", "the model could not be built: " + o.str());
        ds.push_back(d); texts.push_back(describe(*d));
    }
    std::vector<std::string> names{"case", "/work/case", "sub dir/case.dat", "/data/out", "./c.nfde", "/data/a&b"};
    std::map<std::string, int> of;
    std::map<std::pair<int, std::string>, std::map<std::string, std::string>> first;
    for (int n = range(1, 4); n > 0; n--) {
        int i = int(choose(models));
        std::string name = pick(names);
        fs().shortTransfers = chance(1, 3); fs().interrupts = chance(1, 4); fs().xfer = Rng(seedChoice());
        if (chance(1, 4)) randomLayout();
        if (chance(1, 6)) fs().mkdirs(fs().absolute(name) + ".vtk");
        Outcome o = call(("export to " + name).c_str(), [&] { Exporter::VTK::Exporter e(ds[i], name); });
        check(!o.threw, "export-threw", "exporting to " + name + " " + o.str());
        fs().shortTransfers = fs().interrupts = false;
        vtk::verify(plans[i], name);
        std::string abs; { std::shared_ptr<FsNode> nd; fs().walk(name + ".pvd", nd, &abs); }
        std::string s = describe(*ds[i]);
        check(s == texts[i], "model-changed", "the export: " + difference(texts[i], s));
        auto files = vtk::written(name);
        for (auto& e : of) if (e.second != i && e.first == abs) files.clear();   // parts of another model left there
        if (!files.empty() && (!of.count(abs) || of[abs] == i)) {
            of[abs] = i;
            auto& f = first[{i, abs}];
            if (f.empty()) f = files;
            else { std::string d = vtk::differs(f, files); check(d.empty(), "export-differs", "exporting again to " + name + ": " + d); probe("exported again"); }
            // the same model under another name gives the same part files
        } else of[abs] = -1;
        for (auto& e : files) state(hash(e.second));
        if (!plans[i].elems.empty()) nontrivial();
    }
    check(fs().openHandles == 0, "left-open", fmt("%d files are still open", fs().openHandles));
    for (size_t i = 0; i < ds.size(); i++) { SutScope s; delete ds[i]; }
}
