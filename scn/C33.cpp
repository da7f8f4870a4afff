// Sessions of reading, exporting and tabulating in one process against each operation alone in a fresh one. (usesjson)
#include "scn/project.h"
#include "scn/stl.h"
#include "scn/gid.h"
#include "scn/vtk.h"
#include "exporter/gid/Exporter.h"
#include "exporter/vtk/Exporter.h"
#include "source/magnitude/Numerical.h"
#include "argument/Parser.h"
const char* const sim::kProperty = "C33";
using namespace sim;
using namespace model;

namespace {
enum Kind { PROJECT, BADPROJECT, STL, BADSTL, GIDTEXT, GIDBINARY, VTK, TABLE, LINE, KINDS };
const char* const names[]{"project document", "damaged document", "STL file", "damaged STL file", "GiD text export", "GiD binary export", "VTK export", "tabulated excitation", "command line"};

struct Step {
    Kind kind; std::string folder, text, fresh;
    std::vector<std::pair<std::string, std::string>> files;
    Plan plan;
    uint32_t chunk = 0; uint64_t seed = 0;
    double a = 0, b = 0, c = 0, dt = 0; int n = 0;
    std::vector<std::string> words; int declared = 0;
};
std::string printed(const char* which, const std::string& s) { return s.empty() ? "" : std::string(which) + ":\n" + s + "\n"; }

// what it gives, in words; nothing is drawn in it, so that it is the same thing wherever it is done
std::string perform(const Step& s, const char* what) {
    std::string res;
    fs().erase(s.folder); fs().mkdirs(s.folder);
    for (auto& f : s.files) fs().put(f.first, f.second);
    takeOutput(); takeErrors();
    switch (s.kind) {
    case PROJECT: case BADPROJECT: case STL: case BADSTL: {
        SimBuf buf(s.text); buf.chunkMode = s.chunk; buf.rng = Rng(s.seed);
        std::unique_ptr<std::istream> in(new std::istream(&buf));
        std::unique_ptr<Data> d;
        Outcome o = call(what, [&] {
            if (s.kind == STL || s.kind == BADSTL) { Parser::STL::Parser p; d.reset(new Data(p.read(*in))); }
            else { Parser::JSON::Parser p; d.reset(new Data(p.read(*in))); }
        });
        if (o.threw) res = o.str(); else res = describe(*d);
        call("release", [&] { d.reset(); });
        break;
    }
    case GIDTEXT: case GIDBINARY: case VTK: {
        std::unique_ptr<Data> d; std::string name = s.folder + "/case";
        Outcome o = call("build", [&] { d.reset(build(s.plan)); });
        check(!o.threw, "harness", "the model could not be built: " + o.str());
        o = call(what, [&] {
            if (s.kind == VTK) Exporter::VTK::Exporter v(d.get(), name);
            else Exporter::GiD::Exporter g(d.get(), name, s.kind == GIDBINARY ? GiD_PostBinary : GiD_PostAscii);
        });
        if (o.threw) res = o.str();
        res += describe(*d);
        call("release", [&] { d.reset(); });
        break;
    }
    case TABLE: {
        std::string file = s.folder + "/table.exc";
        bool equal = false;
        Outcome o = call(what, [&] {
            Source::Magnitude::Magnitude m(new Math::Function::Gaussian(s.a, s.b, s.c));
            Source::Magnitude::Numerical t(FileSystem::Project(file), m, s.dt, s.dt * (s.n + 0.5));
            Source::Magnitude::Numerical again{FileSystem::Project(file)};
            equal = again == t;
            again.printInfo();
        });
        res = o.threw ? o.str() : fmt("equal %d", int(equal));
        break;
    }
    case LINE: {
        std::string got, usage;
        Outcome o = call(what, [&] {
            ::SEMBA::Argument::Parser p;
            std::unique_ptr< ::SEMBA::Argument::Object> r;
            p.prog("semba").epilog("the end");
            p.description("does things");
            if (s.declared & 2) p.usage("semba [what]");
            using namespace Argument;
            auto* number = new Option<int>("number", 'n', "number"); p.addOption(number);
            auto* in = new Option<std::string>("input", 'i', "input"); p.addOption(in);
            p.addOption(new Switch("verbose", 'v', "verbose"));
            Argument::Argument& x1 = *number; x1.defaultVal(std::list<std::string>{"4"}); x1.help("how many");
            Argument::Argument& x2 = *in; x2.help("what to read"); if (s.declared & 1) x2.required();
            std::vector<std::string> argv(s.words.begin(), s.words.end());
            p.printHelp();
            auto x = p.parseKnownArgs(argv);
            r.reset(new ::SEMBA::Argument::Object(x.first));
            FrameworkScope f; got = describe(*r); for (auto& w : x.second) got += " left over: " + w;
        });
        res = o.threw ? o.str() : got;
        break;
    }
    default: break;
    }
    res += printed("printed", takeOutput()) + printed("complained", takeErrors());
    for (auto& e : fs().snapshot(s.folder)) {
        std::string content = e.second;
        if (s.kind == GIDBINARY && !content.empty() && content[0] == 'F' && content.size() > 1) { std::string u; gz::unpack(content.substr(1), true, u); content = "F" + u; }
        res += "\n" + e.first + ": " + (content[0] == 'D' ? "folder" : content.substr(1));
    }
    return res;
}

Step make(int k) {
    Step s;
    s.kind = Kind(choose(KINDS)); s.folder = fmt("/data/%d", k);
    s.chunk = choose(3); s.seed = seedChoice();
    switch (s.kind) {
    case PROJECT: case BADPROJECT: {
        project::Doc d = project::generate();
        s.text = project::text(d.root);
        for (auto& f : d.files) s.files.push_back({fs().absolute(f.first), f.second});
        break;
    }
    case STL: case BADSTL: s.text = genStl(3, 5).text; break;
    case GIDTEXT: case GIDBINARY: case VTK: { Want w; w.missing = chance(1, 4); w.maxElems = 6; w.span = pick(std::vector<double>{1, 1000, 1e-3}); s.plan = plan(w); s.plan.hasMats = true; break; }
    case TABLE: s.n = range(2, 60); s.dt = pick(std::vector<double>{1, 1e-9, 0.1}); s.a = s.dt * s.n / (2 + choose(10)); s.b = s.dt * s.n * choose(5) / 4.; s.c = chance(1, 2) ? 0 : 1 / s.a; break;
    case LINE: {
        s.declared = int(choose(4)); s.words.push_back("semba");
        static const std::vector<std::vector<std::string>> w{{"-n", "5"}, {"--number", "12"}, {"--num=7"}, {"-i", "file.json"}, {"--input=x"}, {"-v"}, {"--ver"}, {"-vn3"}, {"-n", "x"}, {"--nothing"}, {"-i"}};
        for (int n = range(0, 4); n > 0; n--) for (auto& x : w[choose(chance(1, 4) ? uint32_t(w.size()) : 8)]) s.words.push_back(x);
        break;
    }
    default: break;
    }
    if ((s.kind == BADPROJECT || s.kind == BADSTL) && !s.text.empty()) {
        size_t at = choose(uint32_t(s.text.size()));
        switch (choose(3)) {
        case 0: s.text.resize(at); fault("file cut"); break;
        case 1: s.text[at] = "0x}]\"{n-e. :,"[choose(13)]; fault("byte changed"); break;
        default: s.text.erase(at, 1 + choose(40)); fault("bytes deleted"); break;
        }
    }
    return s;
}
}

void sim::run() {
    setBudget(400000000);
    randomLayout();
    fs().reset(); fs().lateErrors = true;
    fs().mkdirs("/work/sub"); fs().mkdirs("/data"); fs().mkdirs("/noise");
    std::vector<Step> steps;
    for (int i = 0, n = range(2, 4); i < n; i++) {
        steps.push_back(make(i));
        // one more document that is nearly the same
        if (i + 1 < n && chance(1, 4)) { Step s = steps.back(); s.folder = fmt("/data/%d", ++i); if (!s.words.empty()) s.words.push_back("-v"); s.n++; s.seed++; steps.push_back(s); }
    }
    for (auto& s : steps) {
        isolated([&] { setResult(perform(s, "alone")); }, &s.fresh);
        check(!s.fresh.empty(), "harness", "nothing came back");
        log("%s: %zu bytes, %s", names[s.kind], s.fresh.size(), shown(s.fresh, 200).c_str());
    }
    std::vector<Exporter::GiD::Exporter*> open; std::vector<Data*> kept;
    std::string before = "nothing";
    int no = 0;
    for (int n = range(int(steps.size()), 8), i = 0; i < n; i++) {
        const Step& s = steps[size_t(i) < steps.size() ? size_t(i) : choose(uint32_t(steps.size()))];
        if (chance(1, 3)) randomLayout();
        if (chance(1, 2)) {       // something else, that fails or is left undone
            const Step& x = steps[choose(uint32_t(steps.size()))];
            std::string dir = fmt("/noise/%d", no++);
            fs().mkdirs(dir);
            std::string what = fmt("a troubled %s", names[x.kind]);
            if (x.kind <= BADSTL) {
                uint64_t many = chance(1, 2) ? 1 : 1000000000;
                SimBuf buf(x.text); buf.schedule();
                bool mem = chance(1, 2);
                if (!mem) { buf.errorAt = choose(uint32_t(x.text.size() + 1)); buf.errorPass = int(choose(2)); buf.errorThrows = chance(1, 2); }
                for (auto& f : x.files) if (chance(2, 3)) fs().put(f.first, f.second);
                std::unique_ptr<std::istream> in(new std::istream(&buf)); std::unique_ptr<Data> d;
                if (mem) failAlloc(chance(1, 2) ? choose(60) : choose(3000), uint32_t(many));
                Outcome o = call(what.c_str(), [&] {
                    if (x.kind >= STL) { Parser::STL::Parser p; d.reset(new Data(p.read(*in))); }
                    else { Parser::JSON::Parser p; d.reset(new Data(p.read(*in))); }
                });
                if (mem && allocFired()) fault("allocation failure");
                failAllocOff();
                if (d && chance(1, 2)) kept.push_back(d.release());
                else call("release", [&] { d.reset(); });
                before = what + " that " + o.str();
            } else if (x.kind <= VTK) {
                Data* d = nullptr; Exporter::GiD::Exporter* e = nullptr;
                call("build", [&] { d = build(x.plan); });
                kept.push_back(d);
                int bad = int(choose(3)); Fault f;
                if (bad == 1) fs().capacity = choose(3000);
                if (bad == 2) { Op op = pick(std::vector<Op>{Op::Create, Op::Write, Op::Close, Op::Mkdir}); f.accept = [op](Op y, const std::string&) { return y == op; }; f.at = choose(5); f.sticky = chance(1, 3); fs().faults.push_back(f); }
                Outcome o = call(what.c_str(), [&] {
                    if (x.kind == VTK) Exporter::VTK::Exporter v(d, dir + "/other");
                    else e = new Exporter::GiD::Exporter(d, dir + "/other", x.kind == GIDBINARY ? GiD_PostBinary : GiD_PostAscii);
                });
                fs().faults.clear(); fs().capacity = -1;
                if (e) { if (chance(1, 2)) { call("close", [&] { delete e; }); } else { open.push_back(e); probe("left open"); } }
                before = what + " that " + o.str();
            }
            { SutScope sc; std::cout.clear(); std::cerr.clear(); }
            takeOutput(); takeErrors();
        }
        if (!open.empty() && chance(1, 4)) { auto* x = open.back(); open.pop_back(); call("close", [&] { delete x; }); before = "closing an export"; }
        if (!kept.empty() && open.empty() && chance(1, 3)) { Data* d = kept.back(); kept.pop_back(); SutScope sc; delete d; }
        std::string now = perform(s, names[s.kind]);
        check(now == s.fresh, fmt("differs-%d", int(s.kind)), fmt("a %s, done after %s, differs from the same one in a fresh process: ", names[s.kind], before.c_str()) + difference(s.fresh, now));
        before = fmt("a %s", names[s.kind]);
        if (i > 0) nontrivial();
        state(hash(now));
    }
    while (!open.empty()) { auto* x = open.back(); open.pop_back(); call("close", [&] { delete x; }); }
    check(fs().openHandles == 0, "left-open", fmt("%d files are still open", fs().openHandles));
    SutScope sc;
    for (Data* d : kept) delete d;
}
