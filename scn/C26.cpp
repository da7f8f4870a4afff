// Running programs, opening files and changing folders on a simulated disk with failing calls and awkward names.
#include "scn/paths.h"
#include "filesystem/Project.h"
#include <algorithm>
#include <memory>
#include <sstream>
using SEMBA::FileSystem::Project;
const char* const sim::kProperty = "C26";
using namespace sim;
namespace { struct Listing : Project { Listing(const std::string& p) : Project(p) {} std::vector<std::string> list(const std::string& d, const std::string& e) const { return getFilesBasenames_(d, e); } }; }

void sim::run() {
    setBudget(10000000);
    randomLayout();
    fs().reset();
    paths.clear();
    static const std::vector<std::string> shelly{"it's", "a;b", "a&b", "$(x)", "*", "two  blanks", "q\"q", "a'b'c", "#x", "back\\slash", "~", "x>y", "`y`"};
    static const std::vector<std::string> plain = kNames;
    kNames = plain;
    for (auto& s : shelly) kNames.push_back(s);
    grow("/work", 0);
    grow("/home/user", 1);
    fs().cwd = chance(1, 3) ? "/home/user" : "/work";
    if (chance(1, 20)) fs().asRoot = true;
    fs().shortTransfers = chance(1, 3); fs().interrupts = chance(1, 4); fs().xfer = Rng(seedChoice());
    for (int n = range(3, 14); n > 0; n--) {
        std::string p = somePath();
        fs().faults.clear(); fs().commands.clear(); fs().ran.clear();
        std::unique_ptr<Project> pr;
        { SutScope s; pr.reset(new Project(p)); }
        int q = choose(8);
        bool faulty = chance(1, 3);
        if (faulty) {
            Fault f;
            Op op = q < 3 ? chance(1, 2) ? Op::System : Op::Stat : q < 5 ? Op::Create : q < 6 ? Op::Open : Op::Chdir;
            f.accept = [op](Op o, const std::string&) { return o == op; };
            f.at = 0; f.sticky = chance(1, 2);
            fs().faults.push_back(f);
        }
        auto fired = [&] { for (auto& f : fs().faults) if (f.fired) return true; return false; };
        Truth t = look(p);
        auto before = fs().snapshot();
        std::string cwd = fs().cwd, mark;
        bool changes = false;
        switch (q) {
        case 0: case 1: case 2: {
            static const std::vector<std::pair<std::string, std::vector<std::string>>> kArgs{{"", {}}, {"-x 1", {"-x", "1"}}, {"\"two words\" three", {"two words", "three"}}, {"case.dat --flag", {"case.dat", "--flag"}}};
            auto args = pick(kArgs);
            Outcome o = call("exec", [&] { if (args.first.empty()) pr->exec(); else pr->exec(args.first); });
            log("exec '%s' %s -> %s", p.c_str(), args.first.c_str(), o.str().c_str());
            bool may = t.there && t.exec && !t.dir;
            if (o.threw) {
                check(!may || fired(), "run-refused", "'" + p + "' can be executed, but " + o.str());
                check(fs().ran.empty(), "run-wrong", "'" + p + "' was refused, but something was run");
            } else {
                check(may, "run-wrong", "'" + p + "' can not be executed, but was not refused");
                check(fs().ran.size() == 1, "run-wrong", fmt("'%s': %zu programs were run", p.c_str(), fs().ran.size()));
                auto w = fs().ran[0];
                std::string prog = w[0];
                w.erase(w.begin());
                check(prog.find('/') != std::string::npos, "run-wrong", "'" + p + "': the shell looks for '" + prog + "' elsewhere");
                check(look(prog).canon == t.canon, "run-wrong", "'" + p + "': '" + prog + "' was run");
                std::string all; for (auto& x : w) all += "[" + x + "]";
                check(w == args.second, "run-wrong", "'" + p + "': run with " + all + " for " + args.first);
                for (auto& c : fs().commands) check(c != "ran: substitution", "run-wrong", "'" + p + "' was taken for a command");
                probe("ran"); nontrivial();
            }
            break;
        }
        case 3: case 4: {
            bool text = chance(1, 2);
            std::string line = "0123456789\n", content;
            for (int i = range(0, 30); i > 0; i--) content += line;
            bool good = false;
            Outcome o = call("open", [&] {
                std::ofstream f;
                pr->openFile(f, text);
                good = f.is_open();
                f << content; f.flush();
                good = good && f.good();
            });
            log("write '%s' -> %s", p.c_str(), o.str().c_str());
            if (o.threw) check(fired() || t.dir || !t.there || !fs().asRoot, "open-refused", "'" + p + "': " + o.str());
            if (o.threw && t.there && !t.dir && !fired()) {
                std::shared_ptr<FsNode> node; fs().walk(p, node);
                check(!(node->mode & 0200), "open-refused", "'" + p + "' may be written, but " + o.str());
            }
            if (!o.threw) {
                check(good, "open-failed-silently", "'" + p + "' could not be opened, and no exception tells it");
                Truth a = look(p);
                check(a.there && !a.dir, "open-wrong", "'" + p + "' was opened, but is no file");
                std::string got = fs().must(a.canon);
                check(got == content, "open-wrong", fmt("'%s' holds %zu bytes instead of %zu", p.c_str(), got.size(), content.size()));
                before[a.canon] = "F" + content;
                probe("written"); nontrivial();
            }
            break;
        }
        case 5: {
            std::string got; bool bad = false;
            Outcome o = call("open", [&] {
                std::ifstream f;
                pr->openAsInput(f);
                std::stringstream s; s << f.rdbuf();
                bad = !f.is_open();
                std::string r = s.str();
                FrameworkScope q2; got = r;
            });
            log("read '%s' -> %s", p.c_str(), o.str().c_str());
            bool may = t.there && !t.dir && (t.readable || fs().asRoot);
            if (o.threw) check(fired() || !may, "open-refused", "'" + p + "' may be read, but " + o.str());
            else {
                check(!bad && t.there, "open-failed-silently", "'" + p + "' could not be opened, and no exception tells it");
                if (!t.dir) check(got == fs().must(t.canon), "open-wrong", "'" + p + "' was read as something else");
                else check(got.empty(), "open-wrong", "the folder '" + p + "' was read");
                if (!t.dir) { probe("read"); nontrivial(); }
            }
            break;
        }
        case 6: {
            Outcome o = call("changeDir", [&] { pr->changeDir(); });
            log("enter '%s' -> %s", p.c_str(), o.str().c_str());
            if (o.threw) {
                check(fs().cwd == cwd, "enter-wrong", "entering '" + p + "' failed, but the folder is now " + fs().cwd);
                if (t.there && t.dir && !fired()) check(!t.exec && !fs().asRoot, "enter-refused", "'" + p + "': " + o.str());
            } else {
                check(t.there && t.dir && !fired(), "enter-failed-silently", "'" + p + "' could not be entered, and no exception tells it");
                check(fs().cwd == t.canon, "enter-wrong", "entering '" + p + "' led to " + fs().cwd);
                cwd = t.canon;
                probe("entered"); nontrivial();
            }
            break;
        }
        case 7: {
            fs().faults.clear();
            static const std::vector<std::string> exts{".dat", ".d", ".stl", "."};
            std::string ext = pick(exts);
            std::vector<std::string> got;
            Outcome o = call("list", [&] { Listing l(p); auto r = l.list(p, ext); FrameworkScope q2; got = r; });
            check(!o.threw, "list-wrong", o.str());
            std::set<std::string> names;
            bool may = t.there && t.dir && (t.readable || fs().asRoot);
            auto in = fs().list(t.canon);
            for (auto& g : got) {
                check(names.insert(g).second, "list-wrong", "'" + g + "' is listed twice");
                check(g == "." || g == ".." || (may && std::count(in.begin(), in.end(), g) == 1), "list-wrong", "'" + g + "' is listed, but is not in '" + p + "'");
                check(g.find(ext) != std::string::npos, "list-wrong", "'" + g + "' does not match " + ext);
            }
            if (may) for (auto& k : in) if (k.size() >= ext.size() && k.compare(k.size() - ext.size(), ext.size(), ext) == 0) check(names.count(k) == 1, "list-wrong", "'" + k + "' in '" + p + "' is not listed for " + ext);
            takeOutput();
            if (names.size() > 0) nontrivial();
            break;
        }
        }
        (void)changes;
        check(*pr == p, "path-changed", "the path became '" + *pr + "'");
        check(fs().cwd == cwd, "enter-wrong", "the current folder is now " + fs().cwd);
        check(fs().openHandles == 0, "left-open", fmt("%d files are open", fs().openHandles));
        for (auto& e : fs().snapshot()) { auto it = before.find(e.first); check(it != before.end() && it->second == e.second, "touched-another", "'" + p + "' was asked for, but '" + e.first + "' has changed"); before.erase(it); }
        check(before.empty(), "touched-another", before.empty() ? "" : "'" + before.begin()->first + "' is gone");
        state(fmt("%d %s %d", q, p.c_str(), int(fired())));
        { SutScope s; pr.reset(); }
    }
}
