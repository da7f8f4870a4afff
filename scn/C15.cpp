// Questions about paths and files against the simulated disk, with failing calls and other actors.
#include "sim/sim.h"
#include "sim/fs.h"
#include "filesystem/Project.h"
#include "scn/paths.h"
#include <cerrno>
#include <memory>
using SEMBA::FileSystem::Project;
const char* const sim::kProperty = "C15";
using namespace sim;

// POSIX dirname and basename, written down independently
static std::string dirOf(std::string p) {
    if (p.empty()) return ".";
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    if (p == "/") return "/";
    size_t i = p.rfind('/');
    if (i == std::string::npos) return ".";
    p.resize(i);
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    return p.empty() ? "/" : p;
}
static std::string baseOf(std::string p) {
    if (p.empty()) return ".";
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    if (p == "/") return "/";
    size_t i = p.rfind('/');
    return i == std::string::npos ? p : p.substr(i + 1);
}
static std::string stemOf(const std::string& b) {
    size_t i = b.rfind('.');
    return i == std::string::npos || i == 0 ? b : b.substr(0, i);
}

void sim::run() {
    setBudget(3000000);
    randomLayout();
    fs().reset();
    paths.clear();
    grow("/work", 0);
    grow("/home/user", 1);
    fs().cwd = chance(1, 3) ? "/home/user" : "/work";
    if (chance(1, 20)) fs().asRoot = true;
    int n = range(3, 14);
    for (int i = 0; i < n; i++) {
        std::string p = somePath();
        fs().faults.clear(); fs().events.clear();
        bool faulty = false, race = false;
        std::string racePath;
        int q = choose(11);
        if (q < 5 && chance(1, 3)) {
            Fault f;
            uint32_t only = choose(3);      // any call, the first kind or the second kind made by the query
            f.accept = [only](Op o, const std::string&) { return only == 0 || (only == 1 ? o == Op::Stat : o == Op::Realpath || o == Op::Open); };
            f.at = choose(2); f.sticky = chance(1, 2);
            fs().faults.push_back(f);
            faulty = true;
        }
        Truth before = look(p);
        if (q < 4 && chance(1, 5)) {
            race = true;
            racePath = p;
            uint32_t what = choose(4);
            while (racePath.size() > 1 && racePath.back() == '/') racePath.pop_back();
            fs().events.push_back({[what, racePath] {
                probe("another actor changed the path during a question");
                log("another actor: %u on %s", what, racePath.c_str());
                if (racePath == "/" || racePath.empty() || racePath == ".." || racePath == ".") return;
                if (what == 0) fs().erase(racePath);
                else if (what == 1) { fs().erase(racePath); fs().mkdirs(racePath); }
                else if (what == 2) { if (!fs().exists(racePath)) fs().put(racePath, "new"); }
                else { fs().erase(racePath); fs().put(racePath, "file", 0755); }
            }, fs().ops + choose(2)});
        }
        std::unique_ptr<Project> pr;
        { SutScope s; pr.reset(new Project(p)); }
        auto unchanged = [&] { check(static_cast<const std::string&>(*pr) == p, "path-changed", "the question changed the path text from '" + p + "' to '" + *pr + "'"); };
        auto fired = [&] { for (auto& f : fs().faults) if (f.fired) return true; return false; };
        auto yesno = [&](const char* name, bool got, const std::function<bool(const Truth&)>& truth) {
            Truth after = look(p);
            bool a = truth(before), b = truth(after);
            log("%s '%s' -> %d (was %d, is %d)", name, p.c_str(), got, a, b);
            if (fired()) { check(!got || a || b, std::string(name) + "-wrong", fmt("%s('%s') says yes although the call failed and it is not so", name, p.c_str())); return; }
            check(got == a || got == b, std::string(name) + "-wrong", fmt("%s('%s') says %d, but it is %d", name, p.c_str(), got, b));
        };
        bool bres = false; std::string sres; Outcome o;
        switch (q) {
            case 0: case 1:
                o = call("isFolder", [&] { bres = pr->isFolder(); });
                check(!o.threw, "isFolder-threw", o.str());
                yesno("isFolder", bres, [](const Truth& t) { return t.there && t.dir; });
                if (fired()) check(!bres || !before.there || before.dir, "isFolder-wrong", "a guess");
                break;
            case 2:
                o = call("canOpen", [&] { bres = pr->canOpen(); });
                check(!o.threw, "canOpen-threw", o.str());
                if (!before.dir && !look(p).dir) yesno("canOpen", bres, [](const Truth& t) { return t.there && !t.dir && (t.readable || fs().asRoot); });
                check(fs().openHandles == 0, "handle-left-open", "canOpen left a file open");
                break;
            case 3:
                o = call("canExecute", [&] { bres = pr->canExecute(); });
                check(!o.threw, "canExecute-threw", o.str());
                if (!before.dir && !look(p).dir) yesno("canExecute", bres, [](const Truth& t) { return t.there && t.exec; });
                break;
            case 4: {
                o = call("getFullPath", [&] { sres = pr->getFullPath(); });
                log("getFullPath '%s' -> '%s'", p.c_str(), sres.c_str());
                if (o.threw) check(!before.there || fired(), "full-path-refused", "'" + p + "': " + o.str());
                else {
                    check(before.there, "full-path-invented", "'" + p + "' does not exist but has full path '" + sres + "'");
                    std::string want = before.canon;
                    bool dirSlash = before.dir;
                    std::string with = want + "/";
                    if (fired()) check(sres == want || (dirSlash && sres == with), "full-path-wrong", "'" + p + "' is '" + want + "', not '" + sres + "'");
                    else check(sres == (dirSlash ? with : want), "full-path-wrong", "'" + p + "' is '" + (dirSlash ? with : want) + "', not '" + sres + "'");
                }
                break;
            }
            case 5: {
                o = call("getFolder", [&] { sres = pr->getFolder(); });
                check(!o.threw, "getFolder-threw", o.str());
                std::string want = dirOf(p); if (want.back() != '/') want += "/";
                log("getFolder '%s' -> '%s'", p.c_str(), sres.c_str());
                check(sres == want, "folder-wrong", "the folder of '" + p + "' is '" + want + "', not '" + sres + "'");
                break;
            }
            case 6: {
                o = call("getBasename", [&] { sres = pr->getBasename(); });
                check(!o.threw, "getBasename-threw", o.str());
                log("getBasename '%s' -> '%s'", p.c_str(), sres.c_str());
                check(sres == baseOf(p), "base-name-wrong", "the base name of '" + p + "' is '" + baseOf(p) + "', not '" + sres + "'");
                break;
            }
            case 7: {
                std::string of;
                o = call("getProjectName", [&] { sres = pr->getProjectName(); of = pr->getOutputFilename(); });
                check(!o.threw, "getProjectName-threw", o.str());
                std::string want = stemOf(baseOf(p)), dir = dirOf(p); if (dir.back() != '/') dir += "/";
                check(sres == want, "project-name-wrong", "the project name of '" + p + "' is '" + want + "', not '" + sres + "'");
                if (want != "/") check(of == dir + want, "output-name-wrong", "the output name of '" + p + "' is '" + dir + want + "', not '" + of + "'");
                break;
            }
            case 8: {
                o = call("getExtension", [&] { sres = pr->getExtension(); });
                check(!o.threw, "getExtension-threw", o.str());
                std::string b = p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1);
                size_t d = b.rfind('.');
                log("getExtension '%s' -> '%s'", p.c_str(), sres.c_str());
                if (d != std::string::npos && d > 0) check(sres == b.substr(d), "extension-wrong", "the extension of '" + p + "' is '" + b.substr(d) + "', not '" + sres + "'");
                else if (d == std::string::npos) check(sres.empty() || sres == p, "extension-wrong", "'" + p + "' has no extension, not '" + sres + "'");
                break;
            }
            case 9: {   // relative to a folder or to a file in it
                std::string base = somePath();
                while (base.size() > 1 && base.back() == '/' && base[base.size() - 2] == '/') base.pop_back();
                std::string folder, name;
                Truth t = look(base);
                bool isdir = t.there && t.dir;
                folder = isdir ? base : dirOf(base);
                if (folder.empty()) break;
                if (folder.back() != '/') folder += "/";
                bool inside = chance(3, 4);
                std::string rest;
                if (inside) { rest = pick(kNames); for (int k = range(0, 2); k > 0; k--) rest += "/" + pick(kNames); name = folder + rest; if (!isdir && folder == "./" && base.find('/') == std::string::npos) inside = false; }
                else name = p;
                { SutScope s; pr->setFilename(name); }
                Project* b2; { SutScope s; b2 = new Project(base); }
                o = call("relativeTo", [&] { Project r = pr->relativeTo(*b2); sres = r.getFilename(); });
                { SutScope s; delete b2; }
                log("'%s' relative to '%s' (folder %s) -> '%s'", name.c_str(), base.c_str(), folder.c_str(), sres.c_str());
                if (inside && name.compare(0, folder.size(), folder) == 0) {
                    check(!o.threw, "relative-refused", o.str());
                    check(sres == rest, "relative-wrong", "'" + name + "' relative to '" + base + "' is '" + rest + "', not '" + sres + "'");
                    probe("path inside the other");
                } else if (name.compare(0, folder.size(), folder) != 0 && name + "/" != folder && !o.threw) {
                    // not below it: the name itself, or a way up and down again
                    check(sres == name || sres.compare(0, 2, "..") == 0, "relative-wrong", "'" + name + "' is not below '" + folder + "', but is given as '" + sres + "'");
                    probe("path outside the other");
                }
                p = name;
                break;
            }
            case 10: {
                Fault f; f.accept = [](Op o, const std::string&) { return o == Op::Realpath || o == Op::Stat || o == Op::Chdir; }; f.sticky = true;
                bool flt = chance(1, 3);
                if (flt) fs().faults.push_back(f);
                o = call("setToCurrentWorkingDir", [&] { pr->setToCurrentWorkingDir(); });
                check(!o.threw, "cwd-threw", o.str());
                std::string got = *pr;
                check(got == fs().cwd || (flt && fired() && got == p), "cwd-wrong", "the current folder is '" + fs().cwd + "', not '" + got + "'");
                p = got;
                break;
            }
        }
        unchanged();
        if (race) probe("question raced with a change");
        if (q < 5 && (fired() || race)) nontrivial();
        if (q == 6 || q == 9 || q == 4) nontrivial();
        (void)faulty;
        state(fmt("%d %s %d %d", q, p.c_str(), bres, (int)fired()) + sres);
        { SutScope s; pr.reset(); }
    }
    for (auto& t : fs().touched) violation("file-touched", "a question changed " + t);
}
