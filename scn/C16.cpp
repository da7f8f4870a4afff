// Making and removing folders on the simulated disk: odd names, links, failing calls, other actors.
#include "sim/sim.h"
#include "sim/fs.h"
#include "filesystem/Project.h"
#include <cerrno>
#include <memory>
using SEMBA::FileSystem::Project;
const char* const sim::kProperty = "C16";
using namespace sim;

static const std::vector<std::string> kNames{"a", "b", "my case", "my", "case", "run.gid", "run", "x;y", "-r", "-rf", "*", "?", "a b", "$HOME", "`a`", "$(b)", "it's", "q\"q", "tab\tx", "a&b", "a|b", "a>b", "#c", "~", "[ab]", "back\\slash", ".hid", "..x", "{a,b}", "new\nline", "run ", " run", "!", "case.dat_OUT", "caf\xc3\xa9"};
struct Entry { std::string path; bool dir; };
static std::vector<Entry> all;

static void grow(const std::string& dir, int depth) {
    int n = range(depth == 0 ? 2 : 0, 5);
    for (int i = 0; i < n; i++) {
        std::string p = dir + "/" + pick(kNames);
        if (fs().exists(p)) continue;
        std::shared_ptr<FsNode> nd;
        if (!fs().walk(p, nd, nullptr, false)) continue;      // a dangling link
        switch (choose(6)) {
            case 0: case 1: case 2: fs().mkdirs(p); all.push_back({p, true}); if (depth < 3) grow(p, depth + 1); break;
            case 3: case 4: fs().put(p, "data of " + p); all.push_back({p, false}); break;
            case 5: fs().symlink(all.empty() || chance(1, 5) ? "nowhere" : pick(all).path, p); all.push_back({p, false}); break;
        }
    }
}
// Is p the folder r or below it?
static bool below(const std::string& p, const std::string& r) { return p == r || (p.size() > r.size() && p.compare(0, r.size(), r) == 0 && p[r.size()] == '/'); }

void sim::run() {
    setBudget(8000000);
    randomLayout();
    fs().reset();
    all.clear();
    grow("/work", 0);
    grow("/data", 1);
    fs().cwd = chance(1, 4) ? "/data" : "/work";
    int n = range(1, 6);
    for (int i = 0; i < n; i++) {
        fs().faults.clear(); fs().events.clear(); fs().touched.clear(); fs().commands.clear();
        takeOutput(); takeErrors();
        // the name
        std::string p;
        switch (choose(6)) {
            case 0: case 1: case 2: p = all.empty() ? "/work/new" : pick(all).path; break;
            case 3: p = (all.empty() ? "/work" : pick(all).path) + "/" + pick(kNames); break;
            case 4: p = fs().cwd + "/" + pick(kNames); break;
            case 5: p = pick(std::vector<std::string>{"new", "/work/new", "/data/none/new", "./new", "", "/work/../data/new", "/work//new"}); break;
        }
        std::string pre = fs().cwd + "/";
        if (chance(1, 2) && p.compare(0, pre.size(), pre) == 0 && p.size() > pre.size() && p[pre.size()] != '/') p = p.substr(pre.size());
        std::shared_ptr<FsNode> node, ln;
        std::string canon, lcanon, parentCanon, leaf;
        auto look = [&](bool& there, bool& dir) { std::shared_ptr<FsNode> k; there = fs().walk(p, k) == 0; dir = there && k->dir; };
        bool there, dir; look(there, dir);
        bool isLink = fs().walk(p, ln, &lcanon, false) == 0 && ln->symlink;
        bool viaSlash = false;
        if (!isLink && !p.empty() && chance(1, 8)) { p += "/"; viaSlash = true; }
        std::shared_ptr<FsNode> par;
        bool placeOk = fs().parentOf(p, par, leaf, &parentCanon) == 0;
        std::string self = placeOk ? parentCanon : "";
        if (dir && !isLink) { fs().walk(p, node, &canon); self = canon; }
        if (self == "/work" || self == "/data" || self == "/" || self.empty() || below(fs().cwd, self)) { if (dir) continue; }
        // a name that leads to a folder through a link inside that very folder: no meaning to hold it to
        bool throughItself = false;
        if (dir) {
            std::shared_ptr<FsNode> sp, pn; std::string sl, lf;
            if (fs().parentOf(self, sp, sl) == 0 && sp->kids.count(sl)) {
                auto keep = sp->kids[sl];
                sp->kids.erase(sl);
                throughItself = fs().parentOf(p, pn, lf) != 0;
                sp->kids[sl] = keep;
            }
        }
        if (throughItself) continue;
        auto before = fs().snapshot();
        bool make = chance(1, 2);
        // faults
        bool faulty = chance(2, 5);
        uint32_t kind = choose(6);
        if (faulty) {
            Fault f;
            if (make) { bool m = choose(2); f.accept = [m](Op o, const std::string&) { return o == (m ? Op::Stat : Op::Mkdir); }; }
            else f.accept = [kind](Op o, const std::string&) {
                switch (kind) {
                    case 0: return o == Op::Remove;
                    case 1: return o == Op::Rmdir;
                    case 2: return o == Op::Opendir || o == Op::Readdir;
                    case 3: return o == Op::Stat;
                    case 4: return o == Op::Remove || o == Op::Rmdir || o == Op::System;
                    default: return true;
                }
            };
            f.at = chance(1, 2) ? 0 : choose(12); f.sticky = chance(1, 2);
            fs().faults.push_back(f);
        }
        // other actors: only inside or at the folder itself, so that everything else must stay as it is
        bool raced = false;
        std::string actorMade;
        if (chance(1, 4) && !self.empty() && placeOk && !isLink) {
            uint32_t what = choose(3);
            fs().events.push_back({[&, what] {
                raced = true;
                if (make) {
                    if (fs().exists(self)) return;
                    if (what == 2) fs().put(self, "file of another");
                    else fs().mkdirs(self);
                    log("another actor makes %s (%s)", self.c_str(), what == 2 ? "file" : "folder");
                } else if (fs().isDir(self)) {
                    if (what == 0) { actorMade = self + "/late"; fs().put(actorMade, "late"); log("another actor puts %s", actorMade.c_str()); }
                    else if (what == 1) { auto l = fs().list(self); if (!l.empty()) { fs().erase(self + "/" + l[choose(uint32_t(l.size()))]); log("another actor removes an entry"); } }
                    else { fs().erase(self); log("another actor removes the folder"); }
                }
            }, fs().ops + choose(make ? 2 : 8)});
        }
        auto fired = [&] { for (auto& f : fs().faults) if (f.fired) return true; return false; };
        std::unique_ptr<Project> pr;
        { SutScope s; pr.reset(new Project(p)); }
        log("%s '%s' (%s%s)", make ? "makeDir" : "rmDir", p.c_str(), dir ? "folder" : there ? "file" : "nothing", isLink ? ", link" : "");
        Outcome o = make ? call("makeDir", [&] { pr->makeDir(); }) : call("rmDir", [&] { pr->rmDir(); });

        bool anyFired = fired();
        fs().events.clear();
        std::string said = takeOutput() + takeErrors();
        bool reported = o.threw || said.find("WARNING") != std::string::npos || said.find("ail") != std::string::npos || said.find("rror") != std::string::npos || said.find("annot") != std::string::npos;
        auto after = fs().snapshot();
        for (auto& c : fs().commands) check(c.compare(0, 4, "ran:") != 0, "ran-other-command", "the name was taken for a command: " + c);
        bool there2, dir2;
        { auto keep = fs().faults; fs().faults.clear(); look(there2, dir2); fs().faults = keep; }
        // nothing else is touched
        auto mayChange = [&](const std::string& q) {
            if (self.empty()) return false;
            if (make) return q == self;
            return dir && below(q, self);
        };
        for (auto& e : before) if (!mayChange(e.first)) {
            auto it = after.find(e.first);
            check(it != after.end(), "other-entry-removed", fmt("%s of '%s' removed '%s'", make ? "making" : "removing", p.c_str(), e.first.c_str()));
            check(it->second == e.second, "other-entry-changed", fmt("'%s' changed", e.first.c_str()));
        }
        for (auto& e : after) if (!mayChange(e.first) && e.first != actorMade) check(before.count(e.first), "other-entry-made", fmt("%s of '%s' made '%s'", make ? "making" : "removing", p.c_str(), e.first.c_str()));
        if (make) {
            if (!raced) {
                if (there && before.count(self)) check(after.count(self) && after[self] == before[self], "existing-entry-changed", "'" + p + "' was there and is not what it was");
                if (dir && !anyFired) check(!o.threw, "make-refused", "'" + p + "' is a folder already, but: " + o.str());
                if (!there && placeOk && !isLink && !anyFired && par->dir) check(!o.threw, "make-refused", "'" + p + "' could be made, but: " + o.str());
            }
            if (raced && !anyFired && dir2 && placeOk) check(!o.threw, "make-refused", "'" + p + "' is a folder now, but: " + o.str());
            if (!o.threw) check(dir2, "make-not-done", "making '" + p + "' ended normally but it is " + (there2 ? "not a folder" : "not there"));
            if (!o.threw && !dir && dir2) { std::shared_ptr<FsNode> k; if (!fs().walk(p, k)) check((k->mode & 0700) == 0700, "folder-unusable", fmt("the new folder has mode %o", k->mode)); }
        } else {
            if (isLink) {   // a name that is a link: what it leads to stays, with everything in it
                std::shared_ptr<FsNode> k;
                bool still = fs().walk(lcanon, k, nullptr, false) == 0;
                if (!raced) { if (!dir) check(still, "not-a-folder-removed", "'" + p + "' is not a folder but was removed"); }
            } else if (dir) {
                if (!raced && !anyFired) { check(!o.threw && !dir2, "remove-not-done", "removing '" + p + "': it is still there; " + o.str()); check(!reported, "done-removal-reported", "removed '" + p + "' but said: " + said); }
                if (dir2) check(reported, "failed-removal-not-reported", "'" + p + "' is still there after its removal ended normally, without a word");
                if (dir2 && !raced) { // what is left is part of what was there
                    for (auto& e : after) if (below(e.first, self)) check(before.count(e.first) && before[e.first] == e.second, "entry-changed", e.first);
                }
                nontrivial();
            } else {
                if (!raced) {
                    bool same = after == before;
                    check(same, "not-a-folder-removed", "'" + p + "' is not a folder, but something was removed");
                    if (!anyFired) check(!o.threw, "remove-refused", "nothing to remove, but " + o.str());
                }
            }
        }
        check(fs().openHandles == 0, "handle-left-open", fmt("%d handles left open", fs().openHandles));
        if (anyFired || raced) nontrivial();
        if (raced) probe("another actor in the middle");
        if (dir && !make && !isLink) probe("folder removed or attempted");
        if (viaSlash) probe("name with trailing slash");
        { SutScope s; pr.reset(); }
        state(fmt("%d %s %d %d %d %zu", make, p.c_str(), there, dir2, anyFired, after.size()));
        // rebuild the list of entries
        all.clear();
        for (auto& e : after) if (e.first != "/" && e.first != "/work" && e.first != "/data" && (below(e.first, "/work") || below(e.first, "/data"))) all.push_back({e.first, e.second == "D"});
    }
}
