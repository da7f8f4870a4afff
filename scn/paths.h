// Seeded trees of files and folders with awkward names, and paths into them and beside them.
#pragma once
#include "sim/sim.h"
#include "sim/fs.h"
namespace paths_ {
using namespace sim;
static std::vector<std::string> kNames{"a", "case.dat", "v1.2", "my file", ".hidden", "x.y.z", "run", "data", "trailing.", "ab", "a b.stl", "$HOME", "-r", std::string(120, 'l') + ".d", std::string(250, 'n')};

static std::vector<std::string> paths;
static void grow(const std::string& dir, int depth) {
    int n = range(1, 4);
    for (int i = 0; i < n; i++) {
        std::string p = dir + "/" + pick(kNames);
        if (fs().exists(p)) continue;
        switch (choose(6)) {
            case 0: case 1: fs().mkdirs(p); paths.push_back(p); if (depth < 3) grow(p, depth + 1); break;
            case 2: case 3: fs().put(p, "data"); paths.push_back(p); break;
            case 4: fs().put(p, "#!", 0755); paths.push_back(p); break;
            case 5: { std::string t = paths.empty() || chance(1, 4) ? "nowhere" : pick(paths); fs().symlink(t, p); paths.push_back(p); break; }
        }
        if (chance(1, 8)) fs().chmod(p, choose(2) ? 0 : 0444);
    }
}
static std::string somePath() {
    std::string p;
    switch (choose(8)) {
        case 0: case 1: case 2: case 3: p = paths.empty() ? "/work" : pick(paths); break;
        case 4: p = (paths.empty() ? "/work" : pick(paths)) + "/" + pick(kNames); break;
        case 5: p = pick(kNames); break;
        case 6: { static const std::vector<std::string> odd{"", "/", ".", "..", "/work", "/work/", "./a", "../work", "/missing/dir/", "a//b", "/work/../work/a"}; p = pick(odd); break; }
        case 7: p = pick(paths.empty() ? kNames : paths); for (int i = range(1, 3); i > 0; i--) p = p + "/" + pick(kNames); break;
    }
    if (chance(1, 12)) { std::string deep; for (int i = range(1, 12); i > 0; i--) deep += pick(kNames) + "/"; p = (p.empty() || p.back() == '/' ? p : p + "/") + deep + pick(kNames); }
    if (chance(1, 6) && p.compare(0, 6, "/work/") == 0) p = p.substr(6);
    if (chance(1, 5) && !p.empty() && p != "/") p += chance(1, 4) ? "//" : "/";
    return p;
}
struct Truth { bool there, dir, readable, exec; std::string canon; bool special; };
static Truth look(const std::string& p) {
    Truth t{false, false, false, false, "", false};
    std::shared_ptr<FsNode> n;
    if (fs().walk(p, n, &t.canon)) return t;
    t.there = true; t.dir = n->dir; t.readable = n->mode & 0400; t.exec = n->mode & 0100; t.special = n->special;
    return t;
}
} // namespace paths_
using namespace paths_;
