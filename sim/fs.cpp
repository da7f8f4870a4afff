// The simulated disk: an in-memory tree with permissions, faults, other actors and crash loss.
#include "fs.h"
#include <cerrno>
#include <cstring>
#include <algorithm>

namespace sim {

static Fs* theFs;
Fs& fs() { if (!theFs) theFs = new Fs; return *theFs; }

const char* opName(Op o) {
    static const char* n[] = {"open", "create", "read", "write", "close", "stat", "mkdir", "remove", "rmdir", "opendir",
                              "readdir", "realpath", "rename", "access", "system", "chdir", "truncate", "sync"};
    return n[int(o)];
}

Fs::Fs() { reset(); }
void Fs::reset() {
    root = std::make_shared<FsNode>();
    root->dir = true; root->mode = 0755;
    mkdirs("/work"); mkdirs("/tmp"); mkdirs("/home/user");
    cwd = "/work";
}
static std::vector<std::string> split(const std::string& p) {
    std::vector<std::string> r; std::string c;
    for (char ch : p) { if (ch == '/') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; }
    if (!c.empty()) r.push_back(c);
    return r;
}
std::string Fs::absolute(const std::string& p) const {
    if (!p.empty() && p[0] == '/') return p;
    return cwd + "/" + p;
}
int Fs::walk(const std::string& path, std::shared_ptr<FsNode>& node, std::string* canon, bool followLast, int depth) const {
    if (path.empty()) return ENOENT;
    if (path.size() >= 4096) return ENAMETOOLONG;
    if (depth > 20) return ELOOP;
    std::string abs = absolute(path);
    std::vector<std::string> parts = split(abs);
    std::vector<std::shared_ptr<FsNode>> stack{root};
    std::vector<std::string> names;
    for (size_t i = 0; i < parts.size(); i++) {
        std::shared_ptr<FsNode> cur = stack.back();
        if (!cur->dir) return ENOTDIR;
        if (parts[i] == ".") continue;
        if (!(cur->mode & 0100) && !asRoot) return EACCES;
        if (parts[i] == "..") { if (stack.size() > 1) { stack.pop_back(); names.pop_back(); } continue; }
        if (parts[i].size() > 255) return ENAMETOOLONG;
        auto it = cur->kids.find(parts[i]);
        if (it == cur->kids.end()) return ENOENT;
        std::shared_ptr<FsNode> next = it->second;
        bool last = i + 1 == parts.size();
        if (next->symlink && (!last || followLast || abs.back() == '/')) {
            std::string base = "/";
            for (auto& n : names) base += n + "/";
            std::string target = next->link[0] == '/' ? next->link : base + next->link;
            std::string c2;
            int e = walk(target, next, &c2, true, depth + 1);
            if (e) return e;
            // re-anchor at the canonical place
            std::vector<std::string> cp = split(c2);
            stack.assign(1, root); names.clear();
            for (auto& n : cp) { stack.push_back(stack.back()->kids[n]); names.push_back(n); }
            continue;
        }
        stack.push_back(next); names.push_back(parts[i]);
    }
    node = stack.back();
    if (abs.size() > 1 && abs.back() == '/' && !node->dir && !(node->symlink && !followLast)) return ENOTDIR;
    if (canon) {
        canon->clear();
        for (auto& n : names) *canon += "/" + n;
        if (canon->empty()) *canon = "/";
    }
    return 0;
}
int Fs::parentOf(const std::string& path, std::shared_ptr<FsNode>& parent, std::string& leaf, std::string* canon) const {
    if (path.empty()) return ENOENT;
    std::string p = path;
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    size_t i = p.rfind('/');
    std::string dir = i == std::string::npos ? "." : i == 0 ? "/" : p.substr(0, i);
    leaf = i == std::string::npos ? p : p.substr(i + 1);
    if (leaf.size() > 255 || path.size() >= 4096) return ENAMETOOLONG;
    std::string c;
    int e = walk(dir, parent, &c);
    if (e) return e;
    if (!parent->dir) return ENOTDIR;
    if (!(parent->mode & 0100) && !asRoot) return EACCES;
    if (canon) *canon = (c == "/" ? "" : c) + "/" + leaf;
    return 0;
}
void Fs::mkdirs(const std::string& path) {
    std::shared_ptr<FsNode> n = root;
    for (auto& p : split(absolute(path))) {
        auto& k = n->kids[p];
        if (!k) { k = std::make_shared<FsNode>(); k->dir = true; k->mode = 0755; }
        n = k;
    }
}
void Fs::put(const std::string& path, const std::string& data, unsigned mode) {
    std::string a = absolute(path);
    size_t i = a.rfind('/');
    if (i) mkdirs(a.substr(0, i));
    std::shared_ptr<FsNode> p; std::string leaf;
    if (parentOf(a, p, leaf)) return;
    auto f = std::make_shared<FsNode>();
    f->data = data; f->mode = mode;
    p->kids[leaf] = f;
}
void Fs::special(const std::string& path) {
    put(path, "");
    std::shared_ptr<FsNode> n; if (!walk(path, n)) n->special = true;
}
void Fs::symlink(const std::string& target, const std::string& path) {
    put(path, "");
    std::shared_ptr<FsNode> n; if (!walk(path, n, nullptr, false)) { n->symlink = true; n->link = target; n->mode = 0777; }
}
bool Fs::get(const std::string& path, std::string& data) const {
    std::shared_ptr<FsNode> n;
    bool r = asRoot; const_cast<Fs*>(this)->asRoot = true;
    int e = walk(path, n);
    const_cast<Fs*>(this)->asRoot = r;
    if (e || n->dir) return false;
    data = n->data;
    return true;
}
std::string Fs::must(const std::string& path) const {
    std::string d;
    if (!get(path, d)) violation("missing-file", path);
    return d;
}
bool Fs::exists(const std::string& path) const {
    std::shared_ptr<FsNode> n; bool r = asRoot; const_cast<Fs*>(this)->asRoot = true;
    int e = walk(path, n); const_cast<Fs*>(this)->asRoot = r; return !e;
}
bool Fs::isDir(const std::string& path) const {
    std::shared_ptr<FsNode> n; bool r = asRoot; const_cast<Fs*>(this)->asRoot = true;
    int e = walk(path, n); const_cast<Fs*>(this)->asRoot = r; return !e && n->dir;
}
void Fs::erase(const std::string& path) {
    std::shared_ptr<FsNode> p; std::string leaf;
    if (!parentOf(path, p, leaf)) p->kids.erase(leaf);
}
void Fs::chmod(const std::string& path, unsigned mode) {
    std::shared_ptr<FsNode> n; bool r = asRoot; asRoot = true; if (!walk(path, n)) n->mode = mode; asRoot = r;
}
static void snap(const std::string& p, const FsNode& n, std::map<std::string, std::string>& r) {
    if (n.symlink) { r[p] = "L" + n.link; return; }
    if (!n.dir) { r[p] = (n.special ? "S" : "F") + n.data; return; }
    r[p.empty() ? "/" : p] = "D";
    for (auto& k : n.kids) snap(p + "/" + k.first, *k.second, r);
}
std::map<std::string, std::string> Fs::snapshot(const std::string& under) const {
    std::map<std::string, std::string> r;
    std::shared_ptr<FsNode> n;
    bool ar = asRoot; const_cast<Fs*>(this)->asRoot = true;
    if (!walk(under, n)) snap(under == "/" ? "" : under, *n, r);
    const_cast<Fs*>(this)->asRoot = ar;
    return r;
}
std::vector<std::string> Fs::list(const std::string& dir) const {
    std::vector<std::string> r; std::shared_ptr<FsNode> n;
    if (!walk(dir, n)) for (auto& k : n->kids) r.push_back(k.first);
    return r;
}
static void putS(std::string& o, const std::string& s) { uint32_t n = s.size(); o.append((char*)&n, 4); o += s; }
static void ser(const FsNode& n, std::string& o) {
    o += char(n.dir); o += char(n.special); o += char(n.symlink); o.append((const char*)&n.mode, sizeof n.mode);
    putS(o, n.data); putS(o, n.link);
    uint32_t k = n.kids.size(); o.append((char*)&k, 4);
    for (auto& c : n.kids) { putS(o, c.first); ser(*c.second, o); }
}
static std::string getS(const std::string& i, size_t& p) { uint32_t n; memcpy(&n, &i[p], 4); p += 4; std::string r = i.substr(p, n); p += n; return r; }
static std::shared_ptr<FsNode> des(const std::string& i, size_t& p) {
    auto n = std::make_shared<FsNode>();
    n->dir = i[p++]; n->special = i[p++]; n->symlink = i[p++];
    memcpy(&n->mode, &i[p], sizeof n->mode); p += sizeof n->mode;
    n->data = getS(i, p); n->link = getS(i, p);
    n->existed = true; n->stable = n->data;
    uint32_t k; memcpy(&k, &i[p], 4); p += 4;
    for (uint32_t c = 0; c < k; c++) { std::string nm = getS(i, p); n->kids[nm] = des(i, p); }
    return n;
}
std::string Fs::serialize() const { std::string o; putS(o, cwd); ser(*root, o); return o; }
void Fs::deserialize(const std::string& s) { size_t p = 0; cwd = getS(s, p); root = des(s, p); }
static void mark(FsNode& n) { n.existed = true; n.dirty = false; n.stable = n.data; for (auto& k : n.kids) mark(*k.second); }
void Fs::markDurable() { mark(*root); }
static void lose(FsNode& n, const std::string& path) {
    for (auto it = n.kids.begin(); it != n.kids.end();) {
        FsNode& k = *it->second;
        std::string p = path + "/" + it->first;
        if (!k.existed) {
            if (chance(1, 4)) { log("crash: %s lost", p.c_str()); fault("crash lost entry"); it = n.kids.erase(it); continue; }
        }
        if (!k.dir && (k.dirty || !k.existed)) {
            size_t len = k.data.size();
            switch (choose(5)) {
                case 0: break;                                               // all of it survived
                case 1: k.data = k.stable; fault("crash lost write"); break; // nothing of it
                case 2: if (len) k.data.resize(choose(uint32_t(len))); fault("crash torn write"); break;
                case 3: if (len) { size_t a = choose(uint32_t(len)); std::fill(k.data.begin() + a, k.data.end(), '\0'); } fault("crash zeroed tail"); break;
                case 4: if (len) { size_t a = choose(uint32_t(len)), b = a + choose(uint32_t(len - a)); std::fill(k.data.begin() + a, k.data.begin() + b, '\0'); } fault("crash hole"); break;
            }
            log("crash: %s keeps %zu of %zu bytes", p.c_str(), k.data.size(), len);
        }
        if (k.dir) lose(k, p);
        ++it;
    }
}
void Fs::loseVolatile() { lose(*root, ""); mark(*root); }

int Fs::enter(Op op, const std::string& path, bool* partial) {
    uint64_t n = ops++;
    opCount[size_t(op)]++;
    if (keepTrace && trace.size() < 4000) trace.push_back({op, path});
    for (size_t i = 0; i < events.size(); i++)
        if (events[i].atOp == n) { auto a = events[i].act; a(); }
    for (auto& f : faults) {
        if (f.accept && !f.accept(op, path)) continue;
        uint64_t k = f.seen++;
        if (k == f.at || (f.sticky && k > f.at)) {
            f.fired++;
            if (f.crash) { fault("crash"); log("crash at %s %s", opName(op), path.c_str()); crashNow(); }
            int e = f.err ? f.err : pickErrno(op);
            if (f.partial && partial) *partial = true;
            if (f.fired == 1) { fault((std::string(opName(op)) + " " + strerrorname_np(e)).c_str()); log("fault: %s %s -> %s%s", opName(op), path.c_str(), strerrorname_np(e), f.sticky ? " (sticky)" : ""); }
            f.err = e;
            return e;
        }
    }
    return 0;
}
int pickErrno(Op op) {
    static const std::vector<int> open{EACCES, EMFILE, EIO, ENOMEM, ELOOP}, create{ENOSPC, EACCES, EROFS, EDQUOT, EMFILE, EIO}, read{EIO},
        write{ENOSPC, EIO, EDQUOT, EFBIG}, close{EIO, ENOSPC, EDQUOT}, stat{EACCES, EIO, ENOMEM, ELOOP}, mkdir{ENOSPC, EACCES, EROFS, EDQUOT, EIO},
        rem{EACCES, EBUSY, EIO, EROFS, EPERM}, dir{EACCES, EMFILE, ENOMEM}, other{EIO, EACCES, ENOMEM};
    switch (op) {
        case Op::Open: return pick(open);
        case Op::Create: return pick(create);
        case Op::Read: return pick(read);
        case Op::Write: case Op::Truncate: case Op::Sync: return pick(write);
        case Op::Close: return pick(close);
        case Op::Stat: case Op::Realpath: case Op::Access: return pick(stat);
        case Op::Mkdir: case Op::Rename: return pick(mkdir);
        case Op::Remove: case Op::Rmdir: return pick(rem);
        case Op::Opendir: case Op::Readdir: return pick(dir);
        default: return pick(other);
    }
}
} // namespace sim
