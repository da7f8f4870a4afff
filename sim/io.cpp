// Interposed C library calls: files, terminal, clock, standard output.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "fs.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ftw.h>
#include <iostream>
#include <poll.h>
#include <streambuf>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

extern "C" int sim_inSut;

namespace sim {
Terminal terminal;
Clock clock;
static std::string* outText; static std::string* errText;

struct Handle {
    std::shared_ptr<FsNode> node;
    std::string path;
    size_t pos = 0, wrote = 0;
    bool rd = false, wr = false, app = false, open = true;
    FILE* file = nullptr;
};
static std::vector<Handle*>* handles;
static const int VFD = 1000000;
static std::map<FILE*, int>* fileFd;

static Handle* byFd(int fd) {
    if (fd < VFD || !handles || size_t(fd - VFD) >= handles->size()) return nullptr;
    Handle* h = (*handles)[fd - VFD];
    return h->open ? h : nullptr;
}
#define IN (sim_inSut && handles)
struct G { int s; G() : s(sim_inSut) { sim_inSut = 0; } ~G() { sim_inSut = s; } };

class Capture : public std::streambuf {
public:
    std::string* to;
    explicit Capture(std::string* t) : to(t) {}
protected:
    int_type overflow(int_type c) override { FrameworkScope f; if (c != EOF) to->push_back(char(c)); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { FrameworkScope f; to->append(s, n); return n; }
    int sync() override { return 0; }
};
static ssize_t capWrite(void* c, const char* b, size_t n) { FrameworkScope f; ((std::string*)c)->append(b, n); return n; }

static Capture* capOut; static Capture* capErr;
void ioInit() {
    handles = new std::vector<Handle*>; fileFd = new std::map<FILE*, int>;
    outText = new std::string; errText = new std::string;
    capOut = new Capture(outText); capErr = new Capture(errText);
    std::cout.rdbuf(capOut);
    std::cerr.rdbuf(capErr);
    std::clog.rdbuf(capErr);
    cookie_io_functions_t io{nullptr, capWrite, nullptr, nullptr};
    FILE* o = fopencookie(outText, "w", io); setvbuf(o, nullptr, _IONBF, 0);
    FILE* e = fopencookie(errText, "w", io); setvbuf(e, nullptr, _IONBF, 0);
    stdout = o; stderr = e;
    fs();
}
std::string takeOutput() { fflush(stdout); std::string r; r.swap(*outText); return r; }
std::string takeErrors() { std::string r; r.swap(*errText); return r; }

template <class F> static F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) static auto r_##name = real<decltype(&::name)>(#name)

// ------------------------------------------------------------------------------- primitive operations
static ssize_t doRead(Handle* h, char* b, size_t n) {
    if (!h->rd) { errno = EBADF; return -1; }
    if (h->node->dir) { errno = EISDIR; return -1; }
    Fs& f = fs();
    int e = f.enter(Op::Read, h->path);
    if (e) { errno = e; return -1; }
    if (f.interrupts && f.xfer.below(7) == 0) { fault("EINTR on read"); errno = EINTR; return -1; }
    size_t left = h->pos < h->node->data.size() ? h->node->data.size() - h->pos : 0;
    size_t k = std::min(n, left);
    if (f.shortTransfers && k > 1) { size_t m = 1 + f.xfer.below(uint32_t(std::min<size_t>(k, f.xfer.below(3) ? k : 16))); if (m < k) { fault("short read"); k = m; } }
    memcpy(b, h->node->data.data() + h->pos, k);
    h->pos += k;
    return k;
}
static ssize_t doWrite(Handle* h, const char* b, size_t n, bool fileLevel) {
    if (!h->wr) { errno = EBADF; return -1; }
    Fs& f = fs();
    bool partial = false;
    int e = f.enter(Op::Write, h->path, &partial);
    size_t k = n;
    if (e && !partial) { errno = e; return -1; }
    if (e) k = n ? f.xfer.below(uint32_t(n)) : 0;
    if (!e && !fileLevel && f.interrupts && f.xfer.below(7) == 0) { fault("EINTR on write"); errno = EINTR; return -1; }
    if (!e && f.shortTransfers && k > 1) { size_t m = 1 + f.xfer.below(uint32_t(k)); if (m < k) { fault("short write"); k = m; } }
    if (!h->node->special && f.capacity >= 0) {
        if (f.capacity == 0 && k) { fault("disk full"); errno = ENOSPC; return -1; }
        if (int64_t(k) > f.capacity) k = size_t(f.capacity);
        f.capacity -= int64_t(k);
    }
    if (h->app) h->pos = h->node->data.size();
    std::string& d = h->node->data;
    if (!h->node->special) {
        if (d.size() < h->pos + k) d.resize(h->pos + k);
        memcpy(&d[h->pos], b, k);
        h->node->dirty = true;
        h->wrote += k;
    }
    h->pos += k;
    if (e && k == 0) { errno = e; return -1; }
    return k;
}
static ssize_t cookieRead(void* c, char* b, size_t n) { G g; return doRead((Handle*)c, b, n); }
static ssize_t cookieWrite(void* c, const char* b, size_t n) {
    G g;
    size_t done = 0;
    while (done < n) {
        ssize_t k = doWrite((Handle*)c, b + done, n - done, true);
        if (k <= 0) return done ? ssize_t(done) : 0;
        done += k;
    }
    return done;
}
static int cookieSeek(void* c, off64_t* o, int w) {
    Handle* h = (Handle*)c;
    int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? int64_t(h->pos) : int64_t(h->node->data.size());
    if (base + *o < 0) { errno = EINVAL; return -1; }
    h->pos = size_t(base + *o); *o = h->pos;
    return 0;
}
static int doClose(Handle* h) {
    Fs& f = fs();
    h->open = false;
    f.openHandles--;
    bool partial = false;
    int e = f.enter(Op::Close, h->path, &partial);
    // what was written last may turn out not to have been stored only now
    if (e && partial && f.lateErrors && h->wr && h->wrote && !h->node->special) {
        std::string& d = h->node->data;
        size_t lost = 1 + f.xfer.below(uint32_t(h->wrote < 4096 ? h->wrote : 4096));
        d.resize(d.size() > lost ? d.size() - lost : 0);
        fault("late write error");
    }
    if (e) { errno = e; return -1; }
    return 0;
}
static int cookieClose(void* c) { G g; return doClose((Handle*)c); }

static Handle* doOpen(const char* path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl, unsigned mode) {
    Fs& f = fs();
    std::shared_ptr<FsNode> n; std::string canon;
    int e = f.enter(wr ? Op::Create : Op::Open, path);
    if (e) { errno = e; return nullptr; }
    e = f.walk(path, n, &canon);
    if (e == ENOENT && creat) {
        std::shared_ptr<FsNode> p; std::string leaf;
        e = f.parentOf(path, p, leaf, &canon);
        std::string s(path);
        if (!e && s.back() == '/') e = EISDIR;
        if (!e && (p->kids.count(leaf) || leaf == "." || leaf == "..")) e = ENOENT;   // dangling link
        if (!e && !(p->mode & 0200) && !f.asRoot) e = EACCES;
        if (!e && f.capacity == 0) e = ENOSPC;
        if (!e) {
            n = std::make_shared<FsNode>();
            n->mode = mode;
            p->kids[leaf] = n;
            f.touched.push_back(canon);
        }
    } else if (!e) {
        if (excl) e = EEXIST;
        else if (n->dir && wr) e = EISDIR;
        else if (!f.asRoot && ((rd && !(n->mode & 0400)) || (wr && !(n->mode & 0200)))) e = EACCES;
        else if (wr) f.touched.push_back(canon);
    }
    if (e) { errno = e; return nullptr; }
    if (trunc && wr && !n->special) { n->data.clear(); n->dirty = true; }
    Handle* h = new Handle;
    h->node = n; h->path = canon; h->rd = rd; h->wr = wr; h->app = app;
    handles->push_back(h);
    f.openHandles++;
    return h;
}
static FILE* cookieFor(Handle* h, const char* mode) {
    cookie_io_functions_t io{cookieRead, cookieWrite, cookieSeek, cookieClose};
    FILE* fp = fopencookie(h, mode, io);
    h->file = fp;
    int fd = -1;
    for (size_t i = 0; i < handles->size(); i++) if ((*handles)[i] == h) fd = VFD + int(i);
    (*fileFd)[fp] = fd;
    return fp;
}
static FILE* simFopen(const char* path, const char* mode) {
    G g;
    bool plus = strchr(mode, '+'), excl = strchr(mode, 'x');
    bool r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
    if (!r && !w && !a) { errno = EINVAL; return nullptr; }
    Handle* h = doOpen(path, r || plus, w || a || plus, w || a, w, a, excl, 0644);
    if (!h) return nullptr;
    std::string m(1, mode[0]); if (plus) m += "+";
    return cookieFor(h, m.c_str());
}
static int simOpen(const char* path, int fl, unsigned mode) {
    G g;
    int acc = fl & O_ACCMODE;
    Handle* h = doOpen(path, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, (fl & O_EXCL) && (fl & O_CREAT), mode & 0777);
    if (!h) return -1;
    if ((fl & O_DIRECTORY) && !h->node->dir) { doClose(h); errno = ENOTDIR; return -1; }
    return VFD + int(handles->size()) - 1;
}
static void fillStat(const FsNode& n, struct stat* s) {
    memset(s, 0, sizeof *s);
    s->st_mode = n.mode | (n.symlink ? S_IFLNK : n.dir ? S_IFDIR : n.special ? S_IFCHR : S_IFREG);
    s->st_size = n.symlink ? n.link.size() : n.data.size();
    s->st_nlink = 1; s->st_blksize = 4096; s->st_uid = 1000; s->st_gid = 1000;
    s->st_ino = (ino_t)(uintptr_t)&n; s->st_dev = 1;
}
static int simStat(const char* path, struct stat* s, bool follow) {
    G g;
    Fs& f = fs();
    int e = f.enter(Op::Stat, path);
    std::shared_ptr<FsNode> n;
    if (!e) e = f.walk(path, n, nullptr, follow);
    if (e) { errno = e; return -1; }
    fillStat(*n, s);
    return 0;
}
static int simMkdir(const char* path, unsigned mode) {
    G g;
    Fs& f = fs();
    int e = f.enter(Op::Mkdir, path);
    std::shared_ptr<FsNode> n, p; std::string leaf, canon;
    if (!e && !f.walk(path, n, nullptr, false)) e = EEXIST;
    if (!e) e = f.parentOf(path, p, leaf, &canon);
    if (!e && p->kids.count(leaf)) e = EEXIST;
    if (!e && !(p->mode & 0200) && !f.asRoot) e = EACCES;
    if (!e && f.capacity == 0) e = ENOSPC;
    if (e) { errno = e; return -1; }
    auto d = std::make_shared<FsNode>();
    d->dir = true; d->mode = mode & 0777 & ~022u;
    p->kids[leaf] = d;
    f.touched.push_back(canon);
    return 0;
}
static int simUnlink(const char* path, bool dir, bool any = false) {
    Fs& f = fs();
    std::shared_ptr<FsNode> n, p; std::string leaf, canon;
    int e = f.walk(path, n, nullptr, false);
    if (any && !e) dir = n->dir;
    int fe = f.enter(dir ? Op::Rmdir : Op::Remove, path);
    if (fe) { errno = fe; return -1; }
    e = f.walk(path, n, nullptr, false);      // other actors may have acted
    if (!e) e = f.parentOf(path, p, leaf, &canon);
    if (!e && (leaf == "." || leaf == ".." )) e = EINVAL;
    if (!e && n == f.root) e = EBUSY;
    if (!e && dir && !n->dir) e = ENOTDIR;
    if (!e && !dir && n->dir) e = EISDIR;
    if (!e && dir && !n->kids.empty()) e = ENOTEMPTY;
    if (!e && !(p->mode & 0200) && !f.asRoot) e = EACCES;
    if (e) { errno = e; return -1; }
    p->kids.erase(leaf);
    f.touched.push_back(canon);
    return 0;
}
static int simRename(const char* a, const char* b) {
    Fs& f = fs();
    int e = f.enter(Op::Rename, a);
    std::shared_ptr<FsNode> n, m, p, q; std::string l1, l2, c1, c2;
    if (!e) e = f.walk(a, n, nullptr, false);
    if (!e) e = f.parentOf(a, p, l1, &c1);
    if (!e) e = f.parentOf(b, q, l2, &c2);
    if (!e && !((p->mode & 0200) && (q->mode & 0200)) && !f.asRoot) e = EACCES;
    if (!e && !f.walk(b, m, nullptr, false)) {
        if (m->dir && !n->dir) e = EISDIR;
        else if (!m->dir && n->dir) e = ENOTDIR;
        else if (m->dir && !m->kids.empty()) e = ENOTEMPTY;
    }
    if (e) { errno = e; return -1; }
    p->kids.erase(l1);
    q->kids[l2] = n;
    f.touched.push_back(c1); f.touched.push_back(c2);
    return 0;
}
static int simAccess(const char* path, int mode) {
    Fs& f = fs();
    int e = f.enter(Op::Access, path);
    std::shared_ptr<FsNode> n;
    if (!e) e = f.walk(path, n);
    if (!e && !f.asRoot && (((mode & R_OK) && !(n->mode & 0400)) || ((mode & W_OK) && !(n->mode & 0200)) || ((mode & X_OK) && !(n->mode & 0100)))) e = EACCES;
    if (e) { errno = e; return -1; }
    return 0;
}
static int simReaddirNames(const char* path, std::vector<std::string>& names) {
    Fs& f = fs();
    int e = f.enter(Op::Opendir, path);
    std::shared_ptr<FsNode> n;
    if (!e) e = f.walk(path, n);
    if (!e && !n->dir) e = ENOTDIR;
    if (!e && !(n->mode & 0400) && !f.asRoot) e = EACCES;
    if (e) { errno = e; return -1; }
    names.clear();
    names.push_back("."); names.push_back("..");
    for (auto& k : n->kids) names.push_back(k.first);
    if (f.shortTransfers) for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[f.xfer.below(uint32_t(i))]);
    return 0;
}

// ------------------------------------------------------------------------------- a small shell for system()
static bool glob1(const char* p, const char* s) {
    if (!*p) return !*s;
    if (*p == '*') { for (;; s++) { if (glob1(p + 1, s)) return true; if (!*s) return false; } }
    if (!*s) return false;
    if (*p == '?' || *p == *s) return glob1(p + 1, s + 1);
    return false;
}
static int rmTree(const std::string& path, bool rec) {
    Fs& f = fs();
    std::shared_ptr<FsNode> n;
    int e = f.walk(path, n, nullptr, false);
    if (e) return 1;
    if (n == f.root) return 1;
    if (n->dir) {
        if (!rec) return 1;
        int bad = 0;
        std::vector<std::string> names;
        if (simReaddirNames(path.c_str(), names)) return 1;
        for (auto& k : names) if (k != "." && k != "..") bad |= rmTree(path + "/" + k, true);
        if (bad) return 1;
        return simUnlink(path.c_str(), true) ? 1 : 0;
    }
    return simUnlink(path.c_str(), false) ? 1 : 0;
}
static int runWords(const std::vector<std::string>& w) {
    Fs& f = fs();
    if (w.empty()) return 0;
    f.ran.push_back(w);
    std::string cmd = w[0];
    size_t sl = cmd.rfind('/'); if (sl != std::string::npos && (cmd.find("/bin/") != std::string::npos)) cmd = cmd.substr(sl + 1);
    std::vector<std::string> args; std::string opts; bool end = false;
    for (size_t i = 1; i < w.size(); i++) {
        if (!end && w[i] == "--") { end = true; continue; }
        if (!end && w[i].size() > 1 && w[i][0] == '-') { opts += w[i].substr(1); continue; }
        args.push_back(w[i]);
    }
    if (cmd == "rm" || cmd == "rmdir") {
        bool force = opts.find('f') != std::string::npos, rec = opts.find_first_of("rR") != std::string::npos;
        if (args.empty()) return force ? 0 : 1;
        int bad = 0;
        for (auto& a : args) {
            std::shared_ptr<FsNode> n;
            if (f.walk(a, n, nullptr, false)) { if (!force) bad = 1; continue; }
            std::string b = a; while (b.size() > 1 && b.back() == '/') b.pop_back();
            size_t k = b.rfind('/'); std::string base = k == std::string::npos ? b : b.substr(k + 1);
            if (base == "." || base == "..") { bad = 1; continue; }
            if (cmd == "rmdir") { if (simUnlink(a.c_str(), true)) bad = 1; continue; }
            bad |= rmTree(a, rec);
        }
        return bad;
    }
    if (cmd == "mkdir") {
        int bad = 0;
        for (auto& a : args) {
            std::shared_ptr<FsNode> n;
            if (opts.find('p') != std::string::npos) {
                std::string cur = a[0] == '/' ? "/" : "";
                std::string part; 
                for (size_t i = 0; i <= a.size(); i++)
                    if (i == a.size() || a[i] == '/') { if (!part.empty()) { cur += part; if (f.walk(cur, n) && simMkdir(cur.c_str(), 0777)) bad = 1; cur += "/"; } part.clear(); } else part += a[i];
            } else if (simMkdir(a.c_str(), 0777)) bad = 1;
        }
        return bad;
    }
    if (cmd == "test" || cmd == "[") {
        std::vector<std::string> a(w.begin() + 1, w.end());
        if (!a.empty() && a.back() == "]") a.pop_back();
        std::shared_ptr<FsNode> n;
        if (a.size() == 2) { bool ok = !f.walk(a[1], n); if (a[0] == "-d") ok = ok && n->dir; if (a[0] == "-f") ok = ok && !n->dir; return ok ? 0 : 1; }
        return 2;
    }
    if (cmd == "true" || cmd == ":") return 0;
    if (cmd == "false") return 1;
    if (cmd == "cd") { std::shared_ptr<FsNode> n; if (!args.empty() && f.walk(args[0], n)) return 1; return 0; }
    std::shared_ptr<FsNode> n;
    f.commands.push_back("ran: " + w[0]);
    if (cmd.find('/') != std::string::npos && !f.walk(cmd, n) && !n->dir) return (n->mode & 0100) ? 0 : 126;
    return 127;
}
static int shell(const std::string& c) {
    int status = 0;
    bool skip = false;
    std::vector<std::string> words; std::string cur; bool have = false, quoted = false, unq = false;
    auto endWord = [&] {
        if (!have) return;
        if (unq && cur.find_first_of("*?") != std::string::npos) {
            size_t sl = cur.rfind('/');
            std::string dir = sl == std::string::npos ? "" : cur.substr(0, sl + 1), pat = cur.substr(dir.size());
            bool any = false;
            for (auto& k : fs().list(dir.empty() ? "." : dir)) if (k[0] != '.' && glob1(pat.c_str(), k.c_str())) { words.push_back(dir + k); any = true; }
            if (!any) words.push_back(cur);
        } else if (!cur.empty() || quoted) words.push_back(cur);
        cur.clear(); have = quoted = unq = false;
    };
    auto endCmd = [&](int how) {      // 0 ';', 1 '&&', 2 '||'
        endWord();
        if (!words.empty() && !skip) status = runWords(words);
        words.clear();
        skip = how == 1 ? status != 0 : how == 2 ? status == 0 : false;
    };
    for (size_t i = 0; i < c.size(); i++) {
        char ch = c[i];
        if (ch == '\'') { have = quoted = true; size_t e = c.find('\'', i + 1); if (e == std::string::npos) return 2; cur += c.substr(i + 1, e - i - 1); i = e; }
        else if (ch == '"') {
            have = quoted = true;
            for (i++; ; i++) {
                if (i >= c.size()) return 2;
                if (c[i] == '"') break;
                if (c[i] == '\\' && i + 1 < c.size() && strchr("\\\"$`", c[i + 1])) cur += c[++i];
                else if (c[i] == '$' && i + 1 < c.size() && (isalpha(c[i + 1]) || c[i + 1] == '_')) { while (i + 1 < c.size() && (isalnum(c[i + 1]) || c[i + 1] == '_')) i++; }
                else if (c[i] == '`' || (c[i] == '$' && i + 1 < c.size() && c[i + 1] == '(')) { fs().commands.push_back("ran: substitution"); size_t e = c.find(c[i] == '`' ? '`' : ')', i + 2); if (e == std::string::npos) return 2; i = e; }
                else cur += c[i];
            }
        }
        else if (ch == '\\') { have = true; if (i + 1 < c.size()) cur += c[++i]; }
        else if (ch == ' ' || ch == '\t') endWord();
        else if (ch == '\n' || ch == ';') endCmd(0);
        else if (ch == '&') { if (i + 1 < c.size() && c[i + 1] == '&') { i++; endCmd(1); } else endCmd(0); }
        else if (ch == '|') { if (i + 1 < c.size() && c[i + 1] == '|') { i++; endCmd(2); } else endCmd(0); }
        else if (ch == '>' || ch == '<') {
            if (cur == "1" || cur == "2") { cur.clear(); have = false; } else endWord();
            if (i + 1 < c.size() && (c[i + 1] == '>' || c[i + 1] == '&')) i++;
            while (i + 1 < c.size() && c[i + 1] == ' ') i++;
            std::string t; while (i + 1 < c.size() && !strchr(" \t\n;&|<>", c[i + 1])) t += c[++i];
            if (ch == '>' && t != "/dev/null" && t != "1" && t != "2" && !t.empty()) { Handle* h = doOpen(t.c_str(), false, true, true, true, false, false, 0644); if (h) doClose(h); }
        }
        else if (ch == '(' || ch == ')') return 2;
        else if (ch == '#' && !have) { while (i + 1 < c.size() && c[i + 1] != '\n') i++; }
        else if (ch == '`' || (ch == '$' && i + 1 < c.size() && c[i + 1] == '(')) { fs().commands.push_back("ran: substitution"); size_t e = c.find(ch == '`' ? '`' : ')', i + 2); if (e == std::string::npos) return 2; i = e; have = true; }
        else if (ch == '$' && i + 1 < c.size() && (isalpha(c[i + 1]) || c[i + 1] == '_')) { have = true; while (i + 1 < c.size() && (isalnum(c[i + 1]) || c[i + 1] == '_')) i++; }
        else { have = true; unq |= ch == '*' || ch == '?'; cur += ch; }
    }
    endCmd(0);
    return status;
}
struct SimDir { uint32_t magic; std::vector<std::string> names; size_t i; std::string path; struct dirent e; struct dirent64 e64; };
static const uint32_t DIRMAGIC = 0x51D1D1D1;

static int walkTree(const std::string& path, const std::function<int(const char*, const struct stat*, int, struct FTW*)>& fn, int flags, int level) {
    struct stat s;
    struct FTW w;
    size_t sl = path.rfind('/'); w.base = sl == std::string::npos ? 0 : int(sl) + 1; w.level = level;
    auto cb = [&](int kind) { int sv = sim_inSut; sim_inSut = 1; int r = fn(path.c_str(), &s, kind, &w); sim_inSut = sv; return r; };
    if (simStat(path.c_str(), &s, !(flags & FTW_PHYS))) { memset(&s, 0, sizeof s); return level == 0 ? -1 : cb(FTW_NS); }
    if (S_ISDIR(s.st_mode)) {
        std::vector<std::string> names;
        if (simReaddirNames(path.c_str(), names)) return cb(FTW_DNR);
        int r;
        if (!(flags & FTW_DEPTH) && (r = cb(FTW_D))) return r;
        for (auto& n : names) if (n != "." && n != "..") if ((r = walkTree(path + "/" + n, fn, flags, level + 1))) return r;
        if (flags & FTW_DEPTH) return cb(FTW_DP);
        return 0;
    }
    return cb(S_ISLNK(s.st_mode) ? FTW_SL : FTW_F);
}
} // namespace sim

using namespace sim;

extern "C" {
FILE* fopen(const char* p, const char* m) { if (IN) return simFopen(p, m); REAL(fopen); return r_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { if (IN) return simFopen(p, m); REAL(fopen64); return r_fopen64(p, m); }
FILE* freopen(const char* p, const char* m, FILE* f) { if (IN) { errno = ENOSYS; return nullptr; } REAL(freopen); return r_freopen(p, m, f); }
FILE* fdopen(int fd, const char* m) noexcept {
    if (IN) if (Handle* h = byFd(fd)) { G g; std::string mm(1, m[0]); return cookieFor(h, mm.c_str()); }
    REAL(fdopen); return r_fdopen(fd, m);
}
FILE* popen(const char* c, const char* m) { if (IN) { G g; fs().commands.push_back(std::string("ran: ") + c); errno = ENOSYS; return nullptr; } REAL(popen); return r_popen(c, m); }
int fileno(FILE* f) noexcept {
    if (fileFd) { G g; auto it = fileFd->find(f); if (it != fileFd->end()) return it->second; if (f == stdout) return 1; if (f == stderr) return 2; }
    REAL(fileno); return r_fileno(f);
}
int fclose(FILE* f) {
    REAL(fclose);
    if (fileFd) { G g; fileFd->erase(f); }
    return r_fclose(f);
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); unsigned m = va_arg(a, unsigned); va_end(a); if (IN) return simOpen(p, fl, m); static auto r = real<int (*)(const char*, int, ...)>("open"); return r(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); unsigned m = va_arg(a, unsigned); va_end(a); if (IN) return simOpen(p, fl, m); static auto r = real<int (*)(const char*, int, ...)>("open64"); return r(p, fl, m); }
int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); unsigned m = va_arg(a, unsigned); va_end(a); if (IN) return simOpen(p, fl, m); static auto r = real<int (*)(int, const char*, int, ...)>("openat"); return r(d, p, fl, m); }
int creat(const char* p, mode_t m) { if (IN) return simOpen(p, O_CREAT | O_WRONLY | O_TRUNC, m); static auto r = real<int (*)(const char*, mode_t)>("creat"); return r(p, m); }
int close(int fd) {
    if (handles && fd >= VFD) { G g; Handle* h = byFd(fd); if (!h) { errno = EBADF; return -1; } return doClose(h); }
    REAL(close); return r_close(fd);
}
ssize_t read(int fd, void* b, size_t n) {
    if (handles && fd >= VFD) { G g; Handle* h = byFd(fd); if (!h) { errno = EBADF; return -1; } return doRead(h, (char*)b, n); }
    if (IN && fd == 0) return 0;
    REAL(read); return r_read(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (handles && fd >= VFD) { G g; Handle* h = byFd(fd); if (!h) { errno = EBADF; return -1; } return doWrite(h, (const char*)b, n, false); }
    if (IN && (fd == 1 || fd == 2)) { G g; (fd == 1 ? outText : errText)->append((const char*)b, n); return n; }
    REAL(write); return r_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (handles && fd >= VFD) {
        G g; Handle* h = byFd(fd); if (!h) { errno = EBADF; return -1; }
        std::string all; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
        return doWrite(h, all.data(), all.size(), false);
    }
    REAL(writev); return r_writev(fd, v, c);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept {
    if (handles && fd >= VFD) { G g; Handle* h = byFd(fd); if (!h) { errno = EBADF; return -1; } if (cookieSeek(h, &o, w)) return -1; return o; }
    REAL(lseek64); return r_lseek64(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) noexcept {
    if (handles && fd >= VFD) return lseek64(fd, o, w);
    REAL(lseek); return r_lseek(fd, o, w);
}
int fsync(int fd) {
    if (handles && fd >= VFD) { G g; Handle* h = byFd(fd); if (!h) { errno = EBADF; return -1; } int e = fs().enter(Op::Sync, h->path); if (e) { errno = e; return -1; } h->node->dirty = false; h->node->stable = h->node->data; return 0; }
    REAL(fsync); return r_fsync(fd);
}
int fdatasync(int fd) { if (handles && fd >= VFD) return fsync(fd); REAL(fdatasync); return r_fdatasync(fd); }
int ftruncate(int fd, off_t n) noexcept {
    if (handles && fd >= VFD) { G g; Handle* h = byFd(fd); if (!h) { errno = EBADF; return -1; } int e = fs().enter(Op::Truncate, h->path); if (e) { errno = e; return -1; } h->node->data.resize(n); return 0; }
    REAL(ftruncate); return r_ftruncate(fd, n);
}
int stat(const char* __restrict p, struct stat* __restrict s) noexcept { if (IN) return simStat(p, s, true); REAL(lstat); static auto r = real<int (*)(const char*, struct stat*)>("stat"); return r(p, s); }
int lstat(const char* __restrict p, struct stat* __restrict s) noexcept { if (IN) return simStat(p, s, false); static auto r = real<int (*)(const char*, struct stat*)>("lstat"); return r(p, s); }
int stat64(const char* __restrict p, struct stat64* __restrict s) noexcept { if (IN) return simStat(p, (struct stat*)s, true); static auto r = real<int (*)(const char*, struct stat64*)>("stat64"); return r(p, s); }
int lstat64(const char* __restrict p, struct stat64* __restrict s) noexcept { if (IN) return simStat(p, (struct stat*)s, false); static auto r = real<int (*)(const char*, struct stat64*)>("lstat64"); return r(p, s); }
int fstatat(int d, const char* __restrict p, struct stat* __restrict s, int fl) noexcept { if (IN) return simStat(p, s, !(fl & AT_SYMLINK_NOFOLLOW)); static auto r = real<int (*)(int, const char*, struct stat*, int)>("fstatat"); return r(d, p, s, fl); }
int fstat(int fd, struct stat* s) noexcept {
    if (handles && fd >= VFD) { G g; Handle* h = byFd(fd); if (!h) { errno = EBADF; return -1; } fillStat(*h->node, s); return 0; }
    static auto r = real<int (*)(int, struct stat*)>("fstat"); return r(fd, s);
}
int fstat64(int fd, struct stat64* s) noexcept {
    if (handles && fd >= VFD) return fstat(fd, (struct stat*)s);
    static auto r = real<int (*)(int, struct stat64*)>("fstat64"); return r(fd, s);
}
int mkdir(const char* p, mode_t m) noexcept { if (IN) return simMkdir(p, m); REAL(mkdir); return r_mkdir(p, m); }
int mkdirat(int d, const char* p, mode_t m) noexcept { if (IN) return simMkdir(p, m); REAL(mkdirat); return r_mkdirat(d, p, m); }
int rmdir(const char* p) noexcept { if (IN) { G g; return simUnlink(p, true); } REAL(rmdir); return r_rmdir(p); }
int unlink(const char* p) noexcept { if (IN) { G g; return simUnlink(p, false); } REAL(unlink); return r_unlink(p); }
int unlinkat(int d, const char* p, int fl) noexcept { if (IN) { G g; return simUnlink(p, fl & AT_REMOVEDIR); } REAL(unlinkat); return r_unlinkat(d, p, fl); }
int remove(const char* p) noexcept { if (IN) { G g; return simUnlink(p, false, true); } static auto r = real<int (*)(const char*)>("remove"); return r(p); }
int rename(const char* a, const char* b) noexcept { if (IN) { G g; return simRename(a, b); } REAL(rename); return r_rename(a, b); }
int access(const char* p, int m) noexcept { if (IN) { G g; return simAccess(p, m); } REAL(access); return r_access(p, m); }
int euidaccess(const char* p, int m) noexcept { if (IN) { G g; return simAccess(p, m); } REAL(euidaccess); return r_euidaccess(p, m); }
int eaccess(const char* p, int m) noexcept { if (IN) { G g; return simAccess(p, m); } REAL(eaccess); return r_eaccess(p, m); }
int faccessat(int d, const char* p, int m, int fl) noexcept { if (IN) { G g; return simAccess(p, m); } REAL(faccessat); return r_faccessat(d, p, m, fl); }
char* realpath(const char* __restrict p, char* __restrict out) noexcept {
    if (IN) {
        G g;
        int e = fs().enter(Op::Realpath, p ? p : "");
        std::shared_ptr<FsNode> n; std::string c;
        if (!p) e = EINVAL;
        if (!e) e = fs().walk(p, n, &c);
        if (e) { errno = e; return nullptr; }
        if (!out) out = (char*)malloc(c.size() + 1);
        strcpy(out, c.c_str());
        return out;
    }
    static auto r = real<char* (*)(const char*, char*)>("realpath"); return r(p, out);
}
char* canonicalize_file_name(const char* p) noexcept { if (IN) return realpath(p, nullptr); REAL(canonicalize_file_name); return r_canonicalize_file_name(p); }
ssize_t readlink(const char* __restrict p, char* __restrict b, size_t n) noexcept {
    if (IN) {
        G g; std::shared_ptr<FsNode> k;
        int e = fs().enter(Op::Stat, p);
        if (!e) e = fs().walk(p, k, nullptr, false);
        if (!e && !k->symlink) e = EINVAL;
        if (e) { errno = e; return -1; }
        size_t m = std::min(n, k->link.size()); memcpy(b, k->link.data(), m); return m;
    }
    REAL(readlink); return r_readlink(p, b, n);
}
char* getcwd(char* b, size_t n) noexcept {
    if (IN) {
        G g;
        int e = fs().enter(Op::Chdir, ".");
        if (e) { errno = e; return nullptr; }
        const std::string& c = fs().cwd;
        if (!b) { b = (char*)malloc(std::max(n, c.size() + 1)); n = c.size() + 1; }
        if (n < c.size() + 1) { errno = ERANGE; return nullptr; }
        strcpy(b, c.c_str()); return b;
    }
    REAL(getcwd); return r_getcwd(b, n);
}
int chdir(const char* p) noexcept {
    if (IN) {
        G g;
        int e = fs().enter(Op::Chdir, p);
        std::shared_ptr<FsNode> n; std::string c;
        if (!e) e = fs().walk(p, n, &c);
        if (!e && !n->dir) e = ENOTDIR;
        if (!e && !(n->mode & 0100) && !fs().asRoot) e = EACCES;
        if (e) { errno = e; return -1; }
        fs().cwd = c; return 0;
    }
    REAL(chdir); return r_chdir(p);
}
int chmod(const char* p, mode_t m) noexcept {
    if (IN) { G g; std::shared_ptr<FsNode> n; std::string c; int e = fs().walk(p, n, &c); if (e) { errno = e; return -1; } n->mode = m & 0777; fs().touched.push_back(c); return 0; }
    REAL(chmod); return r_chmod(p, m);
}
int truncate(const char* p, off_t len) noexcept {
    if (IN) { G g; std::shared_ptr<FsNode> n; std::string c; int e = fs().enter(Op::Truncate, p); if (!e) e = fs().walk(p, n, &c); if (e) { errno = e; return -1; } n->data.resize(len); fs().touched.push_back(c); return 0; }
    REAL(truncate); return r_truncate(p, len);
}
DIR* opendir(const char* p) {
    if (IN) {
        G g;
        SimDir* d = new SimDir; d->magic = DIRMAGIC; d->i = 0; d->path = p;
        if (simReaddirNames(p, d->names)) { int e = errno; delete d; errno = e; return nullptr; }
        fs().openHandles++;
        return (DIR*)d;
    }
    REAL(opendir); return r_opendir(p);
}
static unsigned char dtype(SimDir* d, const std::string& name) {
    std::shared_ptr<FsNode> n;
    if (fs().walk(d->path + "/" + name, n, nullptr, false)) return DT_UNKNOWN;
    return n->symlink ? DT_LNK : n->dir ? DT_DIR : n->special ? DT_CHR : DT_REG;
}
struct dirent* readdir(DIR* dd) {
    SimDir* d = (SimDir*)dd;
    if (handles && d->magic == DIRMAGIC) {
        G g;
        int e = fs().enter(Op::Readdir, d->path);
        if (e) { errno = e; return nullptr; }
        if (d->i >= d->names.size()) return nullptr;
        memset(&d->e, 0, sizeof d->e);
        d->e.d_ino = 1; d->e.d_type = dtype(d, d->names[d->i]); strncpy(d->e.d_name, d->names[d->i].c_str(), 255); d->e.d_reclen = sizeof d->e;
        d->i++;
        return &d->e;
    }
    REAL(readdir); return r_readdir(dd);
}
struct dirent64* readdir64(DIR* dd) {
    SimDir* d = (SimDir*)dd;
    if (handles && d->magic == DIRMAGIC) return (struct dirent64*)readdir(dd);
    REAL(readdir64); return r_readdir64(dd);
}
int closedir(DIR* dd) {
    SimDir* d = (SimDir*)dd;
    if (handles && d->magic == DIRMAGIC) { G g; d->magic = 0; fs().openHandles--; delete d; return 0; }
    REAL(closedir); return r_closedir(dd);
}
int nftw(const char* p, __nftw_func_t fn, int nfd, int flags) {
    if (IN) { G g; std::string s(p); while (s.size() > 1 && s.back() == '/') s.pop_back(); return walkTree(s, [fn](const char* a, const struct stat* b, int c, struct FTW* w) { return fn(a, b, c, w); }, flags, 0); }
    REAL(nftw); return r_nftw(p, fn, nfd, flags);
}
int ftw(const char* p, __ftw_func_t fn, int nfd) {
    if (IN) { G g; return walkTree(p, [fn](const char* a, const struct stat* b, int c, struct FTW*) { return fn(a, b, c); }, 0, 0); }
    REAL(ftw); return r_ftw(p, fn, nfd);
}
int system(const char* c) {
    if (IN) {
        G g;
        if (!c) return 1;
        fs().commands.push_back(c);
        log("system(%s)", shown(c).c_str());
        int e = fs().enter(Op::System, c);
        if (e) { errno = e; return -1; }
        return (shell(c) & 0xff) << 8;
    }
    REAL(system); return r_system(c);
}
pid_t fork(void) noexcept { if (IN) { fs().commands.push_back("ran: fork"); errno = EAGAIN; return -1; } static auto r = real<pid_t (*)()>("fork"); return r(); }
int execv(const char* p, char* const a[]) noexcept { if (IN) { fs().commands.push_back(std::string("ran: ") + p); errno = ENOENT; return -1; } static auto r = real<int (*)(const char*, char* const*)>("execv"); return r(p, a); }
int execvp(const char* p, char* const a[]) noexcept { if (IN) { fs().commands.push_back(std::string("ran: ") + p); errno = ENOENT; return -1; } static auto r = real<int (*)(const char*, char* const*)>("execvp"); return r(p, a); }

// ------------------------------------------------------------------------------- terminal
int isatty(int fd) noexcept {
    if (IN && fd >= 0 && fd < 3) { if (terminal.tty && (fd != 0 || terminal.stdinTty)) return 1; errno = ENOTTY; return 0; }
    if (handles && fd >= VFD) { errno = ENOTTY; return 0; }
    REAL(isatty); return r_isatty(fd);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list a; va_start(a, req); void* p = va_arg(a, void*); va_end(a);
    if (handles && fd >= VFD) {
        G g; Handle* h = byFd(fd);
        if (h && req == FIONREAD) { *(int*)p = h->pos < h->node->data.size() ? int(h->node->data.size() - h->pos) : 0; return 0; }
        errno = ENOTTY; return -1;
    }
    if (IN && fd >= 0 && fd < 3) {
        G g;
        if (req == TIOCGWINSZ) {
            if (!terminal.tty || (fd == 0 && !terminal.stdinTty)) { if (fd == 0 && terminal.tty) fault("standard input is not the terminal"); errno = ENOTTY; return -1; }
            if (terminal.ioctlFails) { fault("window size unknown"); errno = EINVAL; return -1; }
            struct winsize* w = (struct winsize*)p; memset(w, 0, sizeof *w); w->ws_row = 24; w->ws_col = (unsigned short)terminal.columns; return 0;
        }
        errno = ENOTTY; return -1;
    }
    static auto r = real<int (*)(int, unsigned long, ...)>("ioctl"); return r(fd, req, p);
}
int poll(struct pollfd* f, nfds_t n, int t) {
    if (handles && n == 1 && f[0].fd >= VFD) { f[0].revents = f[0].events & (POLLIN | POLLOUT); return 1; }
    static auto r = real<int (*)(struct pollfd*, nfds_t, int)>("poll"); return r(f, n, t);
}

// ------------------------------------------------------------------------------- clock
static int64_t readClock(clockid_t c) {
    auto j = ::sim::clock.jumps.find(::sim::clock.readings++);
    if (j != ::sim::clock.jumps.end()) { ::sim::clock.realNs += j->second; fault(j->second < 0 ? "wall clock set back" : "wall clock set forward"); }
    ::sim::clock.advance(::sim::clock.tickNs);
    return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? ::sim::clock.realNs : ::sim::clock.monoNs;
}
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    if (IN) { G g; int64_t n = readClock(c); t->tv_sec = n / 1000000000ll; t->tv_nsec = n % 1000000000ll; return 0; }
    static auto r = real<int (*)(clockid_t, struct timespec*)>("clock_gettime"); return r(c, t);
}
int gettimeofday(struct timeval* __restrict t, void* __restrict) noexcept {
    if (IN) { G g; int64_t n = readClock(CLOCK_REALTIME); t->tv_sec = n / 1000000000ll; t->tv_usec = (n % 1000000000ll) / 1000; return 0; }
    static auto r = real<int (*)(struct timeval*, void*)>("gettimeofday"); return r(t, nullptr);
}
time_t time(time_t* t) noexcept {
    if (IN) { G g; time_t v = readClock(CLOCK_REALTIME) / 1000000000ll; if (t) *t = v; return v; }
    static auto r = real<time_t (*)(time_t*)>("time"); return r(t);
}
clock_t clock(void) noexcept {
    if (IN) { G g; return clock_t(readClock(CLOCK_MONOTONIC) / 1000); }
    static auto r = real<clock_t (*)()>("clock"); return r();
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (IN) { G g; ::sim::clock.advance(int64_t(a->tv_sec) * 1000000000ll + a->tv_nsec); return 0; }
    static auto r = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep"); return r(a, b);
}
int usleep(useconds_t u) { if (IN) { ::sim::clock.advance(int64_t(u) * 1000); return 0; } static auto r = real<int (*)(useconds_t)>("usleep"); return r(u); }
unsigned sleep(unsigned u) { if (IN) { ::sim::clock.advance(int64_t(u) * 1000000000ll); return 0; } static auto r = real<unsigned (*)(unsigned)>("sleep"); return r(u); }
}
