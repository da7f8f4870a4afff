// The simulated disk.
#pragma once
#include "sim.h"
#include <memory>

namespace sim {

enum class Op { Open, Create, Read, Write, Close, Stat, Mkdir, Remove, Rmdir, Opendir, Readdir,
                Realpath, Rename, Access, System, Chdir, Truncate, Sync, Count };
const char* opName(Op);

struct FsNode {
    bool dir = false;
    bool special = false;     // a device: neither folder nor regular file
    std::string data;
    unsigned mode = 0644;
    std::map<std::string, std::shared_ptr<FsNode>> kids;
    std::string link;         // symbolic link target
    bool symlink = false;
    bool existed = false;     // was there at the last markDurable()
    bool dirty = false;       // written since
    std::string stable;       // content then
};

struct Fault {
    // matches the at-th (0-based, counted since arm) operation for which accept() holds
    std::function<bool(Op, const std::string& path)> accept;
    uint64_t at = 0;
    int err = 0;              // errno, or 0 with crash / special kinds
    bool sticky = false;      // all further matching operations fail as well
    bool crash = false;
    bool partial = false;     // a failing write first stores part of its data
    uint64_t seen = 0;
    uint64_t fired = 0;
};

struct Event { std::function<void()> act; uint64_t atOp; };

class Fs {
public:
    Fs();
    void reset();
    // direct access by the scenarios (never faulted)
    void mkdirs(const std::string& path);
    void put(const std::string& path, const std::string& data, unsigned mode = 0644);
    bool get(const std::string& path, std::string& data) const;
    std::string must(const std::string& path) const;
    bool exists(const std::string& path) const;
    bool isDir(const std::string& path) const;
    void erase(const std::string& path);
    void chmod(const std::string& path, unsigned mode);
    void symlink(const std::string& target, const std::string& path);
    void special(const std::string& path);
    std::map<std::string, std::string> snapshot(const std::string& under = "/") const; // path -> "D" or "F<data>"
    std::vector<std::string> list(const std::string& dir) const;
    std::string serialize() const;
    void deserialize(const std::string&);
    void loseVolatile();      // crash: keep a seeded durable subset of what was written
    void markDurable();

    std::string cwd = "/work";
    // limits and faults
    int64_t capacity = -1;    // bytes that may still be written, -1 = unlimited
    std::vector<Fault> faults;
    std::vector<Event> events;        // acts of other actors, by operation number
    bool shortTransfers = false;      // benign: short reads and writes
    bool interrupts = false;          // benign for restartable calls: EINTR
    bool lateErrors = false;          // a failing close may lose what was written last
    bool asRoot = false;
    Rng xfer{0};
    // record
    uint64_t ops = 0;
    uint64_t opCount[size_t(Op::Count)] = {};
    std::vector<std::string> commands;   // commands given to system()
    std::vector<std::vector<std::string>> ran;   // words of the commands run by them
    std::vector<std::string> touched;    // paths given to modifying calls, resolved
    int openHandles = 0;
    bool keepTrace = false;
    std::vector<std::pair<Op, std::string>> trace;

    // used by the interposed calls; return 0 or errno
    std::shared_ptr<FsNode> root;
    int walk(const std::string& path, std::shared_ptr<FsNode>& node, std::string* canonical = nullptr,
             bool followLast = true, int depth = 0) const;
    int parentOf(const std::string& path, std::shared_ptr<FsNode>& parent, std::string& leaf, std::string* canon = nullptr) const;
    int enter(Op op, const std::string& path, bool* partial = nullptr);    // faults, events; returns errno to fail with
    std::string absolute(const std::string& p) const;
};
Fs& fs();
bool allowedErrno(Op, int err);
// A random applicable error for an operation kind.
int pickErrno(Op);

} // namespace sim
