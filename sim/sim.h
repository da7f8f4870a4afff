// Deterministic simulator: public interface used by the scenarios.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <exception>
#include <new>
#include <ios>
#include <typeinfo>

namespace sim {

// ---- choices: every random decision; 0 is always the simplest alternative -----------------
uint32_t choose(uint32_t n);                       // 0..n-1
inline bool chance(uint32_t num, uint32_t den) {   // true with probability num/den
    // recorded as 0 = no, 1 = yes
    extern bool chanceImpl(uint32_t, uint32_t);
    return chanceImpl(num, den);
}
inline int range(int lo, int hi) { return lo + int(choose(uint32_t(hi - lo + 1))); }
template <class T> const T& pick(const std::vector<T>& v) { return v[choose(uint32_t(v.size()))]; }
uint32_t seedChoice();                             // a seed for a sub-generator, 0 = plain

// A private generator, for things that need many draws of one recorded seed.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 11) % n) : 0; }
};

// ---- record --------------------------------------------------------------------------------
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void violation(const std::string& cls, const std::string& detail);
inline void check(bool ok, const std::string& cls, const std::string& detail = "") {
    if (!ok) violation(cls, detail);
}
void fault(const char* kind);       // a fault of this kind was actually injected
void probe(const char* name);       // a rare condition worth counting was reached
void state(uint64_t h);             // a state reached, for the distinct-state measure
void state(const std::string& s);
void nontrivial();                  // this run exercised what the property is about
uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(const std::string& s) { return hash(s.data(), s.size()); }
void simTime(double seconds);       // simulated time covered

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string shown(const std::string& s, size_t max = 300);   // printable excerpt

// ---- entering the system under test --------------------------------------------------------
struct SutScope {
    SutScope();
    ~SutScope();
    SutScope(const SutScope&) = delete;
};
struct FrameworkScope {   // back to the framework, from inside a callback of the system
    int saved;
    FrameworkScope();
    ~FrameworkScope();
};
bool inSut();
void setBudget(uint64_t steps);     // basic blocks allowed per SutScope
uint64_t steps();                   // basic blocks executed so far in the run

struct Outcome {
    bool threw = false;
    bool badAlloc = false;
    bool logic = false;             // std::logic_error family
    std::string type, what;
    explicit operator bool() const { return !threw; }
    std::string str() const { return threw ? "threw " + type + ": " + what : "returned"; }
};
std::string demangle(const char*);

template <class F> Outcome call(const char* name, F&& f) {
    Outcome o;
    try {
        SutScope s;
        f();
    } catch (const std::bad_alloc& e) {
        o.threw = true; o.badAlloc = true; o.type = "std::bad_alloc"; o.what = e.what();
    } catch (const std::logic_error& e) {
        o.threw = true; o.logic = true; o.type = demangle(typeid(e).name()); o.what = e.what();
    } catch (const std::exception& e) {
        o.threw = true; o.type = demangle(typeid(e).name()); o.what = e.what();
    } catch (...) {
        o.threw = true; o.type = "unknown"; o.what = "";
    }
    log("%s -> %s", name, o.threw ? o.type.c_str() : "ok");
    return o;
}

// ---- heap ----------------------------------------------------------------------------------
enum class Layout { Ascending, Descending, Lanes, Reuse, Mixed, Count };
void setLayout(Layout l, uint32_t seed);    // placement and fill of further allocations
void randomLayout();                        // chosen by the run
std::string layoutName();
uint64_t allocCount();                      // allocations made so far in system scopes
void failAlloc(uint64_t after, uint32_t howMany); // the after-th allocation from now (0-based) fails, and following ones
void failAllocOff();
bool allocFired();                          // did an allocation fail since failAlloc()
bool inArena(const void* p);

// ---- isolation: run f in a forked process sharing choices and log ---------------------------
// Returns false if it crashed through crashNow(). A violation in it ends the run.
// The string written by setResult() in the child is returned through result.
bool isolated(const std::function<void()>& f, std::string* result = nullptr);
void setResult(const std::string& s);
[[noreturn]] void crashNow();

// ---- standard output, terminal, clock -------------------------------------------------------
std::string takeOutput();                   // text that reached the real standard output
std::string takeErrors();                   // text that reached standard error
struct Terminal {
    bool tty = false;
    int columns = 80;
    bool ioctlFails = false;
    bool stdinTty = true;                           // standard input is that terminal as well
};
extern Terminal terminal;
struct Clock {
    int64_t realNs = 1500000000ll * 1000000000ll;   // wall clock
    int64_t monoNs = 1000ll * 1000000000ll;         // monotonic clock
    int64_t tickNs = 0;                             // advance at every reading
    uint64_t readings = 0;
    std::map<uint64_t, int64_t> jumps;              // before this reading the wall clock jumps by so much
    void advance(int64_t ns) { realNs += ns; monoNs += ns; }
};
extern Clock clock;

// ---- to be defined by each property ---------------------------------------------------------
extern const char* const kProperty;
void run();                                 // one simulated run
// Class keys of violations listed as known findings are passed by the driver.
} // namespace sim
