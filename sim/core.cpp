// Simulator core: choices, event log, simulated heap, run isolation, search driver, minimiser.
// Compiled without instrumentation.
#include "sim.h"
#include "fs.h"
#include <sanitizer/asan_interface.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <dlfcn.h>
#include <sstream>
#include <fstream>
#include <iostream>

extern "C" int sim_inSut;
int sim_inSut = 0;

namespace sim {

static const uint32_t MAXC = 400000;
static const uint32_t MAXTEXT = 96 * 1024;
static const uint32_t MAXBLOB = 8 << 20;

struct Counter { char name[40]; uint64_t n; };
static const int NCOUNT = 96;

struct Shared {            // one per worker; written by the run
    uint64_t rng;
    uint32_t replay, nIn, nOut;
    uint64_t hash, events;
    uint32_t textLen;
    uint32_t done, violated, nontriv, hang;
    char cls[160];
    char detail[6000];
    uint64_t steps, allocs, callSteps;
    double simSeconds;
    Counter faults[NCOUNT], probes[NCOUNT];
    uint64_t states[256]; uint32_t nStates;
    uint32_t blobLen;
    uint8_t cov[1 << 16];
    uint32_t in[MAXC], out[MAXC];
    char text[MAXTEXT];
    char blob[MAXBLOB];
};
static Shared* S = nullptr;

struct Guard { int saved; Guard() : saved(sim_inSut) { sim_inSut = 0; } ~Guard() { sim_inSut = saved; } };

// ------------------------------------------------------------------------------------------ choices
static uint64_t nextRaw() {
    uint64_t z = (S->rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint32_t record(uint32_t v) {
    if (S->nOut < MAXC) S->out[S->nOut++] = v;
    return v;
}
uint32_t choose(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (S->nOut >= MAXC) return 0;
    if (S->replay) { v = S->nOut < S->nIn ? S->in[S->nOut] : 0; if (v >= n) v = n - 1; }
    else v = uint32_t((nextRaw() >> 16) % n);
    return record(v);
}
bool chanceImpl(uint32_t num, uint32_t den) {
    uint32_t v;
    if (S->nOut >= MAXC) return false;
    if (S->replay) { v = S->nOut < S->nIn ? S->in[S->nOut] : 0; if (v > 1) v = 1; }
    else v = (nextRaw() >> 16) % den < num;
    return record(v) != 0;
}
uint32_t seedChoice() { return choose(65536); }

// ------------------------------------------------------------------------------------------ record
uint64_t hash(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
static void logRaw(const char* b, size_t n) {
    S->hash = hash(b, n, S->hash);
    S->events++;
    if (S->textLen + n + 2 < MAXTEXT) {
        memcpy(S->text + S->textLen, b, n);
        S->textLen += n;
        S->text[S->textLen++] = '\n';
    }
}
void log(const char* f, ...) {
    Guard g;
    char b[1500];
    va_list a; va_start(a, f);
    int n = vsnprintf(b, sizeof b, f, a);
    va_end(a);
    if (n < 0) return;
    if (n >= (int)sizeof b) n = sizeof b - 1;
    logRaw(b, n);
}
std::string fmt(const char* f, ...) {
    Guard g;
    char b[4000];
    va_list a; va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
std::string shown(const std::string& s, size_t max) {
    std::string r;
    for (size_t i = 0; i < s.size() && r.size() < max; i++) {
        unsigned char c = s[i];
        if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += fmt("\\x%02x", c);
        else r += char(c);
    }
    if (r.size() >= max) r += "...";
    return r;
}
std::string demangle(const char* n) {
    int st = 0;
    char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = st == 0 && d ? d : n;
    free(d);
    return r;
}
void violation(const std::string& cls, const std::string& detail) {
    sim_inSut = 0;
    if (!S->violated) {
        snprintf(S->cls, sizeof S->cls, "%s", cls.c_str());
        snprintf(S->detail, sizeof S->detail, "%s", detail.c_str());
        logRaw(cls.data(), cls.size());
        S->violated = 1;
    }
    _exit(9);
}
static void bump(Counter* c, const char* name) {
    for (int i = 0; i < NCOUNT; i++) {
        if (!c[i].name[0]) snprintf(c[i].name, sizeof c[i].name, "%s", name);
        if (!strncmp(c[i].name, name, sizeof c[i].name - 1)) { c[i].n++; return; }
    }
}
void fault(const char* k) { Guard g; bump(S->faults, k); }
void probe(const char* k) { Guard g; bump(S->probes, k); }
void state(uint64_t h) { if (S->nStates < 256) S->states[S->nStates++] = h; }
void state(const std::string& s) { state(hash(s)); }
void nontrivial() { S->nontriv = 1; }
void simTime(double s) { S->simSeconds += s; }

// ------------------------------------------------------------------------------------------ simulated CPU
static uint64_t budget = 40000000;
void setBudget(uint64_t b) { budget = b; }
uint64_t steps() { return S ? S->steps : 0; }
static void noProgress() { violation("no-progress", fmt("no end within %llu basic blocks", (unsigned long long)budget)); }

extern "C" void __sanitizer_cov_trace_pc() {
    if (!sim_inSut) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    S->cov[(pc ^ (pc >> 16)) & 0xffff] = 1;
    S->steps++;
    if (++S->callSteps > budget) noProgress();
}

static __attribute__((noinline)) void scribble(unsigned char pattern, uint32_t seed) {
    volatile unsigned char buf[24 * 1024];
    if (seed == 0)
        for (size_t i = 0; i < sizeof buf; i++) buf[i] = pattern;
    else {
        Rng r(seed);
        for (size_t i = 0; i + 8 <= sizeof buf; i += 8) {
            uint64_t v = r.next();
            for (int k = 0; k < 8; k++) buf[i + k] = (unsigned char)(v >> (8 * k));
        }
    }
}
static unsigned char stackPattern = 0;
static uint32_t stackSeed = 0;

static int fwInside = 0;    // framework scopes within system scopes: re-entering from there is cheap
SutScope::SutScope() {
    if (sim_inSut == 0 && fwInside == 0) { scribble(stackPattern, stackSeed); S->callSteps = 0; }
    sim_inSut++;
}
SutScope::~SutScope() { sim_inSut--; }
FrameworkScope::FrameworkScope() : saved(sim_inSut) { sim_inSut = 0; if (saved) fwInside++; }
FrameworkScope::~FrameworkScope() { sim_inSut = saved; if (saved) fwInside--; }
bool inSut() { return sim_inSut != 0; }

// ------------------------------------------------------------------------------------------ heap
static char* const ARENA = (char*)0x200000000000ull;
static const size_t LANE = 16u << 20, LANES = 8, ARENASZ = LANE * LANES;
struct Head { uint32_t magic; uint32_t cls; uint64_t size; uint64_t seq; uint64_t pad; };  // 32 bytes
static const uint32_t LIVE = 0xA11C0DE1, DEAD = 0xDEADB10C;
static char* lo[LANES]; static char* hi[LANES];
static size_t bumped;                // bytes handed out from fresh memory
static Layout layout = Layout::Ascending;
static Rng heapRng(0);
static int fillMode = 0;
static uint64_t nAlloc = 0, failAt = ~0ull; static uint32_t failLeft = 0; static bool failFired = false;
struct FreeList { Head* items[64]; int n; };
static FreeList freeList[256];
static Head* spare[256];            // freed blocks beyond those, used again when the arena fills up
static void keep(Head* h) { memcpy(&h->pad, &spare[h->cls], sizeof h->pad); spare[h->cls] = h; }
static uint64_t liveBytes;
static Head* big;                    // freed large blocks
static char* takeBig(size_t cls, bool any) {
    for (Head** p = &big; *p; p = (Head**)&(*p)->pad) if ((*p)->cls >= cls && (any || (*p)->cls <= 2 * cls)) { Head* h = *p; *p = (Head*)h->pad; return (char*)h; }
    return nullptr;
}
static char* takeSpare(size_t cls, size_t most) {
    for (; cls < 256 && cls <= most; cls++) if (Head* h = spare[cls]) { memcpy(&spare[cls], &h->pad, sizeof h->pad); return (char*)h; }
    return nullptr;
}

bool inArena(const void* p) { return (const char*)p >= ARENA && (const char*)p < ARENA + ARENASZ; }
uint64_t allocCount() { return nAlloc; }
void failAlloc(uint64_t after, uint32_t howMany) { failAt = nAlloc + after; failLeft = howMany; failFired = false; }
void failAllocOff() { failAt = ~0ull; failLeft = 0; }
bool allocFired() { return failFired; }

void setLayout(Layout l, uint32_t seed) {
    layout = l;
    heapRng = Rng(seed);
    fillMode = seed % 6;
    static const unsigned char pats[] = {0x00, 0xff, 0xbe, 0x01, 0x41, 0x7f};
    stackPattern = pats[(seed / 6) % 6];
    stackSeed = (seed / 36) % 2 ? seed : 0;
}
void randomLayout() {
    uint32_t l = choose(uint32_t(Layout::Count));
    uint32_t s = choose(65536);
    setLayout(Layout(l), s);
    log("heap layout %s seed %u", layoutName().c_str(), s);
}
std::string layoutName() {
    static const char* n[] = {"ascending", "descending", "lanes", "reuse", "mixed"};
    return n[int(layout)];
}
static void arenaInit() {
    void* p = mmap(ARENA, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA) { fprintf(stderr, "cannot map the arena\n"); exit(2); }
    __asan_poison_memory_region(ARENA, ARENASZ);
    for (size_t i = 0; i < LANES; i++) { lo[i] = ARENA + i * LANE; hi[i] = ARENA + (i + 1) * LANE; }
}
static char* bumpAsc(size_t lane, size_t n) {
    if (size_t(hi[lane] - lo[lane]) < n) return nullptr;
    bumped += n;
    char* r = lo[lane]; lo[lane] += n; return r;
}
static char* bumpDesc(size_t lane, size_t n) {
    if (size_t(hi[lane] - lo[lane]) < n) return nullptr;
    bumped += n;
    hi[lane] -= n; return hi[lane];
}
static void* arenaAlloc(size_t size) {
    uint64_t n = nAlloc++;
    S->allocs++;
    if (n >= failAt && failLeft > 0) {
        if (!failFired) fault("allocation failure");
        failFired = true; failLeft--;
        return nullptr;
    }
    if (size > LANE - 256) return nullptr;
    size_t user = (size + 15) & ~size_t(15);
    if (!user) user = 16;
    size_t cls = user / 16, total = user + 48;
    char* c = nullptr;
    bool reuse = layout == Layout::Reuse || (layout == Layout::Mixed && heapRng.below(2));
    if (reuse && cls < 256 && freeList[cls].n) {
        FreeList& f = freeList[cls];
        int k = layout == Layout::Reuse ? f.n - 1 : int(heapRng.below(f.n));
        c = (char*)f.items[k];
        for (int i = k; i + 1 < f.n; i++) f.items[i] = f.items[i + 1];
        f.n--;
    }
    if (!c && bumped > ARENASZ / 4 * 3) {           // getting full
        c = cls < 256 ? takeSpare(cls, 2 * cls) : takeBig(cls, false);
        if (c) cls = ((Head*)c)->cls;
    }
    if (!c) switch (layout) {
        case Layout::Descending: for (size_t i = LANES; i-- > 0 && !c;) c = bumpDesc(i, total); break;
        case Layout::Lanes: case Layout::Mixed: {
            size_t l = heapRng.below(LANES); bool d = heapRng.below(2);
            c = d ? bumpDesc(l, total) : bumpAsc(l, total);
            break; }
        default: break;
    }
    if (!c) for (size_t i = 0; i < LANES && !c; i++) c = bumpAsc(i, total);
    if (!c && cls >= 256 && (c = takeBig(cls, false))) cls = ((Head*)c)->cls;
    size_t wanted = cls;
    if (!c && cls < 256 && (c = takeSpare(cls, 255))) cls = ((Head*)c)->cls;
    if (!c && wanted < 256) for (size_t k = wanted; k < 256 && !c; k++) if (freeList[k].n) { c = (char*)freeList[k].items[--freeList[k].n]; cls = k; }
    if (!c && (c = takeBig(wanted, true))) cls = ((Head*)c)->cls;
    if (!c) { Guard g; violation("unbounded-memory", fmt("more than %zu MB allocated, %zu of them in use, asking for %zu bytes", ARENASZ >> 20, size_t(liveBytes >> 20), size)); }
    Head* h = (Head*)c;
    __asan_unpoison_memory_region(c + 32, size ? size : 1);
    liveBytes += size;
    h->magic = LIVE; h->cls = cls; h->size = size; h->seq = n;
    unsigned char* u = (unsigned char*)c + 32;
    static const unsigned char pats[] = {0x00, 0xff, 0xbe, 0, 0x41, 0};
    switch (fillMode) {
        case 3: for (size_t i = 0; i < size; i++) u[i] = (unsigned char)heapRng.next(); break;
        case 5: break;    // whatever was there before
        default: memset(u, pats[fillMode], size);
    }
    return u;
}
static void arenaFree(void* p) {
    Head* h = (Head*)((char*)p - 32);
    if (((uintptr_t)p & 15) || h->magic != LIVE) {
        Guard g;
        if (h->magic == DEAD) violation("memory-error: double free", fmt("block of %llu bytes released twice", (unsigned long long)h->size));
        violation("memory-error: invalid free", "release of something that is not an allocated block");
    }
    h->magic = DEAD;
    liveBytes -= h->size;
    __asan_poison_memory_region(p, (h->size + 15) & ~size_t(15));
    if (h->cls < 256) {
        FreeList& f = freeList[h->cls];
        if (f.n < 64) f.items[f.n++] = h;
        else { keep(f.items[h->seq % 64]); f.items[h->seq % 64] = h; }
    } else { h->pad = (uint64_t)big; big = h; }
}
static inline void* doNew(size_t n, bool nothrow) {
    void* p;
    if (sim_inSut) p = arenaAlloc(n);
    else p = malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static inline void doDelete(void* p) {
    if (!p) return;
    if (inArena(p)) arenaFree(p);
    else free(p);
}
} // namespace sim

void* operator new(size_t n) { return sim::doNew(n, false); }
void* operator new[](size_t n) { return sim::doNew(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::doNew(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::doNew(n, true); }
void operator delete(void* p) noexcept { sim::doDelete(p); }
void operator delete[](void* p) noexcept { sim::doDelete(p); }
void operator delete(void* p, size_t) noexcept { sim::doDelete(p); }
void operator delete[](void* p, size_t) noexcept { sim::doDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::doDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::doDelete(p); }

namespace sim {

// ------------------------------------------------------------------------------------------ crashes of the system
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:print_legend=0:print_summary=0:handle_abort=0:allow_user_poisoning=1:"
           "quarantine_size_mb=8:malloc_context_size=2:detect_odr_violation=0:alloc_dealloc_mismatch=0:"
           "max_malloc_fill_size=4096:malloc_fill_byte=190:symbolize=1:fast_unwind_on_malloc=1:intercept_tls_get_addr=0";
}
extern "C" void __asan_on_error() { sim_inSut = 0; }
static void asanReport(const char* r) {
    sim_inSut = 0;
    std::string t(r), kind = "unknown", frames;
    size_t i = t.find("AddressSanitizer: ");
    if (i != std::string::npos) { size_t e = t.find_first_of(" \n", i + 18); kind = t.substr(i + 18, e - i - 18); }
    void* a = __asan_get_report_address();
    if (inArena(a)) kind = "access outside live blocks";
    size_t p = 0; int n = 0;
    while (n < 8 && (p = t.find(" in ", p)) != std::string::npos) {
        size_t e = t.find('\n', p);
        frames += t.substr(p + 4, std::min<size_t>(e - p - 4, 150)) + "; ";
        p = e; n++;
    }
    violation("memory-error: " + kind, "in " + frames);
}
static void onSignal(int sig) {
    sim_inSut = 0;
    if (sig == SIGXCPU) { S->hang = 1; violation("no-progress", "processor time used up"); }
    violation(fmt("crash: signal %d", sig), strsignal(sig));
}
static void onTerminate() {
    sim_inSut = 0;
    std::string d = "std::terminate";
    if (std::exception_ptr e = std::current_exception()) {
        try { std::rethrow_exception(e); } catch (const std::exception& x) { d += std::string(" on ") + demangle(typeid(x).name()) + ": " + x.what(); } catch (...) { d += " on an unknown exception"; }
    }
    violation("crash: terminate", d);
}
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) noexcept {
    sim_inSut = 0;
    const char* b = strrchr(file, '/');
    violation("crash: assertion", fmt("%s in %s (%s:%u)", expr, func, b ? b + 1 : file, line));
}
extern "C" void exit(int);

// ------------------------------------------------------------------------------------------ isolation
void setResult(const std::string& s) {
    if (s.size() + 8 > MAXBLOB / 2) violation("harness", "result too large");
    uint32_t n = s.size();
    memcpy(S->blob + MAXBLOB / 2, &n, 4);
    memcpy(S->blob + MAXBLOB / 2 + 4, s.data(), n);
}
void crashNow() {
    sim_inSut = 0;
    fs().loseVolatile();
    std::string s = fs().serialize();
    if (s.size() > MAXBLOB / 2) violation("harness", "disk too large");
    memcpy(S->blob, s.data(), s.size());
    S->blobLen = s.size();
    _exit(42);
}
bool isolated(const std::function<void()>& f, std::string* result) {
    Guard g;
    uint32_t z = 0;
    memcpy(S->blob + MAXBLOB / 2, &z, 4);
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "fork failed\n"); _exit(3); }
    if (p == 0) {
        f();
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (S->violated) _exit(9);
    bool crashed = WIFEXITED(st) && WEXITSTATUS(st) == 42;
    if (crashed) fs().deserialize(std::string(S->blob, S->blobLen));
    else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3);
        violation(fmt("crash: status 0x%x", st), "the process ended by itself");
    }
    if (result) {
        uint32_t n; memcpy(&n, S->blob + MAXBLOB / 2, 4);
        result->assign(S->blob + MAXBLOB / 2 + 4, n);
    }
    return !crashed;
}

void ioInit();      // fs.cpp / io.cpp

// ------------------------------------------------------------------------------------------ one run
struct RunResult {
    bool violated = false, harnessError = false, hang = false;
    std::string cls, detail;
    uint64_t hash = 0;
};
static RunResult execRun() {
    S->nOut = 0; S->hash = 1469598103934665603ull; S->events = 0; S->textLen = 0;
    S->done = S->violated = S->nontriv = S->hang = 0; S->steps = S->allocs = 0; S->callSteps = 0;
    S->simSeconds = 0; S->nStates = 0; S->blobLen = 0;
    S->cls[0] = S->detail[0] = 0;
    memset(S->faults, 0, sizeof S->faults); memset(S->probes, 0, sizeof S->probes);
    memset(S->cov, 0, sizeof S->cov);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        int nul = open("/dev/null", O_RDWR);
        dup2(nul, 0); dup2(nul, 1); if (!getenv("SIM_STDERR")) dup2(nul, 2);
        if (nul > 2) close(nul);
        rlimit rl{25, 40}; setrlimit(RLIMIT_CPU, &rl);
        rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
        signal(SIGXCPU, onSignal); signal(SIGABRT, onSignal); signal(SIGFPE, onSignal); signal(SIGALRM, onSignal);
        signal(SIGPIPE, SIG_DFL);
        std::set_terminate(onTerminate);
        __asan_set_error_report_callback(asanReport);
        ioInit();
        run();
        S->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    RunResult r;
    r.hang = S->hang;
    if (!S->violated && !S->done) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) r.harnessError = true;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) r.harnessError = true;
        else {
            S->violated = 1;
            if (WIFEXITED(st)) snprintf(S->cls, sizeof S->cls, "crash: exit");
            else snprintf(S->cls, sizeof S->cls, "crash: signal %d", WTERMSIG(st));
            snprintf(S->detail, sizeof S->detail, "the process ended by itself, status 0x%x", st);
        }
    }
    r.violated = S->violated;
    r.cls = S->cls; r.detail = S->detail; r.hash = S->hash;
    if (r.violated && !strncmp(S->cls, "harness", 7)) { r.harnessError = true; }
    return r;
}
static RunResult runSeed(uint64_t seed) { S->rng = seed; S->replay = 0; S->nIn = 0; return execRun(); }
static RunResult runChoices(const std::vector<uint32_t>& c) {
    S->replay = 1; S->nIn = std::min<size_t>(c.size(), MAXC);
    std::copy(c.begin(), c.begin() + S->nIn, S->in);
    return execRun();
}
static std::vector<uint32_t> recorded() { return std::vector<uint32_t>(S->out, S->out + S->nOut); }

// ------------------------------------------------------------------------------------------ minimiser
static double nowS() { timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::vector<uint32_t> minimise(std::vector<uint32_t> best, const std::string& cls, double seconds, uint64_t& tries) {
    double end = nowS() + seconds;
    auto less = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](const std::vector<uint32_t>& c) {
        if (nowS() > end) return false;
        tries++;
        RunResult r = runChoices(c);
        if (!r.violated || r.cls != cls) return false;
        std::vector<uint32_t> got = recorded();
        while (!got.empty() && got.back() == 0) got.pop_back();
        if (!less(got, best)) return false;
        best = got;
        return true;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && nowS() < end) {
        progress = false;
        for (size_t keep = 1; keep < best.size() && nowS() < end; keep *= 2) {      // truncate
            std::vector<uint32_t> c(best.begin(), best.begin() + keep);
            if (attempt(c)) { progress = true; break; }
        }
        for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1 && nowS() < end; blk /= 2) {
            for (size_t i = best.size(); i > 0 && nowS() < end;) {                   // delete, from the end
                size_t b = i > blk ? i - blk : 0;
                if (b >= best.size()) { i = best.size(); if (!i) break; continue; }
                std::vector<uint32_t> c(best.begin(), best.begin() + b);
                c.insert(c.end(), best.begin() + std::min(i, best.size()), best.end());
                if (attempt(c)) progress = true;
                i = b;
            }
            for (size_t i = 0; i < best.size() && nowS() < end; i += blk) {          // zero
                std::vector<uint32_t> c = best;
                bool any = false;
                for (size_t k = i; k < std::min(i + blk, c.size()); k++) if (c[k]) { c[k] = 0; any = true; }
                if (any && attempt(c)) progress = true;
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < best.size() && nowS() < end; i++) {                   // lower
            if (best[i] == 0) continue;
            uint32_t low = 0, high = best[i];
            while (low < high && nowS() < end && i < best.size()) {
                uint32_t mid = low + (high - low) / 2;
                std::vector<uint32_t> c = best; c[i] = mid;
                if (attempt(c)) { progress = true; high = i < best.size() ? std::min(mid, best[i]) : 0; if (high <= low) break; }
                else low = mid + 1;
                if (high - low > 64) { if (mid == 0) break; }
            }
        }
    }
    return best;
}

// ------------------------------------------------------------------------------------------ driver
struct Global {
    uint64_t runs, nontriv, violations, known, errors, rechecked, mismatched, steps, events, allocs, unconfirmed, hangs, uniq, uniqNontriv, uniqStates;
    double simSeconds;
    uint32_t stop;
    uint64_t foundSeed; uint32_t foundN; uint32_t found;
    Counter faults[NCOUNT], probes[NCOUNT], knownBy[NCOUNT];
    uint32_t nSamples; char samples[3][6000];
    char firstError[6000];
    uint8_t cov[1 << 16];
    uint8_t seen[1 << 21], seenNt[1 << 21], seenState[1 << 21];   // bit tables
    uint32_t foundChoices[MAXC];
    char foundCls[160];
};
static Global* G;
static bool mark(uint8_t* t, uint64_t h) {
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    uint64_t bit = h & ((1ull << 24) - 1);
    uint8_t m = 1u << (bit & 7);
    uint8_t old = __sync_fetch_and_or(&t[bit >> 3], m);
    return !(old & m);
}
static void addCounters(Counter* to, const Counter* from) {
    for (int i = 0; i < NCOUNT && from[i].name[0]; i++)
        for (int k = 0; k < NCOUNT; k++) {
            if (!to[k].name[0]) strcpy(to[k].name, from[i].name);
            if (!strcmp(to[k].name, from[i].name)) { to[k].n += from[i].n; break; }
        }
}
static uint64_t mixSeed(uint64_t seed, uint64_t idx) {
    uint64_t h = hash(kProperty, strlen(kProperty));
    h ^= seed * 0x9E3779B97F4A7C15ull; Rng r(h); r.next(); r.s ^= idx * 0xD1B54A32D192ED03ull; return r.next();
}
static std::string jsonStr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}
static std::string counters(const Counter* c) {
    std::string r = "{";
    for (int i = 0; i < NCOUNT && c[i].name[0]; i++) r += std::string(i ? "," : "") + jsonStr(c[i].name) + ":" + std::to_string(c[i].n);
    return r + "}";
}
static std::vector<std::string> known;
static bool isKnown(const std::string& cls) {
    for (auto& k : known) if (k == cls) return true;
    return false;
}
static void readReplay(const std::string& path, std::vector<uint32_t>& c, uint64_t& h, std::string& cls) {
    std::ifstream in(path);
    std::stringstream ss; ss << in.rdbuf();
    std::string t = ss.str();
    size_t i = t.find("\"choices\"");
    if (i == std::string::npos) { fprintf(stderr, "no choices in %s\n", path.c_str()); exit(2); }
    i = t.find('[', i) + 1;
    size_t e = t.find(']', i);
    std::stringstream nums(t.substr(i, e - i));
    std::string tok;
    while (std::getline(nums, tok, ',')) if (!tok.empty()) c.push_back(strtoul(tok.c_str(), 0, 10));
    h = 0;
    i = t.find("\"trace_hash\"");
    if (i != std::string::npos) h = strtoull(t.c_str() + t.find('"', i + 13) + 1, 0, 16);
    i = t.find("\"violation\"");
    if (i != std::string::npos) { size_t b = t.find('"', i + 11) + 1; cls = t.substr(b, t.find('"', b) - b); }
}
} // namespace sim

int main(int argc, char** argv) {
    using namespace sim;
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    rlimit stk{8u << 20, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &stk);
    uint64_t seed = 1, one = 0; bool doOne = false; uint64_t runs = 1000; double secs = 30, minSecs = 15; int workers = 8;
    std::string out, replay, replayOut;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
        else if (a == "--runs") runs = strtoull(next().c_str(), 0, 10);
        else if (a == "--time") secs = atof(next().c_str());
        else if (a == "--min-time") minSecs = atof(next().c_str());
        else if (a == "--workers") workers = atoi(next().c_str());
        else if (a == "--out") out = next();
        else if (a == "--replay-out") replayOut = next();
        else if (a == "--replay") replay = next();
        else if (a == "--one") { doOne = true; one = strtoull(next().c_str(), 0, 10); }
        else if (a == "--known") known.push_back(next());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    auto share = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    G = (Global*)share(sizeof(Global));
    S = (Shared*)share(sizeof(Shared));
    arenaInit();
    if (doOne) {
        RunResult r = runSeed(mixSeed(seed, one));
        fwrite(S->text, 1, S->textLen, stdout);
        printf("choices %u events %llu steps %llu allocs %llu hash %016llx nontrivial %u\n", S->nOut, (unsigned long long)S->events, (unsigned long long)S->steps, (unsigned long long)S->allocs, (unsigned long long)r.hash, S->nontriv);
        if (r.violated) printf("VIOLATED %s\n  %s\n", r.cls.c_str(), r.detail.c_str());
        if (r.harnessError) printf("HARNESS ERROR\n");
        return r.violated;
    }
    if (!replay.empty()) {
        std::vector<uint32_t> c; uint64_t h; std::string cls;
        readReplay(replay, c, h, cls);
        RunResult r = runChoices(c);
        fwrite(S->text, 1, S->textLen, stdout);
        if (!r.violated) { printf("REPLAY no violation\n"); return 0; }
        printf("REPLAY violation: %s\n  %s\n", r.cls.c_str(), r.detail.c_str());
        bool same = r.cls == cls && r.hash == h;
        printf("REPLAY %s (trace hash %016llx)\n", same ? "identical" : "DIFFERENT", (unsigned long long)r.hash);
        return same ? 1 : 3;
    }
    double t0 = nowS();
    std::vector<pid_t> kids;
    for (int w = 0; w < workers; w++) {
        pid_t p = fork();
        if (p) { kids.push_back(p); continue; }
        S = (Shared*)share(sizeof(Shared));
        for (uint64_t i = w; i < runs && !G->stop && nowS() - t0 < secs; i += workers) {
            uint64_t sd = mixSeed(seed, i);
            RunResult r = runSeed(sd);
            if (r.harnessError) {
                if (__sync_fetch_and_add(&G->errors, 1) == 0) snprintf(G->firstError, sizeof G->firstError, "run %llu: %s %s", (unsigned long long)i, r.cls.c_str(), r.detail.c_str());
                continue;
            }
            uint64_t nr = __sync_fetch_and_add(&G->runs, 1);
            __sync_fetch_and_add(&G->steps, S->steps); __sync_fetch_and_add(&G->events, S->events); __sync_fetch_and_add(&G->allocs, S->allocs);
            for (size_t k = 0; k < sizeof S->cov; k++) if (S->cov[k] && !G->cov[k]) G->cov[k] = 1;
            if (mark(G->seen, r.hash)) __sync_fetch_and_add(&G->uniq, 1);
            if (S->nontriv) { __sync_fetch_and_add(&G->nontriv, 1); if (mark(G->seenNt, r.hash)) __sync_fetch_and_add(&G->uniqNontriv, 1); }
            for (uint32_t k = 0; k < S->nStates; k++) if (mark(G->seenState, S->states[k])) __sync_fetch_and_add(&G->uniqStates, 1);
            // counters are merged under a tiny lock
            while (__sync_lock_test_and_set(&G->foundN, 1)) usleep(10);
            addCounters(G->faults, S->faults); addCounters(G->probes, S->probes);
            G->simSeconds += S->simSeconds;
            if (S->nontriv && G->nSamples < 3 && !r.violated) {
                std::string s(S->text, std::min<uint32_t>(S->textLen, 2500));
                snprintf(G->samples[G->nSamples++], 6000, "seed index %llu (run seed %016llx), %u choices:\n%s", (unsigned long long)i, (unsigned long long)sd, S->nOut, s.c_str());
            }
            __sync_lock_release(&G->foundN);
            if (r.violated) {
                if (isKnown(r.cls)) {
                    __sync_fetch_and_add(&G->known, 1);
                    while (__sync_lock_test_and_set(&G->foundN, 1)) usleep(10);
                    bump(G->knownBy, r.cls.c_str());
                    __sync_lock_release(&G->foundN);
                    continue;
                }
                std::vector<uint32_t> c = recorded();
                RunResult r2 = runChoices(c);
                if (!r2.violated || r2.cls != r.cls || r2.hash != r.hash) {
                    __sync_fetch_and_add(r.hang ? &G->hangs : &G->unconfirmed, 1);
                    if (!r.hang) snprintf(G->firstError, sizeof G->firstError, "run %llu: not reproduced: %s %s / %s %s", (unsigned long long)i, r.cls.c_str(), r.detail.c_str(), r2.cls.c_str(), r2.detail.c_str());
                    continue;
                }
                __sync_fetch_and_add(&G->violations, 1);
                if (__sync_bool_compare_and_swap(&G->found, 0, 1)) {
                    std::copy(c.begin(), c.end(), G->foundChoices);
                    snprintf(G->foundCls, sizeof G->foundCls, "%s", r.cls.c_str());
                    G->foundSeed = i; G->nSamples = G->nSamples;
                    __sync_synchronize();
                    G->found = 2 + c.size();
                    G->stop = 1;
                }
                break;
            }
            if (nr % 64 == 5) {
                RunResult r2 = runSeed(sd);
                __sync_fetch_and_add(&G->rechecked, 1);
                if (r2.hash != r.hash || r2.violated != r.violated) {
                    __sync_fetch_and_add(&G->mismatched, 1);
                    snprintf(G->firstError, sizeof G->firstError, "run %llu: nondeterministic %s", (unsigned long long)i, r2.cls.c_str());
                }
            }
        }
        _exit(0);
    }
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (st) G->errors++; }
    double searched = nowS() - t0;
    int rc = 0;
    std::string vj = "null";
    if (G->found >= 2) {
        std::vector<uint32_t> c(G->foundChoices, G->foundChoices + (G->found - 2));
        std::string cls = G->foundCls;
        size_t before = c.size();
        uint64_t tries = 0;
        std::vector<uint32_t> m = minimise(c, cls, minSecs, tries);
        RunResult r = runChoices(m);
        if (!r.violated || r.cls != cls) { m = c; r = runChoices(m); }
        m = recorded();
        while (!m.empty() && m.back() == 0) m.pop_back();
        std::string rj = "{\n \"property\": " + jsonStr(kProperty) + ",\n \"verif_seed\": " + std::to_string(seed) + ",\n \"seed_index\": " + std::to_string(G->foundSeed) +
            ",\n \"run_seed\": \"" + fmt("%016llx", (unsigned long long)mixSeed(seed, G->foundSeed)) + "\",\n \"violation\": " + jsonStr(r.cls) + ",\n \"detail\": " + jsonStr(r.detail) +
            ",\n \"trace_hash\": \"" + fmt("%016llx", (unsigned long long)r.hash) + "\",\n \"choices_before_minimising\": " + std::to_string(before) + ",\n \"minimiser_runs\": " + std::to_string(tries) +
            ",\n \"choices\": [";
        for (size_t i = 0; i < m.size(); i++) rj += (i ? "," : "") + std::to_string(m[i]);
        rj += "],\n \"trace\": [";
        std::stringstream ts(std::string(S->text, S->textLen)); std::string line; bool first = true;
        while (std::getline(ts, line)) { rj += std::string(first ? "\n  " : ",\n  ") + jsonStr(line); first = false; }
        rj += "]\n}\n";
        if (!replayOut.empty()) { std::ofstream(replayOut) << rj; }
        vj = "{\"class\":" + jsonStr(r.cls) + ",\"detail\":" + jsonStr(r.detail) + ",\"seed_index\":" + std::to_string(G->foundSeed) + "}";
        rc = 1;
    } else if (G->unconfirmed || G->errors) rc = 2;
    uint64_t edges = 0;
    for (size_t k = 0; k < sizeof G->cov; k++) edges += G->cov[k];
    std::string j = "{\"runs\":" + std::to_string(G->runs) + ",\"searched_s\":" + fmt("%.2f", searched) + ",\"nontrivial\":" + std::to_string(G->nontriv) + ",\"distinct\":" + std::to_string(G->uniq) +
        ",\"distinct_nontrivial\":" + std::to_string(G->uniqNontriv) + ",\"distinct_states\":" + std::to_string(G->uniqStates) + ",\"basic_blocks\":" + std::to_string(edges) +
        ",\"steps\":" + std::to_string(G->steps) + ",\"events\":" + std::to_string(G->events) + ",\"allocations\":" + std::to_string(G->allocs) + ",\"sim_seconds\":" + fmt("%.3f", G->simSeconds) +
        ",\"rechecked\":" + std::to_string(G->rechecked) + ",\"mismatched\":" + std::to_string(G->mismatched) + ",\"unconfirmed\":" + std::to_string(G->unconfirmed) + ",\"unconfirmed_hangs\":" + std::to_string(G->hangs) + ",\"errors\":" + std::to_string(G->errors) +
        ",\"known\":" + std::to_string(G->known) + ",\"known_by\":" + counters(G->knownBy) + ",\"faults\":" + counters(G->faults) + ",\"probes\":" + counters(G->probes) + ",\"error\":" + jsonStr(G->firstError) + ",\"samples\":[";
    for (uint32_t i = 0; i < G->nSamples; i++) j += (i ? "," : "") + jsonStr(G->samples[i]);
    j += "],\"violation\":" + vj + "}\n";
    if (!out.empty()) { std::ofstream(out) << j; }
    else printf("%s", j.c_str());
    return rc;
}
