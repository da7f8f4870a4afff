// Progress bars on a simulated terminal with a simulated clock.
#include "sim/sim.h"
#include "util/ProgressBar.h"
#include <memory>
#include <cmath>
using SEMBA::Util::ProgressBar;
const char* const sim::kProperty = "C17";
using namespace sim;

// "  123K" read back: number and unit
static std::string counted(size_t n) {
    static const char units[] = " KMGTPE";
    int u = 0;
    size_t div = 1;
    while (n / div > 99999) { div *= 1000; u++; }
    return fmt("%5zu%c", n / div, units[u]);
}
static int widthOf(const std::string& s) { return int(s.size()); }

struct Ctx { std::string name; size_t size, step, prev; };

// one refresh, without the leading carriage return
static void refresh(const std::string& line, const Ctx& c, int columns, bool final, bool calm, double elapsedMin, double elapsedMax) {
    state(line);
    check(line.find('\n') == std::string::npos, "line-broken", shown(line));
    check(widthOf(line) <= columns, "wider-than-terminal", fmt("a refresh of %d characters on a terminal of %d: '%s'", widthOf(line), columns, shown(line).c_str()));
    for (char ch : line) check((unsigned char)ch >= 32 && (unsigned char)ch < 127, "odd-character", shown(line));
    // indentation and name
    size_t i = 0;
    while (i < line.size() && line[i] == ' ') i++;
    if (i == line.size()) { check(columns < 60 || c.prev > 6, "parts-missing", "nothing shown on a wide terminal"); return; }
    check(i >= c.prev, "indent-wrong", fmt("indented by %zu, not %zu: '%s'", i, c.prev, shown(line).c_str()));
    size_t cut = c.name.size();
    if (line.compare(i, cut, c.name) != 0) {
        size_t d = line.find("...", i);
        check(d != std::string::npos && d - i < c.name.size() && line.compare(i, d - i, c.name, 0, d - i) == 0, "name-wrong", fmt("'%s' is not '%s' nor shortened: '%s'", line.substr(i, 20).c_str(), c.name.c_str(), shown(line).c_str()));
        i = d + 3;
    } else i += cut;
    check(c.name.empty() || i <= line.size(), "name-wrong", shown(line));
    while (i < line.size() && line[i] == ' ') i++;
    std::string rest = line.substr(i);
    std::string s1 = counted(c.step), s2 = counted(c.size);
    auto strip = [](std::string s) { size_t k = s.find_first_not_of(' '); return k == std::string::npos ? std::string() : s.substr(k); };
    if (rest.empty()) { check(columns < 60 || c.prev > 6, "parts-missing", shown(line)); return; }
    std::string want = strip(s1 + "/" + s2);
    check(rest.compare(0, want.size(), want) == 0 || (want.back() == ' ' && rest == want.substr(0, want.size() - 1)), "counter-wrong", fmt("step %zu of %zu is shown as '%s', not '%s'", c.step, c.size, rest.substr(0, 16).c_str(), want.c_str()));
    rest = rest.size() > want.size() ? strip(rest.substr(want.size())) : "";
    if (rest.empty()) { check(columns < 60 || c.prev > 6, "parts-missing", shown(line)); return; }
    // time
    bool okTime = rest.size() >= 8 && isdigit(rest[0]) && isdigit(rest[1]) && rest[2] == ':' && isdigit(rest[3]) && isdigit(rest[4]) && rest[5] == ':' && isdigit(rest[6]) && isdigit(rest[7]) && (rest.size() == 8 || rest[8] == ' ');
    check(okTime, "time-ill-formed", "'" + rest.substr(0, 24) + "' in '" + shown(line) + "'");
    std::string t = rest.substr(0, 8);
    int hh = atoi(t.c_str()), mm = atoi(t.c_str() + 3), ss = atoi(t.c_str() + 6);
    if (t != "99:99:99") check(mm < 60 && ss < 60, "time-ill-formed", t);
    double shownS = hh * 3600. + mm * 60. + ss;
    if (final && calm) {
        if (t == "99:99:99") check(elapsedMax >= 99 * 3600., "time-wrong", fmt("%g s passed, not more than 99 hours", elapsedMax));
        else check(shownS <= elapsedMax + 1e-6 && shownS >= elapsedMin - 2, "time-wrong", fmt("%s is shown after %g s (last step after %g s)", t.c_str(), elapsedMax, elapsedMin));
    }
    rest = strip(rest.substr(8));
    if (rest.empty()) { check(columns < 60 || c.prev > 6, "parts-missing", shown(line)); return; }
    // bar
    long double share = c.size ? (long double)c.step / c.size : 1;
    if (rest[0] == '[') {
        size_t e = rest.find(']');
        check(e != std::string::npos, "bar-ill-formed", shown(line));
        std::string bar = rest.substr(1, e - 1);
        size_t full = 0;
        while (full < bar.size() && bar[full] == '#') full++;
        check(bar.find_first_not_of('-', full) == std::string::npos, "bar-ill-formed", bar);
        check(fabsl(share * bar.size() - full) <= 1.0001L, "bar-wrong", fmt("%zu of %zu cells at step %zu of %zu", full, bar.size(), c.step, c.size));
        if (c.step == c.size) check(full == bar.size(), "bar-wrong", "complete, but the bar is not full: " + bar);
        if (c.step == 0 && c.size) check(full == 0, "bar-wrong", "nothing done, but the bar is not empty: " + bar);
        rest = strip(rest.substr(e + 1));
    } else check(columns < 60 || c.prev > 6, "parts-missing", "no bar: " + shown(line));
    if (rest.empty()) { check(columns < 60 || c.prev > 6, "parts-missing", shown(line)); return; }
    size_t pc = rest.find('%');
    check(pc != std::string::npos && pc > 0 && rest.substr(0, pc).find_first_not_of("0123456789") == std::string::npos && strip(rest.substr(pc + 1)).empty(), "percentage-ill-formed", "'" + rest + "' in '" + shown(line) + "'");
    double p = atof(rest.c_str());
    check(fabsl(p - share * 100) < 1.0001L, "percentage-wrong", fmt("%g%% at step %zu of %zu", p, c.step, c.size));
    if (c.step == c.size) check(p == 100, "percentage-wrong", fmt("complete, but %g%%", p));
    else check(p < 100 || share > 0.99, "percentage-wrong", fmt("%g%%", p));
    probe("a complete line");
}

void sim::run() {
    setBudget(3000000);
    randomLayout();
    sim::clock = Clock();
    terminal = Terminal();
    takeOutput();
    int bars = range(1, 3);
    std::unique_ptr<ProgressBar> bar;
    for (int b = 0; b < bars; b++) {
        if (!bar || chance(1, 2)) { SutScope s; bar.reset(new ProgressBar); }
        terminal.tty = !chance(1, 6);
        auto columns = [&] {
            switch (choose(6)) {
                case 0: terminal.columns = 80; break;
                case 1: terminal.columns = range(36, 60); break;
                case 2: terminal.columns = range(60, 132); break;
                case 3: terminal.columns = range(0, 36); break;
                case 4: terminal.columns = range(38, 46); break;
                case 5: terminal.columns = range(133, 400); break;
            }
        };
        columns();
        terminal.ioctlFails = chance(1, 10);
        terminal.stdinTty = !chance(1, 8);
        Ctx c;
        static const std::vector<std::string> names{"Reading", "A", "Coordinates and elements", "Mesh", "abcdefghijklmnopqrst", "", "Writing out results"};
        c.name = pick(names);
        c.prev = chance(1, 2) ? 2 : chance(1, 6) ? size_t(range(7, 30)) : size_t(range(0, 6));
        static const std::vector<size_t> sizes{10, 1, 2, 3, 7, 99, 100, 101, 99999, 100000, 100001, 12345678, 99999999, 100000000, 100000000000ull, 99999999999999ull, 100000000000000ull, 3000000000000000ull, 400000000000000000ull, size_t(-1), size_t(-1) / 2};
        c.size = pick(sizes);
        c.step = 0;
        sim::clock.jumps.clear();
        sim::clock.tickNs = chance(1, 2) ? 0 : int64_t(choose(4)) * 700000;
        bool calm = true;
        if (chance(1, 2)) {
            for (int k = range(1, 3); k > 0; k--) {
                static const std::vector<int64_t> d{-1000000000ll, -5000000000ll, -3600000000000ll, 1000000000ll, 7200000000000ll, 400000000000000ll, -1, -1400000000000000000ll, -59000000000ll};
                sim::clock.jumps[sim::clock.readings + choose(6)] = pick(d);
            }
            calm = false;
        }
        std::string out;
        int64_t t0 = sim::clock.monoNs;
        log("bar '%s' size %zu prev %zu tty %d columns %d", c.name.c_str(), c.size, c.prev, terminal.tty, terminal.columns);
        int cols = terminal.ioctlFails || !terminal.tty ? 0 : terminal.columns;
        bool unknown = terminal.ioctlFails || !terminal.stdinTty;
        auto lines = [&](const std::string& o, bool final, double lo, double hi) {
            log("shown: %s", shown(o).c_str());
            std::string text = o;
            if (final) { check(!text.empty() && text.back() == '\n', "line-not-ended", shown(o)); text.pop_back(); }
            if (text.empty()) { check(unknown || cols < 60 || c.prev > 6, "parts-missing", "nothing shown on a wide terminal"); return; }
            check(text[0] == '\r', "no-carriage-return", shown(o));
            size_t at = 1;
            for (;;) {
                size_t e = text.find('\r', at);
                refresh(text.substr(at, e == std::string::npos ? e : e - at), c, cols, final, calm, lo, hi);
                nontrivial();
                if (e == std::string::npos) break;
                at = e + 1;
            }
        };
        // a width nobody could know: nothing, or at most 80 characters
        if (terminal.ioctlFails && terminal.tty) cols = 80;
        Outcome o = call("init", [&] { bar->init(c.name, c.size, c.prev); });
        check(!o.threw, "init-threw", o.str());
        out = takeOutput();
        if (!terminal.tty) {
            check(out == std::string(c.prev, ' ') + c.name + "\n", "not-just-the-title", "'" + shown(out) + "'");
            probe("not a terminal");
        } else if (!(terminal.ioctlFails && out.empty())) lines(out, false, 0, 0);
        double last = 0;
        int n = int(choose(20));
        for (int k = 0; k < n; k++) {
            static const std::vector<int64_t> d{0, 1, 1000000, 300000000, 999999999, 1000000000, 1500000000, 61000000000ll, 3661000000000ll, 200000000000000ll};
            int64_t dt = pick(d);
            sim::clock.advance(dt); simTime(dt * 1e-9);
            size_t by = chance(1, 2) ? 1 : chance(1, 5) ? size_t(-1) - choose(3) : c.size / (1 + choose(12));
            last = (sim::clock.monoNs - t0) * 1e-9;
            o = call("advance", [&] { bar->advance(by); });
            check(!o.threw, "advance-threw", o.str());
            if (terminal.tty) { if (by >= c.size - c.step) c.step = c.size; else c.step += by; }
            out = takeOutput();
            if (!out.empty()) { check(terminal.tty, "not-just-the-title", shown(out)); lines(out, false, 0, 0); }
            if (chance(1, 6)) { columns(); if (!terminal.ioctlFails) cols = terminal.tty ? terminal.columns : 0; log("terminal now %d wide", cols); }
        }
        int64_t dt = int64_t(choose(5)) * 800000000ll;
        sim::clock.advance(dt); simTime(dt * 1e-9);
        if (chance(1, 10) && b + 1 < bars) { log("left without end"); { SutScope s; bar.reset(); } continue; }
        o = call("end", [&] { bar->end(); });
        check(!o.threw, "end-threw", o.str());
        c.step = c.size;
        out = takeOutput();
        if (!terminal.tty) check(out.empty(), "not-just-the-title", shown(out));
        else lines(out, true, last, (sim::clock.monoNs - t0) * 1e-9);
        if (chance(1, 3)) { o = call("end again", [&] { bar->end(); bar->advance(3); }); check(takeOutput().empty(), "output-after-end", ""); }
    }
    { SutScope s; bar.reset(); }
}
