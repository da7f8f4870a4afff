// Usage and help of command lines on simulated terminals, under seeded declarations, texts, histories and failing allocations.
#include "sim/sim.h"
#include "sim/fs.h"
#include "argument/Parser.h"
#include "argument/Formatter.h"
#include <memory>
#include <cstring>
#include <algorithm>
#include <iostream>
using namespace SEMBA;
using namespace sim;
const char* const sim::kProperty = "C27";
typedef std::list<std::string> Text;

namespace {
enum Kind { SWITCH, MULTISWITCH, WORD, INTWORD, MULTI };
struct Arg {
    Kind kind; bool position = false, required = false; char s = 0; std::string name, l, help;
    Text metavar, def; std::vector<Text> choices;
};
struct Grp { std::string name, desc; bool exclusive = false, required = false; std::vector<Arg> pos, opt; std::vector<Grp> kids; };
struct Tok { std::string w; enum { Start, Glued, Help, Plain } at; };
typedef std::vector<Tok> Toks;

std::string joined(const Text& t) { std::string s; for (auto& x : t) s += (s.empty() ? "" : " ") + x; return s; }
std::string joined(const std::vector<Text>& c) { std::string s; for (auto& x : c) s += (s.empty() ? "" : ", ") + joined(x); return s; }
std::vector<std::string> words(const std::string& s) {
    std::vector<std::string> r; std::string w;
    for (char c : s + " ") if (strchr(" \t\n\v\f\r", c)) { if (!w.empty()) r.push_back(w); w.clear(); } else w += c;
    return r;
}
std::string filled(std::string s, const std::string& what, const std::string& by) {
    std::string r;
    for (size_t at; (at = s.find(what)) != std::string::npos; s = s.substr(at + what.size())) r += s.substr(0, at) + by;
    return r + s;
}
void paragraph(Toks& t, const std::string& s) { bool first = true; for (auto& w : words(s)) { t.push_back({w, first ? Tok::Start : Tok::Plain}); first = false; } }

std::string meta(const Arg& a) { if (!a.metavar.empty()) return joined(a.metavar); std::string s = a.name; std::transform(s.begin(), s.end(), s.begin(), ::toupper); return s; }
std::string form(const Arg& a, bool brackets) {
    std::string id = a.s ? std::string("-") + a.s : "--" + a.l, r = a.position ? meta(a) : id;
    if (a.kind == MULTISWITCH) r += " [" + id + " ...]";
    else if (!a.position && a.kind != SWITCH) r += " " + meta(a);
    if (a.kind == MULTI) r += " [" + meta(a) + " ...]";
    return brackets && !a.required && !a.position ? "[" + r + "]" : r;
}
std::string usageOf(const Grp& g) {
    std::vector<std::string> p;
    for (auto& a : g.pos) p.push_back(form(a, false));
    for (auto& a : g.opt) p.push_back(form(a, !g.exclusive));
    for (auto& k : g.kids) { std::string s = usageOf(k); if (!s.empty()) p.push_back(s); }
    std::string r;
    for (auto& s : p) r += (r.empty() ? "" : g.exclusive ? " | " : " ") + s;
    return g.exclusive ? (g.required ? "(" + r + ")" : "[" + r + "]") : r;
}

struct World {
    std::unique_ptr<Argument::Parser> parser;
    Grp root;
    std::string prog, usage, desc, epilog;
    int serial = 0;

    std::string textWith(bool value) {
        static const std::vector<std::string> w{"the", "a", "file", "with", "numbers,", "of", "time-steps", "(see", "manual)", "an-extraordinarily-long-word-that-does-not-fit-anywhere-at-all", "x", "percent%", "pi=3.14", "${PROG}", "run-${PROG}-twice"};
        static const std::vector<std::string> v{"${DEFAULT}", "(default:${DEFAULT})", "[${CHOICES}]", "${CHOICES}", "one of ${CHOICES}, please", "${DEFAULT}/${DEFAULT}"};
        static const std::vector<std::string> sep{" ", "  ", "\n", "\t", "   \n "};
        std::string s;
        int n = chance(1, 4) ? range(10, 60) : range(0, 9);
        for (int i = 0; i < n; i++) s += (i ? (chance(5, 6) ? " " : pick(sep)) : "") + (value && chance(1, 6) ? pick(v) : w[choose(uint32_t(value || chance(1, 3) ? w.size() : w.size() - 2))]);
        return s;
    }
    Arg someArg(bool position) {
        Arg a; a.position = position;
        static const std::vector<Kind> ok{SWITCH, MULTISWITCH, WORD, INTWORD, MULTI}, pk{WORD, INTWORD, MULTI};
        a.kind = pick(position ? pk : ok);
        serial++;
        a.name = fmt(chance(1, 4) ? "aRatherLongNameForAnArgument%d" : "n%d", serial);
        if (position) a.required = true;
        else {
            if (chance(1, 2) && serial < 26 && serial != 7) a.s = char('a' + serial); else a.l = fmt(chance(1, 4) ? "rather-long-option-%d" : "opt%d", serial);
            a.required = chance(1, 5);
        }
        a.help = chance(1, 6) ? "" : textWith(a.kind > MULTISWITCH);
        if (a.kind > MULTISWITCH) {
            auto value = [&] { Text t{fmt("%d", int(choose(100)))}; if (a.kind == INTWORD) t.push_back(fmt("w%d", int(choose(9)))); return t; };
            if (chance(1, 3)) for (int n = range(1, 2); n > 0; n--) a.metavar.push_back(chance(1, 4) ? "<a value>" : fmt("M%d", int(choose(9))));
            if (chance(1, 3)) for (int n = range(1, 4); n > 0; n--) a.choices.push_back(value());
            if (chance(1, 2)) a.def = value();
        }
        return a;
    }
    Grp someGroup(int depth) {
        Grp g; g.exclusive = depth && chance(1, 3);
        if (g.exclusive) g.required = chance(1, 2);
        else if (depth) { g.name = fmt(chance(1, 5) ? "g%d" : "group %d of options", ++serial); if (chance(1, 2)) g.desc = textWith(false); }
        g.desc = filled(g.desc, "${PROG}", "it");
        if (!g.exclusive) for (int n = int(choose(3)); n > 0; n--) g.pos.push_back(someArg(true));
        for (int n = g.exclusive ? range(1, 3) : int(choose(4)); n > 0; n--) { g.opt.push_back(someArg(false)); if (g.exclusive) g.opt.back().required = false; }
        if (!g.exclusive && depth < 2) for (int n = int(choose(3)); n > 0; n--) g.kids.push_back(someGroup(depth + 1));
        return g;
    }
    template <class T> static void finish(T& o, const Arg& a) {
        Argument::Argument& g = o;
        if (a.required && !a.position) g.required();
        if (!a.help.empty()) g.help(a.help);
        if (!a.metavar.empty()) g.metavar(a.metavar);
        if (!a.def.empty()) g.defaultVal(a.def);
        if (!a.choices.empty()) g.choices(a.choices);
    }
    template <class O> static Argument::OptionBase* option(const Arg& a) { O* o = a.s ? new O(a.name, a.s) : new O(a.name, a.l); finish(*o, a); return o; }
    template <class S> static Argument::OptionBase* sw(const Arg& a) { S* o = a.s ? new S(a.name, a.s) : new S(a.name, a.l); if (a.required) o->required(); if (!a.help.empty()) o->help(a.help); return o; }
    // in system scope
    static void declare(Argument::GroupBase& g, const Grp& r) {
        using namespace Argument;
        for (auto& a : r.pos) {
            PositionBase* p;
            switch (a.kind) {
                case INTWORD: { auto* x = new Position<int, std::string>(a.name); finish(*x, a); p = x; break; }
                case MULTI: { auto* x = new MultiPosition<int>(a.name); finish(*x, a); p = x; break; }
                default: { auto* x = new Position<std::string>(a.name); finish(*x, a); p = x; }
            }
            g.addPosition(p);
        }
        for (auto& a : r.opt) {
            switch (a.kind) {
                case SWITCH: g.addOption(sw<Switch>(a)); break;
                case MULTISWITCH: g.addOption(sw<MultiSwitch>(a)); break;
                case INTWORD: g.addOption(option<Option<int, std::string>>(a)); break;
                case MULTI: g.addOption(option<MultiOption<int>>(a)); break;
                default: g.addOption(option<Option<std::string>>(a));
            }
        }
        for (auto& k : r.kids) {
            Group& in = dynamic_cast<Group&>(g);
            if (k.exclusive) { MEGroup& m = in.addMutuallyExclusiveGroup(); if (k.required) m.required(); declare(m, k); }
            else declare(k.desc.empty() ? in.addGroup(k.name) : in.addGroup(k.name, k.desc), k);
        }
    }
    void argument(Toks& t, const Arg& a) {
        bool first = true;
        for (auto& w : words(form(a, false))) { t.push_back({w, first ? Tok::Start : Tok::Glued}); first = false; }
        std::string h = filled(filled(filled(a.help, "${PROG}", prog), "${DEFAULT}", joined(a.def)), "${CHOICES}", joined(a.choices));
        first = true;
        for (auto& w : words(h)) { t.push_back({w, first ? Tok::Help : Tok::Plain}); first = false; }
    }
    void groupHelp(Toks& t, const Grp& g, bool top) {
        if (g.exclusive) paragraph(t, "mutually exclusive group:");
        else if (!top) { paragraph(t, g.name); paragraph(t, g.desc); }
        if (top && !g.pos.empty()) paragraph(t, "positional arguments:");
        for (auto& a : g.pos) argument(t, a);
        if (top && !g.opt.empty()) paragraph(t, "optional arguments:");
        for (auto& a : g.opt) argument(t, a);
        for (auto& k : g.kids) groupHelp(t, k, false);
    }
    Toks expected(bool help) {
        Toks t;
        paragraph(t, filled(usage.empty() ? "usage: ${PROG} " + usageOf(root) : usage, "${PROG}", prog));
        if (!help) return t;
        paragraph(t, filled(desc, "${PROG}", prog));
        groupHelp(t, root, true);
        paragraph(t, filled(epilog, "${PROG}", prog));
        return t;
    }
    void show() {
        bool help = chance(2, 3);
        terminal.tty = !chance(1, 6);
        switch (choose(4)) { case 0: terminal.columns = 80; break; case 1: terminal.columns = range(40, 100); break; case 2: terminal.columns = range(0, 40); break; default: terminal.columns = range(100, 300); }
        terminal.ioctlFails = chance(1, 8);
        terminal.stdinTty = !chance(1, 6);
        size_t W = terminal.tty && !terminal.ioctlFails && terminal.columns > 0 ? size_t(terminal.columns) : 80;
        log("%s, terminal %d with %d columns%s%s", help ? "help" : "usage", terminal.tty, terminal.columns, terminal.ioctlFails ? ", failing" : "", terminal.stdinTty ? "" : ", input redirected");
        bool oom = chance(1, 5);
        if (oom) failAlloc(choose(uint32_t(chance(1, 3) ? 20 : 400)), chance(1, 3) ? 100000 : 1);
        Outcome o = call(help ? "help" : "usage", [&] { if (help) parser->printHelp(); else parser->printUsage(); });
        bool fired = oom && allocFired();
        failAllocOff();
        if (fired) fault("allocation failure");
        bool good;
        { SutScope s; good = std::cout.good(); std::cout.clear(); std::cout.flush(); }
        std::string text = takeOutput(); takeErrors();
        if (o.threw) { check(fired && o.badAlloc, "help-refused", o.str()); return; }
        check(good, "help-incomplete", "the output was left in a failed state");
        Toks want = expected(help);
        std::vector<std::string> lines; std::string line;
        for (char c : text) if (c == '\n') { lines.push_back(line); line.clear(); } else line += c;
        check(line.empty(), "help-incomplete", "the last line is not ended: " + shown(text, 800));
        struct At { size_t line, col; };
        std::vector<At> at; std::vector<std::string> got; std::vector<size_t> len;
        for (size_t l = 0; l < lines.size(); l++) {
            std::string& s = lines[l];
            while (!s.empty() && s.back() == ' ') s.pop_back();
            len.push_back(s.size());
            for (size_t i = 0; i < s.size();) { if (s[i] == ' ') { i++; continue; } size_t e = std::min(s.find(' ', i), s.size()); got.push_back(s.substr(i, e - i)); at.push_back({l, i}); i = e; }
        }
        for (size_t k = 0; k < std::max(want.size(), got.size()); k++)
            check(k < want.size() && k < got.size() && want[k].w == got[k], "help-text", fmt("word %zu is %s instead of %s: ", k, k < got.size() ? shown(got[k]).c_str() : "missing", k < want.size() ? shown(want[k].w).c_str() : "nothing") + shown(text, 1200));
        size_t helpCol = 0; bool inHelp = false;
        for (size_t k = 0; k < want.size(); k++) {
            bool fresh = !k || at[k].line != at[k - 1].line;
            std::string where = fmt(" at word %zu (%s) with %zu columns: ", k, shown(want[k].w).c_str(), W) + shown(text, 1200);
            switch (want[k].at) {
                case Tok::Start: check(fresh, "help-layout", "a paragraph does not start a line" + where); inHelp = false; break;
                case Tok::Glued: check(!fresh, "help-layout", "the form of an argument is broken" + where); break;
                case Tok::Help: inHelp = true; helpCol = at[k].col; break;
                default:
                    if (fresh) {
                        check(len[at[k - 1].line] + 1 + want[k].w.size() > W, "help-layout", "a line is broken where the next word fits" + where);
                        check(!inHelp || at[k].col == helpCol, "help-layout", "the help of an argument is not lined up" + where);
                    }
            }
        }
        for (size_t l = 0; l < lines.size(); l++) {
            if (len[l] <= W) continue;
            size_t loose = 0;
            for (size_t k = 0; k < want.size(); k++) if (at[k].line == l) loose += want[k].at == Tok::Help || want[k].at == Tok::Plain;
            bool startsPara = false; for (size_t k = 0; k < want.size(); k++) if (at[k].line == l && want[k].at == Tok::Start) { startsPara = true; }
            bool form = false; for (size_t k = 0; k + 1 < want.size(); k++) if (at[k].line == l && want[k].at == Tok::Start && (want[k + 1].at == Tok::Glued || want[k + 1].at == Tok::Help)) form = true;
            check(loose <= (startsPara && !form ? 0u : 1u), "help-layout", fmt("line %zu is %zu wide on %zu columns: ", l, len[l], W) + shown(text, 1200));
        }
        nontrivial();
        state(hash(text));
        if (W < 40) probe("narrow terminal");
    }
    void run() {
        static const std::vector<std::string> progs{"semba", "a-program-with-a-very-long-name-indeed", "p", "semba.exe"};
        prog = pick(progs);
        root = someGroup(0);
        desc = chance(1, 3) ? "" : textWith(false); epilog = chance(1, 2) ? "" : textWith(false);
        if (chance(1, 6)) usage = "usage: ${PROG} [options] " + textWith(false);
        Outcome o = call("declare", [&] {
            parser.reset(new Argument::Parser());
            if (!desc.empty()) parser->description(desc);
            if (!epilog.empty()) parser->epilog(epilog);
            if (!usage.empty()) parser->usage(usage);
            declare(*parser, root);
            parser->prog(prog);
        });
        check(!o.threw, "harness", "declaring " + o.str());
        for (int n = range(1, 5); n > 0; n--) show();
        SutScope s; parser.reset();
    }
};
}

void sim::run() {
    setBudget(20000000);
    randomLayout();
    fs().reset();
    World w;
    w.run();
}
