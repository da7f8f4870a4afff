// Command lines against the settings they were written for, under seeded histories of one parser.
#include "sim/sim.h"
#include "sim/fs.h"
#include "argument/Parser.h"
#include <memory>
#include <algorithm>
#include <iostream>
using namespace SEMBA;
const char* const sim::kProperty = "C24";
typedef Argument::Object Obj;
typedef std::list<std::string> Text;

struct Val {
    Obj::Type type = Obj::Type::Null;
    Text text;
    std::vector<Val> list;
    std::map<std::string, Val> m;
};
static Val text(const Text& t) { Val v; v.type = Obj::Type::String; v.text = t; return v; }
static std::string join(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + std::string("'") + sim::shown(x, 40) + "'"; return s; }
static std::string str(const Val& v) {
    std::string s;
    switch (v.type) {
    case Obj::Type::String: for (auto& t : v.text) s += (s.empty() ? "" : " ") + std::string("'") + sim::shown(t, 40) + "'"; return s;
    case Obj::Type::Array: for (auto& x : v.list) s += (s.empty() ? "" : ", ") + str(x); return "[" + s + "]";
    case Obj::Type::Dictionary: for (auto& x : v.m) s += (s.empty() ? "" : ", ") + x.first + ": " + str(x.second); return "{" + s + "}";
    default: return "null";
    }
}
static Val seen(const Obj& o) {    // in system scope
    Val v;
    v.type = o.getType();
    { sim::FrameworkScope f; }
    if (o.isType(Obj::Type::String) || v.type == Obj::Type::String) { Text t = o.getGenericString(); sim::FrameworkScope f; v.text = Text(t.begin(), t.end()); }
    for (size_t i = 0; i < o.size(); i++) {
        Val x = seen(o(i));
        sim::FrameworkScope f;
        if (v.type == Obj::Type::Array) v.list.push_back(x); else v.m[o.getName(i)] = x;
    }
    return v;
}
static bool same(const Val& a, const Val& b) {
    if (a.type != b.type || a.text != b.text || a.list.size() != b.list.size() || a.m.size() != b.m.size()) return false;
    for (size_t i = 0; i < a.list.size(); i++) if (!same(a.list[i], b.list[i])) return false;
    for (auto& x : a.m) { auto it = b.m.find(x.first); if (it == b.m.end() || !same(x.second, it->second)) return false; }
    return true;
}

enum Kind { SWITCH, MULTISWITCH, INT, REAL, WORD, INTWORD, MULTIINT, MULTIWORD };
static bool isSwitch(Kind k) { return k == SWITCH || k == MULTISWITCH; }
static bool isMulti(Kind k) { return k == MULTISWITCH || k == MULTIINT || k == MULTIWORD; }
struct Arg {
    Kind kind; std::string name; char s = 0; std::string l;
    bool position = false, required = false, hasDefault = false, dSwitch = false;
    size_t dCount = 0; Text def; std::vector<Text> choices;
    int group = 0;
    std::string id() const { return s ? std::string("-") + s : "--" + l; }
};
struct Grp { std::string name; int parent; bool exclusive, required; Argument::GroupBase* p; };

struct World {
    std::unique_ptr<Argument::Parser> parser;
    std::vector<Grp> groups;
    std::vector<Arg> args;              // in order of declaration
    std::vector<std::string> last;      // last line given
    int serial = 0;
    bool abbreviations = true;

    bool arm(int n) {
        using namespace sim;
        if (!chance(1, 4)) return false;
        failAlloc(choose(uint32_t(chance(1, 2) ? n / 6 + 1 : n)), chance(1, 3) ? 100000 : 1);
        return true;
    }
    bool disarm() {
        using namespace sim;
        bool f = allocFired(); failAllocOff();
        if (f) fault("allocation failure");
        { SutScope s; std::cout.clear(); std::cerr.clear(); std::cout.flush(); }
        takeOutput(); takeErrors();
        return f;
    }
    std::string integer() { static const std::vector<std::string> n{"5", "0", "-3", "007", "2147483647", "-12"}; return sim::pick(n); }
    std::string real() { static const std::vector<std::string> n{"1.5", "-2.5e-3", "3e8", "4", ".25", "1.602176634e-19"}; return sim::pick(n); }
    std::string word() { static const std::vector<std::string> n{"file.dat", "two words", "=x", "x-y", "a", "/a/long/path/to/a/project/file.semba.json", "-", "a=b", "4th"}; return sim::pick(n); }
    Text value(const Arg& a) {
        if (!a.choices.empty()) { Text t = a.choices[sim::choose(uint32_t(a.choices.size()))]; for (auto& x : t) if (x == "*") x = word(); return t; }
        switch (a.kind) {
        case INT: case MULTIINT: return Text{integer()};
        case REAL: return Text{real()};
        case INTWORD: { std::string i = integer(); return Text{i, word()}; }
        default: return Text{word()};
        }
    }
    bool usedShort(char c) { for (auto& a : args) if (a.s == c) return true; return false; }
    bool usedLong(const std::string& l) { for (auto& a : args) if (a.l == l || a.name == l) return true; return false; }
    template <class... T> Argument::OptionBase* option(const Arg& a, bool multi) {
        using namespace Argument;
        if (multi) { auto* o = a.s && a.l.empty() ? new MultiOption<T...>(a.name, a.s) : a.s ? new MultiOption<T...>(a.name, a.s, a.l) : a.name == a.l ? new MultiOption<T...>(a.name) : new MultiOption<T...>(a.name, a.l); finish(*o, a); return o; }
        auto* o = a.s && a.l.empty() ? new Option<T...>(a.name, a.s) : a.s ? (a.name == a.l ? new Option<T...>(a.s, a.l) : new Option<T...>(a.name, a.s, a.l)) : a.name == a.l ? new Option<T...>(a.name) : new Option<T...>(a.name, a.l);
        finish(*o, a);
        return o;
    }
    template <class T> static void finish(T& o, const Arg& a) {
        Argument::Argument& g = o;
        if (a.required && !a.position) g.required();
        if (a.hasDefault) g.defaultVal(a.def);
        if (!a.choices.empty()) g.choices(a.choices);
    }
    template <class S> Argument::OptionBase* sw(const Arg& a) {
        return a.s && a.l.empty() ? new S(a.name, a.s) : a.s ? new S(a.name, a.s, a.l) : a.name == a.l ? new S(a.name) : new S(a.name, a.l);
    }
    // in system scope
    void declare(const Arg& a, Argument::GroupBase& g) {
        using namespace Argument;
        if (a.position) {
            PositionBase* p;
            switch (a.kind) {
            case INT: { auto* x = new Position<int>(a.name); finish(*x, a); p = x; break; }
            case REAL: { auto* x = new Position<double>(a.name); finish(*x, a); p = x; break; }
            case INTWORD: { auto* x = new Position<int, std::string>(a.name); finish(*x, a); p = x; break; }
            case MULTIWORD: { auto* x = new MultiPosition<std::string>(a.name); finish(*x, a); p = x; break; }
            default: { auto* x = new Position<std::string>(a.name); finish(*x, a); p = x; }
            }
            g.addPosition(p);
            return;
        }
        OptionBase* o;
        switch (a.kind) {
        case SWITCH: { o = sw<Switch>(a); Switch& x = dynamic_cast<Switch&>(*o); if (a.hasDefault) x.defaultVal(a.dSwitch); x.required(a.required); break; }
        case MULTISWITCH: { o = sw<MultiSwitch>(a); MultiSwitch& x = dynamic_cast<MultiSwitch&>(*o); if (a.hasDefault) x.defaultVal(a.dCount); x.required(a.required); break; }
        case INT: o = option<int>(a, false); break;
        case MULTIINT: o = option<int>(a, true); break;
        case REAL: o = option<double>(a, false); break;
        case INTWORD: o = option<int, std::string>(a, false); break;
        case MULTIWORD: o = option<std::string>(a, true); break;
        default: o = option<std::string>(a, false);
        }
        g.addOption(o);
    }
    Arg someArg() {
        using namespace sim;
        Arg a;
        a.group = int(choose(uint32_t(groups.size())));
        a.position = !groups[size_t(a.group)].exclusive && chance(1, 4);
        static const std::vector<Kind> ok{INT, WORD, REAL, INTWORD, SWITCH, MULTISWITCH, MULTIINT, MULTIWORD}, pk{WORD, INT, REAL, INTWORD, MULTIWORD};
        a.kind = pick(a.position ? pk : ok);
        serial++;
        a.name = fmt("n%d", serial);
        if (!a.position) {
            static const std::vector<std::string> longs{"alpha", "alphabet", "num", "number", "file", "verbose", "be-ta", "time_step", "final.time", "x2y"};
            int how = choose(3);
            if (how != 1) { a.s = char('a' + choose(8)); if (choose(6) == 0) a.s = char('A' + choose(8)); }
            if (how != 0 && !(how == 2 && a.s == 0)) { a.l = pick(longs); if (a.l == "x2y") a.l = "xy2"; if (chance(1, 3) || a.kind == SWITCH) a.name = a.l; }
        }
        bool exclusive = groups[size_t(a.group)].exclusive;
        if (!a.position) a.required = !exclusive && chance(1, 6);
        if (isSwitch(a.kind)) { if (chance(1, 3)) { a.hasDefault = true; a.dSwitch = chance(1, 2); a.dCount = choose(4); } }
        else {
            if (chance(1, 6)) { int n = range(1, 4); std::vector<Text> c; for (int i = 0; i < n; i++) { Text t = value(a); if (a.kind == INTWORD && chance(1, 3)) t.back() = "*"; if (std::find(c.begin(), c.end(), t) == c.end()) c.push_back(t); } a.choices = c; }
            if (a.position || chance(1, 3)) { a.hasDefault = !a.position || chance(2, 3); if (a.hasDefault) a.def = value(a); }
        }
        return a;
    }
    bool clashes(const Arg& a) {
        for (auto& b : args) {
            if (a.s && a.s == b.s) return true;
            if (!a.l.empty() && a.l == b.l) return true;
            if (a.name == b.name && scope(a.group) == scope(b.group)) return true;
        }
        for (auto& g : groups) if (!g.exclusive && g.name == a.name && g.parent == scope(a.group)) return true;
        return false;
    }
    int scope(int g) { return groups[size_t(g)].exclusive ? groups[size_t(g)].parent : g; }
    // names are unique in their group; a clash is refused and changes nothing
    void declareSome() {
        using namespace sim;
        Arg a = someArg();
        if (!args.empty() && chance(1, 5)) {    // a clash on purpose
            const Arg& b = args[choose(uint32_t(args.size()))];
            if (b.position) { a.name = b.name; a.group = b.group; if (!a.position) a.l = a.l.empty() && !a.s ? "zz" : a.l; }
            else if (a.position) { a.name = b.name; a.group = b.group; if (groups[size_t(a.group)].exclusive) return; }
            else switch (choose(3)) { case 0: a.s = b.s ? b.s : a.s; break; case 1: a.l = b.l.empty() ? a.l : b.l; break; default: a.name = b.name; a.group = b.group; if (groups[size_t(a.group)].exclusive) a.required = false; }
            if (!a.position && !a.s && a.l.empty()) a.s = 'z';
        }
        bool bad = clashes(a);
        log("declare %s %s%s%s in group %d%s%s", a.position ? "position" : "option", a.name.c_str(), a.s ? fmt(" -%c", a.s).c_str() : "", a.l.empty() ? "" : (" --" + a.l).c_str(), a.group, a.required ? ", required" : "", bad ? ", clashes" : "");
        arm(80);
        Argument::GroupBase& g = *groups[size_t(a.group)].p;
        Outcome o = call("declare", [&] { declare(a, g); });
        bool fired = disarm();
        if (o.threw) {
            check(bad || fired, "declaration-refused", "declaring " + a.name + " " + o.str());
            if (bad && !fired) { fault("clashing declaration"); probe("declaration refused"); }
        } else {
            check(!bad, "clash-accepted", "a second argument with the name or identifier of " + a.name + " was accepted");
            args.push_back(a);
        }
    }
    void declareGroup() {
        using namespace sim;
        std::vector<int> parents;
        for (size_t i = 0; i < groups.size(); i++) if (!groups[i].exclusive) parents.push_back(int(i));
        Grp g; g.parent = parents[choose(uint32_t(parents.size()))]; g.exclusive = chance(1, 2); g.required = g.exclusive && chance(1, 3);
        g.name = fmt("g%d", ++serial);
        bool bad = false;
        if (!g.exclusive && chance(1, 5)) for (auto& b : groups) if (&b != &groups[0] && !b.exclusive) { g.name = b.name; g.parent = b.parent; bad = true; break; }
        Argument::Group& in = dynamic_cast<Argument::Group&>(*groups[size_t(g.parent)].p);
        log("declare group %s in group %d%s%s", g.name.c_str(), g.parent, g.exclusive ? ", exclusive" : "", bad ? ", clashes" : "");
        arm(20);
        Outcome o = call("group", [&] { if (g.exclusive) { Argument::MEGroup& m = in.addMutuallyExclusiveGroup(); g.p = &m; if (g.required) m.required(); } else g.p = &in.addGroup(g.name); });
        bool fired = disarm();
        if (o.threw) check(bad || fired, "declaration-refused", "declaring group " + g.name + " " + o.str());
        else { check(!bad, "clash-accepted", "a second group " + g.name + " was accepted"); groups.push_back(g); }
    }
    // the dictionary in which the members of a group are
    Val& of(Val& root, int g) {
        g = scope(g);
        if (g == 0) return root;
        Val& v = of(root, groups[size_t(g)].parent).m[groups[size_t(g)].name];
        v.type = Obj::Type::Dictionary;
        return v;
    }
    struct Line { std::vector<std::string> argv; Val want; bool refused = false; const char* why = ""; std::vector<std::string> unknown; };
    std::vector<std::string> written(const Arg& a, const Text& v, bool& attached) {
        using namespace sim;
        std::vector<std::string> t;
        attached = false;
        bool lng = !a.l.empty() && (!a.s || chance(1, 2));
        std::string id;
        if (lng) {
            id = a.l;
            if (abbreviations && chance(1, 3)) {     // abbreviated, when only one option begins like that
                for (size_t n = 2; n < a.l.size(); n++) {
                    if (!isalpha(a.l[1])) break;
                    std::string p = a.l.substr(0, n);
                    int many = 0; bool exact = false;
                    for (auto& b : args) { if (b.l.compare(0, n, p) == 0) many++; if (b.l == p) exact = true; }
                    if (many == 1 && !exact) { id = p; probe("abbreviated option"); break; }
                }
            }
            id = "--" + id;
        } else id = std::string("-") + a.s;
        if (v.size() == 1 && lng && chance(1, 2)) { t.push_back(id + "=" + v.front()); attached = true; return t; }
        if (v.size() == 1 && !lng && (a.kind == INT || a.kind == MULTIINT) && chance(1, 3)) { t.push_back(id + v.front()); attached = true; return t; }
        t.push_back(id);
        for (auto& x : v) t.push_back(x);
        return t;
    }
    Line line() {
        using namespace sim;
        Line L;
        L.want.type = Obj::Type::Dictionary;
        for (size_t i = 0; i < groups.size(); i++) of(L.want, int(i));
        // what is given
        struct Piece { size_t arg; std::vector<std::string> t; };
        std::vector<Piece> pieces;
        std::vector<std::string> positions;
        std::map<int, int> taken;   // of exclusive groups
        std::vector<size_t> given(args.size(), 0);
        bool stop = false;
        for (size_t i = 0; i < args.size(); i++) {
            const Arg& a = args[i];
            const Grp& g = groups[size_t(a.group)];
            Val& d = of(L.want, a.group);
            if (a.position) {
                if (!stop && a.hasDefault && chance(1, 3)) stop = true;
                if (stop) {
                    if (a.hasDefault) d.m[a.name] = text(a.def);
                    else { L.refused = true; L.why = "a position is missing"; }
                    continue;
                }
                Text v = value(a);
                positions.insert(positions.end(), v.begin(), v.end());
                if (isMulti(a.kind)) { Val& x = d.m[a.name]; x.type = Obj::Type::Array; x.list.push_back(text(v)); } else d.m[a.name] = text(v);
                continue;
            }
            bool give = a.required ? true : chance(1, 2);
            if (g.exclusive && give && taken[a.group]) give = false;
            if (give) {
                if (g.exclusive) taken[a.group]++;
                int n = isMulti(a.kind) ? range(1, 3) : 1;
                Val res;
                if (a.kind == SWITCH) res = text({a.hasDefault && a.dSwitch ? "0" : "1"});
                else if (a.kind == MULTISWITCH) res = text({fmt("%zu", (a.hasDefault ? a.dCount : 0) + size_t(n))});
                else if (isMulti(a.kind)) res.type = Obj::Type::Array;
                for (int k = 0; k < n; k++) {
                    Text v; bool attached;
                    if (!isSwitch(a.kind)) { v = value(a); if (isMulti(a.kind)) res.list.push_back(text(v)); else res = text(v); }
                    pieces.push_back({i, written(a, v, attached)});
                }
                given[i] = size_t(n);
                d.m[a.name] = res;
            } else if (!g.exclusive) {
                if (isSwitch(a.kind)) { if (a.hasDefault) d.m[a.name] = text({a.kind == SWITCH ? (a.dSwitch ? "1" : "0") : fmt("%zu", a.dCount)}); }
                else if (a.hasDefault) d.m[a.name] = text(a.def);
            }
        }
        for (size_t g = 0; g < groups.size(); g++) if (groups[g].required) {
            if (!taken[int(g)]) { L.refused = true; L.why = "none of a required group is given"; }
        }
        // order: repeated options keep theirs
        for (size_t i = pieces.size(); i > 1; i--) {
            size_t j = choose(uint32_t(i));
            if (j == i - 1) continue;
            bool crosses = false;
            for (size_t k = j; k < i; k++) for (size_t q = k + 1; q < i; q++) if (pieces[k].arg == pieces[q].arg) crosses = true;
            if (!crosses) std::swap(pieces[i - 1], pieces[j]);
        }
        // a damage
        bool missingValue = false;
        if (!L.refused && chance(1, 3)) {
            switch (choose(10)) {
            case 0: L.unknown = {chance(1, 2) ? "--zzz" : "-z"}; for (auto& a : args) if (a.s == 'z' || a.l.compare(0, 3, "zzz") == 0) L.unknown.clear(); break;
            case 1: case 2: {       // a required one is missing
                for (size_t k = 0; k < pieces.size(); k++) if (args[pieces[k].arg].required && (isSwitch(args[pieces[k].arg].kind) ? !args[pieces[k].arg].hasDefault : !args[pieces[k].arg].hasDefault) && given[pieces[k].arg] == 1) {
                    pieces.erase(pieces.begin() + long(k)); L.refused = true; L.why = "a required option is missing"; break;
                }
                break;
            }
            case 3: {               // a single one given twice
                if (pieces.empty()) break;
                Piece p = pieces[choose(uint32_t(pieces.size()))];
                if (isMulti(args[p.arg].kind)) break;
                pieces.push_back(p); L.refused = true; L.why = "an option is given twice";
                break;
            }
            case 4: {               // no value
                if (pieces.empty() || isSwitch(args[pieces.back().arg].kind)) break;
                pieces.back().t = {args[pieces.back().arg].id()}; missingValue = true; L.refused = true; L.why = "an option has no value";
                break;
            }
            case 5: {               // not a number
                for (auto& p : pieces) { Kind k = args[p.arg].kind; if (k != INT && k != REAL && k != MULTIINT) continue; p.t = {args[p.arg].id(), "abc"}; L.refused = true; L.why = "a value is not a number"; break; }
                break;
            }
            case 7: case 8: {       // none of the choices
                std::vector<size_t> c;
                for (size_t k = 0; k < pieces.size(); k++) if (!args[pieces[k].arg].choices.empty()) c.push_back(k);
                if (c.empty()) break;
                Piece& p = pieces[pick(c)]; Arg any = args[p.arg]; any.choices.clear();
                Text v = value(any); bool of = false;
                for (auto& t : args[p.arg].choices) { bool all = true; auto y = v.begin(); for (auto x = t.begin(); x != t.end(); ++x, ++y) all &= *x == *y || *x == "*"; of |= all; }
                if (of) break;
                bool at; p.t = written(any, v, at); L.refused = true; L.why = "a value is none of the choices";
                break;
            }
            case 9: {               // an abbreviation that may be several options, or is none when there are no abbreviations
                for (auto& a : args) {
                    if (a.l.size() < 3 || !isalpha(a.l[1])) continue;
                    std::string p = a.l.substr(0, size_t(range(2, int(a.l.size()) - 1)));
                    int many = 0; bool exact = false;
                    for (auto& b : args) { if (b.l.compare(0, p.size(), p) == 0) many++; if (b.l == p) exact = true; }
                    if (exact || (abbreviations && many < 2)) continue;
                    if (!abbreviations) { L.unknown = {"--" + p}; probe("no abbreviations"); break; }
                    pieces.push_back({size_t(&a - &args[0]), {"--" + p}}); L.refused = true; L.why = "an abbreviation may be several options";
                    break;
                }
                break;
            }
            default: {              // two of an exclusive group
                for (size_t i = 0; i < args.size(); i++) {
                    const Arg& a = args[i];
                    if (a.position || given[i] || !groups[size_t(a.group)].exclusive || !taken[a.group]) continue;
                    bool at; Text v; if (!isSwitch(a.kind)) v = value(a);
                    pieces.push_back({i, written(a, v, at)}); L.refused = true; L.why = "two of an exclusive group are given";
                    break;
                }
            }
            }
        }
        std::vector<std::string> extra;
        if (!L.refused && L.unknown.empty() && !stop && chance(1, 8)) { extra = {"left over", "5"}; L.unknown = extra; positions.insert(positions.end(), extra.begin(), extra.end()); }
        // written down
        L.argv.push_back(chance(1, 2) ? "semba" : "/usr/bin/semba");
        size_t p = 0;
        size_t first = choose(uint32_t(positions.size()) + 1);
        while (p < first) L.argv.push_back(positions[p++]);
        std::string cluster;
        for (size_t k = 0; k < pieces.size(); k++) {
            const Arg& a = args[pieces[k].arg];
            bool last = k + 1 == pieces.size();
            // short switches written together
            if (a.s && isSwitch(a.kind) && pieces[k].t[0] == a.id() && !last && pieces[k + 1].t[0].size() == 2 && chance(1, 2)) { cluster += a.s; continue; }
            if (!cluster.empty()) { std::string t = "-" + cluster + pieces[k].t[0].substr(1); probe("options written together"); pieces[k].t[0] = t; cluster.clear(); }
            for (auto& t : pieces[k].t) L.argv.push_back(t);
            if (last && missingValue) break;
            bool danger = L.refused && std::string(L.why) == "a value is not a number";
            if (!danger) while (p < positions.size() && chance(1, 4)) { L.argv.push_back(positions[p++]); probe("position after an option"); }
        }
        if (!L.unknown.empty() && extra.empty()) L.argv.push_back(L.unknown[0]);
        if (p < positions.size() || chance(1, 6)) L.argv.push_back("--");
        while (p < positions.size()) L.argv.push_back(positions[p++]);
        if (L.argv.size() == 1 ) { L.refused = true; L.why = "nothing is given"; }
        return L;
    }
    // every declared argument is named in the help
    void help() {
        using namespace sim;
        terminal.tty = chance(1, 2); terminal.columns = range(20, 120);
        Outcome o = call("help", [&] { parser->printHelp(); });
        { SutScope s; std::cout.flush(); }
        std::string text = takeOutput();
        check(!o.threw, "help-refused", o.str());
        for (auto& a : args) {
            std::string id = a.id();
            if (a.position) { id = a.name; std::transform(id.begin(), id.end(), id.begin(), ::toupper); }
            int found = 0;
            for (size_t at = text.find(id); at != std::string::npos; at = text.find(id, at + 1)) {
                char b = at ? text[at - 1] : ' ', e = at + id.size() < text.size() ? text[at + id.size()] : ' ';
                if (std::string(" [(\n").find(b) != std::string::npos && std::string(" ])\n").find(e) != std::string::npos) found++;
            }
            check(found >= 2, "help-incomplete", "the help does not tell about " + id + ": " + shown(text, 600));
        }
    }
    void parse() {
        using namespace sim;
        Line L = line();
        bool known = !L.refused && chance(1, 3), again = chance(1, 5);
        log("line %s%s%s", join(L.argv).c_str(), L.refused ? ", to be refused: " : "", L.why);
        std::unique_ptr<std::vector<std::string>> rest;
        for (int k = 0; k < (again ? 2 : 1); k++) {
            Val got;
            rest.reset();
            bool bare = k == 1;
            bool bad = L.refused || (!known && !L.unknown.empty());
            if (!bare) arm(400);
            Outcome o = call("parse", [&] {
                if (known) {
                    std::pair<Obj, std::vector<std::string>> r = bare ? parser->parseKnownArgs() : parser->parseKnownArgs(L.argv);
                    FrameworkScope f; failAllocOff();
                    { SutScope s; got = seen(r.first); } rest.reset(new std::vector<std::string>(r.second.begin(), r.second.end()));
                } else {
                    Obj r = bare ? parser->parse() : parser->parse(L.argv);
                    FrameworkScope f;
                    { SutScope s; got = seen(r); }
                }
            });
            bool fired = disarm();
            std::string line = join(L.argv) + (bare ? " (again)" : "");
            if (o.threw) {
                check(bad || fired, "line-refused", line + " " + o.str() + "; expected " + str(L.want));
                if (bad && !fired) probe(L.refused ? L.why : "unknown arguments");
                if (fired) break;       // the line itself may not have been taken
                continue;
            }
            check(!bad, "line-accepted", line + " was accepted although " + (L.refused ? L.why : "something in it is unknown") + ", giving " + str(got));
            check(same(got, L.want), "settings-differ", line + " gave " + str(got) + " instead of " + str(L.want));
            if (rest) {
                std::vector<std::string> want{"semba"};
                if (!L.unknown.empty() && L.unknown.size() > 1) want.push_back("--");
                want.insert(want.end(), L.unknown.begin(), L.unknown.end());
                check(*rest == want, "rest-differs", line + " left " + join(*rest) + " instead of " + join(want));
            }
            state(str(got));
        }
        nontrivial();
    }
};
void sim::run() {
    fs().reset();
    setBudget(20000000);
    randomLayout();
    World w;
    w.abbreviations = !chance(1, 5);
    { SutScope s; w.parser.reset(new Argument::Parser()); if (!w.abbreviations) w.parser->allowAbbrev(false); }
    w.groups.push_back(Grp{"", -1, false, false, w.parser.get()});
    int n = range(1, 6);
    for (int i = 0; i < n; i++) { if (chance(1, 4)) w.declareGroup(); w.declareSome(); }
    int m = range(1, 8);
    for (int i = 0; i < m; i++) {
        if (chance(1, 5)) w.declareSome();
        if (chance(1, 8)) w.declareGroup();
        w.parse();
    }
    if (chance(1, 3)) w.help();
    SutScope s; w.parser.reset();
}
