// Settings against a plain tree of values, under seeded histories with refused and out-of-memory operations.
#include "sim/sim.h"
#include "sim/fs.h"
#include "solver/Info.h"
#include <memory>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
using namespace SEMBA;
const char* const sim::kProperty = "C23";
typedef Argument::Object Obj;
typedef Obj::Type Type;

// what was stored, as it was given
struct Tok {
    char kind = 'w';            // i, r, b: a number, w: a word
    int i = 0; double r = 0; std::string w;
};
struct V {
    Type type = Type::Null;
    std::vector<std::string> names;     // of a dictionary
    std::vector<V> m;
    std::vector<Tok> s;
    int find(const std::string& n) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return int(i); return -1; }
    V& member(const std::string& n) {
        if (type != Type::Dictionary) { *this = V(); type = Type::Dictionary; }
        int i = find(n);
        if (i < 0) { i = int(m.size()); names.push_back(n); m.push_back(V()); }
        return m[size_t(i)];
    }
};
static std::string num(double r) { return sim::fmt("%.17g", r); }
static std::string str(const Tok& t) {
    return t.kind == 'i' ? sim::fmt("%d", t.i) : t.kind == 'r' ? num(t.r) + "r" : t.kind == 'b' ? (t.i ? "true" : "false") : "\"" + sim::shown(t.w, 40) + "\"";
}
static std::string str(const V& v) {
    std::string s;
    if (v.type == Type::Null) return "null";
    if (v.type == Type::String) { for (auto& t : v.s) s += (s.empty() ? "" : " ") + str(t); return s; }
    for (size_t i = 0; i < v.m.size(); i++) s += (i ? ", " : "") + (v.type == Type::Dictionary ? sim::shown(v.names[i], 20) + ": " : std::string()) + str(v.m[i]);
    return v.type == Type::Dictionary ? "{" + s + "}" : "[" + s + "]";
}
static size_t count(const V& v) { size_t n = 1; for (auto& x : v.m) n += count(x); return n; }
static V merged(const V& a, const V& b) {
    if (a.type == Type::Null) return b;
    if (b.type == Type::Null) return a;
    if (a.type == Type::Dictionary && b.type == Type::Dictionary) {
        V r; r.type = Type::Dictionary;
        for (size_t i = 0; i < a.m.size(); i++) { int j = b.find(a.names[i]); r.member(a.names[i]) = j < 0 ? a.m[i] : merged(a.m[i], b.m[size_t(j)]); }
        for (size_t i = 0; i < b.m.size(); i++) if (a.find(b.names[i]) < 0) r.member(b.names[i]) = b.m[i];
        return r;
    }
    if (a.type == Type::Dictionary) return a;
    return b;
}

// the text of a stored value: what it means has to come back, however it is written
static bool wholeInt(double r) { return std::floor(r) == r && std::fabs(r) < 1e5; }
static std::string tokDiffers(const Tok& t, const std::string& text) {
    if (t.kind == 'w') return text == t.w ? "" : "text \"" + sim::shown(text) + "\" instead of \"" + sim::shown(t.w) + "\"";
    char* end; double got = std::strtod(text.c_str(), &end);
    double want = t.kind == 'r' ? t.r : t.i;
    if (text.empty() || *end || !(got == want)) return "\"" + sim::shown(text) + "\" instead of " + num(want);
    return "";
}

struct Differ {
    std::string bad;
    template <class F> auto sut(F&& f) -> decltype(f()) { sim::SutScope s; return f(); }
    bool tell(const std::string& path, const std::string& what) { if (bad.empty()) bad = (path.empty() ? "the root" : path) + ": " + what; return false; }
    bool value(const std::string& p, const Obj& o, const V& v) {
        using sim::fmt;
        std::list<std::string> text = sut([&] { return o.getGenericString(); });
        if (text.size() != v.s.size()) return tell(p, fmt("%zu values instead of %zu", text.size(), v.s.size()));
        size_t k = 0; std::string joined;
        for (auto& x : text) { std::string d = tokDiffers(v.s[k++], x); if (!d.empty()) return tell(p, d); joined += (k > 1 ? " " : "") + x; }
        if (sut([&] { return o.getString(); }) != joined) return tell(p, "getString() differs from its parts");
        bool one = v.s.size() == 1, number = one && v.s[0].kind != 'w';
        if (sut([&] { return o.isNumber(); }) != number) return tell(p, "isNumber() is wrong");
        if (sut([&] { return o.isReal(); }) != number) return tell(p, "isReal() is wrong");
        if (one && v.s[0].kind == 'i') {
            if (!sut([&] { return o.isInt(); })) return tell(p, "isInt() says no");
            int g = sut([&] { return o.getInt(); }); if (g != v.s[0].i) return tell(p, fmt("getInt() is %d instead of %d", g, v.s[0].i));
        }
        if (one && v.s[0].kind == 'r') {
            double g = sut([&] { return o.getReal(); }); if (!(g == v.s[0].r)) return tell(p, "getReal() is " + num(g) + " instead of " + num(v.s[0].r));
        }
        if (one && v.s[0].kind == 'b') {
            if (!sut([&] { return o.isBool(); })) return tell(p, "isBool() says no");
            bool g = sut([&] { return o.getBool(); }); if (g != (v.s[0].i != 0)) return tell(p, "getBool() is wrong");
        }
        if (one && v.s[0].kind == 'w' && !v.s[0].w.empty() && sut([&] { return o.get<std::string>(); }) != v.s[0].w) return tell(p, "get<string>() differs");
        if (v.s.size() == 2 && v.s[0].kind == 'i' && v.s[1].kind == 'r') {
            std::pair<int, double> g = sut([&] { return o.get<int, double>(); });
            if (g.first != v.s[0].i || g.second != v.s[1].r) return tell(p, "get<int, double>() differs");
        }
        if (v.s.size() == 3 && v.s[0].kind == 'w' && v.s[1].kind == 'r' && v.s[2].kind == 'w') {
            std::tuple<std::string, double, std::string> g = sut([&] { return o.get<std::string, double, std::string>(); });
            if (std::get<0>(g) != v.s[0].w || std::get<1>(g) != v.s[1].r || std::get<2>(g) != v.s[2].w) return tell(p, "get<string, double, string>() differs");
        }
        return true;
    }
    bool tree(const std::string& p, const Obj& o, const V& v) {
        using sim::fmt;
        Type t = sut([&] { return o.getType(); });
        if (t != v.type) return tell(p, "type " + Obj::getTypeStr(t) + " instead of " + Obj::getTypeStr(v.type));
        if (sut([&] { return o.isNull(); }) != (v.type == Type::Null) || sut([&] { return o.isObject(); }) != (v.type == Type::Dictionary) ||
            sut([&] { return o.isArray(); }) != (v.type == Type::Array) || sut([&] { return o.isString(); }) != (v.type == Type::String)) return tell(p, "isNull/isObject/isArray/isString is wrong");
        size_t n = sut([&] { return o.size(); });
        if (n != v.m.size()) return tell(p, fmt("%zu members instead of %zu", n, v.m.size()));
        for (size_t i = 0; i < n; i++) {
            std::string q = p + "/" + (v.type == Type::Dictionary ? v.names[i] : fmt("%zu", i));
            const Obj* byPos = sut([&] { return &o(i); });
            if (v.type == Type::Dictionary) {
                if (sut([&] { return o.getName(i); }) != v.names[i]) return tell(q, "getName(" + fmt("%zu", i) + ") is another name");
                if (sut([&] { return o.existsName(v.names[i]); }) != (v.m[i].type != Type::Null)) return tell(q, "existsName() is wrong");
                if (sut([&] { return &o(v.names[i]); }) != byPos) return tell(q, "found another member by name than by position");
            }
            if (!tree(q, *byPos, v.m[i])) return false;
        }
        if (v.type == Type::Dictionary) for (const char* name : {"a", "b", "c", "d", "e", "not there"})
            if (v.find(name) < 0 && sut([&] { return o.existsName(name); })) return tell(p, fmt("\"%s\" is said to be there", name));
        if (v.type == Type::String) return value(p, o, v);
        return true;
    }
};
static std::string differs(const Obj& o, const V& v) {
    Differ d;
    sim::Outcome r = sim::call("inspect", [&] { sim::FrameworkScope f; d.tree("", o, v); });
    if (r.threw) return "looking at it " + r.str();
    return d.bad;
}

// what printing shows
static std::string printed(const V& v, const Obj& o, bool asString, size_t depth) {
    std::string s, pad(depth, ' ');
    switch (v.type) {
    case Type::Null: s = "null"; break;
    case Type::String: {
        std::list<std::string> text = o.getGenericString();
        if (v.s.size() == 1 && v.s[0].kind != 'w' && !asString) {
            char* end; long l = std::strtol(text.front().c_str(), &end, 10);
            if (!*end && std::labs(l) <= 2147483647l) s = sim::fmt("%ld", l); else s = sim::fmt("%.21g", v.s[0].kind == 'r' ? v.s[0].r : v.s[0].i);
        } else for (auto& x : text) s += std::string(s.empty() ? "" : " ") + "\"" + x + "\"";
        break;
    }
    default:
        s = v.type == Type::Array ? "[\n" : "{\n";
        for (size_t i = 0; i < v.m.size(); i++)
            s += pad + "  " + (v.type == Type::Array ? "" : "\"" + v.names[i] + "\" : ") + printed(v.m[i], o(i), asString, depth + 2) + (i + 1 < v.m.size() ? "," : "") + "\n";
        s += pad + (v.type == Type::Array ? "]" : "}");
    }
    return depth ? s : s + "\n";
}

struct World {
    std::vector<std::unique_ptr<Obj>> roots;
    std::vector<V> ref;

    struct At { size_t root; std::vector<size_t> path; };
    At somewhere() {
        using namespace sim;
        At a; a.root = choose(uint32_t(roots.size()));
        const V* v = &ref[a.root];
        while (!v->m.empty() && chance(2, 3)) { size_t i = choose(uint32_t(v->m.size())); a.path.push_back(i); v = &v->m[i]; }
        return a;
    }
    V& model(const At& a, std::vector<V>& in) { V* v = &in[a.root]; for (size_t i : a.path) v = &v->m[i]; return *v; }
    Obj& real(const At& a) { Obj* o = roots[a.root].get(); sim::SutScope s; for (size_t i : a.path) o = &(*o)(i); return *o; }
    std::string str(const At& a) { std::string s = sim::fmt("s%zu", a.root); for (size_t i : a.path) s += sim::fmt("/%zu", i); return s; }
    static bool within(const At& in, const At& of) {    // in is of, or part of it
        return in.root == of.root && in.path.size() >= of.path.size() && std::equal(of.path.begin(), of.path.end(), in.path.begin());
    }
    std::string name() { static const std::vector<std::string> n{"a", "b", "c", "d", "e"}; return sim::pick(n); }
    Tok tok(bool words = true, bool empty = false) {
        using namespace sim;
        Tok t;
        switch (choose(words ? 5 : 2)) {
        case 0: t.kind = 'i'; { static const std::vector<int> n{0, 1, -1, 7, 100, 65536, 123456789, 2147483647, -2147483647 - 1}; t.i = pick(n); } break;
        case 1: case 2: {
            t.kind = 'r';
            static const std::vector<double> n{0.5, 1.0, 3e8, 1e-9, 0.1, 123456.789, 6.62607015e-34, 1.0 / 3.0, -2.5e-12, 299792458.0, 1e300, 12345678901.0};
            t.r = pick(n);
            if (chance(1, 3)) { Rng r(seedChoice()); t.r = (double(r.below(2000001)) - 1e6) / 997.0 * std::pow(10.0, int(r.below(40)) - 20); }
            break;
        }
        case 3: t.kind = 'b'; t.i = chance(1, 2); break;
        default: {
            static const std::vector<std::string> n{"copper", "a b", "v1.0", "-x", "0.5mm", "a longer text than fits into a small string object", " lead", "1 2x"};
            t.w = pick(n);
            if (empty && chance(1, 8)) t.w.clear();
        }
        }
        return t;
    }
    // stores tokens the way a program would
    static void store(Obj& o, const std::vector<Tok>& s, bool chained) {
        if (s.size() == 1) {
            const Tok& t = s[0];
            switch (t.kind) {
            case 'i': if (chained) o = t.i; else o.setInt(t.i); break;
            case 'r': if (chained) o = t.r; else o.setReal(t.r); break;
            case 'b': if (chained) o.set(t.i != 0); else t.i ? o.setTrue() : o.setFalse(); break;
            default: if (chained) o.set(t.w); else o.setString(t.w);
            }
        } else if (s.size() == 2) o.set(s[0].i, s[1].r);
        else o.set(s[0].w, s[1].r, s[2].w);
    }
    std::vector<Tok> toks() {
        using namespace sim;
        if (chance(3, 4)) return {tok(true, true)};
        Tok w1, w2, i, r; w1.w = "first part"; w2.w = "last"; i.kind = 'i'; i.i = range(-5, 5000); r.kind = 'r'; r.r = choose(1000) / 7.0;
        if (chance(1, 2)) return {i, r};
        return {w1, r, w2};
    }
    bool arm() {
        using namespace sim;
        if (!chance(1, 3)) return false;
        failAlloc(choose(chance(1, 3) ? 60 : 12), chance(1, 3) ? 100000 : 1);
        return true;
    }
    bool disarm() {
        using namespace sim;
        bool f = allocFired(); failAllocOff();
        if (f) fault("allocation failure");
        return f;
    }
    void same(const std::vector<V>& want, const std::string& what) {
        for (size_t i = 0; i < roots.size(); i++) {
            std::string d = differs(*roots[i], want[i]);
            sim::check(d.empty(), "settings-differ", what + ": s" + sim::fmt("%zu", i) + " " + d + "; expected " + ::str(want[i]));
        }
        ref = want;
    }
    // runs an operation that gives want, or leaves everything as it was when memory runs out
    void apply(const std::string& what, const std::vector<V>& want, bool mustRefuse, const std::function<void()>& f) {
        using namespace sim;
        log("%s", what.c_str());
        arm();
        Outcome o = call("operation", f);
        bool fired = disarm();
        if (o.threw) {
            check(mustRefuse || fired, "operation-refused", what + " " + o.str());
            if (mustRefuse && !fired) fault("missing member");
            std::vector<V> before = ref;
            same(before, "after a failed " + what);
        } else {
            check(!mustRefuse, "invented-member", what + " was accepted");
            same(want, what);
        }
    }
    void step() {
        using namespace sim;
        At a = somewhere();
        std::vector<V> want = ref;
        V& w = model(a, want);
        Obj& o = real(a);
        switch (choose(14)) {
        case 0: case 1: {       // a member, made if it is not there
            std::string n = name();
            w.member(n);
            apply("touching member " + n + " of " + str(a), want, false, [&] { o(n); });
            break;
        }
        case 2: case 3: {       // a value
            std::vector<Tok> s = toks();
            w = V(); w.type = Type::String; w.s = s;
            bool chained = chance(1, 2);
            apply("setting " + str(a) + " to " + ::str(w), want, false, [&] { store(o, s, chained); });
            break;
        }
        case 4: case 5: {       // a member given its value
            std::string n = name();
            At b = somewhere();
            const V val = model(b, ref);
            if (count(ref[a.root]) + count(val) > 40) break;
            bool temporary = chance(1, 3);
            w.member(n) = val;
            Obj& src = real(b);
            apply("adding " + str(b) + " as member " + n + " of " + str(a), want, false, [&] {
                if (temporary) o.addMember(n, Obj(src)); else o.addMember(n, static_cast<const Obj&>(src));
            });
            break;
        }
        case 6: {               // a value of a list
            At b = somewhere();
            const V val = model(b, ref);
            if (count(ref[a.root]) + count(val) > 40) break;
            bool temporary = chance(1, 3);
            if (w.type != Type::Array) { w = V(); w.type = Type::Array; }
            w.m.push_back(val);
            Obj& src = real(b);
            apply("adding " + str(b) + " to the list " + str(a), want, false, [&] {
                if (temporary) o.addValue(Obj(src)); else o.addValue(static_cast<const Obj&>(src));
            });
            break;
        }
        case 7: {               // without a member
            if (w.type == Type::Dictionary) {
                std::string n = name();
                int i = w.find(n);
                if (i >= 0 && w.m[size_t(i)].type == Type::Null) break;     // not there according to existsName
                if (i >= 0) { w.m.erase(w.m.begin() + i); w.names.erase(w.names.begin() + i); probe("member removed"); }
                apply("removing member " + n + " of " + str(a), want, false, [&] { o.eraseMember(n); });
            } else if (w.type == Type::Array) {
                size_t i = choose(uint32_t(w.m.size()) + 1);
                bool there = i < w.m.size();
                if (there) { w.m.erase(w.m.begin() + long(i)); probe("list entry removed"); }
                apply(fmt("removing entry %zu of ", i) + str(a), want, !there, [&] { o.eraseValue(i); });
            }
            break;
        }
        case 8: case 9: {       // copies and moves, within a tree as well
            At b = somewhere();
            const V val = model(b, ref);
            Obj& src = real(b);
            if (count(ref[a.root]) + count(val) > 40) break;
            bool moved = chance(1, 3) && !within(a, b);
            w = val;
            if (moved) {
                bool inside = within(b, a);
                log("moving %s to %s", str(b).c_str(), str(a).c_str());
                Outcome r = call("move", [&] { o = std::move(src); if (!inside) src.setNull(); });
                check(!r.threw, "operation-refused", "moving " + r.str());
                if (!inside) model(b, want) = V();
                same(want, "moving " + str(b) + " to " + str(a));
            } else apply("copying " + str(b) + " to " + str(a), want, false, [&] { o = static_cast<const Obj&>(src); });
            break;
        }
        case 10: {              // merging
            At b = somewhere();
            const V val = model(b, ref);
            if (count(ref[a.root]) + count(val) > 40) break;
            Obj& src = real(b);
            V sum = merged(model(a, ref), val);
            if (sum.type == Type::Dictionary && val.type == Type::Dictionary && model(a, ref).type == Type::Dictionary) probe("dictionaries merged");
            bool info = chance(1, 4);
            if (info) {
                log("merging %s and %s in a solver's settings", str(a).c_str(), str(b).c_str());
                std::unique_ptr<Solver::Info> res;
                Outcome r = call("merge", [&] { Solver::Info i("solver", o); Solver::Info k(i); res.reset(new Solver::Info(k + src)); });
                check(!r.threw, "operation-refused", "merging " + r.str());
                std::string d = differs(res->getSettings(), sum);
                check(d.empty(), "settings-differ", "merging " + str(a) + " and " + str(b) + ": " + d + "; expected " + ::str(sum));
                { SutScope s; check(res->getName() == "solver", "settings-differ", "the solver's name is lost"); res.reset(); }
                same(std::vector<V>(ref), "after merging");
            } else {
                w = sum;
                bool plus = chance(1, 2);
                apply("merging " + str(b) + " into " + str(a), want, false, [&] { if (plus) o = o + src; else o += src; });
            }
            break;
        }
        case 11: {              // questions that fail, or that run out of memory
            std::string n = chance(1, 2) ? "not there" : name();
            bool there = w.type == Type::Dictionary && w.find(n) >= 0;
            size_t i = choose(uint32_t(w.m.size()) + 2);
            const Obj& c = o;
            if (chance(1, 2)) { apply("asking " + str(a) + " for member " + n, want, !there, [&] { c(n); }); break; }
            if (chance(1, 2)) { apply("asking " + str(a) + fmt(" for entry %zu", i), want, i >= w.m.size(), [&] { c(i); }); break; }
            if (w.type != Type::String || w.s.size() != 1) break;
            const Tok t = w.s[0];
            bool number = false; double r = 0; int in = 0;
            int q = choose(3);
            arm();
            Outcome g = call("question", [&] { if (q == 0) number = c.isNumber(); else if (q == 1) r = c.getReal(); else in = c.getInt(); });
            bool fired = disarm();
            if (g.threw) {
                bool fits = t.kind != 'r' || std::fabs(t.r) < 2e9;
                check(fired || (q != 0 && (t.kind == 'w' || (q == 2 && !fits))), "operation-refused", "asking for the number in " + ::str(w) + " " + g.str());
            } else if (q == 0) check(number == (t.kind != 'w'), "settings-differ", "isNumber() is wrong for " + ::str(w) + (fired ? " out of memory" : ""));
            else {
                check(t.kind != 'w', "invented-member", "a number was found in " + ::str(w));
                if (q == 1) check(r == (t.kind == 'r' ? t.r : t.i), "settings-differ", "getReal() is " + num(r) + " for " + ::str(w));
                else check(in == (t.kind == 'r' ? std::floor(t.r) : t.i), "settings-differ", fmt("getInt() is %d for ", in) + ::str(w));
            }
            same(std::vector<V>(ref), "after questions");
            break;
        }
        case 12: {              // printing
            bool asString = chance(1, 3);
            std::string expect;
            { SutScope s; FrameworkScope f; expect = printed(w, o, asString, 0); }
            takeOutput();
            arm();
            long before = 0, after = 0;
            Outcome r = call("print", [&] { before = std::cout.precision(); o.printInfo(asString); after = std::cout.precision(); });
            bool fired = disarm();
            if (r.threw) { SutScope s; after = std::cout.precision(); std::cout.clear(); std::cout.flush(); }
            check(!r.threw || fired, "operation-refused", "printing " + r.str());
            check(before == after, "output-format", fmt("printing %s left the precision of the output at %ld instead of %ld", ::str(w).c_str(), after, before));
            std::string got = takeOutput();
            if (!r.threw && !fired) check(got == expect, "printed", "printed " + shown(got, 600) + " instead of " + shown(expect, 600));
            same(std::vector<V>(ref), "after printing");
            break;
        }
        default: {              // emptied, copied into new settings, or released
            switch (choose(5)) {
            case 0: case 1: {
                int t = choose(3);
                Type k = t == 0 ? Type::Null : t == 1 ? Type::Dictionary : Type::Array;
                if (w.type != k) { w = V(); w.type = k; }
                apply("making " + str(a) + " " + Obj::getTypeStr(k), want, false, [&] { if (t == 0) o.setNull(); else if (t == 1) o.setObject(); else o.setArray(); });
                break;
            }
            case 2: {           // text of one put as it is into another, or into what contains it
                At b = somewhere();
                const V val = model(b, ref);
                if (val.type != Type::String) break;
                Obj& src = real(b);
                w = val;
                apply("giving the text of " + str(b) + " to " + str(a), want, false, [&] { o.setGenericString(src.getGenericString()); });
                break;
            }
            default: {
                if (roots.size() >= 3) {
                    size_t i = choose(uint32_t(roots.size()));
                    log("releasing s%zu", i);
                    { SutScope s; roots[i].reset(); }
                    roots.erase(roots.begin() + long(i)); ref.erase(ref.begin() + long(i));
                    same(std::vector<V>(ref), "after releasing others");
                    break;
                }
                std::unique_ptr<Obj> c;
                log("copy of %s", str(a).c_str());
                arm();
                Outcome r = call("copy", [&] { c.reset(new Obj(o)); });
                bool fired = disarm();
                check(!r.threw || fired, "operation-refused", "copying " + r.str());
                if (!r.threw) { roots.push_back(std::move(c)); V copy = model(a, ref); ref.push_back(copy); }
                same(std::vector<V>(ref), "copying");
            }
            }
        }
        }
        std::string st; for (auto& v : ref) st += ::str(v) + ";";
        state(st);
    }
};
void sim::run() {
    fs().reset();
    randomLayout();
    World w;
    { SutScope s; w.roots.emplace_back(new Obj()); }
    w.ref.push_back(V());
    int n = range(4, 24);
    for (int i = 0; i < n; i++) w.step();
    nontrivial();
    SutScope s; w.roots.clear();
}
