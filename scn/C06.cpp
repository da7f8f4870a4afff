// Tables of samples and lists of grid positions on the simulated disk: delivered, damaged, unreadable. (usesjson)
#include "scn/parts.h"
#include "parser/json/Parser.h"
#include "source/magnitude/Numerical.h"
#include <cmath>
const char* const sim::kProperty = "C06";
using namespace sim;
using namespace model;
typedef Math::Function::LinearInterpolation<Math::Real, Math::Real> Table;
typedef std::map<double, double> Samples;

static std::string number(double& v) {
    static const std::vector<const char*> f{"%.17g", "%.17g", "%g", "%.10e", "%.3f", "%+.12g", "%.17E"};
    std::string s = fmt(pick(f), v);
    v = strtod(s.c_str(), nullptr);
    return s;
}
static double anyValue() {
    double m = pick(std::vector<double>{0, 1, 2.5, 0.1, 3e8, 1e-9, 1e-12, 7.25e-3, 123456.789, 1e-15, 1e100});
    if (m != 0) m *= 1 + choose(1000) / 16.;
    return chance(1, 3) ? -m : m;
}
static std::string gap(bool line) {
    if (line) return pick(std::vector<std::string>{"\n", "\n", "\r\n", " \n", "\n\n", "\n  ", " \t\n"});
    return pick(std::vector<std::string>{" ", "  ", "\t", "    ", " \t"});
}
static Samples table(std::string& text, bool big) {
    Samples s;
    int n = big ? range(300, 700) : chance(1, 4) ? range(1, 2) : range(1, 12);
    double x = chance(1, 2) ? 0 : anyValue(), step = pick(std::vector<double>{1, 1e-12, 1e-9, 0.3, 1000});
    if (std::abs(x) > 1e6 * step) x = 0;
    if (chance(1, 4)) text += gap(true);
    std::vector<std::pair<double, double>> rows;
    for (int i = 0; i < n; i++) { rows.push_back({x, big ? i * 0.5 - 3 : anyValue()}); x += step * (1 + (big ? i % 3 : int(choose(8)))); }
    if (!big && chance(1, 3)) for (int i = n - 1; i > 0; i--) std::swap(rows[i], rows[choose(uint32_t(i + 1))]);
    bool plain = big || chance(1, 2);
    for (size_t i = 0; i < rows.size(); i++) {
        double a = rows[i].first, b = rows[i].second;
        std::string ta = plain ? fmt("%.17g", a) : number(a), tb = plain ? fmt("%.17g", b) : number(b);
        if (s.count(a)) { if (text.empty()) { i--; continue; } continue; }   // rounded onto another one
        text += (plain ? "" : chance(1, 6) ? " " : "") + ta + (plain ? " " : gap(false)) + tb;
        if (i + 1 < rows.size() || chance(2, 3)) text += plain ? "\n" : gap(true);
        s[a] = b;
    }
    return s;
}
static double truth(const Samples& s, double x, double& tol) {
    auto hi = s.lower_bound(x);
    tol = 0;
    if (hi == s.end()) return s.rbegin()->second;
    if (hi->first == x || hi == s.begin()) return hi->second;
    auto lo = std::prev(hi);
    long double x1 = lo->first, y1 = lo->second, x2 = hi->first, y2 = hi->second;
    double big = std::max(std::abs(lo->second), std::abs(hi->second)), at = std::max(std::abs(lo->first), std::abs(hi->first));
    tol = 1e-13 * big * (2 + 8 * double(at / (x2 - x1)));
    return double(y1 + (y2 - y1) * ((x - x1) / (x2 - x1)));
}
template <class F> void compare(const Samples& s, F&& f, const std::string& what) {
    std::vector<double> xs;
    const double* last = nullptr;
    for (auto& k : s) { xs.push_back(k.first); if (last) { xs.push_back((*last + k.first) / 2); xs.push_back(*last + (k.first - *last) * 0.123); } last = &k.first; }
    double w = s.rbegin()->first - s.begin()->first + 1e-12;
    xs.push_back(s.begin()->first - w); xs.push_back(s.begin()->first - 1e-3 * w); xs.push_back(s.rbegin()->first + w); xs.push_back(s.rbegin()->first * 1.5 + 1);
    for (double x : xs) {
        double got = 0, tol, want = truth(s, x, tol);
        { SutScope sc; got = f(x); }
        check(tol == 0 ? got == want : std::abs(got - want) <= tol, "wrong-value", fmt("%s at %.17g is %.17g instead of %.17g", what.c_str(), x, got, want));
    }
}
static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
// What a file of samples holds, or nothing if it is not one.
static bool scan(const std::string& t, Samples& s) {
    std::vector<std::string> tok; std::string cur;
    for (char c : t + " ") { if (space(c)) { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += c; }
    if (tok.empty() || tok.size() % 2) return false;
    std::vector<double> v;
    for (auto& k : tok) {
        size_t i = 0, digits = 0;
        if (i < k.size() && (k[i] == '+' || k[i] == '-')) i++;
        while (i < k.size() && isdigit((unsigned char)k[i])) i++, digits++;
        if (i < k.size() && k[i] == '.') { i++; while (i < k.size() && isdigit((unsigned char)k[i])) i++, digits++; }
        if (!digits) return false;
        if (i < k.size() && (k[i] == 'e' || k[i] == 'E')) { size_t m = ++i; if (i < k.size() && (k[i] == '+' || k[i] == '-')) m = ++i; while (i < k.size() && isdigit((unsigned char)k[i])) i++; if (i == m) return false; }
        if (i != k.size()) return false;
        double d = strtod(k.c_str(), nullptr);
        if (std::isinf(d)) return false;
        v.push_back(d);
    }
    for (size_t i = 0; i < v.size(); i += 2) s.insert({v[i], v[i + 1]});
    return true;
}
static std::string document(const std::string& file) {
    return "{\"_version\":\"" OPENSEMBA_VERSION "\",\"materials\":[],\"layers\":[],\"coordinates\":[],\"elements\":{\"hexahedra\":[],\"tetrahedra\":[],\"quadrilateral\":[],\"triangle\":[],\"line\":[]},"
           "\"grids\":[{\"gridType\":\"positionsFromFile\",\"filename\":\"" + file + "\"}],\"connectorOnPoint\":[],\"sources\":[],\"outputRequests\":[]}";
}

void sim::run() {
    setBudget(60000000);
    randomLayout();
    fs().reset();
    fs().mkdirs("/work/data dir");
    for (int round = 0, rounds = range(1, 3); round < rounds; round++) {
        if (chance(1, 4)) randomLayout();
        fs().faults.clear();
        fs().shortTransfers = chance(1, 2); fs().interrupts = chance(1, 3); fs().xfer = Rng(seedChoice());
        bool grid = chance(1, 3);
        std::string name = pick(std::vector<std::string>{"table.txt", "./data dir/t.exc", "/work/t.1", "no extension"}), file = fs().absolute(name);
        std::string text; Samples truthS; std::vector<double> pos[3];
        if (!grid) truthS = table(text, chance(1, 8));
        else {
            std::vector<int> order{0, 1, 2};
            if (chance(1, 3)) std::swap(order[choose(3)], order[choose(3)]);
            bool loose = chance(1, 2), big = chance(1, 8);
            for (int k = 0; k < 3; k++) {
                int d = order[k]; double x = anyValue(); if (std::abs(x) > 1e3) x = -1;
                for (int i = big ? range(300, 600) : range(2, 9); i > 0; i--) { pos[d].push_back(x); x += big ? 0.25 : std::abs(x) * 1e-3 + 0.1 * (1 + choose(7)); }
                std::string t;
                for (double& v : pos[d]) { if (!t.empty()) t += ", "; std::string n = fmt(loose ? "%.9g" : "%.17g", v); v = strtod(n.c_str(), nullptr); t += n; }
                text += std::string(loose ? "\n  " : "") + "\"" + "xyz"[d] + "s\":" + (loose ? " " : "") + "[" + t + "]" + (k < 2 ? "," : loose ? "\n" : "");
            }
        }
        // damage, and what makes of it
        bool mustFail = false, mayFail = false;
        std::string how = "intact";
        fs().erase(file);
        uint32_t damage = choose(9);
        switch (damage) {
            case 0: case 1: case 2: fs().put(file, text); break;
            case 3: how = "missing"; mustFail = true; break;
            case 4: how = "a folder"; mustFail = true; fs().mkdirs(file); fs().put(file + "/x", "1 2\n"); break;
            case 5: { how = "empty"; mustFail = true; fs().put(file, pick(std::vector<std::string>{"", "\n", " \n\t\n", "\r\n"})); break; }
            case 6: { // cut
                how = "cut"; std::string t = text.substr(0, choose(uint32_t(text.size())));
                fs().put(file, t);
                if (grid) { size_t end = text.find_last_of(']'); mustFail = t.size() <= end; }
                else { truthS.clear(); mustFail = !scan(t, truthS); }
                break;
            }
            case 7: { // something that does not belong there
                how = "damaged"; std::string t = text;
                static const std::vector<std::string> junk{"x", "#", ",", "abc", "-", ".", "e", "1.2.3", "0x10", "1e999", "nan", "inf", "--1", "1,5", "\"", "}", "3"};
                size_t at = chance(1, 3) ? t.size() : choose(uint32_t(t.size()));
                if (chance(1, 2)) while (at < t.size() && t[at] != ' ' && t[at] != '\n') at++;
                std::string j = pick(junk); if (chance(1, 2)) j = " " + j + " ";
                if (chance(1, 3)) t.erase(at, 1 + choose(4));
                t.insert(std::min(at, t.size()), j);
                if (t.size() > 60 && chance(1, 6)) t.erase(0, t.size() / 2);
                fs().put(file, t);
                if (grid) { how = "damaged (grid)"; mayFail = true; }
                else { truthS.clear(); mustFail = !scan(t, truthS); }
                break;
            }
            case 8: { // reading fails
                how = "unreadable";
                fs().put(file, text);
                Fault f; bool open = chance(1, 3);
                f.accept = [open, file](Op o, const std::string& p) { return o == (open ? Op::Open : Op::Read) && p == file; };
                f.at = open ? 0 : choose(3); f.err = pickErrno(open ? Op::Open : Op::Read); f.sticky = chance(1, 2);
                fs().faults.push_back(f);
                break;
            }
        }
        if (damage < 3) nontrivial();
        if (mustFail) probe("files to be refused");
        if (grid) {
            if (damage == 7) {   // only what is certain: taken out, the positions are gone
                std::string t = text; size_t k = t.find(pick(std::vector<std::string>{"\"xs\"", "\"ys\"", "\"zs\""}));
                switch (choose(5)) {
                    case 0: t[k + 1] = 'q'; break;
                    case 1: t.insert(t.find('[', k) + 1, "\"a\", "); break;
                    case 2: { size_t a = t.find('[', k) + 1, b = t.find(']', k); t.erase(a, b - a); break; }
                    case 3: t += pick(std::vector<std::string>{"} {", "}}", "] ", "} x", ", 3"}); break;
                    case 4: t.insert(t.find(']', k), pick(std::vector<std::string>{", x", ",", ", [1]", ", null", " 7", ", {}"})); break;
                }
                fs().put(file, t); mustFail = true; mayFail = false;
            }
            std::unique_ptr<std::istringstream> in; Data got; Outcome o;
            { SutScope sc; in.reset(new std::istringstream(document(name))); }
            o = call("read", [&] { Parser::JSON::Parser p; Data d = p.read(*in); std::swap(got.mesh, d.mesh); });
            if (!fs().faults.empty() && fs().faults[0].fired) { fault("file can not be opened or read"); mustFail = true; }
            if (o.threw) { check(mustFail || mayFail, "refused", "a good file of grid positions (" + how + "): " + o.str()); }
            else {
                check(!mustFail, "accepted", "a file of grid positions that is " + how + " was accepted: " + shown(text, 120));
                check(got.mesh && got.mesh->is<Geometry::Mesh::Geometric>(), "accepted", "no mesh was read");
                auto& g = got.mesh->castTo<Geometry::Mesh::Geometric>()->grid();
                for (int d = 0; d < 3; d++) check(mayFail || g.getPos(d) == pos[d], "wrong-positions", fmt("the grid has other positions along %c", "xyz"[d]));
            }
            state(hash(text + how + (o.threw ? "!" : "")));
            SutScope sc; delete got.mesh; got.mesh = nullptr; in.reset();
        } else {
            bool numerical = chance(1, 2);
            std::unique_ptr<Table> t; std::unique_ptr<Source::Magnitude::Numerical> n; Outcome o;
            o = call("load", [&] { if (numerical) n.reset(new Source::Magnitude::Numerical(FileSystem::Project(name))); else t.reset(new Table(name)); });
            if (!fs().faults.empty() && fs().faults[0].fired) { fault("file can not be opened or read"); mustFail = true; }
            if (o.threw) check(mustFail, "refused", "a good table (" + how + "): " + o.str() + " : " + shown(text, 200));
            else {
                std::string now; fs().get(file, now);
                check(!mustFail, "accepted", "a table that is " + how + " was accepted: " + shown(now, 200));
                compare(truthS, [&](double x) { return numerical ? n->Magnitude::evaluate(x) : (*t)(x); }, "the table (" + how + ") '" + shown(now, 200) + "'");
                // the same samples, given in memory
                std::unique_ptr<Table> same; bool equal;
                std::vector<std::pair<double, double>> v(truthS.begin(), truthS.end());
                { SutScope sc; same.reset(new Table(v)); std::unique_ptr<Table> file2(new Table(*same)); fs().faults.clear(); Table again(name); equal = *same == again; file2.reset(); }
                check(equal, "wrong-value", "the table loaded again differs from its samples");
                SutScope sc; same.reset();
            }
            check(fs().openHandles == 0, "left-open", "the file was left open");
            state(hash(text + how + (o.threw ? "!" : "")));
            SutScope sc; t.reset(); n.reset();
        }
    }
}
