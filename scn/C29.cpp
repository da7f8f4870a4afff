// Grids under seeded histories of edits, some of them refused or out of memory, against plain lists of positions.
#include "sim/sim.h"
#include "geometry/Grid.h"
#include "geometry/Box.h"
#include <array>
#include <memory>
#include <algorithm>
#include <cmath>
using namespace SEMBA;
using namespace sim;
const char* const sim::kProperty = "C29";

namespace {
typedef Geometry::Grid3 G;
typedef std::vector<double> Line;
typedef std::array<Line, 3> Lines;
struct Slot { std::unique_ptr<G> g; Lines t; };
std::vector<Slot> s;
bool armed = false;

std::string str(const Line& l) { std::string r = "["; for (size_t i = 0; i < l.size(); i++) { if (i == 8 && l.size() > 12) { r += fmt(" ... %.10g", l.back()); break; } r += fmt("%s%.10g", i ? " " : "", l[i]); } return r + "]"; }
std::string str(const Lines& t) { return str(t[0]) + str(t[1]) + str(t[2]); }
bool ascending(const Line& l) { for (size_t i = 1; i < l.size(); i++) if (!(l[i] > l[i - 1])) return false; return !l.empty(); }
bool flat(const Line& l) { return l.size() < 2 || !ascending(l); }
double number() { static const Line v{1, 0.5, 2, 0.1, 3, 0.25, 1e-3, 7}; return pick(v); }
Line line() {
    Line l{pick(Line{0, -1, 2.5, -1e3, 1e-3})};
    double step = number();
    int n = chance(1, 5) ? range(10, 40) : range(1, 6);
    bool regular = chance(1, 2);
    for (int i = 0; i < n; i++) l.push_back(l.back() + (regular ? step : number()));
    if (chance(1, 15)) l.resize(1);
    return l;
}
Lines lines() { Lines t{{line(), line(), line()}}; return t; }
// whether lines could be put out of order
bool disorder(Lines& t) { Line& l = t[choose(3)]; if (l.size() < 2) return false; size_t i = choose(uint32_t(l.size() - 1)); std::swap(l[i], l[i + 1]); return true; }
Line twice(Line l) { if (l.size() == 1) l.push_back(l[0]); return l; }
Lines positions(const G& g) {
    Lines r;
    for (int d = 0; d < 3; d++) { Line l; { SutScope z; std::vector<double> p = g.getPos(size_t(d)); FrameworkScope f; l = Line(p.begin(), p.end()); } r[d] = l; }
    return r;
}
bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-9 * (std::abs(scale) + std::abs(b)); }
Math::CVecR3 vec(const double* v) { return Math::CVecR3(v[0], v[1], v[2]); }
// What a grid tells about its lines.
void compare(Slot& x, const std::string& what) {
    Lines p = positions(*x.g);
    for (int d = 0; d < 3; d++) check(p[d] == x.t[d], "grid-differs", what + fmt(": direction %d has ", d) + str(p[d]) + " instead of " + str(x.t[d]));
    for (auto& l : x.t) if (l.empty()) return;
    int d = int(choose(3)); const Line& l = x.t[d];
    size_t i = choose(uint32_t(l.size()));
    bool cells = true; for (auto& q : x.t) { cells &= !flat(q); double lo = HUGE_VAL, hi = 0; for (size_t j = 1; j < q.size(); j++) { lo = std::min(lo, q[j] - q[j - 1]); hi = std::max(hi, q[j] - q[j - 1]); } cells &= hi < 30 * lo; }    // cells are found with a tolerance
    Math::CVecI3 n, cell; Math::CVecR3 at, origin; double step = 0, least = 0; bool in = false, out = true; std::vector<double> steps; std::pair<Math::Int, double> mid(-1, -1), on(-1, -1); Math::CVecR3 lo, hi;
    Math::CVecI3 k; for (int q = 0; q < 3; q++) k(q) = Math::Int((i + size_t(q)) % x.t[q].size());
    double centre = i + 1 < l.size() ? l[i] + 0.375 * (l[i + 1] - l[i]) : l[i];
    const G& g = *x.g;
    Outcome o = call("questions", [&] {
        n = g.getNumCells(); at = g.getPos(k); origin = g.getOrigin();
        steps = g.getStep(size_t(d)); least = g.getMinimumSpaceStep();
        if (i + 1 < l.size()) step = g.getStep(size_t(d), Math::Int(i));
        in = g.isInto(size_t(d), l[i]); out = g.isInto(size_t(d), l.back() + 1) || g.isInto(size_t(d), l.front() - 1);
        if (cells) { on = g.getCellPair(size_t(d), l[i]); mid = g.getCellPair(size_t(d), centre, false); cell = g.getCell(at); }
        auto b = g.getFullDomainBoundingBox(); lo = b.getMin(); hi = b.getMax();
    });
    check(!o.threw, "question-threw", what + ": asking the grid " + str(x.t) + " " + o.str());
    for (int q = 0; q < 3; q++) {
        check(n(q) == Math::Int(x.t[q].size()) - 1, "grid-answer", what + fmt(": %d cells in ", int(n(q))) + str(x.t[q]));
        check(at(q) == x.t[q][size_t(k(q))] && origin(q) == x.t[q][0] && lo(q) == x.t[q].front() && hi(q) == x.t[q].back(), "grid-answer", what + ": a position, the origin or the extent of " + str(x.t[q]));
        if (cells) check(cell(q) == k(q), "grid-answer", what + fmt(": the cell at line %d of ", int(k(q))) + str(x.t[q]) + fmt(" is %d", int(cell(q))));
    }
    check(steps.size() == l.size() - 1, "grid-answer", what + ": steps of " + str(l));
    double m = HUGE_VAL; for (auto& q : x.t) for (size_t j = 1; j < q.size(); j++) m = std::min(m, q[j] - q[j - 1]);
    for (size_t j = 1; j < l.size(); j++) check(steps[j - 1] == l[j] - l[j - 1], "grid-answer", what + ": steps of " + str(l));
    check(least == m && (i + 1 >= l.size() || step == l[i + 1] - l[i]) && in && !out, "grid-answer", what + ": a step or the range of " + str(x.t));
    if (cells) {
        check(on.first == Math::Int(i) && on.second == 0, "grid-answer", what + fmt(": line %zu of ", i) + str(l) + fmt(" is taken as %d and %g", int(on.first), on.second));
        if (i + 1 < l.size()) check(mid.first == Math::Int(i), "grid-answer", what + fmt(": a point in cell %zu of ", i) + str(l) + fmt(" is taken to be in %d", int(mid.first)));
    }
    // Where points and boxes lie, and of what kind the grid is.
    bool solid = true; for (auto& q : x.t) solid &= q.size() > 1 && !flat(q);
    if (!solid || !cells || chance(1, 2)) { bool z = true, is = false; for (auto& q : x.t) z &= q.size() <= 1; { SutScope f; is = g.hasZeroSize(); } check(is == z, "grid-answer", what + ": whether " + str(x.t) + " is empty"); return; }
    double first = x.t[0][1] - x.t[0][0]; bool regular[3], cartesian = true, clear[3], sure = true;
    for (int q = 0; q < 3; q++) {
        const Line& w = x.t[q]; regular[q] = clear[q] = true;
        for (size_t j = 1; j < w.size(); j++) {
            double a = (w[j] - w[j - 1]) / (w[1] - w[0]), b = (w[j] - w[j - 1]) / first;
            regular[q] &= std::abs(a - 1) < 0.01; clear[q] &= std::abs(a - 1) < 1e-6 || std::abs(a - 1) > 0.05;
            cartesian &= std::abs(b - 1) < 0.01; sure &= std::abs(b - 1) < 1e-6 || std::abs(b - 1) > 0.05;
        }
    }
    size_t from[3], to[3]; double pt[3], low[3], high[3];
    for (int q = 0; q < 3; q++) {
        const Line& w = x.t[q]; from[q] = choose(uint32_t(w.size() - 1)); to[q] = from[q] + choose(uint32_t(w.size() - 1 - from[q]));
        auto in = [&](size_t j) { return w[j] + 0.375 * (w[j + 1] - w[j]); };
        pt[q] = low[q] = in(from[q]); high[q] = in(to[q]);
    }
    bool reg = false, regD = false, cart = false, onLines = false, off = true, into = false, outside = true, natural = false, past = true; long where = -1; double part = -1, unused; long unusedI;
    std::vector<double> range; std::vector<Math::CVecR3> centres; size_t everywhere = 0; Math::CVecI3 bMin, bMax; Math::CVecR3 rMin, rMax, len; Math::CVecI3 ijk;
    size_t all = x.t[0].size() * x.t[1].size() * x.t[2].size(); double beyond[3]; for (int q = 0; q < 3; q++) beyond[q] = pt[q]; { const Line& w = x.t[d]; beyond[d] = chance(1, 2) ? w.back() + (w.back() - w.front()) : w.front() - (w.back() - w.front()); }
    auto axis = Math::Constants::CartesianAxis(d);
    o = call("questions about places", [&] {
        reg = g.isRegular(); regD = g.isRegular(size_t(d)); cart = g.isCartesian();
        onLines = g.isCell(at); off = g.isCell(vec(pt));
        range = g.getPosInRange(size_t(d), low[d], high[d]);
        if (all < 3000) { centres = g.getCenterOfCellsInside(Geometry::BoxR3(vec(low), vec(high))); everywhere = g.getPos().size(); }
        auto b = g.getBoxIContaining(vec(pt)); bMin = b.getMin(); bMax = b.getMax();
        auto r = g.getBoxRContaining(vec(pt)); rMin = r.getMin(); rMax = r.getMax();
        natural = g.getNaturalCell(axis, pt[d], where, part); past = g.getNaturalCell(axis, beyond[d], unusedI, unused);
        auto f = g.getCVecI3Fractional(vec(pt), into); ijk = f; len = f.len_;
        g.getCVecI3Fractional(vec(beyond), outside);
    });
    check(!o.threw, "question-threw", what + ": asking " + str(x.t) + " for places " + o.str());
    if (clear[d]) check(regD == regular[d], "grid-kind", what + ": whether " + str(x.t[d]) + " is regular");
    if (clear[0] && clear[1] && clear[2]) check(reg == (regular[0] && regular[1] && regular[2]), "grid-kind", what + ": whether " + str(x.t) + " is regular");
    if (sure) { check(cart == cartesian, "grid-kind", what + ": whether all cells of " + str(x.t) + " are of one size"); if (cartesian) probe("one size of cells"); }
    check(onLines && !off, "grid-place", what + ": whether a point lies on the lines of " + str(x.t));
    check(range == Line(l.begin() + long(from[d]) + 1, l.begin() + long(to[d]) + 1), "grid-place", what + fmt(": lines of direction %d between %g and %g of ", d, low[d], high[d]) + str(l) + " are told as " + str(Line(range)));
    if (all < 3000) {
        check(everywhere == all, "grid-place", what + fmt(": %zu positions of ", everywhere) + str(x.t));
        size_t many = 1; for (int q = 0; q < 3; q++) many *= to[q] - from[q] > 0 ? to[q] - from[q] - 1 : 0;
        check(centres.size() == many, "grid-place", what + fmt(": %zu centres of cells instead of %zu inside of a box", centres.size(), many));
        if (many > 0) { size_t c = choose(uint32_t(many)), rest = c; for (int q = 2; q >= 0; q--) { size_t m = to[q] - from[q] - 1, j = from[q] + 1 + rest % m; rest /= m; const Line& w = x.t[q]; check(near(centres[c](q), (w[j] + w[j + 1]) / 2, w[j + 1] - w[j]), "grid-place", what + fmt(": a centre of a cell in direction %d is %g", q, centres[c](q))); } probe("centres of cells"); }
    }
    for (int q = 0; q < 3; q++) {
        Math::Int j = Math::Int(from[q]); const Line& w = x.t[q];
        check(bMin(q) == j && bMax(q) == j + 1 && rMin(q) == w[size_t(j)] && rMax(q) == w[size_t(j) + 1], "grid-place", what + fmt(": the cell holding %g in direction %d of ", pt[q], q) + str(w));
        check(into && ijk(q) == j && std::abs(len(q) - 0.375) < 1e-6, "grid-place", what + fmt(": %g in direction %d of ", pt[q], q) + str(w) + fmt(" is placed at %d and %g", int(ijk(q)), len(q)));
    }
    check(natural && where == long(from[d]) && std::abs(part - 0.375) < 1e-6, "grid-place", what + fmt(": %g in ", pt[d]) + str(l) + fmt(" is placed at %ld and %g", where, part));
    check(!past && !outside, "grid-place", what + fmt(": %g is taken to be inside of ", beyond[d]) + str(l));
}
void arm() { armed = chance(1, 4); if (armed) { uint32_t at = choose(chance(1, 2) ? 4 : chance(2, 3) ? 16 : 60), many = chance(1, 3) ? 100000 : 1; failAlloc(at, many); } }
// whether it was done
bool settle(const Outcome& o, const std::string& what, bool mayRefuse = false) {
    bool fired = armed && allocFired();
    failAllocOff();
    if (fired) fault("allocation failure");
    check(!o.threw || mayRefuse || (fired && o.badAlloc), "good-edit-refused", what + ": " + o.str());
    return !o.threw;
}
template <class F> void edit(Slot& x, const Lines& want, const std::string& what, bool impossible, F&& f) {
    log("%s of %s", what.c_str(), str(x.t).c_str());
    arm();
    Outcome o = call("edit", f);
    bool done = settle(o, what, impossible);
    check(!done || !impossible, "impossible-accepted", what + " gives " + str(positions(*x.g)));
    if (impossible) probe("refused");
    if (done) x.t = want;
    compare(x, (done ? "" : "after a failed ") + what);
}
template <class F> void create(Slot& x, const Lines& want, const std::string& what, bool impossible, double tol, F&& f) {
    log("%s", what.c_str());
    Slot n;
    arm();
    Outcome o = call("create", [&] { n.g.reset(f()); });
    bool done = settle(o, what, impossible);
    if (impossible) probe("refused");
    if (!done) return;
    Lines p = positions(*n.g);
    check(!impossible, "impossible-accepted", what + " gives " + str(p));
    for (int d = 0; d < 3; d++) {
        bool ok = p[d].size() == want[d].size();
        for (size_t i = 0; ok && i < p[d].size(); i++) ok = tol == 0 ? p[d][i] == want[d][i] : near(p[d][i], want[d][i], tol);
        check(ok, "grid-differs", what + fmt(": direction %d has ", d) + str(p[d]) + " instead of " + str(want[d]));
    }
    n.t = p;
    compare(n, what);
    SutScope z; x.g = std::move(n.g); FrameworkScope q; x.t = n.t;
}

// The lines added at one side must cover the padding with cells of the size asked for. Empty when they do.
std::string padded(const Line& was, const Line& now, bool upper, double pad, double size) {
    size_t added = now.size() < was.size() ? 0 : now.size() - was.size();
    if (now.size() < was.size()) return "lines are lost";
    for (size_t i = 0; i < was.size(); i++) if (now[upper ? i : i + added] != was[i]) return "a line that was there is moved";
    pad = std::abs(pad); size = std::abs(size);
    double border = upper ? was[was.size() - 1] - was[was.size() - 2] : was[1] - was[0];
    if (pad == 0 || size > pad) return added ? "lines are added though there is no padding, or it is smaller than the cells" : "";
    Line steps;
    for (size_t i = 0; i < added; i++) steps.push_back(upper ? now[was.size() + i] - now[was.size() + i - 1] : now[added - i] - now[added - i - 1]);
    double total = 0; for (double v : steps) { if (!(v > 0)) return "the lines are not in order"; total += v; }
    double scale = std::max(std::abs(now.front()), std::abs(now.back()));
    auto uniform = [&]() -> std::string {        // cells as at the border
        for (double v : steps) if (std::abs(v - border) > 1e-9 * scale + 1e-6 * border) return "a cell is not as large as those at the border";
        if (total < pad - 0.011 * border || total - border > pad + 1e-6 * border) return fmt("the cells cover %g", total);
        return "";
    };
    if (border == 0) { border = size; probe("padding of a flat grid"); }      // no cells to continue: those asked for
    if (size <= border) return uniform();
    if (size <= border * (1 + 1e-6) && uniform().empty()) return "";
    if (added == 0) return "nothing is added";
    if (std::abs(steps.back() - size) > 1e-9 * scale + 1e-6 * size) return fmt("the last cell is %g", steps.back());
    double last = border;
    for (size_t i = 0; i < steps.size(); i++) { if (steps[i] < border * (1 - 1e-6) - 1e-9 * scale || steps[i] > size * 1.5 || (i + 1 < steps.size() && steps[i] < last - 1e-9 * scale)) return fmt("cell %zu is %g after %g", i, steps[i], last); last = steps[i]; }
    if (total < 0.45 * pad || total > pad + size) return fmt("the cells cover %g", total);
    return "";
}
void step() {
    size_t a = choose(uint32_t(s.size())), b = choose(uint32_t(s.size()));
    Slot& x = s[a]; Slot& y = s[b];
    Lines t = x.t;
    bool cells = true, any = true; for (auto& l : t) { cells &= !flat(l); any &= !l.empty(); }
    switch (choose(12)) {
        case 0: {                                    // steps
            double lo[3], len[3], st[3]; Lines w; bool bad = false, hole = chance(1, 8); int where = int(choose(3));
            for (int d = 0; d < 3; d++) {
                lo[d] = pick(Line{0, -1, 2.5, -100}); st[d] = number(); int n = range(1, 12); len[d] = st[d] * n; int how = choose(4);
                if (how == 1) { len[d] -= 0.4 * st[d]; } else if (how == 2 && n > 1) { len[d] -= 0.4 * st[d]; }
                if (how == 3 && chance(1, 4)) { st[d] = 0; n = 1; }
                if (hole && d == where) { st[d] = -st[d]; if (st[d] == 0) st[d] = -1; bad = true; }
                for (int i = 0; i <= n; i++) w[d].push_back(lo[d] + i * st[d]);
            }
            double hi[3]; for (int d = 0; d < 3; d++) hi[d] = lo[d] + len[d];
            create(x, w, fmt("grid from (%g %g %g) to (%g %g %g) with steps (%g %g %g)", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], st[0], st[1], st[2]), bad, 1, [&] { return new G(Geometry::BoxR3(vec(lo), vec(hi)), vec(st)); });
            break;
        }
        case 1: {                                    // numbers of cells
            double lo[3], hi[3]; int n[3]; Lines w; bool bad = false, hole = chance(1, 4); int where = int(choose(3));
            for (int d = 0; d < 3; d++) {
                lo[d] = pick(Line{0, -1, 2.5, -100}); hi[d] = lo[d] + number(); n[d] = range(1, 12);
                if (hole && d == where) { n[d] = chance(2, 3) ? 0 : -1 - int(choose(3)); bad = true; }
                for (int i = 0; i <= n[d]; i++) w[d].push_back(lo[d] + i * ((hi[d] - lo[d]) / n[d]));
            }
            create(x, w, fmt("grid from (%g %g %g) to (%g %g %g) of %dx%dx%d cells", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], n[0], n[1], n[2]), bad, 1, [&] { return new G(Geometry::BoxR3(vec(lo), vec(hi)), Math::CVecI3(n[0], n[1], n[2])); });
            break;
        }
        case 2: {
            Lines w = lines(); bool bad = chance(1, 5) && disorder(w);
            create(x, w, "grid of lines " + str(w), bad, 0, [&] { std::vector<double> p[3]; for (int d = 0; d < 3; d++) p[d] = std::vector<double>(w[d].begin(), w[d].end()); return new G(p); });
            break;
        }
        case 3: create(x, y.t, fmt("copy of grid %zu", b), false, 0, [&] { return new G(*y.g); }); break;
        case 4: { Lines w = y.t; edit(x, w, fmt("assignment of grid %zu to grid %zu", b, a), false, [&] { *x.g = *y.g; }); break; }
        case 5: {
            Lines w = lines(); bool bad = chance(1, 4); if (bad && (chance(1, 2) || !disorder(w))) w[choose(3)].clear();
            Lines kept; for (int d = 0; d < 3; d++) kept[d] = twice(w[d]);
            edit(x, kept, "setting to " + str(w), bad, [&] { std::vector<double> p[3]; for (int d = 0; d < 3; d++) p[d] = std::vector<double>(w[d].begin(), w[d].end()); x.g->setPos(p); });
            break;
        }
        case 6: {
            double f = pick(Line{2, 0.5, 1e-3, 1000, 1}); Lines w = t; for (auto& l : w) for (double& v : l) v *= f;
            if (any && std::max({std::abs(w[0].back()), std::abs(w[1].back()), std::abs(w[2].back())}) > 1e9) break;
            edit(x, w, fmt("scaling by %g", f), false, [&] { x.g->applyScalingFactor(f); });
            break;
        }
        case 7: case 8: {                            // lines beyond a bound
            if (!any) break;
            int d = int(choose(3)); bool up = chance(1, 2); Line st; for (int n = chance(1, 5) ? 0 : range(1, 6); n > 0; n--) st.push_back(number());
            if (t[d].size() > 400) break;
            bool bad = !st.empty() && chance(1, 6); if (bad) { double& v = st[choose(uint32_t(st.size()))]; v = -v; }
            Lines w = t;
            if (up) for (double v : st) w[d].push_back(w[d].back() + v); else for (double v : st) w[d].insert(w[d].begin(), w[d].front() - v);
            edit(x, w, fmt("adding %zu lines %s direction %d", st.size(), up ? "above" : "below", d), bad, [&] {
                std::vector<double> v(st.begin(), st.end());
                x.g->setAdditionalSteps(Math::Constants::CartesianAxis(d), up ? Math::Constants::U : Math::Constants::L, v);
            });
            break;
        }
        default: {                                   // padding
            if (!any) break;
            bool one = chance(1, 3); int d1 = int(choose(3)), b1 = int(choose(2)), silly = chance(1, 10) ? int(choose(6)) : -1;
            double pad[2][3], size[2][3]; bool bad = false, warn = false; std::string what = one ? "padding" : "padding all around with";
            for (int d = 0; d < 3; d++) for (int u = 0; u < 2; u++) {
                const Line& l = t[d];
                pad[u][d] = size[u][d] = 0;
                if (one ? d != d1 || u != b1 : chance(1, 3)) continue;
                double border = l.size() < 2 ? 0 : u ? l.back() - l[l.size() - 2] : l[1] - l[0], unit = border > 0 ? border : number();
                static const Line ratios{1, 1, 2, 3, 1.5, 10, 0.5, 1 + 1e-3, 1 + 1e-5, 1 + 1e-7, 1 + 1e-8, 1 + 1e-9, 1 + 1e-11, 1 + 1e-13, 1.25, 30};
                size[u][d] = chance(1, 6) ? 0 : unit * pick(ratios);
                if (border == 0 && size[u][d] == 0 && chance(1, 2)) size[u][d] = unit;
                double cell = size[u][d] != 0 ? size[u][d] : unit;
                pad[u][d] = cell * pick(Line{1, 1, 2, 3, 2.5, 5, 8, 20, 1.004, 1.5, 0.5, 60});
                if (silly == d * 2 + u) { if (chance(1, 2)) pad[u][d] = -pad[u][d]; }
                if (chance(1, 12)) pad[u][d] = 0;
                if (l.size() < 2) bad |= pad[u][d] != 0 && std::abs(size[u][d]) <= std::abs(pad[u][d]);
                else if (border == 0 && size[u][d] == 0 && pad[u][d] != 0) bad = true;
                if (std::abs(size[u][d]) > std::abs(pad[u][d])) warn = true;
                what += fmt(" (direction %d %s: %.10g in cells of %.12g)", d, u ? "above" : "below", pad[u][d], size[u][d]);
            }
            for (auto& l : t) if (l.size() > 600) return;
            log("%s of %s", what.c_str(), str(t).c_str());
            arm();
            Outcome o = call("padding", [&] {
                if (one) x.g->enlargeBound(Math::Constants::CartesianAxis(d1), b1 ? Math::Constants::U : Math::Constants::L, pad[b1][d1], size[b1][d1]);
                else x.g->enlarge(std::make_pair(vec(pad[0]), vec(pad[1])), std::make_pair(vec(size[0]), vec(size[1])));
            });
            bool done = settle(o, what, bad);
            std::string err = takeErrors();
            if (done && warn) { check(err.find("WARNING") != std::string::npos, "padding-ignored-silently", what + " of " + str(t)); probe("padding smaller than the cells"); }
            check(!done || !bad, "impossible-accepted", what + " of " + str(t) + " gives " + str(positions(*x.g)));
            if (done) {
                Lines p = positions(*x.g);
                for (int d = 0; d < 3; d++) {
                    // the lower side first
                    Line mid = p[d];
                    bool up = pad[1][d] != 0 && std::abs(size[1][d]) <= std::abs(pad[1][d]);
                    if (t[d].size() < 2) { check(p[d] == t[d], "grid-differs", what + ": direction without cells changed"); continue; }
                    if (up) { size_t k = size_t(std::find(mid.begin(), mid.end(), t[d].back()) - mid.begin()); if (k < mid.size()) { while (k + 1 < mid.size() && mid[k + 1] == mid[k]) k++; mid.resize(k + 1); } }
                    std::string e = padded(t[d], mid, false, pad[0][d], size[0][d]);
                    if (e.empty()) e = padded(mid, p[d], true, pad[1][d], size[1][d]);
                    check(e.empty(), "wrong-padding", what + " of " + str(t[d]) + " gives " + str(p[d]) + ": " + e);
                }
                x.t = p;
                probe("padded");
            } else if (bad) probe("refused");
            compare(x, (done ? "" : "after a failed ") + what);
        }
    }
    for (auto& e : s) { Lines p = positions(*e.g); check(p == e.t, "other-grid", "another grid changed: " + str(p) + " instead of " + str(e.t)); }
    std::string st; for (auto& e : s) st += str(e.t) + ";";
    state(hash(st));
}
}

void sim::run() {
    setBudget(20000000);
    randomLayout();
    s.clear();
    for (int n = range(1, 3); n > 0; n--) {
        Slot x; x.t = lines();
        { SutScope z; if (chance(1, 10)) { x.g.reset(new G()); FrameworkScope f; for (auto& l : x.t) l.clear(); } else { std::vector<double> p[3]; for (int d = 0; d < 3; d++) p[d] = std::vector<double>(x.t[d].begin(), x.t[d].end()); x.g.reset(new G(p)); } }
        s.push_back(std::move(x));
    }
    for (int n = range(2, 20); n > 0; n--) step();
    nontrivial();
    SutScope z;
    s.clear();
}
