// Polynomials and boxes under seeded histories of operations, some of them out of memory, against plain lists.
#include "sim/sim.h"
#include "math/function/Polynomial.h"
#include "geometry/Box.h"
#include "geometry/Grid.h"
#include <array>
#include <map>
#include <memory>
#include <algorithm>
#include <cmath>
using namespace SEMBA;
using namespace sim;
const char* const sim::kProperty = "C31";

namespace {
bool armed = false;
void arm() { armed = chance(1, 4); if (armed) { uint32_t at = choose(chance(1, 2) ? 4 : chance(3, 4) ? 20 : 70), many = chance(1, 3) ? 100000 : 1; failAlloc(at, many); } }
// whether it was done
bool settle(const Outcome& o, const std::string& what) {
    bool fired = armed && allocFired();
    failAllocOff(); armed = false;
    if (fired) fault("allocation failure");
    check(!o.threw || (fired && o.badAlloc), "operation-refused", what + ": " + o.str());
    return !o.threw;
}

// ---- polynomials
typedef Math::Function::Polynomial<Math::Real> P;
typedef std::vector<int> Pow;
typedef std::map<Pow, double> Terms;                 // powers to coefficient, none of them zero
struct PSlot { std::unique_ptr<P> p; size_t nv; Terms t; double scale; size_t many = 0; };
std::vector<PSlot> ps;

std::string str(const Terms& t) { std::string r; for (auto& e : t) { r += fmt("%s%.10g", r.empty() ? "" : " + ", e.second); for (size_t i = 0; i < e.first.size(); i++) r += fmt(" %c^%d", "xyzt"[i], e.first[i]); } return r.empty() ? "0" : r; }
void add(Terms& t, const Pow& p, double c) { double& v = t[p]; v += c; if (v == 0) t.erase(p); }
Terms product(const Terms& a, const Terms& b, bool apart) {
    Terms r;
    for (auto& x : a) for (auto& y : b) { Pow p = x.first; if (apart) p.insert(p.end(), y.first.begin(), y.first.end()); else for (size_t i = 0; i < p.size(); i++) p[i] += y.first[i]; add(r, p, x.second * y.second); }
    return r;
}
double size(const Terms& t) { double r = 0; for (auto& e : t) r += std::abs(e.second); return r; }
int top(const Terms& t) { int r = 0; for (auto& e : t) for (int k : e.first) r = std::max(r, k); return r; }
double value(const Terms& t, const double* at, double& scale) { double r = 0; scale = 0; for (auto& e : t) { double m = e.second; for (size_t i = 0; i < e.first.size(); i++) for (int k = 0; k < e.first[i]; k++) m *= at[i]; r += m; scale += std::abs(m); } return r; }
// A polynomial as it tells itself.
Terms told(const P& p, size_t nv, bool& zeros, size_t& many) {
    Terms r; zeros = false; many = 0;
    { SutScope z; many = p.numberOfMonomials(); }
    for (size_t i = 0; i < many; i++) {
        double v = 0; Pow w(nv, 0);
        { SutScope z; v = p.monomialValue(i); for (size_t k = 0; k < nv; k++) w[k] = int(p.monomialPower(i, k)); }
        zeros |= v == 0; add(r, w, v);
    }
    return r;
}
bool same(const Terms& a, const Terms& b, double scale) {
    double tol = 1e-12 * scale;
    for (auto& e : a) { auto f = b.find(e.first); if (std::abs(e.second - (f == b.end() ? 0 : f->second)) > tol) return false; }
    for (auto& e : b) if (!a.count(e.first) && std::abs(e.second) > tol) return false;
    return true;
}
double evaluated(const P& p, size_t nv, const double* at) {
    switch (nv) {
        case 1: return p.eval(Math::Vector::Cartesian<Math::Real, 1>(at[0]));
        case 2: { Math::Vector::Cartesian<Math::Real, 2> v; for (size_t i = 0; i < 2; i++) v(i) = at[i]; return p.eval(v); }
        case 3: { Math::Vector::Cartesian<Math::Real, 3> v; for (size_t i = 0; i < 3; i++) v(i) = at[i]; return p.eval(v); }
        default: { Math::Vector::Cartesian<Math::Real, 4> v; for (size_t i = 0; i < 4; i++) v(i) = at[i]; return p.eval(v); }
    }
}
void compare(PSlot& x, const std::string& what, bool mayHaveZeros = true) {
    bool zeros; size_t many; size_t nv = 0;
    { SutScope z; nv = x.p->numberOfVariables(); }
    check(nv == x.nv, "variables-differ", what + fmt(": %zu variables instead of %zu", nv, x.nv));
    Terms t = told(*x.p, x.nv, zeros, many); x.many = many;
    double scale = std::max(x.scale, size(x.t));
    check(same(t, x.t, scale), "polynomial-differs", what + " gives " + str(t) + " instead of " + str(x.t));
    check(mayHaveZeros || !zeros, "zero-kept", what + fmt(" leaves a monomial that is zero among the %zu", many));
    int most = 0; { SutScope z; most = int(x.p->maxPower()); }
    if (!zeros && same(t, x.t, 0) && many == x.t.size()) check(most == top(x.t), "power-differs", what + fmt(": the highest power of ") + str(x.t) + fmt(" is told as %d", most));
    double at[4]; for (double& v : at) v = pick(std::vector<double>{0, 1, -1, 2, 0.5, -1.5});
    if (x.nv >= 1 && x.nv <= 4) {
        double got = 0, sc, want = value(x.t, at, sc), other = 0; const P& p = *x.p;
        Outcome o = call("evaluating", [&] { got = evaluated(p, x.nv, at); other = x.nv == 1 ? p(at[0]) : got; });
        check(!o.threw && std::abs(got - want) <= 1e-9 * (sc + scale) && got == other, "value-differs", what + ": " + str(x.t) + fmt(" at (%g %g %g %g) is %.12g instead of %.12g", at[0], at[1], at[2], at[3], got, want));
    }
}
double coefficient() { static const std::vector<double> v{1, -1, 2, 0.5, -3, 1, 4, -0.25, 0}; return pick(v); }
Pow power(size_t nv) { Pow p(nv, 0); bool high = chance(1, 6); for (int& k : p) k = int(choose(high ? 9 : 4)); return p; }
void edit(PSlot& x, size_t nv, const Terms& want, double scale, const std::string& what, bool mayHaveZeros, const std::function<void()>& f) {
    log("%s of %s", what.c_str(), str(x.t).c_str());
    arm();
    bool done = settle(call("edit", f), what);
    if (done) { x.t = want; x.nv = nv; x.scale = scale; }
    compare(x, (done ? "" : "after a failed ") + what, mayHaveZeros || !done);
}
bool small(const PSlot& x, const PSlot& y) { return x.many * y.many < 300 && size(x.t) * size(y.t) < 1e6 && top(x.t) + top(y.t) < 14; }
bool made(const Outcome& o, const std::string& what, PSlot& n, PSlot& x) {
    if (!settle(o, what)) return false;
    compare(n, what); SutScope z; x.p = std::move(n.p); FrameworkScope f; x.t = n.t; x.nv = n.nv; x.scale = n.scale; x.many = n.many;
    return true;
}
void polynomials() {
    size_t a = choose(uint32_t(ps.size())), b = choose(uint32_t(ps.size()));
    PSlot& x = ps[a]; PSlot& y = ps[b];
    Terms t = x.t;
    switch (choose(11)) {
        case 0: case 1: case 2: {
            double c = coefficient(); Pow w = power(x.nv); bool plain = x.nv == 1 && chance(1, 2);
            add(t, w, c);
            edit(x, x.nv, t, std::max(x.scale, size(t)) + std::abs(c), fmt("adding %g with power %d ...", c, w.empty() ? 0 : w[0]), true, [&] {
                if (plain) x.p->addMonomial(c, Math::Int(w[0]));
                else { std::vector<Math::Int> v(w.begin(), w.end()); x.p->addMonomial(c, v); }
            });
            break;
        }
        case 3: {
            if (x.nv == 0) break;
            size_t d = choose(uint32_t(x.nv)); Terms r;
            for (auto& e : t) if (e.first[d] > 0) { Pow w = e.first; w[d]--; add(r, w, e.second * e.first[d]); }
            edit(x, x.nv, r, x.scale * 16, fmt("derivative in variable %zu", d), false, [&] { x.p->derive(d); });
            probe("derivative");
            break;
        }
        case 4: edit(x, x.nv, t, x.scale, "removing zeros", false, [&] { x.p->removeZeros(); }); break;
        case 5: {
            if (x.nv != 1 || y.nv != 1 || !small(x, y)) break;
            Terms r = product(x.t, y.t, false); double sc = std::max(x.scale, 1.0) * std::max(y.scale, 1.0);
            if (sc > 1e9) break;
            probe("product");
            if (chance(1, 2)) edit(x, 1, r, sc, "multiplying by " + str(y.t), true, [&] { *x.p *= *y.p; });
            else {
                PSlot n; n.nv = 1; n.t = r; n.scale = sc; std::string what = "product of " + str(x.t) + " and " + str(y.t); log("%s", what.c_str());
                arm(); made(call("product", [&] { n.p.reset(new P(*x.p * *y.p)); }), what, n, x);
            }
            break;
        }
        case 6: {
            if (x.nv + y.nv > 4 || !small(x, y)) break;
            Terms r = product(x.t, y.t, true); double sc = std::max(x.scale, 1.0) * std::max(y.scale, 1.0); size_t nv = x.nv + y.nv;
            if (sc > 1e9) break;
            probe("product in separate variables");
            if (chance(1, 2)) edit(x, nv, r, sc, "external product with " + str(y.t), true, [&] { *x.p ^= *y.p; });
            else {
                PSlot n; n.nv = nv; n.t = r; n.scale = sc; std::string what = "external product of " + str(x.t) + " and " + str(y.t); log("%s", what.c_str());
                arm(); made(call("product", [&] { n.p.reset(new P(*x.p ^ *y.p)); }), what, n, x);
            }
            break;
        }
        case 7: {
            double by = pick(std::vector<double>{2, -1, 4, 0.5, -8}); if (x.scale > 1e9) break;
            for (auto& e : t) e.second /= by;
            edit(x, x.nv, t, x.scale / std::abs(by), fmt("division by %g", by), true, [&] { *x.p /= by; });
            break;
        }
        case 8: { Terms r = y.t; size_t nv = y.nv; double sc = y.scale; edit(x, nv, r, sc, "assignment of " + str(r), true, [&] { *x.p = *y.p; }); break; }
        case 9: {
            PSlot n; n.nv = y.nv; n.t = y.t; n.scale = y.scale; bool cl = chance(1, 2); std::string what = (cl ? "clone of " : "copy of ") + str(y.t); log("%s", what.c_str());
            arm(); Outcome o = call("copy", [&] { if (cl) n.p.reset(dynamic_cast<P*>(y.p->clone())); else n.p.reset(new P(*y.p)); });
            if (!settle(o, what)) break;
            bool eq = false; { SutScope z; eq = *n.p == *y.p && *y.p == *n.p; }
            check(eq, "copy-differs", what + " is not equal to it");
            compare(n, what); { SutScope z; x.p = std::move(n.p); } x.t = n.t; x.nv = n.nv; x.scale = n.scale; x.many = n.many;
            break;
        }
        default: {
            bool eq = false; { SutScope z; eq = *x.p == *y.p; }
            if (a == b) check(eq, "equality", "a polynomial is not equal to itself");
            else if (!same(x.t, y.t, std::max(x.scale, y.scale) * 1e3)) check(!eq, "equality", str(x.t) + " is taken to be equal to " + str(y.t));
            if (chance(1, 3)) { size_t nv = chance(1, 8) ? 0 : size_t(range(1, 4)); if (nv == 2 || nv == 4) nv = size_t(range(1, 2)); PSlot n; n.nv = nv; n.scale = 0; log("new polynomial of %zu variables", nv); arm(); made(call("new", [&] { n.p.reset(nv ? new P(nv) : new P()); }), "new polynomial", n, x); }
        }
    }
    for (auto& e : ps) { bool z; size_t m; Terms now = told(*e.p, e.nv, z, m); check(same(now, e.t, std::max(e.scale, size(e.t))), "other-polynomial", "another polynomial changed: " + str(now) + " instead of " + str(e.t)); }
    std::string st; for (auto& e : ps) st += str(e.t) + ";";
    state(hash(st));
}

// ---- boxes
typedef std::array<double, 3> V3;
template <class T> struct Boxes {
    typedef Geometry::Box<T, 3> B;
    typedef Math::Vector::Cartesian<T, 3> V;
    struct Slot { std::unique_ptr<B> b; V3 lo, hi; bool empty; };
    std::vector<Slot> s;
    static bool whole() { return std::is_integral<T>::value; }
    static V vec(const V3& v) { V r; for (size_t i = 0; i < 3; i++) r(i) = T(v[i]); return r; }
    static V3 plain(const V& v) { V3 r; for (size_t i = 0; i < 3; i++) r[i] = double(v(i)); return r; }
    static std::string str(const V3& v) { return fmt("(%.10g %.10g %.10g)", v[0], v[1], v[2]); }
    static std::string str(const Slot& x) { return x.empty ? "[nothing]" : "[" + str(x.lo) + " to " + str(x.hi) + "]"; }
    static double number() { return whole() ? double(range(-6, 12)) : range(-24, 48) * 0.25; }
    static V3 point() { V3 p; for (double& v : p) v = number(); return p; }
    // within the extent of a box, on its border, or elsewhere
    static V3 around(const Slot& x) {
        V3 p = point(); if (x.empty) return p;
        for (int d = 0; d < 3; d++) switch (choose(4)) { case 0: p[d] = x.lo[d]; break; case 1: p[d] = x.hi[d]; break; case 2: { double c = (x.lo[d] + x.hi[d]) / 2; p[d] = whole() ? std::floor(c) : c; break; } default: break; }
        return p;
    }
    static void swallow(Slot& x, const V3& lo, const V3& hi) { for (int d = 0; d < 3; d++) { if (x.empty) { x.lo[d] = lo[d]; x.hi[d] = hi[d]; } else { x.lo[d] = std::min(x.lo[d], lo[d]); x.hi[d] = std::max(x.hi[d], hi[d]); } } x.empty = false; }
    // a slot of a box with two corners
    Slot fresh() {
        Slot x; V3 p = point(), q = point(); for (int d = 0; d < 3; d++) if (chance(1, 5)) q[d] = p[d];
        for (int d = 0; d < 3; d++) { x.lo[d] = std::min(p[d], q[d]); x.hi[d] = std::max(p[d], q[d]); }
        x.empty = false; bool pair = chance(1, 2); V a = vec(p), b = vec(q);
        { SutScope z; x.b.reset(pair ? new B(std::make_pair(a, b)) : new B(a, b)); }
        return x;
    }
    static bool adjacent(const V3& a, const V3& b) { int n = 0; for (int d = 0; d < 3; d++) n += a[d] != b[d]; return n == 1; }
    static void cycle(const std::vector<V3>& p, size_t from, const std::string& what) { for (size_t i = 0; i < 4; i++) check(adjacent(p[from + i], p[from + (i + 1) % 4]), "corners-differ", what + ": corners " + str(p[from + i]) + " and " + str(p[from + (i + 1) % 4]) + " do not lie on one edge"); }
    void compare(Slot& x, const std::string& what) {
        V3 lo, hi; { SutScope z; V a = x.b->getMin(), b = x.b->getMax(); FrameworkScope f; lo = plain(a); hi = plain(b); }
        if (x.empty) { for (int d = 0; d < 3; d++) check(lo[d] > hi[d], "box-differs", what + " holds something"); return; }
        check(lo == x.lo && hi == x.hi, "box-differs", what + " gives [" + str(lo) + " to " + str(hi) + "] instead of " + str(x));
        if (chance(1, 2)) return;
        int flat = 0, dir = -1, normal = -1; for (int d = 2; d >= 0; d--) if (lo[d] == hi[d]) { flat++; normal = d; } else dir = d;
        bool kind[4]; bool askedDir = false, askedNormal = false; int gotDir = -1, gotNormal = -1; V3 len; std::vector<V3> pos; V3 p = around(x); bool inner = false; B& b = *x.b;
        Outcome o = call("questions", [&] {
            kind[3] = b.isPoint(); kind[2] = b.isLine(); kind[1] = b.isSurface(); kind[0] = b.isVolume();
            V l = b.getLength(); { FrameworkScope f; len = plain(l); }
            auto q = b.getPos(); { FrameworkScope f; for (auto& e : q) pos.push_back(plain(e)); }
            inner = b.isInnerPoint(vec(p));
            try { gotDir = b.getDirection(); askedDir = true; } catch (const Geometry::Error::Box::NotLine&) {}
            try { gotNormal = b.getNormal(); askedNormal = true; } catch (const Geometry::Error::Box::NotSurface&) {}
        });
        check(!o.threw, "question-threw", what + ": asking " + str(x) + " " + o.str());
        for (int k = 0; k < 4; k++) check(kind[k] == (flat == k), "kind-differs", what + fmt(": a box of %d flat directions", flat) + str(x));
        bool in = true; for (int d = 0; d < 3; d++) { check(len[d] == hi[d] - lo[d], "length-differs", what + ": length of " + str(x)); in &= p[d] >= lo[d] && p[d] <= hi[d]; }
        check(in == inner, "inner-point", what + ": whether " + str(p) + " is in " + str(x));
        check(askedDir == (flat == 2) && (!askedDir || gotDir == dir), "direction-differs", what + fmt(": direction %d of ", gotDir) + str(x));
        check(askedNormal == (flat == 1) && (!askedNormal || gotNormal == normal), "direction-differs", what + fmt(": normal %d of ", gotNormal) + str(x));
        std::vector<V3> want; for (int k = 0; k < 8; k++) { V3 c; bool skip = false; for (int d = 0; d < 3; d++) { bool up = (k >> d) & 1; skip |= up && lo[d] == hi[d]; c[d] = up ? hi[d] : lo[d]; } if (!skip) want.push_back(c); }
        auto sorted = pos; std::sort(sorted.begin(), sorted.end()); std::sort(want.begin(), want.end());
        check(sorted == want, "corners-differ", what + fmt(": %zu corners of ", pos.size()) + str(x));
        if (flat == 1) cycle(pos, 0, what);
        if (flat == 0) { cycle(pos, 0, what); cycle(pos, 4, what); for (size_t i = 0; i < 4; i++) check(adjacent(pos[i], pos[i + 4]), "corners-differ", what + ": corners of the two sides of " + str(x)); }
        int d = int(choose(3)); int u = int(choose(2)); auto ax = Math::Constants::CartesianAxis(d); auto bo = u ? Math::Constants::U : Math::Constants::L;
        std::vector<V3> side; V3 sl, sh, at;
        o = call("sides", [&] {
            auto q = b.getPosOfBound(ax, bo); { FrameworkScope f; for (auto& e : q) side.push_back(plain(e)); }
            V g = b.getBound(bo); { FrameworkScope f; at = plain(g); }
            if (flat == 0) { B r = b.getBoundAsBox(ax, bo); FrameworkScope f; sl = plain(r.getMin()); sh = plain(r.getMax()); }
        });
        check(!o.threw, "question-threw", what + ": asking for a side of " + str(x) + " " + o.str());
        check(at == (u ? hi : lo), "side-differs", what + ": a bound of " + str(x));
        if (flat == 0) {
            V3 a = lo, c = hi; (u ? a : c)[d] = u ? hi[d] : lo[d];
            check(sl == a && sh == c, "side-differs", what + fmt(": side %d %d of ", d, u) + str(x) + " is [" + str(sl) + " to " + str(sh) + "]");
            cycle(side, 0, what); for (auto& q : side) check(q[d] == at[d], "side-differs", what + ": a corner of a side lies elsewhere"); probe("sides");
        }
    }
    void pieces(const Slot& x, const std::array<std::vector<double>, 3>& cuts, const std::vector<B>& got, double tol, const std::string& what) {
        std::array<std::vector<double>, 3> l;
        size_t want = 1;
        for (int d = 0; d < 3; d++) { l[d].push_back(x.lo[d]); for (double c : cuts[d]) if (c > x.lo[d] + tol && c < x.hi[d] - tol) l[d].push_back(c); l[d].push_back(x.hi[d]); want *= l[d].size() - 1; }
        check(got.size() == want, "pieces-differ", what + fmt(" gives %zu pieces of ", got.size()) + str(x) + fmt(" instead of %zu", want));
        std::vector<char> seen(want, 0);
        for (auto& g : got) {
            V3 a, c; { SutScope z; V p = g.getMin(), q = g.getMax(); FrameworkScope f; a = plain(p); c = plain(q); }
            size_t at = 0; bool ok = true;
            for (int d = 0; d < 3; d++) { size_t j = 0; while (j + 1 < l[d].size() && !(std::abs(l[d][j] - a[d]) <= tol && std::abs(l[d][j + 1] - c[d]) <= tol)) j++; ok &= j + 1 < l[d].size(); at = at * (l[d].size() - 1) + j; }
            check(ok && !seen[at], "pieces-differ", what + " of " + str(x) + " gives " + (ok ? "twice " : "") + "[" + str(a) + " to " + str(c) + "]");
            seen[at] = 1;
        }
        if (want > 1) probe(whole() ? "box of whole numbers in pieces" : "box of real numbers in pieces");
    }
    void edit(Slot& x, const Slot& want, const std::string& what, const std::function<void()>& f) {
        log("%s of %s", what.c_str(), str(x).c_str());
        Outcome o = call("edit", f);
        check(!o.threw, "operation-refused", what + ": " + o.str());
        x.lo = want.lo; x.hi = want.hi; x.empty = want.empty;
        compare(x, what);
    }
    static Slot was(const Slot& x) { Slot w; w.lo = x.lo; w.hi = x.hi; w.empty = x.empty; return w; }
    void step() {
        size_t a = choose(uint32_t(s.size())), b = choose(uint32_t(s.size()));
        Slot& x = s[a]; Slot& y = s[b]; Slot w = was(x);
        switch (choose(10)) {
            case 0: { Slot n = fresh(); log("new box %s", str(n).c_str()); if (chance(1, 8)) { SutScope z; n.b.reset(new B()); n.empty = true; } compare(n, "new box"); SutScope z; x.b = std::move(n.b); FrameworkScope f; x.lo = n.lo; x.hi = n.hi; x.empty = n.empty; break; }
            case 1: { V3 p = around(x); swallow(w, p, p); edit(x, w, "including " + str(p), [&] { *x.b << vec(p); }); break; }
            case 2: { if (y.empty) break; swallow(w, y.lo, y.hi); bool plus = chance(1, 2); edit(x, w, "including " + str(y), [&] { if (plus) *x.b += *y.b; else *x.b << *y.b; }); break; }
            case 3: { w = was(y); bool copy = chance(1, 2); edit(x, w, "taking over " + str(y), [&] { if (copy) x.b.reset(new B(*y.b)); else *x.b = *y.b; }); break; }
            case 4: { V3 p = point(), q = point(); for (int d = 0; d < 3; d++) { w.lo[d] = std::min(p[d], q[d]); w.hi[d] = std::max(p[d], q[d]); } w.empty = false; edit(x, w, "setting to " + str(p) + " and " + str(q), [&] { x.b->set(std::make_pair(vec(p), vec(q))); }); break; }
            case 5: {
                if (x.empty || y.empty) break;
                if (a != b && chance(1, 3)) {       // boxes that differ in a side or two
                    V3 lo = x.lo, hi = x.hi; int n = range(0, 2);
                    for (int k = 0; k < n; k++) { int d = int(choose(3)); if (chance(1, 2)) lo[d] -= 1; else hi[d] += 1; }
                    { SutScope z; y.b->set(std::make_pair(vec(lo), vec(hi))); } y.lo = lo; y.hi = hi; compare(y, "setting to the sides of another");
                }
                bool meet = true; for (int d = 0; d < 3; d++) meet &= x.hi[d] >= y.lo[d] && y.hi[d] >= x.lo[d];
                bool got = !meet, le = false, lt = false, gt = false, eq = false, ne = false; V3 lo, hi;
                log("%s meets %s", str(x).c_str(), str(y).c_str());
                Outcome o = call("comparing", [&] { got = x.b->isIntersected(*y.b); B r = x.b->intersect(*y.b); V p = r.getMin(), q = r.getMax(); le = *x.b <= *y.b; lt = *x.b < *y.b; gt = *x.b > *y.b; eq = *x.b == *y.b; ne = *y.b == *x.b; FrameworkScope f; lo = plain(p); hi = plain(q); });
                check(!o.threw, "question-threw", "comparing boxes " + o.str());
                check(got == meet, "intersection-differs", "whether " + str(x) + " and " + str(y) + " meet");
                bool inside = true, strictly = true, around = true;
                for (int d = 0; d < 3; d++) {
                    if (meet) check(lo[d] == std::max(x.lo[d], y.lo[d]) && hi[d] == std::min(x.hi[d], y.hi[d]), "intersection-differs", "what " + str(x) + " and " + str(y) + " have in common is [" + str(lo) + " to " + str(hi) + "]");
                    inside &= x.lo[d] >= y.lo[d] && x.hi[d] <= y.hi[d]; strictly &= x.lo[d] > y.lo[d] && x.hi[d] < y.hi[d]; around &= x.lo[d] < y.lo[d] && x.hi[d] > y.hi[d];
                }
                check(le == inside && lt == strictly && gt == around, "order-differs", "whether " + str(x) + " lies in " + str(y));
                check(eq == (x.lo == y.lo && x.hi == y.hi) && eq == ne, "order-differs", "whether " + str(x) + " is " + str(y));
                if (meet) probe("boxes that meet");
                break;
            }
            case 6: {
                double f = pick(std::vector<double>{2, 0.5, 4, 0.25}); if (x.empty) break;
                if (!whole()) { for (int d = 0; d < 3; d++) { w.lo[d] *= f; w.hi[d] *= f; if (std::abs(w.lo[d]) > 1e4 || std::abs(w.hi[d]) > 1e4) return; } for (int d = 0; d < 3; d++) if (w.lo[d] != w.hi[d] && w.hi[d] - w.lo[d] < 0.01) return; }
                edit(x, w, fmt("scaling by %g", f), [&] { scaled(*x.b, f); });
                break;
            }
            case 7: {                                // cut at multiples
                if (x.empty) break;
                V3 st; std::array<std::vector<double>, 3> cuts; size_t many = 1;
                for (int d = 0; d < 3; d++) {
                    double len = x.hi[d] - x.lo[d];
                    st[d] = whole() ? range(1, 5) : pick(std::vector<double>{1, 2, 0.5, 0.75, 3, 1.25}); if (chance(1, 10)) st[d] = 0; if (chance(1, 12)) st[d] = -1;
                    double by = st[d] <= 0 || st[d] > len ? len : st[d];
                    if (by > 0) { if (len / by > 40) return; for (double c = std::floor(x.lo[d] / by) * by; c < x.hi[d] + by; c += by) cuts[d].push_back(c); }
                    many *= cuts[d].size() + 1;
                }
                if (many > 20000) return;
                std::string what = "cutting in steps of " + str(st); log("%s of %s", what.c_str(), str(x).c_str());
                std::unique_ptr<std::vector<B>> r; bool usual = st == V3{{1, 1, 1}};
                arm();
                Outcome o = call("cutting", [&] { r.reset(new std::vector<B>(usual ? x.b->chop() : x.b->chop(vec(st)))); });
                if (settle(o, what)) pieces(x, cuts, *r, 1e-9, what);
                SutScope z; r.reset();
                break;
            }
            case 8: {                                // cut by a grid
                if (x.empty) break;
                std::array<std::vector<double>, 3> cuts; size_t many = 1;
                for (int d = 0; d < 3; d++) {
                    double at = chance(1, 3) ? x.lo[d] : number(); if (chance(1, 6)) at = x.hi[d] + 2; int n = range(2, 8);
                    for (int i = 0; i < n; i++) { cuts[d].push_back(at); at += whole() ? range(1, 4) : pick(std::vector<double>{0.25, 0.5, 1, 1, 2, 3}); }
                    many *= size_t(n);
                }
                std::string what = "cutting by a grid"; for (auto& c : cuts) { what += " ["; for (double v : c) what += fmt(" %g", v); what += " ]"; }
                log("%s of %s", what.c_str(), str(x).c_str());
                std::unique_ptr<Geometry::Grid3> g; { SutScope z; std::vector<double> p[3]; for (int d = 0; d < 3; d++) p[d] = std::vector<double>(cuts[d].begin(), cuts[d].end()); g.reset(new Geometry::Grid3(p)); }
                std::unique_ptr<std::vector<B>> r;
                arm();
                Outcome o = call("cutting", [&] { r.reset(new std::vector<B>(x.b->chop(*g))); });
                if (settle(o, what)) pieces(x, cuts, *r, 1e-9, what);
                SutScope z; r.reset(); g.reset();
                break;
            }
            default: other(x); break;
        }
        for (auto& e : s) if (!e.empty) { V3 lo, hi; { SutScope z; V p = e.b->getMin(), q = e.b->getMax(); FrameworkScope f; lo = plain(p); hi = plain(q); } check(lo == e.lo && hi == e.hi, "other-box", "another box changed to [" + str(lo) + " to " + str(hi) + "] from " + str(e)); }
        std::string st; for (auto& e : s) st += str(e) + ";";
        state(hash(st));
    }
    void scaled(Geometry::BoxI3& b, double f) { (void)b; (void)f; }
    void scaled(Geometry::BoxR3& b, double f) { b.scale(f); }
    // boxes of the other kind of numbers, and of two directions
    void other(Slot& x) {
        if (x.empty) return;
        V3 lo, hi; bool assign = chance(1, 2);
        log("conversion of %s", str(x).c_str());
        Outcome o = call("converting", [&] {
            Geometry::BoxR3 r(*x.b); if (assign) { r = Geometry::BoxR3(); r = *x.b; }
            auto p = r.getMin(), q = r.getMax(); FrameworkScope f; for (size_t d = 0; d < 3; d++) { lo[d] = p(d); hi[d] = q(d); }
        });
        check(!o.threw && lo == x.lo && hi == x.hi, "conversion-differs", str(x) + " is converted to [" + str(lo) + " to " + str(hi) + "]");
        bool exact = true; for (int d = 0; d < 3; d++) exact &= std::floor(x.lo[d]) == x.lo[d] && std::floor(x.hi[d]) == x.hi[d];
        if (exact) {
            o = call("converting", [&] { Geometry::BoxI3 r; if (assign) r = *x.b; else r = Geometry::BoxI3(*x.b); auto p = r.getMin(), q = r.getMax(); FrameworkScope f; for (size_t d = 0; d < 3; d++) { lo[d] = double(p(d)); hi[d] = double(q(d)); } });
            check(!o.threw && lo == x.lo && hi == x.hi, "conversion-differs", str(x) + " is converted to [" + str(lo) + " to " + str(hi) + "]");
        }
        typedef Math::Vector::Cartesian<Math::Int, 2> V2; V3 p = point(), q = point(), e = point();
        long a[2], c[2]; bool in = false, want = true;
        o = call("flat box", [&] {
            V2 u, v, w; for (size_t d = 0; d < 2; d++) { u(d) = Math::Int(p[d]); v(d) = Math::Int(q[d]); w(d) = Math::Int(e[d]); }
            Geometry::BoxI2 f(u, v); in = f.isInnerPoint(w); f << w; for (size_t d = 0; d < 2; d++) { a[d] = f.getMin()(d); c[d] = f.getMax()(d); }
        });
        for (int d = 0; d < 2; d++) {
            long u = long(p[d]), v = long(q[d]), w = long(e[d]); want &= w >= std::min(u, v) && w <= std::max(u, v);
            check(!o.threw && a[d] == std::min({u, v, w}) && c[d] == std::max({u, v, w}), "box-differs", fmt("box of two directions over %ld, %ld and %ld goes from %ld to %ld", u, v, w, a[d], c[d]));
        }
        check(in == want, "inner-point", "whether a point is in a box of two directions");
        probe("conversion");
    }
    void run() { s.clear(); for (int n = range(1, 3); n > 0; n--) s.push_back(fresh()); for (int n = range(2, 20); n > 0; n--) step(); SutScope z; s.clear(); }
};
}

void sim::run() {
    setBudget(40000000);
    randomLayout();
    switch (choose(3)) {
        case 0: {
            ps.clear();
            for (int n = range(1, 3); n > 0; n--) { PSlot x; x.nv = chance(2, 3) ? 1 : size_t(range(1, 4)); x.scale = 0; { SutScope z; x.p.reset(new P(x.nv)); } ps.push_back(std::move(x)); }
            for (int n = range(4, 30); n > 0; n--) polynomials();
            SutScope z; ps.clear();
            break;
        }
        case 1: { Boxes<Math::Real> b; b.run(); break; }
        default: { Boxes<Math::Int> b; b.run(); break; }
    }
    nontrivial();
}
