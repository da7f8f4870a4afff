// Tables of numbers (dynamic matrices) against plain ones, under seeded histories with failing allocations.
#include "sim/sim.h"
#include "math/matrix/Dynamic.h"
#include "math/matrix/Static.h"
#include <memory>
#include <algorithm>
#include <cmath>
using namespace SEMBA;
using namespace sim;
const char* const sim::kProperty = "C28";

namespace {
template <class T> struct World {
    typedef Math::Matrix::Dynamic<T> M;
    typedef std::vector<T> Row;
    struct Tab {
        size_t r = 0, c = 0; std::vector<T> v;
        Tab() {}
        Tab(size_t r_, size_t c_) : r(r_), c(c_), v(r_ * c_) {}
        T& operator()(size_t i, size_t j) { return v[i * c + j]; }
        T operator()(size_t i, size_t j) const { return v[i * c + j]; }
        Row row(size_t i) const { return Row(v.begin() + long(i * c), v.begin() + long((i + 1) * c)); }
        bool operator==(const Tab& o) const { return r == o.r && c == o.c && v == o.v; }
        std::string str() const { std::string s = fmt("%zux%zu[", r, c); for (size_t i = 0; i < v.size(); i++) s += fmt("%s%g", i ? (i % c ? " " : "; ") : "", double(v[i])); return s + "]"; }
        T largest() const { T m = 0; for (T x : v) m = std::max(m, T(std::abs(x))); return m; }
    };
    struct Slot { std::unique_ptr<M> m; Tab t; };
    std::vector<Slot> s;
    static constexpr bool real = std::is_floating_point<T>::value;

    static T number() { T n = T(range(-4, 4)); return real && chance(1, 4) ? T(n + T(1) / 4) : n; }
    static Tab table(size_t r, size_t c) { Tab t(r, c); bool few = chance(1, 2); for (T& x : t.v) x = few ? T(range(0, 1)) : number(); return t; }
    static Tab someTable() { size_t r = choose(6), c = choose(5); if (chance(1, 4)) r = range(6, 14); if (!r || !c) r = c = 0; return table(r, c); }
    static M* make(const Tab& t) { SutScope z; M* m = new M(t.r, t.c); for (size_t i = 0; i < t.r; i++) for (size_t j = 0; j < t.c; j++) (*m)(i, j) = t(i, j); return m; }
    // empty when m is that table
    static std::string differs(M& m, const Tab& t) {
        std::string bad;
        Outcome o = call("inspect", [&] {
            const M& k = m;
            size_t r = k.nRows(), c = k.nCols(), n = k.size();
            FrameworkScope f;
            if (r * c == 0 && t.v.empty() && n == 0) return;
            if (r != t.r || c != t.c || n != t.v.size()) { bad = fmt("%zux%zu", r, c); return; }
            for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
                T a, b, d, e; { SutScope z; a = k(i, j); b = m.val(i, j); d = k.val(i * c + j); e = *k.valPtr(i, j); }
                if (a != t(i, j) || b != a || d != a || e != a) { bad = fmt("%g at %zu,%zu", double(a), i, j); return; }
            }
        });
        return o.threw ? o.str() : bad;
    }
    void expect(Slot& x, const Tab& t, const std::string& what) {
        std::string d = differs(*x.m, t);
        check(d.empty(), "table-differs", what + ": " + d + " where it should be " + t.str());
        x.t = t;
    }
    bool armed = false;
    void arm() { armed = chance(1, 4); if (armed) { uint32_t at = choose(chance(1, 2) ? 4 : chance(3, 4) ? 25 : 80), many = chance(1, 3) ? 100000 : 1; failAlloc(at, many); } }
    bool settle(const Outcome& o, const std::string& what, bool refused = false) {
        bool fired = armed && allocFired();
        failAllocOff();
        if (fired) fault("allocation failure");
        check(!o.threw || refused || (fired && o.badAlloc), "good-operation-refused", what + ": " + o.str());
        return !o.threw;
    }
    // an operation on x in place
    template <class F> void inPlace(Slot& x, const Tab& want, const std::string& what, F&& f) {
        log("%s of %s", what.c_str(), x.t.str().c_str());
        arm();
        Outcome o = call("operation", f);
        bool done = settle(o, what);
        Tab w = done ? want : x.t;
        expect(x, w, (done ? "" : "after a failed ") + what);
    }
    // an operation giving a new table, which is kept in x
    template <class F> void gives(Slot& x, const Tab& want, const std::string& what, F&& f) {
        log("%s", what.c_str());
        Slot n;
        arm();
        Outcome o = call("operation", [&] { n.m.reset(new M(f())); });
        if (!settle(o, what)) return;
        expect(n, want, what);
        SutScope z; x.m = std::move(n.m); FrameworkScope q; x.t = n.t;
    }
    static bool less(const Row& a, const Row& b, size_t i, size_t l) { return std::lexicographical_compare(a.begin() + long(i), a.begin() + long(l + 1), b.begin() + long(i), b.begin() + long(l + 1)); }
    static bool sorted(const Tab& t, size_t i, size_t l) { for (size_t r = 1; r < t.r; r++) if (less(t.row(r), t.row(r - 1), i, l)) return false; return true; }
    // the table held must be a permutation of the rows of t, in order of these columns
    void expectSorted(Slot& x, const Tab& t, size_t i, size_t l, const std::string& what) {
        Tab g(t.r, t.c); bool size = false;
        call("inspect", [&] { M& m = *x.m; size = m.nRows() == t.r && m.nCols() == t.c; if (size) for (size_t a = 0; a < t.r; a++) for (size_t b = 0; b < t.c; b++) g(a, b) = m(a, b); });
        check(size, "table-differs", what + " has another size");
        std::vector<Row> a, b; for (size_t k = 0; k < t.r; k++) { a.push_back(t.row(k)); b.push_back(g.row(k)); }
        check(std::is_permutation(a.begin(), a.end(), b.begin()), "table-differs", what + " of " + t.str() + " gives other rows: " + g.str());
        check(sorted(g, i, l), "table-not-sorted", fmt("%s by columns %zu to %zu of ", what.c_str(), i, l) + t.str() + " gives " + g.str());
        expect(x, g, what);
    }
    template <class S> static std::string fixedDiffers(const S& m, const Tab& t) {
        std::string bad; if (m.nRows() != t.r || m.nCols() != t.c || m.size() != t.v.size()) return "it has another size";
        for (size_t i = 0; i < t.r; i++) for (size_t j = 0; j < t.c; j++) { T a, b, c; { SutScope z; a = m(i, j); b = m.val(i, j); c = m.val(i * t.c + j); } if (a != t(i, j) || b != a || c != a) return fmt("%g at %zu,%zu", double(a), i, j); }
        return bad;
    }
    template <size_t R, size_t C> static void fill(Math::Matrix::Static<T, R, C>& m, const Tab& t) { for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) m(i, j) = t(i, j); }
    template <size_t N> void square(const Tab& q, std::true_type) {
        Math::Matrix::Static<T, N, N> m; fill(m, q);
        Math::Vector::Cartesian<T, N> v; std::vector<double> k; for (size_t i = 0; i < N; i++) { k.push_back(range(-4, 4)); v(i) = T(k[i]); }
        Tab d(q); for (size_t i = 0; i < N; i++) d(i, i) = T(k[i]);
        std::vector<double> got(N), want(N); for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) want[i] += double(q(i, j)) * k[j];
        Outcome o = call("fixed table", [&] { auto w = m * v; for (size_t i = 0; i < N; i++) got[i] = double(w(i)); m.setInDiagonal(v); });
        check(!o.threw && got == want, "table-answer", "a vector times " + q.str()); std::string e = fixedDiffers(m, d); check(e.empty(), "table-differs", "setting the diagonal of " + q.str() + ": " + e);
        if (!real) return;
        Tab r(q); for (size_t i = 0; i < N; i++) r(i, i) += 30; if (chance(1, 2)) for (size_t j = 0; j < N; j++) std::swap(r(0, j), r(N - 1, j));
        fill(m, r); o = call("invert", [&] { m.invert(); }); bool ok = !o.threw;
        for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { double s = 0; for (size_t c = 0; c < N; c++) s += double(r(i, c)) * double(m(c, j)); ok &= std::abs(s - (i == j)) < 1e-9; }
        check(ok, "wrong-inverse", "the inverse of the fixed table " + r.str() + " is wrong"); takeOutput();
    }
    template <size_t N> void square(const Tab&, std::false_type) {}
    // tables of a fixed size, and what they do to others
    template <size_t R, size_t C> void fixed(Slot& x) {
        typedef Math::Matrix::Static<T, R, C> S;
        Tab p = table(R, C), q = chance(1, 3) ? p : table(R, C), w = table(C, 3); const T k = T(range(-3, 3)); size_t i = choose(R), j = choose(C); T v = number();
        if (chance(1, 2)) { q = p; q(i, j) = v; }
        std::unique_ptr<M> mp(make(p)), mw(make(w)), prod; std::vector<Row> rows; for (size_t r = 0; r < R; r++) rows.push_back(q.row(r));
        S a, b, c, d, e, f, g; Math::Matrix::Static<T, C, R> tr; Math::Matrix::Static<T, C, 3> sw; Math::Matrix::Static<T, R, 3> sp; bool eq = false, lt = false, gt = false;
        log("fixed tables %s and %s", p.str().c_str(), q.str().c_str());
        Outcome o = call("fixed tables", [&] {
            a = *mp; b.copy(rows); c = a; c += b; d = S(a); d -= b; e = a; e *= k; f = a + b; g = a * k; tr = a.transpose(); sw = *mw; sp = a * sw; eq = a == b; lt = a < b; gt = b < a; if (k != 0) { a = e; a /= k; } a = a;
        });
        check(!o.threw, "good-operation-refused", "operations of tables of fixed size " + o.str());
        Tab sum(p), dif(p), mul(p), trans(C, R), pr(R, 3);
        for (size_t n = 0; n < p.v.size(); n++) { sum.v[n] += q.v[n]; dif.v[n] -= q.v[n]; mul.v[n] *= k; }
        for (size_t n = 0; n < R; n++) for (size_t m = 0; m < C; m++) { trans(m, n) = p(n, m); for (size_t l = 0; l < 3; l++) pr(n, l) += p(n, m) * w(m, l); }
        auto is = [&](const std::string& s, const char* what) { check(s.empty(), "table-differs", fmt("%s of the fixed tables ", what) + p.str() + " and " + q.str() + ": " + s); };
        is(fixedDiffers(a, p), "copy"); is(fixedDiffers(b, q), "copy of rows"); is(fixedDiffers(c, sum), "sum"); is(fixedDiffers(f, sum), "sum"); is(fixedDiffers(d, dif), "difference"); is(fixedDiffers(e, mul), "multiple"); is(fixedDiffers(g, mul), "multiple"); is(fixedDiffers(tr, trans), "transposition"); is(fixedDiffers(sp, pr), "product");
        check(eq == (p == q) && lt == (p.v < q.v) && gt == (q.v < p.v), "table-answer", "order of " + p.str() + " and " + q.str());
        square<R>(p, std::integral_constant<bool, R == C>());
        Tab now = x.t;
        arm();
        o = call("product of fixed and other", [&] { prod.reset(new M(a * *mw)); });
        if (settle(o, "product of a fixed table")) { std::string s = differs(*prod, pr); check(s.empty(), "table-differs", "product of the fixed table " + p.str() + " and " + w.str() + ": " + s); SutScope z; x.m = std::move(prod); FrameworkScope y; x.t = pr; }
        probe("fixed size");
        SutScope z; mp.reset(); mw.reset(); prod.reset();
    }
    void step() {
        size_t a = choose(uint32_t(s.size())), b = choose(uint32_t(s.size()));
        Slot& x = s[a]; Slot& y = s[b];
        Tab t = x.t;
        const T k = T(range(-3, 3));
        switch (choose(27)) {
            case 0: {
                Tab n = someTable();
                int how = choose(3);
                if (how == 0 && n.r) gives(x, n, "table from values", [&] { std::vector<T*> rows; { FrameworkScope f; for (size_t i = 0; i < n.r; i++) rows.push_back(&n(i, 0)); } return M(n.r, n.c, rows.data()); });
                else if (how == 1) { std::vector<Row> v; for (size_t i = 0; i < n.r; i++) v.push_back(n.row(i)); inPlace(x, n, "copy of rows", [&] { x.m->copy(v); }); }
                else { std::unique_ptr<M> m(make(n)); gives(x, n, "copy of " + n.str(), [&] { return M(*m); }); SutScope z; m.reset(); }
                break;
            }
            case 1: inPlace(x, y.t, fmt("assignment of table %zu to %zu", b, a), [&] { *x.m = *y.m; }); break;
            case 2: { Tab n = table(choose(6), 1); if (!n.r) n = Tab(); inPlace(x, n, "assignment of a list", [&] { *x.m = n.v; }); break; }
            case 3: { Tab n(t); for (T& e : n.v) e = k; inPlace(x, n, "assignment of a number", [&] { *x.m = k; }); break; }
            case 4: {
                if (t.v.empty()) break;
                size_t i = choose(uint32_t(t.r)), j = choose(uint32_t(t.c)); T v = number();
                Tab n(t); n(i, j) = v; int how = choose(3);
                inPlace(x, n, "setting of a value", [&] { if (how == 0) (*x.m)(i, j) = v; else if (how == 1) x.m->val(i, j) = v; else x.m->val(i * t.c + j) = v; });
                break;
            }
            case 5: {
                if (t.v.empty()) break;
                bool col = chance(1, 2); size_t i = choose(uint32_t(col ? t.c : t.r)); Row v; Tab n(t);
                for (size_t q = 0; q < (col ? t.r : t.c); q++) { v.push_back(number()); (col ? n(q, i) : n(i, q)) = v.back(); }
                inPlace(x, n, col ? "setting of a column" : "setting of a row", [&] { if (col) x.m->cpToCol(i, v); else x.m->cpToRow(i, v); });
                break;
            }
            case 6: {
                Tab n(t); bool eye = t.r == t.c && t.r && chance(1, 2);
                for (T& e : n.v) e = 0;
                if (eye) for (size_t i = 0; i < n.r; i++) n(i, i) = 1;
                inPlace(x, n, eye ? "identity" : "zeros", [&] { if (eye) x.m->eye(); else x.m->zeros(); });
                break;
            }
            case 7: {
                if (t.largest() > 200) break;
                Tab n(t); int how = choose(real ? 4 : 2);
                for (T& e : n.v) e = how == 0 ? e + k : how == 1 ? e * k : how == 2 ? e / 2 : e;
                inPlace(x, n, "arithmetic in place", [&] { if (how == 0) *x.m += k; else if (how == 1) *x.m *= k; else if (how == 2) *x.m /= T(2); else *x.m /= T(1); });
                break;
            }
            case 8: {
                if (t.v.empty() || y.t.r != t.r || y.t.c != t.c || t.largest() + y.t.largest() > 1000) break;
                Tab n(t); for (size_t i = 0; i < n.v.size(); i++) n.v[i] += y.t.v[i];
                if (chance(1, 2)) inPlace(x, n, "sum in place", [&] { *x.m += *y.m; });
                else gives(s[choose(uint32_t(s.size()))], n, "sum", [&] { return *x.m + *y.m; });
                break;
            }
            case 9: {
                if (t.c != y.t.r || t.v.empty() || y.t.v.empty() || t.largest() * y.t.largest() > 200) break;
                Tab n(t.r, y.t.c); for (size_t i = 0; i < t.r; i++) for (size_t j = 0; j < y.t.c; j++) for (size_t q = 0; q < t.c; q++) n(i, j) += t(i, q) * y.t(q, j);
                gives(s[choose(uint32_t(s.size()))], n, "product of " + t.str() + " and " + y.t.str(), [&] { return *x.m * *y.m; });
                break;
            }
            case 10: {
                if (t.largest() > 200) break;
                Tab n(t); bool div = real && chance(1, 2); for (T& e : n.v) e = div ? e / 2 : e * k;
                gives(y, n, div ? "quotient" : "multiple", [&] { return div ? *x.m / T(2) : *x.m * k; });
                break;
            }
            case 11: {
                if (t.v.empty()) break;
                std::pair<size_t, size_t> r, c; r.first = choose(uint32_t(t.r)); r.second = r.first + choose(uint32_t(t.r - r.first)); c.first = choose(uint32_t(t.c)); c.second = c.first + choose(uint32_t(t.c - c.first));
                Tab n(r.second - r.first + 1, c.second - c.first + 1); for (size_t i = 0; i < n.r; i++) for (size_t j = 0; j < n.c; j++) n(i, j) = t(r.first + i, c.first + j);
                bool copy = chance(1, 2);
                gives(y, n, "part of " + t.str(), [&] { return copy ? x.m->copy(r.first, r.second + 1, c.first, c.second + 1) : x.m->sub(r, c); });
                break;
            }
            case 12: {
                if (t.c < 2) break;
                size_t f = choose(uint32_t(t.c)), l = f + choose(uint32_t(t.c - f)); if (l - f + 1 == t.c) break;
                Tab n(t.r, t.c - (l - f + 1)); for (size_t i = 0; i < t.r; i++) for (size_t j = 0, q = 0; j < t.c; j++) if (j < f || j > l) n(i, q++) = t(i, j);
                gives(y, n, fmt("removal of columns %zu to %zu of ", f, l) + t.str(), [&] { return x.m->eliminateColumns(f, l); });
                break;
            }
            case 13: { Tab n(t.c, t.r); for (size_t i = 0; i < t.r; i++) for (size_t j = 0; j < t.c; j++) n(j, i) = t(i, j); inPlace(x, n, "transposition", [&] { x.m->transpose(); }); break; }
            case 14: {
                if (t.v.empty()) break;
                std::vector<size_t> d; for (size_t q = 1; q <= t.v.size(); q++) if (t.v.size() % q == 0) d.push_back(q);
                Tab n(pick(d), 1); n.c = t.v.size() / n.r; n.v = t.v; int how = choose(3);
                if (how == 2) for (size_t q = 0; q < n.v.size(); q++) n.v[q] = t(q % t.r, q / t.r);
                gives(y, n, fmt("reshaping (%d) of ", how) + t.str(), [&] { return how == 0 ? x.m->reshape(n.r, n.c) : x.m->reshape(n.r, n.c, how); });
                break;
            }
            case 15: {
                if (t.v.empty() || y.t.v.empty() || t.v.size() * y.t.v.size() > 200 || t.largest() * y.t.largest() > 1000) break;
                Tab n(t.r * y.t.r, t.c * y.t.c); for (size_t i = 0; i < n.r; i++) for (size_t j = 0; j < n.c; j++) n(i, j) = t(i / y.t.r, j / y.t.c) * y.t(i % y.t.r, j % y.t.c);
                gives(s[choose(uint32_t(s.size()))], n, "Kronecker product of " + t.str() + " and " + y.t.str(), [&] { return x.m->kron(*y.m); });
                break;
            }
            case 16: {
                Tab p = table(range(1, 6), 1), q = table(range(1, 6), 1), n(p.r + q.r - 1, 1);
                for (size_t i = 0; i < p.r; i++) for (size_t j = 0; j < q.r; j++) n(i + j, 0) += p(i, 0) * q(j, 0);
                std::unique_ptr<M> mp(make(p)), mq(make(q));
                gives(x, n, "convolution of " + p.str() + " and " + q.str(), [&] { return mp->convolute(*mq); });
                SutScope z; mp.reset(); mq.reset();
                break;
            }
            case 17: case 18: {
                if (t.v.empty()) break;
                size_t i = choose(uint32_t(t.c)), l = i + choose(uint32_t(t.c - i)); int how = choose(3);
                if (how == 0) { i = 0; l = t.c - 1; }
                log("sort %s by columns %zu to %zu", t.str().c_str(), i, l);
                arm();
                Outcome o = call("sort", [&] { if (how == 0) x.m->sortRows(); else if (how == 1) x.m->sortRows(i, l); else x.m->sortRows_omp(i, l); });
                if (!settle(o, "sorting")) expect(x, t, "after a failed sorting"); else expectSorted(x, t, i, l, "sorting");
                probe("sorted");
                break;
            }
            case 19: {
                if (t.v.empty()) break;
                std::set<Row> rows; for (size_t i = 0; i < t.r; i++) rows.insert(t.row(i));
                Tab n(rows.size(), t.c); size_t i = 0; for (auto& r : rows) { for (size_t j = 0; j < t.c; j++) n(i, j) = r[j]; i++; }
                bool omp = chance(1, 2);
                inPlace(x, n, "sorting and removing repeated rows", [&] { if (omp) x.m->sortAndRemoveRepeatedRows_omp(); else x.m->sortAndRemoveRepeatedRows(); });
                break;
            }
            case 20: {
                if (t.v.empty()) break;
                size_t i = choose(uint32_t(t.c)), l = i + choose(uint32_t(t.c - i));
                Tab p(table(range(1, 6), t.c)); std::vector<Row> rows; for (size_t q = 0; q < p.r; q++) rows.push_back(p.row(q));
                std::stable_sort(rows.begin(), rows.end(), [&](const Row& u, const Row& v) { return less(u, v, i, l); });
                for (size_t q = 0; q < p.r; q++) for (size_t c = 0; c < p.c; c++) p(q, c) = rows[q][c];
                if (!sorted(t, i, l)) break;
                Tab all(t.r + p.r, t.c); all.v = t.v; all.v.insert(all.v.end(), p.v.begin(), p.v.end());
                std::unique_ptr<M> mp(make(p));
                log("merge %s into %s by columns %zu to %zu", p.str().c_str(), t.str().c_str(), i, l);
                arm();
                Outcome o = call("merge", [&] { x.m->mergeSortedRows(*mp, i, l); });
                if (!settle(o, "merging")) expect(x, t, "after a failed merging"); else expectSorted(x, all, i, l, "merging");
                probe("merged");
                { SutScope z; mp.reset(); }
                break;
            }
            case 21: {
                if (t.v.empty()) break;
                size_t i = choose(uint32_t(t.c)), n = 1 + choose(uint32_t(t.c - i));
                if (!sorted(t, i, i + n - 1)) break;
                Row key; size_t r = choose(uint32_t(t.r)); for (size_t q = 0; q < n; q++) key.push_back(chance(5, 6) ? t(r, i + q) : number());
                size_t want = t.r; for (size_t q = t.r; q-- > 0;) { bool eq = true; for (size_t c = 0; c < n; c++) eq &= t(q, i + c) == key[c]; if (eq) want = q; }
                size_t got = 0;
                arm();
                Outcome o = call("find", [&] { got = x.m->findFirstOcurrenceInColumns(key.data(), i, n); });
                if (settle(o, "looking for a row")) check(got == want, "row-not-found", fmt("looking for the values in row %zu, columns %zu.. gives %zu instead of %zu in ", r, i, got, want) + t.str());
                expect(x, t, "after looking for a row");
                probe("looked for");
                break;
            }
            case 22: {                               // determinants
                size_t n = range(3, 4); Tab q = chance(1, 2) && t.r >= n && t.c >= n && t.largest() < 50 ? Tab(n, n) : table(n, n);
                if (t.r >= n && t.c >= n && t.largest() < 50 && chance(1, 2)) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) q(i, j) = t(i, j);
                T want = 0, got = 0; std::vector<size_t> p; for (size_t i = 0; i < n; i++) p.push_back(i);
                do { int sign = 1; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (p[j] > p[i]) sign = -sign; T m = T(sign); for (size_t i = 0; i < n; i++) m *= q(i, p[i]); want += m; } while (std::next_permutation(p.begin(), p.end()));
                std::unique_ptr<M> m(make(q));
                log("determinant of %s", q.str().c_str());
                Outcome o = call("determinant", [&] { got = n == 3 ? m->getDeterminant3x3() : m->getDeterminant4x4(); });
                check(!o.threw && got == want, "table-answer", "the determinant of " + q.str() + fmt(" is told as %g instead of %g", double(got), double(want)));
                Tab l(q); for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) l(i, j) = l(j, i);
                o = call("mirror", [&] { m->cpLowerTri2UpperTri(); });
                std::string d = differs(*m, l); check(!o.threw && d.empty(), "table-differs", "copying the lower half of " + q.str() + " to the upper: " + d);
                probe("determinant");
                SutScope u; m.reset();
                break;
            }
            case 23: switch (choose(4)) { case 0: fixed<2, 2>(x); break; case 1: fixed<3, 3>(x); break; case 2: fixed<4, 3>(x); break; default: fixed<4, 4>(x); } break;
            case 24: {
                if (t.v.empty()) break;
                std::vector<double> arr(t.v.size() + 1, 77); Row row; bool colMajor = chance(1, 2), sym = false, same = false; size_t r = choose(uint32_t(t.r)), c = choose(uint32_t(t.c)); T big = 0, bigCol = 0;
                arm();
                Outcome o = call("questions", [&] {
                    const M& m = *x.m;
                    m.convertToArray(colMajor ? MATRICES_COL_MAJOR : MATRICES_ROW_MAJOR, arr.data());
                    sym = m.isSymmetric(); same = m == *y.m; big = m.maxVal(); bigCol = m.maxValInCol(c);
                    std::vector<T> v = m.cpRowToVector(r); FrameworkScope f; row = Row(v.begin(), v.end());
                });
                if (!settle(o, "questions")) { expect(x, t, "after failed questions"); break; }
                bool ok = arr.back() == 77; for (size_t i = 0; i < t.r; i++) for (size_t j = 0; j < t.c; j++) ok &= arr[colMajor ? i + j * t.r : i * t.c + j] == double(t(i, j));
                check(ok, "table-answer", "the values as a list differ from " + t.str());
                check(row == t.row(r), "table-answer", fmt("row %zu as a list differs from ", r) + t.str());
                bool wantSym = t.r == t.c; for (size_t i = 0; wantSym && i < t.r; i++) for (size_t j = 0; j < i; j++) if (t(i, j) != t(j, i)) wantSym = false;
                check(sym == wantSym, "table-answer", "symmetry of " + t.str());
                check(same == (t == y.t), "table-answer", "equality of " + t.str() + " and " + y.t.str());
                T wb = t.v[0], wc = t(0, c); for (T e : t.v) wb = std::max(wb, e); for (size_t i = 0; i < t.r; i++) wc = std::max(wc, t(i, c));
                check(big == wb && bigCol == wc, "table-answer", "largest value of " + t.str());
                break;
            }
            default: {
                if (!real) break;
                size_t n = range(1, 5);
                Tab q = table(n, n); bool zero = chance(1, 3); size_t z = choose(uint32_t(n));
                if (zero) { bool col = chance(1, 2); for (size_t i = 0; i < n; i++) (col ? q(i, z) : q(z, i)) = 0; }
                else for (size_t i = 0; i < n; i++) q(i, i) += 20;      // well-conditioned
                if (!zero && n > 1 && chance(1, 2)) { size_t e = choose(uint32_t(n)); for (size_t j = 0; j < n; j++) std::swap(q(z, j), q(e, j)); }
                std::unique_ptr<M> m(make(q)), inv;
                log("inversion of %s", q.str().c_str());
                arm();
                Outcome o = call("invert", [&] { inv.reset(new M(m->invert())); });
                bool done = settle(o, "inversion", zero);
                check(!done || !zero, "singular-accepted", "a table with nothing but zeros in a row or column is inverted: " + q.str());
                if (done) {
                    bool ok = true;
                    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double v = 0; for (size_t c = 0; c < n; c++) { T e; { SutScope u; e = (*inv)(c, j); } v += double(q(i, c)) * double(e); } ok &= std::abs(v - (i == j)) < 1e-9; }
                    check(ok, "wrong-inverse", "the inverse of " + q.str() + " is wrong");
                    probe("inverted");
                }
                std::string d = differs(*m, q);
                check(d.empty(), "table-differs", "inversion changes the table: " + d);
                takeOutput();
                SutScope u; m.reset(); inv.reset();
            }
        }
        for (auto& e : s) { std::string d = differs(*e.m, e.t); check(d.empty(), "other-table", "another table changed: " + d + " where it should be " + e.t.str()); }
        std::string st; for (auto& e : s) st += e.t.str() + ";";
        state(hash(st));
    }
    void run() {
        for (int n = range(1, 3); n > 0; n--) { Slot x; x.t = someTable(); x.m.reset(make(x.t)); s.push_back(std::move(x)); }
        if (chance(1, 4)) { SutScope z; s[0].m.reset(new M()); FrameworkScope f; s[0].t = Tab(); }
        for (int n = range(3, 30); n > 0; n--) step();
        nontrivial();
        SutScope z; s.clear();
    }
};
}

void sim::run() {
    setBudget(20000000);
    randomLayout();
    if (chance(2, 3)) { World<Math::Real> w; w.run(); } else { World<Math::Int> w; w.run(); }
}
