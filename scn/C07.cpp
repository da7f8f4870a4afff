// Excitations tabulated to the simulated disk: steps, durations, kinds, failing and full disks, crashes and earlier files.
#include "scn/parts.h"
#include "source/magnitude/Numerical.h"
#include "math/function/BandLimited.h"
#include "math/function/Polynomial.h"
#include <cmath>
#include <sstream>
const char* const sim::kProperty = "C07";
using namespace sim;
using namespace model;
typedef Source::Magnitude::Magnitude Mag;
typedef Source::Magnitude::Numerical Numerical;

// The excitation, evaluated apart from the code under test.
struct Truth {
    int kind; double a, b, c; std::vector<std::pair<double, double>> pts;
    double operator()(double t) const {
        switch (kind) {
            case 0: { double x = (t - b) / (a * std::sqrt(2.)); return std::exp(-x * x) * std::cos(c * M_PI * 2 * t); }
            case 1: { double car = (a + b) / 2, tun = (b - a) / 2, d = t - 20 / a, sp = 10 / b; if (d == 0) return 1; return std::sin(2 * M_PI * tun * d) / (2 * M_PI * tun * d) * std::exp(-d * d / (sp * sp) / 2) * std::cos(2 * M_PI * car * d); }
            case 2: return a + b * t + c * t * t;
            default: {
                if (t <= pts.front().first) return pts.front().second;
                for (size_t i = 1; i < pts.size(); i++) if (t <= pts[i].first) { auto& p = pts[i - 1]; auto& q = pts[i]; return p.second + (q.second - p.second) * ((t - p.first) / (q.first - p.first)); }
                return pts.back().second;
            }
        }
    }
    Math::FunctionRR* make() const {
        switch (kind) {
            case 0: return new Math::Function::Gaussian(a, b, c);
            case 1: return new Math::Function::BandLimited(a, b);
            case 2: { auto* p = new Math::Function::Polynomial<Math::Real>(1); p->addMonomial(a, 0); p->addMonomial(b, 1); p->addMonomial(c, 2); return p; }
            default: return new Math::Function::LinearInterpolation<Math::Real, Math::Real>(pts);
        }
    }
};

void sim::run() {
    setBudget(200000000);
    randomLayout();
    fs().reset(); fs().lateErrors = true;
    fs().mkdirs("/work/out"); fs().mkdirs("/work/folder.exc"); fs().markDurable();
    for (int round = 0, rounds = range(1, 2); round < rounds; round++) {
        if (chance(1, 4)) randomLayout();
        fs().faults.clear(); fs().capacity = -1;
        Truth f; f.kind = int(choose(4));
        int n = chance(1, 6) ? range(200, 1200) : range(1, 60);
        double unit = pick(std::vector<double>{1, 1e-9, 1e-12, 1e3, 0.37}), dt = unit * pick(std::vector<double>{1, 0.25, 0.1, 3}) / 8;
        double T = dt * n;
        switch (f.kind) {
            case 0: f.a = T / (2 + choose(20)); f.b = chance(1, 4) ? -T / 4 : T * (1 + choose(8)) / 8.; f.c = chance(1, 2) ? 0 : (1 + choose(4)) / T; break;
            case 1: f.a = 40 / T / (1 + choose(3)); f.b = f.a * (1 + (1 + choose(6)) / 4.); break;
            case 2: f.a = chance(1, 2) ? 0 : 1.5; f.b = chance(1, 2) ? 0 : -2 / T; f.c = chance(1, 2) ? 0 : 3 / T / T; break;
            default: {
                double amp = pick(std::vector<double>{1, 1, 1e6, 1e-15, 1e-20}), x = chance(1, 2) ? 0 : T * 0.1;
                for (int i = range(1, 5); i > 0; i--) { f.pts.push_back({x, amp * (double(choose(9)) - 4)}); x += T * (1 + choose(4)) / 8.; }
                break;
            }
        }
        bool defaulted = chance(1, 12);
        double step = dt, fin = dt * (n + (chance(1, 2) ? 0.5 : 0));
        size_t count = size_t(std::abs(fin / step));
        if (defaulted) { step = 0; fin = T; count = 1000; dt = T / 1000; }
        std::string name = pick(std::vector<std::string>{"excitation.exc", "out/e 1.txt", "/work/out/x"}), file = fs().absolute(name);
        bool there = chance(1, 3);
        fs().erase(file);
        if (there) { std::string old; for (int i = 0; i < 300 * int(choose(8)); i++) old += fmt("%d 7\n", i); fs().put(file, old); }
        fs().shortTransfers = chance(1, 3); fs().interrupts = chance(1, 4); fs().xfer = Rng(seedChoice());
        // what goes wrong
        std::string how; Fault flt;
        switch (chance(1, 2) ? 0 : 1 + choose(6)) {
            case 0: break;
            case 1: { Op op = Op::Create; flt.accept = [op, file](Op o, const std::string& p) { return o == op && p == file; }; flt.err = pickErrno(op); fs().faults.push_back(flt); how = "creating fails"; break; }
            case 2: case 3: { Op op = chance(1, 4) ? Op::Close : Op::Write; flt.accept = [op, file](Op o, const std::string& p) { return o == op && p == file; }; flt.at = op == Op::Close ? 0 : choose(chance(1, 2) ? 3 : 40); flt.err = pickErrno(op); flt.sticky = chance(1, 3); flt.partial = flt.sticky; fs().faults.push_back(flt); how = op == Op::Close ? "closing fails" : "writing fails"; break; }
            case 4: fs().capacity = choose(uint32_t(35 * n + 20)); how = "disk full"; break;
            case 5: { name = pick(std::vector<std::string>{"folder.exc", "no folder/e.exc"}); file = fs().absolute(name); how = "no such place"; break; }
            case 6: { flt.accept = [file](Op o, const std::string& p) { return o == Op::Read && p == file; }; flt.err = pickErrno(Op::Read); flt.at = choose(2); flt.sticky = chance(1, 2); fs().faults.push_back(flt); how = "reading back fails"; break; }
        }
        if (how.empty() && chance(1, 6)) {      // an earlier attempt that crashed
            Fault c; c.accept = [](Op o, const std::string&) { return o == Op::Create || o == Op::Write || o == Op::Close; }; c.at = choose(6); c.crash = true; c.partial = chance(1, 2);
            fs().faults.push_back(c);
            isolated([&] { Outcome o = call("tabulate, crashing", [&] { Mag m(f.make()); Numerical x(FileSystem::Project(name), m, step, fin); }); crashNow(); });
            fs().faults.clear(); fs().loseVolatile(); probe("crash before");
        }
        int via = int(choose(3));
        std::unique_ptr<Mag> mag; std::unique_ptr<Source::Generator> gen; std::unique_ptr<Numerical> res;
        { SutScope sc; mag.reset(new Mag(f.make())); if (via) gen.reset(new Source::Generator(new Mag(f.make()), Geometry::Element::Group<const Geometry::Nod>(), Source::Generator::voltage, Source::Generator::soft)); }
        uint64_t creates = 0; (void)creates;
        Outcome o = call("tabulate", [&] {
            if (via == 0) res.reset(new Numerical(FileSystem::Project(name), *mag, step, fin));
            else if (via == 1) res.reset(gen->exportToFile(FileSystem::Project(name), step, fin));
            else gen->convertToNumerical(FileSystem::Project(name), step, fin);
        });
        takeErrors(); takeOutput();
        bool fired = !fs().faults.empty() && fs().faults[0].fired;
        if (fired) fault(how.c_str());
        bool full = fs().capacity == 0;
        if (full) fault("disk full");
        if (how == "no such place") fault("path that can not be created");
        check(fs().openHandles == 0, "left-open", "the file was left open");
        const Mag* left = gen ? gen->getMagnitude() : nullptr;
        if (o.threw) {
            check(fired || full || how == "no such place", "tabulating-threw", "tabulating " + o.str() + [&] { std::string t; fs().get(file, t); return ", with the file " + shown(t); }());
            if (via == 2) { SutScope sc; check(left && !left->is<Numerical>() && *left == *mag, "lost-excitation", "a failed conversion changed the source"); }
        } else {
            if (how != "reading back fails" && how != "") check(!fired && how != "no such place", "failure-hidden", "the table was not stored (" + how + ") but nothing was reported");
            if (!fired) nontrivial();
            fs().faults.clear(); fs().capacity = -1;
            const Numerical* t = via == 2 ? left->castTo<Numerical>() : res.get();
            check(via != 2 || left->is<Numerical>(), "not-tabulated", "the source has no table");
            if (via == 2) { std::string n2; { SutScope sc; n2 = gen->getMagnitudeFilename(); } check(n2 == (FileSystem::Project(name)).getFilename(), "not-tabulated", "the source names the file '" + n2 + "'"); }
            // the file as text
            std::string text; check(fs().get(file, text), "no-file", "there is no file");
            double top = f.kind == 1 ? 1 : f.kind == 0 ? 1e-14 : 0; for (size_t i = 0; i < count; i++) top = std::max(top, std::abs(f(i * dt)));
            auto tolerance = [&](double time) {
                double v = std::max(std::abs(f(time + dt) - f(time)), std::abs(f(time) - f(time - dt)));
                return (f.kind == 1 ? 2 * std::abs(f(time + 2.3e-16) - f(time)) : 0) + 4e-9 * top + 2e-9 * (std::abs(time / dt) + 1) * v + 1e-300;
            };
            std::istringstream in(text); std::string line; std::vector<std::pair<double, double>> rows;
            while (std::getline(in, line)) {
                double x, y; char rest;
                check(sscanf(line.c_str(), "%lf %lf %c", &x, &y, &rest) == 2, "wrong-file", "the file has the line '" + shown(line) + "'");
                check(rows.empty() || x > rows.back().first, "wrong-file", "the file has samples out of order: '" + shown(line) + "'");
                check(std::abs(y - f(x)) <= tolerance(x), "wrong-file", fmt("the file has '%s' where the excitation is %.12g", shown(line).c_str(), f(x)));
                rows.push_back({x, y});
            }
            check(text.empty() || text.back() == '\n', "wrong-file", "the file ends in the middle of a line");
            std::unique_ptr<Numerical> loaded; bool equal = false;
            Outcome l = call("load", [&] { loaded.reset(new Numerical(FileSystem::Project(name))); equal = *loaded == *t && *t == *loaded; });
            check(!l.threw, "not-loadable", "loading the table " + l.str());
            check(equal, "differs-from-file", "the new excitation differs from the one in its file");
            for (size_t i = 0; i < count; i++) {
                double time = i * dt, a, b;
                { SutScope sc; a = t->Mag::evaluate(time); b = loaded->Mag::evaluate(time); }
                double want = f(time);
                check(a == b, "differs-from-file", fmt("the new excitation is %.17g at %g and the one in its file %.17g", a, time, b));
                check(std::abs(a - want) <= tolerance(time), "wrong-table", fmt("the table gives %.12g at sample %zu of %zu (%g) where the excitation is %.12g; the file has %s", a, i, count, time, want, shown(text).c_str()));
            }
            if (via == 2) {     // a table already: asking again changes nothing and stores nothing
                std::string other = fs().absolute("other.exc"), now, again;
                bool same = false;
                Outcome r = call("tabulate again", [&] {
                    std::unique_ptr<Numerical> x(gen->exportToFile(FileSystem::Project("other.exc"), step, fin));
                    gen->convertToNumerical(FileSystem::Project("other.exc"), step / 2, fin);
                    same = x && *x == *loaded && *gen->getMagnitude() == *loaded;
                });
                takeErrors(); takeOutput();
                check(!r.threw, "tabulating-threw", "tabulating what is a table already " + r.str());
                check(same, "not-tabulated", "tabulating what is a table already gives something else");
                check(!fs().get(other, now) && fs().get(file, again) && again == text, "wrong-file", "tabulating what is a table already wrote a file");
                probe("tabulated already");
            }
            state(hash(text));
            SutScope sc; loaded.reset();
        }
        SutScope sc; mag.reset(); gen.reset(); res.reset();
    }
}
