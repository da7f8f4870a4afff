// Descriptions as text, of every printable object, with failing allocations and a failing standard output.
#include "scn/model.h"
#include <iostream>
#include <iomanip>
const char* const sim::kProperty = "C22";
using namespace sim;
using namespace model;
using Class::Printable;

namespace {
struct Boom { };
// A printable of the program's own, which may fail in the middle or describe others.
struct Own : public virtual Class::Printable {
    const Printable* inner = nullptr;
    int throwAt = -1;
    bool format = false;
    void printInfo() const {
        std::cout << "own";
        if (throwAt == 0) throw Boom();
        if (format) std::cout << std::hex << std::setprecision(3) << std::setfill('*');
        std::cout << " value " << 0.123456789 << " " << 255 << std::endl;
        if (inner) { std::string s = inner->str(); std::cout << "<" << s << ">" << std::setw(7) << 1 << std::endl; }
        if (throwAt == 1) throw Boom();
        std::cout << "end" << std::endl;
        if (throwAt == 2) throw std::runtime_error("at the end");
    }
};
std::string printed(const Printable& p, Outcome* o = nullptr) {
    { SutScope s; std::cout.flush(); }
    takeOutput();
    Outcome r = call("printInfo", [&] { p.printInfo(); std::cout.flush(); });
    if (o) *o = r;
    return takeOutput();
}
void settle() {
    std::cout.clear(); std::cout.exceptions(std::ios::goodbit);
    std::cout.flags(std::ios::dec | std::ios::skipws); std::cout.precision(6); std::cout.fill(' '); std::cout.width(0);
}
}

void sim::run() {
    setBudget(8000000);
    randomLayout();
    fs().reset();
    settle();
    takeOutput();
    Want w; w.noMesh = true; w.maxElems = 5;
    Plan p = plan(w);
    Data* d = nullptr;
    Outcome o = call("build", [&] { d = build(p); });
    check(!o.threw, "harness", "the model could not be built: " + o.str());
    std::vector<std::pair<std::string, const Printable*>> all{{"model", d}};
    if (d->mesh) all.push_back({"mesh", d->mesh});
    if (d->mesh && p.mesh != kStructured) {
        auto& m = *d->mesh->castTo<Geometry::Mesh::Unstructured>();
        for (size_t i = 0; i < m.layers().size(); i++) all.push_back({"layer", m.layers()(i)});
        for (size_t i = 0; i < m.coords().size() && i < 3; i++) all.push_back({"coordinate", m.coords()(i)});
        for (size_t i = 0; i < m.elems().size(); i++) all.push_back({"element", m.elems()(i)});
    }
    if (d->physicalModels) for (size_t i = 0; i < d->physicalModels->size(); i++) all.push_back({"material", (*d->physicalModels)(i)});
    if (d->sources) for (size_t i = 0; i < d->sources->size(); i++) {
        all.push_back({"source", (*d->sources)(i)});
        if ((*d->sources)(i)->getMagnitude()) all.push_back({"magnitude", (*d->sources)(i)->getMagnitude()});
    }
    if (d->outputRequests) for (size_t i = 0; i < d->outputRequests->size(); i++) all.push_back({"request", (*d->outputRequests)(i)});
    Source::Magnitude::Magnitude* empty = nullptr;
    if (chance(1, 8)) { SutScope s; empty = new Source::Magnitude::Magnitude; all.push_back({"empty magnitude", empty}); }
    Own own;
    all.push_back({"own", &own});
    for (int n = range(1, 8); n > 0; n--) {
        auto& x = pick(all);
        own = Own();
        bool isOwn = x.second == &own;
        if (chance(1, 3)) { own.inner = pick(all).second; if (own.inner == &own) own.inner = nullptr; }
        own.format = chance(1, 3);
        if (chance(1, 3)) own.throwAt = int(choose(3));
        // the program's own format and state of its output
        settle();
        if (chance(1, 3)) { static const std::vector<int> pr{12, 3, 17}; std::cout.precision(pick(pr)); }
        if (chance(1, 4)) std::cout << std::scientific;
        if (chance(1, 5)) std::cout << std::setfill('#');
        Outcome ref;
        std::string want = printed(*x.second, &ref);
        settle();
        int prec = chance(1, 3) ? 12 : 6, set = int(choose(4));
        auto prepare = [&] { std::cout.precision(prec); if (set & 1) std::cout << std::scientific; if (set & 2) std::cout << std::setfill('#'); };
        prepare();
        auto mine = std::cout.flags();
        want = printed(*x.second, &ref);
        if (!isOwn) check(std::cout.flags() == mine && std::cout.precision() == prec && std::cout.fill() == (set & 2 ? '#' : ' ') && std::cout.width() == 0, "format-changed", fmt("printing a %s changed the program's output format", x.first.c_str()));
        settle(); prepare();
        if (isOwn || ref.threw) log("own: throws at %d", own.throwAt);
        check(!ref.threw || isOwn, "print-threw", x.first + " could not be printed: " + ref.str());
        bool bad = chance(1, 6), wide = chance(1, 8);
        if (bad) { std::cout.setstate(chance(1, 2) ? std::ios::badbit : std::ios::failbit); }
        if (wide) std::cout.width(5);
        auto flags = std::cout.flags(); auto precision = std::cout.precision(); auto width = std::cout.width(); auto fill = std::cout.fill(); auto st = std::cout.rdstate(); auto* buf = std::cout.rdbuf(); auto exc = std::cout.exceptions();
        bool fails = chance(1, 2);
        uint32_t at = 0;
        // the width is used up by the first thing printed: ask again without it for the text
        Outcome o;
        std::string got;
        std::string* res = nullptr;
        { SutScope s; res = new std::string; }
        if (fails) { at = chance(1, 2) ? choose(6) : choose(80); failAlloc(at, chance(1, 2) ? 1 : 3); }
        o = call(("str of " + x.first).c_str(), [&] { *res = x.second->str(); });
        bool fired = allocFired();
        failAllocOff();
        if (fired) fault("allocation failure");
        if (bad) fault("standard output failed before");
        got = *res;
        { SutScope s; delete res; }
        std::string leaked;
        check(std::cout.rdbuf() == buf, "output-not-given-back", "after describing a " + x.first + " (" + o.str() + ") the program's output goes elsewhere");
        check(std::cout.rdstate() == st, "state-changed", fmt("describing a %s changed the state of the output from %d to %d", x.first.c_str(), int(st), int(std::cout.rdstate())));
        check(std::cout.exceptions() == exc, "state-changed", "exceptions of the output");
        check(std::cout.flags() == flags && std::cout.precision() == precision && std::cout.fill() == fill && std::cout.width() == width, "format-changed", fmt("describing a %s changed the program's output format (precision %d to %d)", x.first.c_str(), int(precision), int(std::cout.precision())));
        std::cout.clear(); std::cout.width(0);
        { SutScope s; std::cout.flush(); }
        leaked = takeOutput();
        check(leaked.empty(), "printed-instead", "'" + shown(leaked) + "' was printed while describing a " + x.first);
        if (o.threw) {
            check(fired || ref.threw, "str-threw", "describing a " + x.first + " " + o.str());
            probe(fired ? "out of memory" : "printing threw");
        } else {
            check(!ref.threw, "str-hid-failure", "printing " + ref.str() + ", but describing returned");
            // text built by an object in streams of its own is cut short out of memory in print as well
            if (fired && !isOwn) probe("described out of memory");
            else if (fired && own.inner) probe("described out of memory");
            else if (!wide) check(got == want, "text-wrong", fmt("a %s is described as '%s', not '%s' (%s)", x.first.c_str(), shown(got).c_str(), shown(want).c_str(), fired ? "out of memory" : "nothing failed"));
            else check(got.size() >= want.size(), "text-wrong", "shorter than printed");
        }
        state(hash(got) ^ hash(x.first) ^ (fired ? 7 : 0));
        nontrivial();
        // the program prints on
        settle();
        { SutScope s; std::cout << "after " << 1.5 << std::flush; }
        check(takeOutput() == "after 1.5", "output-lost", "the program's output no longer arrives after describing a " + x.first);
    }
    settle();
    { SutScope s; delete empty; delete d; }
}
