// Project documents and STL files read while allocations fail, and again afterwards. (usesjson)
#include "scn/project.h"
#include "scn/stl.h"
const char* const sim::kProperty = "C03";
using namespace project;

namespace {
struct Case { bool stl; Doc doc; StlDoc solid; std::string text; uint64_t allocations; };
// reads with the allocation failures armed; what differs from the whole model, or nothing
std::string readOnce(Case& c, uint64_t at, uint32_t many, Outcome& o, const char* what) {
    SimBuf buf(c.text); buf.schedule();
    bool fired = false; std::string diff;
    auto arm = [&] { if (many) failAlloc(at, many); };
    std::unique_ptr<Data> d;
    uint64_t before = allocCount();
    if (c.stl) {
        std::istream in(&buf);
        { SutScope s; d.reset(new Data); }
        arm();
        o = call(what, [&] { Parser::STL::Parser p; Data x = p.read(in); std::swap(d->solver, x.solver); std::swap(d->mesh, x.mesh); std::swap(d->physicalModels, x.physicalModels); std::swap(d->sources, x.sources); std::swap(d->outputRequests, x.outputRequests); });
        takeOutput(); takeErrors();
    } else {
        std::unique_ptr<Data> r = project::read(buf, o, what, arm);
        d = std::move(r);
    }
    c.allocations = allocCount() - before;
    if (many) { fired = allocFired(); failAllocOff(); }
    if (fired) fault(many == 1 ? "one allocation failed" : many > 1000 ? "memory ran out" : "several allocations failed");
    if (o.threw) {
        check(fired, "good-input-refused", o.str() + ", reading " + shown(c.text, 3000));
        probe(o.badAlloc ? "out of memory reported" : "another exception");
    } else {
        if (fired) probe("read in spite of failed allocations");
        if (c.stl) compareStl(*d, c.solid);
        else { diff = mismatch(c.doc, project::show(*d, c.doc)); }
    }
    call("release", [&] { d.reset(); });
    return diff;
}
}

void sim::run() {
    setBudget(400000000);
    randomLayout();
    fs().reset();
    Case c;
    c.stl = chance(1, 4);
    if (c.stl) { c.solid = genStl(3, 4); c.text = c.solid.text; }
    else { c.doc = generate(chance(1, 30)); c.text = project::text(c.doc.root); }
    Outcome o;
    std::string diff = readOnce(c, 0, 0, o, "read");
    check(diff.empty(), "wrong-model", diff);
    uint64_t n = c.allocations;
    int attempts = range(1, c.stl ? 4 : 8);
    for (int i = 0; i < attempts; i++) {
        if (chance(1, 6)) randomLayout();
        uint32_t many = pick(std::vector<uint32_t>{1, 1, 1, 2, 10, 1000000000});
        uint64_t at = chance(1, 5) ? n - std::min<uint64_t>(n, 1 + choose(40)) : choose(uint32_t(n));
        log("attempt %d: allocation %llu of %llu, %u", i, (unsigned long long)at, (unsigned long long)n, many);
        diff = readOnce(c, at, many, o, "read without memory");
        check(diff.empty(), "partial-model", fmt("allocation %llu of %llu and %u following ones failed, nothing was thrown, but ", (unsigned long long)at, (unsigned long long)n, many - 1) + diff);
        check(fs().openHandles == 0, "left-open", "a file was left open");
        nontrivial();
    }
    state(hash(c.text));
    if (!c.stl && chance(1, 2)) { c.doc = generate(); c.text = project::text(c.doc.root); }
    diff = readOnce(c, 0, 0, o, "read again");
    check(diff.empty(), "wrong-model", "with memory again: " + diff);
}
