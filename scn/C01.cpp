// Project documents of every kind read one after another under seeded heap layouts and stream deliveries. (usesjson)
#include "scn/project.h"
const char* const sim::kProperty = "C01";
using namespace project;

void sim::run() {
    setBudget(200000000);
    randomLayout();
    fs().reset();
    int earlier = range(0, 2);
    for (int i = 0; i <= earlier; i++) {
        if (chance(1, 4)) randomLayout();
        Doc doc = generate(chance(1, 10));
        std::string t = project::text(doc.root);
        log("document %d: %zu bytes", i, t.size());
        SimBuf buf(t);
        buf.schedule();
        fs().shortTransfers = chance(1, 3); fs().interrupts = chance(1, 4); fs().xfer = Rng(seedChoice());
        if (buf.chunkMode) fault("chunked delivery");
        Outcome o;
        std::unique_ptr<Data> d = project::read(buf, o);
        check(!o.threw, "good-document-refused", o.str() + ", reading " + shown(t, 3000));
        Shown got = project::show(*d, doc);
        std::string diff = mismatch(doc, got);
        check(diff.empty(), "wrong-model", diff);
        check(fs().openHandles == 0, "left-open", "a file was left open");
        if (doc.hasMesh) nontrivial();
        state(hash(t));
        bool keep = chance(1, 2);
        if (keep) d.release(); else { call("release", [&] { d.reset(); }); probe("released before next read"); }
    }
}
