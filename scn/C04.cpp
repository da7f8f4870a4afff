#include "stl.h"
const char* const sim::kProperty = "C04";

void sim::run() {
    setBudget(20000000);
    randomLayout();
    int earlier = range(0, 2);
    for (int i = 0; i <= earlier; i++) {
        StlDoc doc = genStl(3, 5, true);
        log("file %d: %zu bytes, %zu solids, %zu facets: %s", i, doc.text.size(), doc.names.size(), doc.facets.size(), shown(doc.text, 900).c_str());
        SimBuf buf(doc.text);
        buf.schedule();
        if (buf.chunkMode) fault("chunked delivery");
        Outcome o;
        std::unique_ptr<Data> d = readStl(buf, o);
        check(!o.threw, "good-file-refused", o.str());
        compareStl(*d, doc);
        if (doc.facets.size() > 1) nontrivial();
        if (doc.names.size() > 1) probe("several solids");
        state(hash(doc.text));
        // the model is released, or kept while the next file is read
        if (chance(1, 2)) { call("release", [&] { d.reset(); }); probe("released before next read"); }
        else { d.release(); }
    }
}
