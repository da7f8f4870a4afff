// A stream delivered by the simulator: seeded chunks, cut points and read errors.
#pragma once
#include "sim.h"
#include <streambuf>
#include <istream>

namespace sim {

class SimBuf : public std::streambuf {
public:
    std::string data;
    uint32_t chunkMode = 0;      // 0: everything at once, 1: one byte, 2: random
    Rng rng{0};
    int64_t errorAt = -1;        // reading at or past this byte fails ...
    int errorPass = 0;           // ... from the errorPass-th pass over the stream on (0-based)
    bool errorThrows = true;     // by an exception from the buffer, otherwise as a premature end
    bool errorOnce = false;
    int passes = 0;
    uint64_t refills = 0;
    bool errorFired = false;
    size_t off = 0;              // offset in data of eback()
    size_t high = 0;             // bytes delivered so far
    static const size_t CH = 4096;
    char buf[CH];

    explicit SimBuf(const std::string& d) : data(d) { setg(buf, buf, buf); }
    // draws a delivery schedule
    void schedule() {
        chunkMode = choose(3);
        rng = Rng(seedChoice());
    }
protected:
    int_type underflow() override {
        FrameworkScope f;
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t at = off + size_t(egptr() - eback());
        bool faulty = errorAt >= 0 && passes >= errorPass && !(errorOnce && errorFired);
        if (faulty && at >= size_t(errorAt)) {
            errorFired = true;
            log("stream error at byte %zu (pass %d, %s)", at, passes, errorThrows ? "exception" : "end");
            if (errorThrows) { fault("stream read error"); throw std::runtime_error("simulated read error"); }
            fault("stream ends early");
            return traits_type::eof();
        }
        if (at >= data.size()) return traits_type::eof();
        size_t n = data.size() - at;
        if (chunkMode == 1) n = 1;
        else if (chunkMode == 2) n = 1 + rng.below(uint32_t(std::min<size_t>(n, rng.below(4) ? 7 : 200)));
        if (n > CH) n = CH;
        if (faulty && at + n > size_t(errorAt)) n = size_t(errorAt) - at;
        if (chunkMode && n < data.size() - at) refills++;
        data.copy(buf, n, at);
        off = at;
        high = std::max(high, at + n);
        setg(buf, buf, buf + n);
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override {
        FrameworkScope f;
        int64_t o = int64_t(std::streamoff(p));
        if (o < 0 || size_t(o) > data.size()) return pos_type(off_type(-1));
        if (o == 0) passes++;
        off = size_t(o);
        setg(buf, buf, buf);
        return p;
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override {
        int64_t base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? int64_t(off + size_t(gptr() - eback())) : int64_t(data.size());
        if (d == std::ios_base::cur && o == 0) return pos_type(base);
        return seekpos(pos_type(base + o), m);
    }
};
} // namespace sim
