// A small, independent reader of gzip data (RFC 1951/1952).
#pragma once
#include <string>
#include <vector>
namespace gz {
class Inflate {
    const unsigned char* p; size_t n, at = 0; int bit = 0; unsigned acc = 0;
    std::string& out; std::string err;
    struct Code { short count[16] = {}, symbol[300]; };
    bool more(int k) { while (bit < k) { if (at >= n) return false; acc |= unsigned(p[at++]) << bit; bit += 8; } return true; }
    int bits(int k) { if (k == 0) return 0; if (!more(k)) { if (err.empty()) err = "ends early"; return -1; } int v = int(acc & ((1u << k) - 1)); acc >>= k; bit -= k; return v; }
    static void make(Code& c, const std::vector<int>& len) {
        for (int i = 0; i < 16; i++) c.count[i] = 0;
        for (int l : len) c.count[l]++;
        c.count[0] = 0;
        short offs[16]; offs[1] = 0;
        for (int i = 1; i < 15; i++) offs[i + 1] = offs[i] + c.count[i];
        for (size_t s = 0; s < len.size(); s++) if (len[s]) c.symbol[offs[len[s]]++] = short(s);
    }
    int symbol(const Code& c) {
        int code = 0, first = 0, index = 0;
        for (int l = 1; l < 16; l++) {
            int b = bits(1); if (b < 0) return -1;
            code |= b; int k = c.count[l];
            if (code - k < first) return c.symbol[index + (code - first)];
            index += k; first = (first + k) << 1; code <<= 1;
        }
        err = "bad code"; return -1;
    }
    bool codes(const Code& lit, const Code& dist) {
        static const int lb[]{3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258}, lx[]{0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
        static const int db[]{1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577}, dx[]{0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
        for (;;) {
            int s = symbol(lit);
            if (s < 0) return false;
            if (s < 256) { out += char(s); continue; }
            if (s == 256) return true;
            s -= 257; if (s >= 29) { err = "bad length"; return false; }
            int e = bits(lx[s]); if (e < 0) return false;
            int len = lb[s] + e;
            s = symbol(dist); if (s < 0) return false;
            if (s >= 30) { err = "bad distance"; return false; }
            e = bits(dx[s]); if (e < 0) return false;
            size_t d = size_t(db[s] + e);
            if (d > out.size()) { err = "distance too far"; return false; }
            while (len--) out += out[out.size() - d];
        }
    }
public:
    Inflate(const std::string& in, size_t from, std::string& out) : p((const unsigned char*)in.data()), n(in.size()), at(from), out(out) {}
    size_t used() const { return at; }
    // true when the last block was complete; what could be decoded is in out either way
    bool run(std::string& why) {
        for (;;) {
            int last = bits(1), type = last < 0 ? -1 : bits(2);
            if (type < 0) { why = err; return false; }
            if (type == 0) {
                acc = 0; bit = 0;
                if (at + 4 > n) { why = "ends early"; return false; }
                unsigned len = p[at] | p[at + 1] << 8, inv = p[at + 2] | p[at + 3] << 8; at += 4;
                if ((len ^ inv) != 0xffff) { why = "bad stored block"; return false; }
                if (at + len > n) { why = "ends early"; return false; }
                out.append((const char*)p + at, len); at += len;
            } else if (type == 3) { why = "bad block"; return false; }
            else {
                Code lit, dist;
                if (type == 1) {
                    std::vector<int> l(288), d(30, 5);
                    for (int i = 0; i < 288; i++) l[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
                    make(lit, l); make(dist, d);
                } else {
                    int nl = bits(5), nd = bits(5), nc = bits(4);
                    if (nc < 0) { why = err; return false; }
                    nl += 257; nd += 1; nc += 4;
                    static const int order[]{16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15};
                    std::vector<int> l(19);
                    for (int i = 0; i < nc; i++) { int b = bits(3); if (b < 0) { why = err; return false; } l[order[i]] = b; }
                    Code cl; make(cl, l);
                    std::vector<int> all;
                    while (int(all.size()) < nl + nd) {
                        int s = symbol(cl);
                        if (s < 0) { why = err; return false; }
                        if (s < 16) { all.push_back(s); continue; }
                        int rep = s == 16 ? bits(2) + 3 : s == 17 ? bits(3) + 3 : bits(7) + 11;
                        if (!err.empty() || (s == 16 && all.empty())) { why = "bad lengths"; return false; }
                        int v = s == 16 ? all.back() : 0;
                        while (rep--) all.push_back(v);
                    }
                    if (int(all.size()) != nl + nd) { why = "bad lengths"; return false; }
                    make(lit, std::vector<int>(all.begin(), all.begin() + nl)); make(dist, std::vector<int>(all.begin() + nl, all.end()));
                }
                if (!codes(lit, dist)) { why = err; return false; }
            }
            if (last) { at -= bit / 8; bit = 0; return true; }
        }
    }
};
inline unsigned crc(const std::string& s) {
    unsigned c = ~0u;
    for (unsigned char ch : s) { c ^= ch; for (int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1; }
    return ~c;
}
// closed: the trailer must be there and right. Returns an empty string or what is wrong.
inline std::string unpack(const std::string& in, bool closed, std::string& out) {
    out.clear();
    if (in.size() < 10 || (unsigned char)in[0] != 0x1f || (unsigned char)in[1] != 0x8b || in[2] != 8) return "no gzip header";
    if (in[3] != 0) return "gzip flags";
    std::string why;
    Inflate f(in, 10, out);
    bool whole = f.run(why);
    if (!closed) return whole || why == "ends early" ? "" : why;
    if (!whole) return why;
    size_t at = f.used();
    auto word = [&](size_t i) { unsigned v = 0; for (int k = 0; k < 4; k++) v |= unsigned((unsigned char)in[i + k]) << 8 * k; return v; };
    if (at + 8 != in.size()) return "the gzip trailer is missing or followed by something";
    if (word(at) != crc(out) || word(at + 4) != out.size()) return "wrong gzip checksum";
    return "";
}
} // namespace gz
