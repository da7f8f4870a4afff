// A strict reader of simple XML, written independently of the code under test.
#pragma once
#include "sim/sim.h"
#include <memory>
namespace xml {
struct Node {
    std::string name, text;
    std::map<std::string, std::string> attr;
    std::vector<std::unique_ptr<Node>> kids;
    const Node* kid(const std::string& n, size_t i = 0) const { for (auto& k : kids) if (k->name == n && i-- == 0) return k.get(); return nullptr; }
    size_t count(const std::string& n) const { size_t c = 0; for (auto& k : kids) c += k->name == n; return c; }
};
class Reader {
    const std::string& s; size_t i = 0;
    std::string err;
    void fail(const std::string& e) { if (err.empty()) err = e + sim::fmt(" at byte %zu", i); i = s.size(); }
    void space() { while (i < s.size() && strchr(" \t\r\n", s[i])) i++; }
    std::string name() { size_t a = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("_:-.", s[i]))) i++; if (a == i) fail("name expected"); return s.substr(a, i - a); }
    std::string entity() {
        size_t e = s.find(';', i);
        if (e == std::string::npos || e - i > 8) { fail("bad entity"); return ""; }
        std::string n = s.substr(i + 1, e - i - 1);
        i = e + 1;
        if (n == "amp") return "&"; if (n == "lt") return "<"; if (n == "gt") return ">"; if (n == "quot") return "\""; if (n == "apos") return "'";
        if (n.size() > 1 && n[0] == '#') { int c = n[1] == 'x' ? strtol(n.c_str() + 2, nullptr, 16) : atoi(n.c_str() + 1); if (c > 0 && c < 128) return std::string(1, char(c)); }
        fail("bad entity &" + n); return "";
    }
    std::unique_ptr<Node> element() {
        std::unique_ptr<Node> n(new Node);
        if (i >= s.size() || s[i] != '<') { fail("element expected"); return n; }
        i++;
        n->name = name();
        for (;;) {
            bool sp = i < s.size() && strchr(" \t\r\n", s[i]);
            space();
            if (i >= s.size()) { fail("cut off in <" + n->name); return n; }
            if (s[i] == '/') { if (s.compare(i, 2, "/>")) fail("bad tag"); i += 2; return n; }
            if (s[i] == '>') { i++; break; }
            if (!sp) { fail("blank expected"); return n; }
            std::string a = name(); space();
            if (i >= s.size() || s[i] != '=') { fail("= expected"); return n; }
            i++; space();
            if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) { fail("quote expected"); return n; }
            char q = s[i++]; std::string v;
            while (i < s.size() && s[i] != q) {
                if (s[i] == '&') v += entity();
                else if (s[i] == '<') fail("< in attribute");
                else { v += strchr("\t\r\n", s[i]) ? ' ' : s[i]; i++; }   // blanks of all kinds are read as spaces
            }
            if (i >= s.size()) { fail("cut off in attribute"); return n; }
            i++;
            if (!n->attr.emplace(a, v).second) { fail("attribute twice"); return n; }
        }
        for (;;) {
            while (i < s.size() && s[i] != '<') { if (s[i] == '&') n->text += entity(); else n->text += s[i++]; }
            if (i >= s.size()) { fail("cut off in <" + n->name + ">"); return n; }
            if (!s.compare(i, 2, "</")) { i += 2; if (name() != n->name) fail("wrong closing tag"); space(); if (i >= s.size() || s[i] != '>') fail("> expected"); else i++; return n; }
            if (!s.compare(i, 4, "<!--")) { size_t e = s.find("-->", i); if (e == std::string::npos) fail("comment"); else i = e + 3; continue; }
            n->kids.push_back(element());
            if (!err.empty()) return n;
        }
    }
public:
    explicit Reader(const std::string& s) : s(s) {}
    std::unique_ptr<Node> read(std::string& error) {
        space();
        if (!s.compare(i, 5, "<?xml")) { size_t e = s.find("?>", i); if (e == std::string::npos) fail("declaration"); else i = e + 2; }
        space();
        auto n = element();
        space();
        if (err.empty() && i != s.size()) fail("text after the end");
        error = err;
        return n;
    }
};
} // namespace xml
