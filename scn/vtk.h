// An independent reader of VTK collections, and the check of one against the plan of a model.
#pragma once
#include "scn/parts.h"
#include "scn/xml.h"
#include "sim/fs.h"
namespace vtk {
using namespace sim;
using namespace model;
inline std::vector<double> numbers(const std::string& s, const std::string& where) {
    std::vector<double> r;
    const char* p = s.c_str();
    for (;;) {
        while (isspace((unsigned char)*p)) p++;
        if (!*p) return r;
        char* e; double v = strtod(p, &e);
        check(e != p && (!*e || isspace((unsigned char)*e)), "bad-file", "'" + shown(std::string(p).substr(0, 20)) + "' is no number in " + where);
        r.push_back(v); p = e;
    }
}
inline std::vector<long> integers(const std::string& s, const std::string& where) {
    std::vector<long> r;
    for (double v : numbers(s, where)) { check(v == std::floor(v) && v >= 0 && v < 1e9, "bad-file", fmt("%g where a count is needed in %s", v, where.c_str())); r.push_back(long(v)); }
    return r;
}
inline std::vector<parts::Cell> readPart(const std::string& bytes, const std::string& where) {
    std::string err;
    auto x = xml::Reader(bytes).read(err);
    check(err.empty(), "bad-file", where + ": " + err);
    check(x->name == "VTKFile" && x->attr["type"] == "UnstructuredGrid", "bad-file", where + " is no unstructured grid");
    auto* g = x->kid("UnstructuredGrid");
    check(g && x->count("UnstructuredGrid") == 1, "bad-file", where + ": UnstructuredGrid");
    // files may have the arrays directly in the grid or in a piece
    const xml::Node* piece = g->kid("Piece") ? g->kid("Piece") : g;
    auto attr = [&](const xml::Node* n, const char* a) { auto it = n->attr.find(a); if (it != n->attr.end()) return it->second; it = g->attr.find(a); return it == g->attr.end() ? std::string() : it->second; };
    auto *pts = piece->kid("Points"), *cells = piece->kid("Cells");
    check(pts && cells && pts->count("DataArray") == 1 && cells->count("DataArray") == 3, "bad-file", where + ": points or cells");
    auto xyz = numbers(pts->kid("DataArray")->text, where);
    check(pts->kid("DataArray")->attr.at("NumberOfComponents") == "3" && xyz.size() % 3 == 0, "bad-file", where + ": components");
    std::vector<long> conn, offs, types;
    for (size_t i = 0; i < 3; i++) {
        auto* a = cells->kid("DataArray", i);
        std::string n = a->attr.count("Name") ? a->attr.at("Name") : "";
        (n == "connectivity" ? conn : n == "offsets" ? offs : n == "types" ? types : (violation("bad-file", where + ": array " + n), conn)) = integers(a->text, where);
    }
    size_t np = xyz.size() / 3;
    check(attr(piece, "NumberOfPoints") == std::to_string(np), "bad-counts", fmt("%s announces %s points and has %zu", where.c_str(), attr(piece, "NumberOfPoints").c_str(), np));
    check(attr(piece, "NumberOfCells") == std::to_string(types.size()), "bad-counts", fmt("%s announces %s cells and has %zu", where.c_str(), attr(piece, "NumberOfCells").c_str(), types.size()));
    check(offs.size() == types.size() && (offs.empty() ? conn.empty() : size_t(offs.back()) == conn.size()), "bad-counts", where + ": offsets do not fit types and connectivity");
    std::vector<parts::Cell> r;
    std::vector<bool> used(np);
    size_t at = 0;
    for (size_t i = 0; i < types.size(); i++) {
        parts::Cell c; c.id = 0;
        switch (types[i]) { case 1: c.kind = eNode; break; case 3: c.kind = eLine; break; case 5: c.kind = eTri3; break; case 9: c.kind = eQuad; break; case 10: c.kind = eTet4; break; case 12: c.kind = eHex; break; default: violation("wrong-elements", fmt("%s: cell type %ld", where.c_str(), types[i])); }
        check(size_t(offs[i]) >= at && size_t(offs[i]) <= conn.size(), "bad-counts", where + ": offsets");
        for (; at < size_t(offs[i]); at++) { check(size_t(conn[at]) < np, "bad-counts", where + ": a cell refers to a point that is not there"); used[conn[at]] = true; c.v.push_back({{xyz[conn[at] * 3], xyz[conn[at] * 3 + 1], xyz[conn[at] * 3 + 2]}}); }
        check(int(c.v.size()) == elemSize(c.kind), "bad-counts", fmt("%s: a %s with %zu points", where.c_str(), elemName(c.kind), c.v.size()));
        r.push_back(c);
    }
    for (size_t i = 0; i < np; i++) check(used[i], "bad-counts", where + ": a point no cell uses");
    return r;
}
inline std::string valid(std::string s) { for (char& c : s) if (c == '/') c = '_'; return s; }
// The collection written for name (as given to the exporter) against the plan.
inline void verify(const Plan& p, const std::string& name) {
    std::string abs = fs().absolute(name), folder = abs.substr(0, abs.rfind('/') + 1), bytes, err;
    check(fs().get(abs + ".pvd", bytes), "no-collection", name + ".pvd is missing");
    auto x = xml::Reader(bytes).read(err);
    check(err.empty(), "bad-file", name + ".pvd: " + err);
    check(x->name == "VTKFile" && x->attr["type"] == "Collection" && x->count("Collection") == 1, "bad-file", name + ".pvd is no collection");
    auto* c = x->kid("Collection");
    auto want = parts::of(p);
    std::set<std::string> files, bases;
    for (size_t i = 0; i < std::max(want.size(), c->kids.size()); i++) {
        check(i < want.size(), "wrong-parts", i < c->kids.size() ? "the collection names " + c->kids[i]->attr["file"] + " too much" : "");
        check(i < c->kids.size(), "wrong-parts", "the collection lacks a part for " + want[i].base);
        auto& k = *c->kids[i];
        check(k.name == "DataSet" && k.attr["part"] == std::to_string(i), "bad-file", fmt("part %zu is numbered %s", i, k.attr["part"].c_str()));
        std::string base = valid(want[i].base), group = k.attr["group"];
        size_t at = group.find(base);
        check(at != std::string::npos, "wrong-parts", "part '" + group + "' where '" + base + "' should be");
        // nothing but the mesh kind before it, and nothing after it unless the name was taken
        check(at == 0 || group.substr(0, at) == "str_", "wrong-parts", "part '" + group + "' for '" + base + "'");
        check(at + base.size() == group.size() || bases.count(base), "wrong-parts", "part '" + group + "' for '" + base + "'");
        bases.insert(base); bases.insert(group); bases.insert(group.substr(std::min(group.size(), size_t(4))));
        std::string file = k.attr["file"];
        check(!file.empty() && file[0] != '/', "wrong-parts", "file name '" + file + "'");
        check(files.insert(file).second, "same-file-twice", "file '" + file + "' is named by two parts");
        std::string part;
        check(fs().get(folder + file, part), "file-missing", "part file '" + file + "' is not there");
        parts::precision() = 6e-8;   // what the announced single precision tells apart
        parts::compare(readPart(part, file), want[i], "part " + file);
        parts::precision() = 1e-5;
    }
}
// Everything below the folder of name that belongs to it.
inline std::map<std::string, std::string> written(const std::string& name) {
    std::string abs = fs().absolute(name);
    std::map<std::string, std::string> r;
    for (auto& e : fs().snapshot("/")) if (e.first.compare(0, abs.size() + 1, abs + ".") == 0) r[e.first.substr(abs.size())] = e.second;
    return r;
}
inline std::string differs(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
    for (auto& e : a) { auto it = b.find(e.first); if (it == b.end()) return e.first + " is missing"; if (it->second != e.second) { size_t i = 0; while (i < e.second.size() && i < it->second.size() && e.second[i] == it->second[i]) i++; return fmt("%s differs at byte %zu of %zu/%zu", e.first.c_str(), i, e.second.size(), it->second.size()); } }
    for (auto& e : b) if (!a.count(e.first)) return e.first + " is too much";
    return "";
}
} // namespace vtk
