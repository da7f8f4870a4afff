// Project documents cut off, delivered by failing streams or disks, or damaged in one required entry. (usesjson)
#include "scn/project.h"
#include "sim/fs.h"
const char* const sim::kProperty = "C02";
using namespace project;

namespace {
struct Spot { J* node; J* parent; size_t at; std::string path; };
void collect(J& j, const std::string& path, std::vector<Spot>& out) {
    for (size_t i = 0; i < j.kids.size(); i++) {
        std::string p = j.kind == J::Obj ? path + "." + j.kids[i].first : path + fmt("[%zu]", i);
        out.push_back({&j.kids[i].second, &j, i, p});
        collect(j.kids[i].second, p, out);
    }
}
struct Token { size_t at, len; };
std::vector<Token> tokensOf(const std::string& s) {
    std::vector<Token> t;
    for (size_t i = 0; i < s.size();) {
        if (strchr(" \t\r\n{}", s[i])) { i++; continue; }
        size_t e = i; while (e < s.size() && !strchr(" \t\r\n{}", s[e])) e++;
        t.push_back({i, e - i}); i = e;
    }
    return t;
}
enum Kind { Cut, Error, Early, Remove, Retype, Dangling, Short, Garbled, Label, Missing, Disk, Former, Impossible, Kinds };
bool isCut(int k) { return k <= Early; }

bool names_(const J& j, const std::string& file) {
    if (j.kind == J::Str && j.s == file) return true;
    for (auto& k : j.kids) if (names_(k.second, file)) return true;
    return false;
}
// damages the document; what was done, or nothing if the document offers no place for it
std::string damage(Doc& doc, int kind) {
    std::vector<Spot> all, ok;
    collect(doc.root, "", all);
    switch (kind) {
        case Remove: {
            if (doc.root.at("grids") && chance(1, 6)) {          // several parts of the mesh, but not all
                std::vector<std::string> parts, gone;
                for (const char* n : {"grids", "layers", "coordinates", "elements", "connectorOnPoint", "sources", "outputRequests"}) if (doc.root.at(n)) parts.push_back(n);
                size_t keep = choose(uint32_t(parts.size()));
                for (size_t i = 0; i < parts.size(); i++) if (i != keep && chance(3, 4)) gone.push_back(parts[i]);
                if (parts.size() < 7 || gone.empty()) return "";
                std::string r = "without";
                for (auto& n : gone) { auto& k = doc.root.kids; for (size_t i = 0; i < k.size(); i++) if (k[i].first == n) { k.erase(k.begin() + i); break; } r += " " + n; }
                probe("several parts removed");
                return r;
            }
            for (auto& s : all) if (s.parent->kind == J::Obj && s.node->required) ok.push_back(s);
            if (ok.empty()) return "";
            Spot s = pick(ok);
            s.parent->kids.erase(s.parent->kids.begin() + s.at);
            return "without " + s.path;
        }
        case Retype: {
            for (auto& s : all) if (s.node->fixedKind) ok.push_back(s);
            if (ok.empty()) return "";
            Spot s = pick(ok);
            J was = *s.node;
            J to;
            for (;;) {
                switch (choose(6)) {
                    case 0: to = J::obj(); if (chance(1, 2)) to.add("x", J::num(size_t(1)), false); break;
                    case 1: to = J::arr(); if (chance(1, 2)) to.push(was); break;
                    case 2: to = J::str(was.kind == J::Num || was.kind == J::Bool ? was.s : "text"); break;
                    case 3: to = J::num(size_t(choose(5))); break;
                    case 4: to = J::yes(chance(1, 2)); break;
                    default: to = J();
                }
                // numbers and booleans are converted into one another
                auto arithmetic = [](const J& j) { return j.kind == J::Num || j.kind == J::Bool; };
                if (to.kind == was.kind || (arithmetic(to) && arithmetic(was))) continue;
                break;
            }
            *s.node = to;
            static const char* const k[]{"object", "array", "string", "number", "boolean", "null"};
            return s.path + " is a " + k[to.kind] + (to.kids.empty() ? "" : " with content");
        }
        case Dangling: {
            for (auto& s : all) if (s.node->ref >= 0) ok.push_back(s);
            if (ok.empty()) return "";
            Spot s = pick(ok);
            std::string id = fmt("%u", 1000000 + choose(1000));
            if (s.node->kind == J::Num) { s.node->s = id; return s.path + " refers to " + id; }
            auto t = tokensOf(s.node->s);
            size_t k = s.node->ref + choose(uint32_t(t.size() - s.node->ref));
            s.node->s.replace(t[k].at, t[k].len, id);
            return s.path + " is '" + s.node->s + "'";
        }
        case Short: case Garbled: {
            for (auto& s : all) if (s.node->tokens > 0) ok.push_back(s);
            if (ok.empty()) return "";
            Spot s = pick(ok);
            auto t = tokensOf(s.node->s);
            size_t k = choose(uint32_t(t.size()));
            size_t group = s.node->s.find('}'), second = s.node->s.rfind('{');
            if (kind == Short && second != std::string::npos && second > group && chance(1, 2)) {       // one of two groups of numbers
                s.node->s = chance(1, 2) ? s.node->s.substr(0, group + 1) : s.node->s.substr(second);
                probe("one group of numbers");
            } else if (kind == Short) {
                if (chance(1, 2)) s.node->s.erase(t[k].at); // from there on
                else s.node->s.erase(t[k].at, t[k].len);
            } else s.node->s.replace(t[k].at, t[k].len, pick(std::vector<std::string>{"x", "", "-", "nothing", "{", "\"", "e5"}));
            return s.path + " is '" + s.node->s + "'";
        }
        case Label: {
            for (auto& s : all) if (s.node->label) ok.push_back(s);
            if (ok.empty()) return "";
            Spot s = pick(ok);
            std::string& v = s.node->s;
            bool prefix = v.find("Thin_gap") != std::string::npos;      // any kind of it
            switch (choose(6)) {
                case 0: v = ""; break;
                case 1: v = prefix ? "Thin" : v + "x"; break;
                case 2: v = "Unknown"; break;
                case 3: v = prefix ? "Thin" : v + "5"; break;
                case 4: if (prefix) v = "Thin"; else v.erase(v.find_last_not_of(' '), 1); break;
                default: v = "x" + v;
            }
            return s.path + " is '" + v + "'";
        }
        case Missing: {
            std::vector<std::string> names;
            for (auto& f : doc.files) if (names_(doc.root, f.first)) if (f.first == "grid.json" || f.first.find(".exc") != std::string::npos || f.first.find(".dmma") != std::string::npos) names.push_back(f.first);
            if (names.empty()) return "";
            std::string n = pick(names);
            if (chance(1, 2)) { fs().erase(fs().absolute(n)); return "file " + n + " is missing"; }
            if (n != "grid.json") return "";
            std::string t = doc.files[n]; t.resize(choose(uint32_t(t.find_last_of(']') + 1)));
            fs().put(fs().absolute(n), t);
            return "file " + n + " ends after " + fmt("%zu bytes", t.size());
        }
        case Impossible: {                       // a grid or a region that can not be
            if (chance(1, 3)) {
                for (auto& x : all) {
                    if (x.parent->kind != J::Obj || x.node->kind != J::Str) continue;
                    const J *f = x.parent->at("gidOutputType"), *w = x.parent->at("sourceType");
                    if ((x.parent->kids[x.at].first == "box" && f && f->s == "Far_field") || (x.parent->kids[x.at].first == "layerBox" && w && w->s == "planewave")) ok.push_back(x);
                }
                if (ok.empty()) return "";
                Spot s = pick(ok);
                auto t = tokensOf(s.node->s);
                if (t.size() != 6) return "";
                size_t k = choose(3);
                s.node->s.replace(t[k + 3].at, t[k + 3].len, s.node->s.substr(t[k].at, t[k].len));
                probe("flat region");
                return s.path + " is flat: '" + s.node->s + "'";
            }
            J* g = doc.root.at("grids");
            if (!g) return "";
            J& q = g->kids[0].second;
            J *n = q.at("numberOfCells"), *s = q.at("stepSize");
            if (!n && q.at("nGridPoints") && q.at("xCoordinates")->kids.empty()) n = q.at("nGridPoints");
            if (n || s) {
                J& v = n ? *n : *s;
                auto t = tokensOf(v.s);
                size_t k = choose(uint32_t(t.size()));
                v.s.replace(t[k].at, t[k].len, n ? pick(std::vector<std::string>{"0", "-1", "-4"}) : "-" + v.s.substr(t[k].at, t[k].len));
                return "the grid has '" + v.s + "'";
            }
            static const char* const dirs[]{"xCoordinates", "yCoordinates", "zCoordinates"};
            J* l = q.at(dirs[choose(3)]);
            if (!l || l->kids.size() < 2) return "";
            if (chance(1, 2)) { l->kids.clear(); if (chance(1, 3)) q.at(dirs[choose(2)])->kids.clear(); probe("no lines in a direction"); for (auto d : dirs) if (!q.at(d)->kids.empty()) return "the grid has no lines in a direction"; return ""; }
            std::swap(l->kids[0], l->kids[1]);
            return "the grid has lines out of order";
        }
        case Former: {
            J* g = doc.root.at("grids");
            if (!g) return "";
            J& q = g->kids[0].second;
            std::string type = q.at("gridType")->s;
            auto drop = [&](const char* k) { for (size_t i = 0; i < q.kids.size(); i++) if (q.kids[i].first == k) { q.kids.erase(q.kids.begin() + i); return; } };
            if (type == "nativeGiD" && q.at("xCoordinates")->kids.empty()) { drop("corner"); drop("boxSize"); drop("nGridPoints"); }
            else if (type == "gridCondition") {
                J was = q.at("numberOfCells") ? *q.at("numberOfCells") : *q.at("stepSize");
                drop("numberOfCells"); drop("stepSize"); drop("fitSizeToBox");
                q.add("directions", was);
            } else return "";
            return "the grid is written as for former versions";
        }
    }
    return "";
}
}

void sim::run() {
    setBudget(200000000);
    randomLayout();
    fs().reset();
    int rounds = range(1, 3);
    for (int i = 0; i < rounds; i++) {
        if (chance(1, 4)) randomLayout();
        fs().faults.clear();
        Doc doc = generate(chance(1, 15));
        int kind = chance(1, 3) ? int(choose(Error + 2)) : range(Remove, Disk);
        if (chance(1, 40)) kind = Former;
        if (chance(1, 12)) kind = Impossible;
        std::string what;
        if (kind == Cut || kind == Error || kind == Early) what = "stream";
        else if (kind == Disk) {
            bool opens = false;
            for (auto& f : doc.files) opens |= names_(doc.root, f.first) && (f.first == "grid.json" || f.first.find(".exc") != std::string::npos);
            if (opens) {
                Fault f; static const Op ops[]{Op::Open, Op::Read}; Op op = ops[choose(2)];
                f.accept = [op](Op o, const std::string&) { return o == op; };
                f.at = int(choose(3)); f.err = pickErrno(op); f.sticky = true;
                fs().faults.push_back(f);
                what = "disk";
            }
        } else what = damage(doc, kind);
        if (what.empty()) { probe("no place for the damage"); continue; }
        std::string t = project::text(doc.root);
        SimBuf buf(t);
        size_t end = t.find_last_of('}');
        if (kind == Cut) { size_t at = chance(1, 20) ? 0 : chance(1, 4) ? end - std::min<size_t>(end, choose(40)) : choose(uint32_t(end + 1)); buf.data.resize(at); fault("document cut"); what = fmt("cut after %zu bytes of %zu", at, t.size()); }
        else if (kind == Error || kind == Early) { buf.errorAt = choose(uint32_t(end + 1)); buf.errorThrows = kind == Error; what = fmt("stream fails at byte %lld", (long long)buf.errorAt); }
        else fault(kind == Remove ? "entry removed" : kind == Retype ? "entry of another type" : kind == Dangling ? "reference to nothing" : kind == Short ? "too few numbers" : kind == Garbled ? "number replaced" : kind == Label ? "unknown label" : kind == Impossible ? "impossible grid" : kind == Missing ? "file missing or cut" : kind == Disk ? "disk" : "former grid");
        buf.schedule();
        fs().shortTransfers = chance(1, 3); fs().interrupts = chance(1, 4); fs().xfer = Rng(seedChoice());
        log("document %d: %s", i, what.c_str());
        Outcome o;
        std::unique_ptr<Data> d = project::read(buf, o, "read damaged");
        bool expected = kind != Disk || fs().faults[0].fired;
        fs().faults.clear();
        check(!expected || o.threw, kind == Former ? "former-grid" : "damaged-document-accepted", what + ", reading " + shown(t, 6000));
        check(fs().openHandles == 0, "left-open", "a file was left open");
        nontrivial();
        state(hash(buf.data + what));
        call("release", [&] { d.reset(); });
        if (!chance(1, 3) && i + 1 < rounds) continue;
        // the process can still read a good document
        Doc good = generate();
        std::string gt = project::text(good.root);
        SimBuf gb(gt); gb.schedule();
        Outcome o2;
        std::unique_ptr<Data> g = project::read(gb, o2, "read good");
        check(!o2.threw, "good-document-refused", "after " + what + ": " + o2.str() + ", reading " + shown(gt, 3000));
        std::string diff = mismatch(good, project::show(*g, good));
        check(diff.empty(), "wrong-model", "after " + what + ": " + diff);
        call("release", [&] { g.reset(); });
    }
}
