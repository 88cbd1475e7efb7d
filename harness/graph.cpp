// graph <script> <out.ndjson> <progress>; features compiled with -DGF=k
#include "graph_ses.hpp"
#ifndef GF
std::map<std::string, GFn>& gfeats() { static std::map<std::string, GFn> m; return m; }
std::atomic<long> g_badCalls(0);
EvLog g_ev;
std::string g_scratch;
extern "C" void vp_yield(void) {}
extern "C" void vp_memtag(int) {}
extern "C" long vp_memlive() { return 0; }

using tdzdd::Graph;
static std::string S(std::string const& s) { return s; }
static std::string g_pre;                                   // vertex k is called g_pre + k
static long num(std::string s) {
    if (!g_pre.empty()) { if (s.compare(0, g_pre.size(), g_pre)) return -9; s.erase(0, g_pre.size()); }
    for (char c : s) if (!isdigit(c)) return -9; return s.empty() ? -9 : atol(s.c_str());
}

static void info(GSes& z, Json& j) {
    Graph const& g = z.g;
    int m = g.vertexSize(), n = g.edgeSize();
    j.i("m", m).i("n", n).i("maxf", g.maxFrontierSize()).i("ncol", g.numColor()).b("pairs", g.hasColorPairs());
    std::vector<long> vn, cn, vm, gv, lb;
    for (int v = 1; v <= m; ++v) {
        vn.push_back(num(g.vertexName(v))); cn.push_back(g.colorNumber(v)); vm.push_back(g.virtualMate(v));
        gv.push_back(g.getVertex(g.vertexName(v))); lb.push_back(num(g.vertexLabel(v)));
    }
    j.raw("vn", jarr(vn)).raw("cn", jarr(cn)).raw("vm", jarr(vm)).raw("gv", jarr(gv)).raw("lb", jarr(lb));
    std::string e = "[", nm = "[", ge = "[";
    for (int a = 0; a < n; ++a) {
        Graph::EdgeInfo const& x = g.edgeInfo(a);
        std::vector<long> r = {x.v0, x.v1, x.v2, x.v1final, x.v2final, x.v1final2, x.v2final2, x.allColorsSeen, x.finalEdge};
        std::pair<std::string, std::string> p = g.edgeName(a);
        std::vector<long> q = {num(p.first), num(p.second)};
        std::vector<long> h = {g.getEdge(p.first, p.second), g.getEdge(p.second, p.first), g.getEdge(x.v1, x.v2), g.getEdge(x.v2, x.v1), long(g.edgeLabel(a) == p.first + "," + p.second)};
        if (a) { e += ","; nm += ","; ge += ","; }
        e += jarr(r); nm += jarr(q); ge += jarr(h);
    }
    j.raw("info", e + "]").raw("names", nm + "]").raw("ge", ge + "]");
    // which pairs of vertex numbers are edges
    std::string adj = "[";
    if (m <= 20) for (int v = 1; v <= m; ++v) for (int w = 1; w <= m; ++w) {
        long a;
        try { a = g.getEdge(v, w); } catch (std::runtime_error&) { continue; }
        std::vector<long> q = {v, w, a};
        if (adj.size() > 1) adj += ",";
        adj += jarr(q);
    }
    j.b("hasadj", m <= 20).raw("adj", adj + "]");
    // probes that must fail
    std::vector<long> pr;
    try { g.getVertex("no-such"); pr.push_back(0); } catch (std::runtime_error&) { pr.push_back(1); }
    try { g.getEdge("no-such", "1"); pr.push_back(0); } catch (std::runtime_error&) { pr.push_back(1); }
    pr.push_back(g.vertexName(m + 1) == "?" && g.vertexName(0) == "?");
    pr.push_back(g.edgeName(n).first == "?" && g.edgeName(-1).second == "?");
    pr.push_back(g.colorNumber(0) == 0 && g.colorNumber(m + 1) == 0 && g.virtualMate(0) == 0 && g.virtualMate(m + 1) == 0);
    j.raw("probes", jarr(pr));
    // DOT dump
    std::stringstream ss;
    ss << g;
    std::string line; int lv = 0, ok = 0; std::string de = "["; bool f = true, colored;
    std::vector<long> filled;
    while (std::getline(ss, line)) {
        size_t k = line.find("\"--\"");
        if (k != std::string::npos) {
            if (!f) de += ","; f = false;
            size_t b = line.find('"') + 1, e2 = line.find('"', k + 4);
            std::vector<long> q = {num(line.substr(b, k - b)), num(line.substr(k + 4, e2 - k - 4))};
            de += jarr(q);
        } else if (line.find('"') != std::string::npos) {
            ++lv;
            if (line.find("style=filled") != std::string::npos) {
                size_t b = line.find('"') + 1;
                filled.push_back(num(line.substr(b, line.find('"', b) - b)));
            }
        }
    }
    j.raw("dot", de + "]").i("dotv", lv).raw("filled", jarr(filled));
}

int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    FILE* prog = fopen(argv[3], "w");
    g_scratch = std::string(argv[3]) + ".tmp";
    std::string line, id;
    std::unique_ptr<GSes> z;
    Out ev;
    auto flush = [&]() {
        if (id.empty()) return;
        out << "{\"id\":\"" << id << "\",\"A\":2,\"ev\":[";
        for (size_t k = 0; k < ev.size(); ++k) out << (k ? "," : "") << ev[k];
        out << "]}\n";
        ev.clear();
    };
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Args a; std::string t;
        while (ss >> t) a.push_back(t);
        if (a.empty()) continue;
        if (a[0] == "prefix") { g_pre = a[1]; continue; }
        if (a[0] == "case") {
            g_pre.clear();
            flush(); z.reset(new GSes());
            id = a[1];
            rewind(prog); fprintf(prog, "%-40s\n", id.c_str()); fflush(prog);
            messagesFor(id);
            continue;
        }
        Json j; j.str("op", a[0]);
        std::string err;
        Json extra;
        try {
            if (a[0] == "edge") z->g.addEdge(g_pre + a[1], g_pre + a[2]);
            else if (a[0] == "color") z->g.setColor(g_pre + a[1], std::string("c") + a[2]);
            else if (a[0] == "colorn") z->g.setColor(g_pre + a[1], atoi(a[2].c_str()));
            else if (a[0] == "huge") {          // huge kind n : n vertices
                int n = atoi(a[2].c_str());
                j.str("k", a[1]).i("n", n);
                Graph h;
                std::vector<std::string> nm(n + 1);
                for (int k = 1; k <= n; ++k) nm[k] = g_pre + std::to_string(k);
                for (int k = 2; k <= n; ++k) h.addEdge(a[1] == "star" ? nm[1] : nm[k - 1], nm[k]);
                std::string he;
                try { h.update(); } catch (std::runtime_error& x) { he = x.what(); }
                bool ok = he.empty() && h.vertexSize() == n && h.edgeSize() == n - 1;
                for (int k = 1; ok && k <= n; ++k) ok = h.vertexName(h.getVertex(nm[k])) == nm[k];
                for (int k = 2; ok && k <= n; ++k) {
                    std::string const& u = a[1] == "star" ? nm[1] : nm[k - 1];
                    ok = h.getEdge(u, nm[k]) == k - 2 && h.getEdge(h.getVertex(u), h.getVertex(nm[k])) == k - 2;
                }
                j.b("refused", !he.empty()).b("right", ok);
            }
            else if (a[0] == "update") z->g.update();
            else if (a[0] == "clear") z->g.clearColors();
            else if (a[0] == "defpath") z->g.setDefaultPathColor();
            else if (a[0] == "file") {          // file edges|adj|groups text ; '|' newline '_' space '~' tab
                std::string fn = g_scratch + ".txt";
                { std::ofstream o(fn); if (a.size() > 2) { bool st = true; for (char c : a[2]) { bool w = c == '|' || c == '_' || c == '~'; if (st && !w) o << g_pre; st = w; o << (c == '|' ? '\n' : c == '_' ? ' ' : c == '~' ? '\t' : c); } } }
                bool in = a.size() > 3 && a[3] == "in";      // through standard input
                std::ifstream fi(fn);
                std::streambuf* old = in ? std::cin.rdbuf(fi.rdbuf()) : 0;
                if (in) std::cin.clear();
                std::string arg = in ? "" : fn;
                try {
                    if (a[1] == "edges") z->g.readEdges(arg);
                    else if (a[1] == "adj") z->g.readAdjacencyList(arg);
                    else z->g.readVertexGroups(arg);
                } catch (...) { if (in) std::cin.rdbuf(old); std::remove(fn.c_str()); throw; }
                if (in) std::cin.rdbuf(old);
                std::remove(fn.c_str());
            }
            else if (a[0] == "info") info(*z, j);
            else {
                std::map<std::string, GFn>::iterator f = gfeats().find(a[0]);
                if (f == gfeats().end()) { fprintf(stderr, "harness: unknown op %s\n", a[0].c_str()); return 3; }
                f->second(*z, a, j);
            }
        } catch (std::exception& e) { err = e.what(); }
        if (a[0] == "edge") j.i("u", atol(a[1].c_str())).i("v", atol(a[2].c_str()));
        if (a[0] == "color" || a[0] == "colorn") j.i("v", atol(a[1].c_str())).i("c", atol(a[2].c_str()) + (a[0] == "color" ? 1000 : 0));
        if (a[0] == "file") {
            j.str("k", a[1]);
            std::string toks = "[[", tok; bool fl = true;
            std::string text = a.size() > 2 ? a[2] : "";
            auto endtok = [&]() { if (!tok.empty()) { if (!fl) toks += ","; toks += tok; fl = false; tok.clear(); } };
            for (char c : text) {
                if (c == '|') { endtok(); toks += "],["; fl = true; }
                else if (c == '_' || c == '~') endtok();
                else tok += c;
            }
            endtok();
            j.raw("lines", toks + "]]");
        }
        j.b("err", !err.empty());
        if (!err.empty()) j.str("what", err);
        ev.push_back(j.done());
    }
    flush();
    out.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    return 0;
}
#else
#include <tdzdd/spec/DegreeConstraint.hpp>
#include <tdzdd/spec/FrontierBasedSearch.hpp>
#include <tdzdd/spec/LinearConstraints.hpp>
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
#include <tdzdd/spec/SizeConstraint.hpp>
using namespace tdzdd;
static bool one(std::string const& s) { return s == "1"; }
static std::string vnames(GSes& z) {                       // vertex names in the order of their numbers
    std::vector<long> v;
    for (int k = 1; k <= z.g.vertexSize(); ++k) v.push_back(atol(z.g.vertexName(k).c_str()));
    return jarr(v);
}
#if GF == 1
static void path(GSes& z, Args const& a, Json& j) {        // path la ham how
    j.str("k", "path").b("ham", one(a[2])).raw("vn", vnames(z));
    if (one(a[2])) z.out(j, HamiltonPathZdd(z.g, one(a[1])), z.g.edgeSize(), a[3]);
    else z.out(j, PathZdd(z.g, one(a[1])), z.g.edgeSize(), a[3]);
}
static GReg r1("path", path);
#elif GF == 2
static void cycle(GSes& z, Args const& a, Json& j) {       // cycle la ham how
    j.str("k", "cycle").b("ham", one(a[2])).raw("vn", vnames(z));
    if (one(a[2])) z.out(j, HamiltonCycleZdd(z.g, one(a[1])), z.g.edgeSize(), a[3]);
    else z.out(j, CycleZdd(z.g, one(a[1])), z.g.edgeSize(), a[3]);
}
static GReg r1("cycle", cycle);
#elif GF == 3
static void slow(GSes& z, Args const& a, Json& j) {        // slow how
    z.out(j, PathZddByStdMap(z.g), z.g.edgeSize(), a[1]);
}
static GReg r1("slow", slow);
#elif GF == 4
static void fbs(GSes& z, Args const& a, Json& j) {         // fbs uec noloop la how
    j.i("uec", atoi(a[1].c_str())).b("noloop", one(a[2]));
    z.out(j, FrontierBasedSearch(z.g, atoi(a[1].c_str()), one(a[2]), one(a[3])), z.g.edgeSize(), a[4]);
}
static GReg r1("fbs", fbs);
#elif GF == 5
namespace {
struct Pick: IntSubset {                                   // arbitrary finite subset of 0..30
    unsigned mask; bool bounds;
    Pick(unsigned m, bool b) : mask(m), bounds(b) {}
    bool contains(int x) const { return 0 <= x && x < 31 && (mask >> x & 1); }
    int lowerBound() const { int k = 0; if (!bounds) return 0; while (k < 30 && !(mask >> k & 1)) ++k; return k; }
    int upperBound() const { int k = 30; if (!bounds) return 30; while (k > 0 && !(mask >> k & 1)) --k; return k; }
};
}
static std::string vals(IntSubset const& c) {
    std::vector<int> v;
    for (int x = 0; x <= 12; ++x) if (c.contains(x)) v.push_back(x);
    return jarr(v);
}
// subset syntax: r:lo:hi:step  or  m:mask:bounds, '-' = no constraint
static std::unique_ptr<IntSubset> subset(std::string const& s, std::vector<int>& want) {
    std::vector<long> p; std::stringstream ss(s.substr(2)); std::string t;
    want.clear();
    while (std::getline(ss, t, ':')) p.push_back(atol(t.c_str()));
    if (s[0] == 'r') {
        for (int x = 0; x <= 40; ++x) if (p[0] <= x && x <= p[1] && (x - p[0]) % p[2] == 0) want.push_back(x);
        return std::unique_ptr<IntSubset>(new IntRange(p[0], p[1], p[2]));
    }
    if (s[0] == 'q') {                                     // defaulted arguments
        for (int x = 0; x <= 40; ++x) if (p.size() == 0 || (p[0] <= x && (p.size() == 1 || x <= p[1]))) want.push_back(x);
        return std::unique_ptr<IntSubset>(p.size() == 0 ? new IntRange() : p.size() == 1 ? new IntRange(p[0]) : new IntRange(p[0], p[1]));
    }
    for (int x = 0; x < 31; ++x) if (p[0] >> x & 1) want.push_back(x);
    return std::unique_ptr<IntSubset>(new Pick(unsigned(p[0]), p[1]));
}
static void deg(GSes& z, Args const& a, Json& j) {         // deg la how default {v subset}*
    std::vector<std::unique_ptr<IntSubset> > own;
    std::vector<int> w;
    IntSubset const* dflt = 0;
    std::string c = "[";
    if (a[3] != "-") { own.push_back(subset(a[3], w)); dflt = own.back().get(); j.b("hasd", true).raw("dflt", jarr(w)); }
    else j.b("hasd", false).raw("dflt", "[]");
    DegreeConstraint dc(z.g, dflt, one(a[1]));
    for (size_t k = 4; k + 1 < a.size(); k += 2) {
        IntSubset const* x = 0;
        bool has = a[k + 1] != "-";
        w.clear();
        if (has) { own.push_back(subset(a[k + 1], w)); x = own.back().get(); }
        if (k % 4 == 0) dc.setConstraint(a[k], x);         // by name
        else dc.setConstraint(z.g.getVertex(a[k]), x);     // by number
        if (k > 4) c += ",";
        c += "[" + a[k] + "," + (has ? "1" : "0") + "," + jarr(w) + "]";
    }
    j.raw("cons", c + "]");
    z.out(j, dc, z.g.edgeSize(), a[2]);
}
static void size(GSes& z, Args const& a, Json& j) {        // size n subset how ref
    std::vector<int> w; int n = atoi(a[1].c_str());
    j.i("n", n);
    if (a[2] == "-") {
        j.b("hasd", false).raw("dflt", "[]");
        z.out(j, SizeConstraint(n, (IntSubset const*)0), n, a[3]);
        return;
    }
    std::unique_ptr<IntSubset> c = subset(a[2], w);
    j.b("hasd", true).raw("dflt", jarr(w));
    if (one(a[4])) z.out(j, SizeConstraint(n, *c), n, a[3]);
    else z.out(j, SizeConstraint(n, c.get()), n, a[3]);
}
template<typename T> static void linT(GSes& z, Args const& a, Json& j) {
    int n = atoi(a[2].c_str());
    LinearConstraints<T> lc(n);
    size_t k = 4;
    std::string c = "[";
    while (k < a.size()) {                                 // lb ub cnt {i w}*
        T lb = T(atol(a[k].c_str())), ub = T(atol(a[k + 1].c_str()));
        int cnt = atoi(a[k + 2].c_str());
        if (c.size() > 1) c += ",";
        c += "[" + a[k] + "," + a[k + 1] + ",[";
        k += 3;
        std::map<int, T> e;
        for (int i = 0; i < cnt; ++i, k += 2) {
            e[atoi(a[k].c_str())] = T(atol(a[k + 1].c_str()));
            c += (i ? "," : "") + std::string("[") + a[k] + "," + a[k + 1] + "]";
        }
        c += "]]";
        lc.addConstraint(e, lb, ub);
    }
    lc.update();
    j.i("n", n).raw("cons", c + "]");
    z.out(j, lc, n, a[3]);
}
static void lin(GSes& z, Args const& a, Json& j) {         // lin T n how ...
    if (a[1] == "int") linT<int>(z, a, j);
    else if (a[1] == "short") linT<short>(z, a, j);
    else linT<double>(z, a, j);
}
static GReg r1("deg", deg), r2("size", size), r3("lin", lin);
#endif
#endif
