// scale <script> <out.ndjson> <progress>
// Large instances with known answers: numbers x of m*p digits in base A with x = R modulo A^p - 1.
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <vector>
#include <tdzdd/DdSpec.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdEval.hpp>
#include <tdzdd/dd/PathCounter.hpp>
#include <tdzdd/eval/Cardinality.hpp>
#include "core_ses.hpp"
using namespace tdzdd;
struct Base { virtual ~Base() {} virtual void exec(Args const&, Json&) = 0; };
Base* make2();
Base* make3();
Base* make4();
#ifdef SCALE_A

template<int A> struct ModI: DdSpec<ModI<A>, int, A> {
    int n, M, R;
    ModI(int n, int M, int R) : n(n), M(M), R(R) {}
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int level, int b) const {
        s = int((long(s) * A + b) % M);
        if (level > 1) return level - 1;
        return s == R ? -1 : 0;
    }
};
// the same states as an array of digits of the residue (base 1000)
template<int A> struct ModA: PodArrayDdSpec<ModA<A>, short, A> {
    int n, M, R;
    ModA(int n, int M, int R) : n(n), M(M), R(R) { this->setArraySize(3); }
    int getRoot(short* s) const { s[0] = s[1] = s[2] = 0; return n; }
    int getChild(short* s, int level, int b) const {
        long v = s[0] + 1000L * s[1] + 1000000L * s[2];
        v = (v * A + b) % M;
        s[0] = v % 1000; s[1] = v / 1000 % 1000; s[2] = v / 1000000;
        if (level > 1) return level - 1;
        return v == R ? -1 : 0;
    }
};
// the same states as objects with destructors
template<int A> struct ModV: DdSpec<ModV<A>, std::vector<int>, A> {
    int n, M, R;
    ModV(int n, int M, int R) : n(n), M(M), R(R) {}
    int getRoot(std::vector<int>& s) const { s.assign(1, 0); return n; }
    int getChild(std::vector<int>& s, int level, int b) const {
        int v = int((long(s[0]) * A + b) % M);
        s.assign(v % 3 + 1, v);
        if (level > 1) return level - 1;
        return v == R ? -1 : 0;
    }
    size_t hashCode(std::vector<int> const& s) const { size_t h = 0; for (int x : s) h = h * 31 + x; return h; }
    bool equalTo(std::vector<int> const& a, std::vector<int> const& b) const { return a == b; }
};
struct MinMax { unsigned __int128 lo, hi; bool any; };
template<int A> struct Ends: DdEval<Ends<A>, MinMax> {
    static unsigned __int128 w(int level) { unsigned __int128 x = 1; for (int i = 1; i < level; ++i) x *= A; return x; }
    void evalTerminal(MinMax& v, bool one) const { v.lo = v.hi = 0; v.any = one; }
    void evalNode(MinMax& v, int level, DdValues<MinMax, A> const& c) const {
        v.any = false; v.lo = v.hi = 0;
        for (int b = 0; b < A; ++b) {
            MinMax const& x = c.get(b);
            if (!x.any) continue;
            unsigned __int128 lo = x.lo + b * w(level), hi = x.hi + b * w(level);
            if (!v.any) { v.lo = lo; v.hi = hi; v.any = true; }
            else { if (lo < v.lo) v.lo = lo; if (hi > v.hi) v.hi = hi; }
        }
    }
};
static long powA(int A, int p) { long x = 1; while (p-- > 0) x *= A; return x; }

template<int A> struct Reg: Base {
    typedef DdStructure<A> DD;
    std::map<std::string, DD> dd;

    static std::string rows(DD const& d) {
        int n = d.topLevel();
        std::vector<std::vector<size_t> > at(n + 1);
        if (n > 0) at[n].push_back(d.root().col());
        std::string s = "[";
        std::vector<long> cnt(n + 1);
        for (int i = n; i >= 1; --i) {
            std::vector<size_t>& v = at[i];
            std::sort(v.begin(), v.end());
            v.erase(std::unique(v.begin(), v.end()), v.end());
            cnt[i] = long(v.size());
            for (size_t k = 0; k < v.size(); ++k)
                for (int b = 0; b < A; ++b) {
                    NodeId c = d.child(NodeId(i, v[k]), b);
                    if (c.row() > 0) at[c.row()].push_back(c.col());
                }
            std::vector<size_t>().swap(v);
        }
        for (int i = 1; i <= n; ++i) s += (i > 1 ? "," : "") + std::to_string(cnt[i]);
        return s + "]";
    }
    // runs of equal row sizes would be long for deep diagrams: [count, size] pairs from level 1 up
    static std::string packed(DD const& d) {
        std::string r = rows(d), out = "[", cur; long k = 0;
        std::stringstream ss(r.substr(1, r.size() - 2));
        std::string x; bool first = true;
        auto put = [&]() { if (k) { out += (first ? "[" : ",[") + std::to_string(k) + "," + cur + "]"; first = false; } };
        while (std::getline(ss, x, ',')) { if (x == cur) ++k; else { put(); cur = x; k = 1; } }
        put();
        return out + "]";
    }
    void shape(Json& j, DD const& d) { j.raw("rows", packed(d)).i("size", long(d.size())).i("top", d.topLevel()); }
    template<typename F> void withSpec(std::string const& kind, int n, int M, int R, F& f) {
        if (kind == "i") { ModI<A> s(n, M, R); f(s); }
        else if (kind == "a") { ModA<A> s(n, M, R); f(s); }
        else { ModV<A> s(n, M, R); f(s); }
    }
    struct Build {
        DD& d; bool mp; std::string la;
        template<typename S> void operator()(S& s) { make(s, std::integral_constant<int, A>()); }
        template<typename S, int B> void make(S& s, std::integral_constant<int, B>) { d = DD(s, mp); }
        template<typename S> void make(S& s, std::integral_constant<int, 2>) {
            if (la == "z") d = DD(zddLookahead(s), mp);
            else if (la == "b") d = DD(bddLookahead(s), mp);
            else d = DD(s, mp);
        }
    };
    struct Sub { DD& d; template<typename S> void operator()(S& s) { d.zddSubset(s); } };
    struct Count { std::string r; std::string how; template<typename S> void operator()(S& s) {
        r = how == "64" ? std::to_string(countPaths64(s)) : countPaths(s, how == "fast"); } };
    static void combine(DD& d, std::string const& op, DD const& x, DD const& y, bool mp, std::integral_constant<int, 2>) {
        if (op == "u") d = DD(zddUnion(x, y), mp);
        else if (op == "i") d = DD(zddIntersection(x, y), mp);
        else if (op == "bo") d = DD(bddOr(x, y), mp);
        else d = DD(bddAnd(x, y), mp);
    }
    template<int B> static void combine(DD&, std::string const&, DD const&, DD const&, bool, std::integral_constant<int, B>) { throw std::runtime_error("harness: arity"); }
    static void members(DD const& d, long& n, std::string& l, std::integral_constant<int, 2>) {
        n = 0; l = "[";
        std::vector<std::string> last;
        std::string first;
        for (typename DD::const_iterator t = d.begin(); t != d.end(); ++t) {
            if (n < 4 || n % 4096 == 0) {
                std::string s = "[";
                for (std::set<int>::const_iterator x = t->begin(); x != t->end(); ++x) s += (x != t->begin() ? "," : "") + std::to_string(*x);
                l += (n ? "," : "") + s + "]";
            }
            ++n;
        }
        l += "]";
    }
    template<int B> static void members(DD const&, long& n, std::string& l, std::integral_constant<int, B>) { n = -1; l = "[]"; }
    void exec(Args const& a, Json& j) {
        std::string const& op = a[0];
        j.str("op", op).str("err", "");
        auto I = [&](size_t k) { return atoi(a[k].c_str()); };
        if (op == "build") {            // build r p m R kind mp lookahead
            int p = I(2), m = I(3), R = I(4);
            j.str("r", a[1]).i("p", p).i("m", m).i("R", R).str("la", a[7]);
            Build f = {dd[a[1]], a[6] == "1", a[7]};
            withSpec(a[5], p * m, int(powA(A, p) - 1), R, f);
            shape(j, dd[a[1]]);
        } else if (op == "red") {       // red r q|b|z mp
            DD& d = dd.at(a[1]);
            j.str("r", a[1]).str("how", a[2]);
            d.useMultiProcessors(a[3] == "1");
            if (a[2] == "q") d.qddReduce(); else if (a[2] == "b") d.bddReduce(); else d.zddReduce();
            shape(j, d);
        } else if (op == "sub") {       // sub r n q R kind mp
            DD& d = dd.at(a[1]);
            d.useMultiProcessors(a[6] == "1");
            j.str("r", a[1]).i("q", I(3)).i("R", I(4));
            Sub f = {d};
            withSpec(a[5], I(2), int(powA(A, I(3)) - 1), I(4), f);
            shape(j, d);
        } else if (op == "op") {        // op r u|i|bo|ba x y mp
            DD x = dd.at(a[3]), y = dd.at(a[4]);
            j.str("r", a[1]).str("how", a[2]).str("x", a[3]).str("y", a[4]);
            combine(dd[a[1]], a[2], x, y, a[5] == "1", std::integral_constant<int, A>());
            shape(j, dd[a[1]]);
        } else if (op == "copy") {
            DD x = dd.at(a[2]);
            dd[a[1]] = x;
            j.str("r", a[1]).str("x", a[2]);
        } else if (op == "eq") {
            j.str("x", a[1]).str("y", a[2]).b("res", dd.at(a[1]) == dd.at(a[2]));
        } else if (op == "card") {      // card r kind
            DD const& d = dd.at(a[1]);
            std::string s;
            if (a[2] == "big") s = d.evaluate(ZddCardinality<std::string, A>());
            else if (a[2] == "int") s = std::to_string(d.evaluate(ZddCardinality<uint64_t, A>()));
            else if (a[2] == "bdd") s = d.evaluate(BddCardinality<std::string, A>(d.topLevel()));
            else s = std::to_string((long)d.evaluate(ZddCardinality<double, A>()));
            j.str("r", a[1]).str("how", a[2]).str("c", s);
        } else if (op == "ends") {
            DD d = dd.at(a[1]);
            d.useMultiProcessors(a[2] == "1");
            MinMax v = d.evaluate(Ends<A>());
            unsigned __int128 top = 1;
            for (int i = 0; i < d.topLevel(); ++i) top *= A;
            j.str("r", a[1]).b("any", v.any).i("lo", v.lo > 2000000000u ? -1 : long(v.lo)).i("hi", top - 1 - v.hi > 2000000000u ? -1 : long(top - 1 - v.hi));
        } else if (op == "iter") {
            long n; std::string l;
            members(dd.at(a[1]), n, l, std::integral_constant<int, A>());
            j.str("r", a[1]).i("n", n).raw("mem", l);
        } else if (op == "paths") {     // paths p m R kind how
            int p = I(1), m = I(2), R = I(3);
            Count f = {"", a[5]};
            withSpec(a[4], p * m, int(powA(A, p) - 1), R, f);
            j.i("p", p).i("m", m).i("R", R).str("c", f.r);
        } else if (op == "sap") {       // number of nodes and root line of the exported text
            std::stringstream ss;
            dd.at(a[1]).dumpSapporo(ss);
            std::string line; long nodes = 0, decl = -1; bool ok = true;
            std::map<std::string, char> known; std::string root;
            while (std::getline(ss, line)) {
                std::stringstream ls(line); std::vector<std::string> w; std::string x;
                while (ls >> x) w.push_back(x);
                if (w.empty()) continue;
                if (w[0] == "_n") decl = atol(w[1].c_str());
                else if (w[0][0] == '_') continue;
                else if (w.size() == 4) {
                    ++nodes;
                    ok = ok && known.insert(std::make_pair(w[0], 1)).second;
                    for (int k = 2; k < 4; ++k) ok = ok && (w[k] == "F" || w[k] == "T" || known.count(std::to_string(atol(w[k].c_str()) & ~1L)));
                } else root = w[0];
            }
            j.str("r", a[1]).i("decl", decl).i("nodes", nodes).b("ok", ok && (root == "F" || root == "T" || known.count(std::to_string(atol(root.c_str()) & ~1L))));
        } else throw std::runtime_error("harness: " + op);
    }
};
#define MAKE_(a) make##a
#define MAKE(a) MAKE_(a)
Base* MAKE(SCALE_A)() { return new Reg<SCALE_A>(); }
#else
std::atomic<long> g_badCalls(0);
EvLog g_ev;
std::string g_scratch;
extern "C" void vp_yield(void) {}
extern "C" void vp_memtag(int) {}
extern "C" long vp_memlive() { return 0; }
int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream outf(argv[2]);
    FILE* prog = fopen(argv[3], "w");
    std::string line, id;
    std::unique_ptr<Base> z;
    int A = 2;
    std::vector<std::string> ev;
    auto flush = [&]() {
        if (id.empty()) return;
        outf << "{\"id\":\"" << id << "\",\"A\":" << A << ",\"ev\":[";
        for (size_t k = 0; k < ev.size(); ++k) outf << (k ? "," : "") << ev[k];
        outf << "]}\n";
        ev.clear();
    };
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Args a; std::string t;
        while (ss >> t) a.push_back(t);
        if (a.empty()) continue;
        if (a[0] == "case") {
            flush();
            id = a[1]; A = atoi(a[2].c_str());
            rewind(prog); fprintf(prog, "%-40s\n", id.c_str()); fflush(prog);
            messagesFor(id);
            z.reset(A == 2 ? make2() : A == 3 ? make3() : make4());
            continue;
        }
        Json j;
        try { z->exec(a, j); ev.push_back(j.done()); }
        catch (std::exception& e) {
            if (std::string(e.what()).substr(0, 8) == "harness:") { fprintf(stderr, "%s\n", e.what()); return 3; }
            Json k; k.str("op", a[0]).str("err", e.what()); ev.push_back(k.done());
        }
    }
    flush();
    outf.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    return 0;
}
#endif
