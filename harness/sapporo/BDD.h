// A small stand-in for SAPPOROBDD (not available here): the part of its
// interface that TdZdd uses.  Diagrams are canonical, constants have no
// variable (Top() = 0), variables are created with BDD_NewVar (on top) or
// BDD_NewVarOfLev, and handles are objects that must be constructed before
// they are used and destroyed once.  Handles are counted, and so are the
// threads that call the package: the package is not thread-safe.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <set>
#include <stdexcept>
#include <thread>
#include <tuple>
#include <vector>

typedef unsigned long long bddword;

namespace sapporo {
struct Node { int var; long c0, c1; };
struct Pkg {
    std::vector<int> varOfLev, levOfVar;                 // [0] = 0
    std::vector<Node> nodes;                             // ids 2..; 0 and 1 are constants
    std::map<std::tuple<int, long, long>, long> uniq;
    std::map<std::tuple<char, long, long>, long> cache;
    long live, calls, limit;
    std::set<std::thread::id> threads;
    std::recursive_mutex mutex;
    Pkg() : varOfLev(1, 0), levOfVar(1, 0), live(0), calls(0), limit(0) {}
    void clear() { varOfLev.assign(1, 0); levOfVar.assign(1, 0); nodes.clear(); uniq.clear(); cache.clear(); }
    int lev(long f) const { return f < 2 ? 0 : levOfVar[nodes[f - 2].var]; }
    long mk(int var, long c0, long c1, bool zdd) {
        if (zdd ? c1 == 0 : c0 == c1) return c0;
        long& n = uniq[std::make_tuple(var, c0, c1)];
        if (n == 0) { Node nd = {var, c0, c1}; nodes.push_back(nd); n = long(nodes.size()) + 1; }
        return n;
    }
    long ch(long f, int l, int b, bool zdd) const {
        if (lev(f) != l) return zdd && b ? 0 : f;
        return b ? nodes[f - 2].c1 : nodes[f - 2].c0;
    }
    // op: & | ^ on functions; + - * on families
    long ap(char op, long f, long g) {
        bool zdd = op == '+' || op == '-' || op == '*';
        if (f < 2 && g < 2) {
            switch (op) {
            case '&': case '*': return f & g;
            case '|': case '+': return f | g;
            case '^': return f ^ g;
            default: return f & ~g;
            }
        }
        long& r = cache[std::make_tuple(op, f, g)];
        if (r != 0) return r - 1;
        int l = std::max(lev(f), lev(g));
        long r0 = ap(op, ch(f, l, 0, zdd), ch(g, l, 0, zdd));
        long r1 = ap(op, ch(f, l, 1, zdd), ch(g, l, 1, zdd));
        long res = mk(varOfLev[l], r0, r1, zdd);
        return cache[std::make_tuple(op, f, g)] = res + 1, res;
    }
    long cof(long f, int l, int b) {                     // function with variable at level l fixed
        if (lev(f) < l) return f;
        if (lev(f) == l) return b ? nodes[f - 2].c1 : nodes[f - 2].c0;
        Node n = nodes[f - 2];
        long a = cof(n.c0, l, b), c = cof(n.c1, l, b);
        return mk(n.var, a, c, false);
    }
    // '0' sets without the item, '1' sets with it (item removed), 'o' sets with it, 'c' item flipped
    long item(char op, long f, int l) {
        if (lev(f) <= l) {
            long f0 = ch(f, l, 0, true), f1 = ch(f, l, 1, true);
            if (op == '0') return f0;
            if (op == '1') return f1;
            if (op == 'o') return mk(varOfLev[l], 0, f1, true);
            return mk(varOfLev[l], f1, f0, true);
        }
        Node n = nodes[f - 2];
        long a = item(op, n.c0, l), c = item(op, n.c1, l);
        return mk(n.var, a, c, true);
    }
};
inline Pkg& pkg() { static Pkg p; return p; }
inline void die(char const* what) { fprintf(stderr, "SAPPOROBDD stand-in: %s\n", what); abort(); }
struct Call {
    std::lock_guard<std::recursive_mutex> g;
    Call() : g(pkg().mutex) {
        pkg().threads.insert(std::this_thread::get_id());
        if (pkg().limit && ++pkg().calls > pkg().limit) { pkg().limit = 0; throw std::runtime_error("the package is called forever"); }
    }
};
struct Handle {
    unsigned magic;
    long id;
    explicit Handle(long id) : magic(0xB0D5A110u), id(id) { Call c; ++pkg().live; }
    Handle(Handle const& o) : magic(0xB0D5A110u), id(o.get()) { Call c; ++pkg().live; }
    Handle& operator=(Handle const& o) { get(); Call c; id = o.get(); return *this; }
    ~Handle() { get(); magic = 0xDEADDEADu; std::lock_guard<std::recursive_mutex> g(pkg().mutex); --pkg().live; }
    long get() const { if (magic != 0xB0D5A110u) die("use of an object that is not alive"); return id; }
    static int var(int v) { if (v < 1 || v >= int(pkg().levOfVar.size())) die("no such variable"); return pkg().levOfVar[v]; }
};
}

inline int BDD_Init(bddword = 256, bddword = 1024) { sapporo::Call c; sapporo::pkg().clear(); return 0; }
inline int BDD_VarUsed() { sapporo::Call c; return int(sapporo::pkg().varOfLev.size()) - 1; }
inline int BDD_LevOfVar(int v) { sapporo::Call c; if (v < 0 || v > BDD_VarUsed()) sapporo::die("BDD_LevOfVar: no such variable"); return sapporo::pkg().levOfVar[v]; }
inline int BDD_VarOfLev(int l) { sapporo::Call c; if (l < 0 || l > BDD_VarUsed()) sapporo::die("BDD_VarOfLev: no such level"); return sapporo::pkg().varOfLev[l]; }
inline int BDD_NewVarOfLev(int l) {
    sapporo::Call c;
    sapporo::Pkg& p = sapporo::pkg();
    int v = int(p.varOfLev.size());
    if (l < 1 || l > v) sapporo::die("BDD_NewVarOfLev: no such level");
    for (int u = 1; u < v; ++u) if (p.levOfVar[u] >= l) ++p.levOfVar[u];
    p.varOfLev.insert(p.varOfLev.begin() + l, v);
    p.levOfVar.push_back(l);
    return v;
}
inline int BDD_NewVar() { return BDD_NewVarOfLev(BDD_VarUsed() + 1); }

class BDD: public sapporo::Handle {
    struct Raw {};
    BDD(long id, Raw) : Handle(id) {}
    static long con(int v) { if (v < 0) sapporo::die("null BDD"); return v != 0; }
    friend BDD BDDvar(int);
public:
    BDD() : Handle(0) {}
    BDD(int v) : Handle(con(v)) {}
    static BDD of(long id) { return BDD(id, Raw()); }
    BDD operator~() const { sapporo::Call c; return of(sapporo::pkg().ap('^', get(), 1)); }
    friend BDD operator&(BDD const& f, BDD const& g) { sapporo::Call c; return of(sapporo::pkg().ap('&', f.get(), g.get())); }
    friend BDD operator|(BDD const& f, BDD const& g) { sapporo::Call c; return of(sapporo::pkg().ap('|', f.get(), g.get())); }
    friend BDD operator^(BDD const& f, BDD const& g) { sapporo::Call c; return of(sapporo::pkg().ap('^', f.get(), g.get())); }
    friend int operator==(BDD const& f, BDD const& g) { sapporo::Call c; return f.get() == g.get(); }
    friend int operator!=(BDD const& f, BDD const& g) { return !(f == g); }
    BDD& operator&=(BDD const& g) { return *this = *this & g; }
    BDD& operator|=(BDD const& g) { return *this = *this | g; }
    BDD At0(int v) const { sapporo::Call c; return of(sapporo::pkg().cof(get(), var(v), 0)); }
    BDD At1(int v) const { sapporo::Call c; return of(sapporo::pkg().cof(get(), var(v), 1)); }
    int Top() const { sapporo::Call c; long f = get(); return f < 2 ? 0 : sapporo::pkg().nodes[f - 2].var; }
    bddword GetID() { sapporo::Call c; return bddword(get()); }
};
inline BDD BDDvar(int v) { sapporo::Call c; sapporo::Handle::var(v); return BDD::of(sapporo::pkg().mk(v, 0, 1, false)); }
