// A small stand-in for the CUDD package (not available here): the functions
// apps/cnfbdd and apps/cnf2ztdd2bdd use, with CUDD's conventions (complement
// edges, regular then-edges, new variables may be inserted at the top) and with
// reference counts that are checked.  No garbage collection, no reordering.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <map>
#include <set>
#include <tuple>
#include <vector>

struct DdNode {
    unsigned index;
    long ref;
    DdNode *t, *e;
};
enum { CUDD_UNIQUE_SLOTS = 256, CUDD_CACHE_SLOTS = 262144 };
enum Cudd_ReorderingType { CUDD_REORDER_SAME, CUDD_REORDER_NONE, CUDD_REORDER_RANDOM, CUDD_REORDER_SIFT = 4 };
static unsigned const CUDD_CONST_INDEX = 0x7fffffffU;
#define Cudd_Not(n) ((DdNode*)((uintptr_t)(n) ^ 1))
#define Cudd_NotCond(n, c) ((DdNode*)((uintptr_t)(n) ^ ((c) ? 1 : 0)))
#define Cudd_Regular(n) ((DdNode*)((uintptr_t)(n) & ~(uintptr_t)1))
#define Cudd_IsComplement(n) ((int)((uintptr_t)(n) & 1))
#define Cudd_IsConstant(n) (Cudd_Regular(n)->index == CUDD_CONST_INDEX)
#define Cudd_T(n) (Cudd_Regular(n)->t)
#define Cudd_E(n) (Cudd_Regular(n)->e)

struct DdManager {
    DdNode one;
    std::map<std::tuple<unsigned, DdNode*, DdNode*>, DdNode*> uniq;
    std::map<std::tuple<DdNode*, DdNode*, DdNode*>, DdNode*> iteCache;
    std::vector<DdNode*> vars;             // by index
    std::vector<unsigned> order;           // order[pos] = index, pos 0 on top
    std::vector<int> perm;                 // perm[index] = position
    DdManager() { one.index = CUDD_CONST_INDEX; one.ref = 1; one.t = one.e = 0; }
};
static inline void cudd_die(char const* what) { fprintf(stderr, "CUDD stand-in: %s\n", what); abort(); }
static inline DdManager* Cudd_Init(unsigned, unsigned, unsigned, unsigned, unsigned long) { return new DdManager; }
static inline DdNode* Cudd_ReadOne(DdManager* m) { return &m->one; }
static inline DdNode* Cudd_ReadLogicZero(DdManager* m) { return Cudd_Not(&m->one); }
static inline void Cudd_Ref(DdNode* n) { if (Cudd_Regular(n) == 0) cudd_die("Cudd_Ref(NULL)"); if (!Cudd_IsConstant(n)) ++Cudd_Regular(n)->ref; }
static inline void Cudd_RecursiveDeref(DdManager*, DdNode* n) { if (!Cudd_IsConstant(n) && --Cudd_Regular(n)->ref < 0) cudd_die("reference count below zero"); }
static inline int Cudd_ReadSize(DdManager* m) { return int(m->vars.size()); }
static inline unsigned Cudd_NodeReadIndex(DdNode* n) { return Cudd_Regular(n)->index; }
static inline int cudd_pos(DdManager* m, DdNode* n) { return Cudd_IsConstant(n) ? 0x7fffffff : m->perm[Cudd_Regular(n)->index]; }

static inline DdNode* cudd_mk(DdManager* m, unsigned index, DdNode* t, DdNode* e) {
    if (t == e) return t;
    int c = Cudd_IsComplement(t);
    if (c) { t = Cudd_Not(t); e = Cudd_Not(e); }
    DdNode*& n = m->uniq[std::make_tuple(index, t, e)];
    if (n == 0) { n = new DdNode; n->index = index; n->ref = 0; n->t = t; n->e = e; }
    return Cudd_NotCond(n, c);
}
static inline DdNode* cudd_ch(DdManager* m, DdNode* f, int pos, int b) {
    if (cudd_pos(m, f) != pos) return f;
    return Cudd_NotCond(b ? Cudd_T(f) : Cudd_E(f), Cudd_IsComplement(f));
}
static inline DdNode* Cudd_bddIte(DdManager* m, DdNode* f, DdNode* g, DdNode* h) {
    if (!f || !g || !h) cudd_die("NULL operand");
    if (f == &m->one) return g;
    if (f == Cudd_Not(&m->one)) return h;
    if (g == h) return g;
    auto key = std::make_tuple(f, g, h);
    auto it = m->iteCache.find(key);
    if (it != m->iteCache.end()) return it->second;
    int p = std::min(cudd_pos(m, f), std::min(cudd_pos(m, g), cudd_pos(m, h)));
    DdNode* t = Cudd_bddIte(m, cudd_ch(m, f, p, 1), cudd_ch(m, g, p, 1), cudd_ch(m, h, p, 1));
    DdNode* e = Cudd_bddIte(m, cudd_ch(m, f, p, 0), cudd_ch(m, g, p, 0), cudd_ch(m, h, p, 0));
    return m->iteCache[key] = cudd_mk(m, m->order[p], t, e);
}
static inline DdNode* Cudd_bddNewVarAtLevel(DdManager* m, int level) {
    unsigned index = unsigned(m->vars.size());
    m->order.insert(m->order.begin() + level, index);
    m->perm.push_back(0);
    for (size_t p = 0; p < m->order.size(); ++p) m->perm[m->order[p]] = int(p);
    DdNode* v = cudd_mk(m, index, &m->one, Cudd_Not(&m->one));
    m->vars.push_back(v);
    return v;
}
static inline DdNode* Cudd_bddIthVar(DdManager* m, int i) {
    while (i >= Cudd_ReadSize(m)) Cudd_bddNewVarAtLevel(m, Cudd_ReadSize(m));
    return m->vars[i];
}
static inline DdNode* Cudd_bddAnd(DdManager* m, DdNode* f, DdNode* g) { return Cudd_bddIte(m, f, g, Cudd_Not(&m->one)); }
static inline DdNode* Cudd_bddOr(DdManager* m, DdNode* f, DdNode* g) { return Cudd_bddIte(m, f, &m->one, g); }
static inline DdNode* Cudd_bddXor(DdManager* m, DdNode* f, DdNode* g) { return Cudd_bddIte(m, f, Cudd_Not(g), g); }
static inline int Cudd_bddLeq(DdManager* m, DdNode* f, DdNode* g) { return Cudd_bddAnd(m, f, Cudd_Not(g)) == Cudd_Not(&m->one); }
static inline DdNode* cudd_cof(DdManager* m, DdNode* f, unsigned index, int b) {
    int p = m->perm[index];
    if (cudd_pos(m, f) > p) return f;
    if (cudd_pos(m, f) == p) return cudd_ch(m, f, p, b);
    int q = cudd_pos(m, f);
    return cudd_mk(m, m->order[q], cudd_cof(m, cudd_ch(m, f, q, 1), index, b), cudd_cof(m, cudd_ch(m, f, q, 0), index, b));
}
static inline int Cudd_bddVarIsDependent(DdManager* m, DdNode* f, DdNode* var) {   // f determines var
    unsigned i = Cudd_Regular(var)->index;
    return Cudd_bddAnd(m, cudd_cof(m, f, i, 0), cudd_cof(m, f, i, 1)) == Cudd_Not(&m->one);
}
// generalized cofactor
static inline DdNode* Cudd_bddConstrain(DdManager* m, DdNode* f, DdNode* c) {
    DdNode* zero = Cudd_Not(&m->one);
    if (c == &m->one || c == zero || Cudd_IsConstant(f)) return c == zero ? zero : f;
    if (f == c) return &m->one;
    if (f == Cudd_Not(c)) return zero;
    int p = std::min(cudd_pos(m, f), cudd_pos(m, c));
    DdNode *c1 = cudd_ch(m, c, p, 1), *c0 = cudd_ch(m, c, p, 0), *f1 = cudd_ch(m, f, p, 1), *f0 = cudd_ch(m, f, p, 0);
    if (c1 == zero) return Cudd_bddConstrain(m, f0, c0);
    if (c0 == zero) return Cudd_bddConstrain(m, f1, c1);
    return cudd_mk(m, m->order[p], Cudd_bddConstrain(m, f1, c1), Cudd_bddConstrain(m, f0, c0));
}
static inline DdNode* Cudd_bddMinimize(DdManager* m, DdNode* f, DdNode* c) { return Cudd_bddConstrain(m, f, c); }
static inline DdNode* Cudd_Cofactor(DdManager* m, DdNode* f, DdNode* cube) {
    DdNode* zero = Cudd_Not(&m->one);
    while (!Cudd_IsConstant(cube)) {
        int p = cudd_pos(m, cube);
        DdNode *c1 = cudd_ch(m, cube, p, 1), *c0 = cudd_ch(m, cube, p, 0);
        f = cudd_cof(m, f, m->order[p], c1 != zero);
        cube = c1 != zero ? c1 : c0;
    }
    return f;
}
static inline DdNode* Cudd_bddExistAbstract(DdManager* m, DdNode* f, DdNode* cube) {
    while (!Cudd_IsConstant(cube)) {
        if (Cudd_IsComplement(cube)) cudd_die("not a positive cube");
        unsigned i = Cudd_Regular(cube)->index;
        f = Cudd_bddOr(m, cudd_cof(m, f, i, 0), cudd_cof(m, f, i, 1));
        cube = Cudd_T(cube);
    }
    return f;
}
static inline DdNode* Cudd_bddAndAbstract(DdManager* m, DdNode* f, DdNode* g, DdNode* cube) { return Cudd_bddExistAbstract(m, Cudd_bddAnd(m, f, g), cube); }
static inline void cudd_visit(DdNode* f, std::set<DdNode*>& s) {
    f = Cudd_Regular(f);
    if (!s.insert(f).second || Cudd_IsConstant(f)) return;
    cudd_visit(f->t, s); cudd_visit(f->e, s);
}
static inline DdNode* Cudd_Support(DdManager* m, DdNode* f) {
    std::set<DdNode*> s; cudd_visit(f, s);
    DdNode* c = &m->one;
    for (DdNode* n : s) if (!Cudd_IsConstant(n)) c = Cudd_bddAnd(m, c, m->vars[n->index]);
    return c;
}
static inline int Cudd_DagSize(DdNode* f) { std::set<DdNode*> s; cudd_visit(f, s); return int(s.size()); }
static inline int Cudd_SharingSize(DdNode** v, int n) { std::set<DdNode*> s; for (int i = 0; i < n; ++i) cudd_visit(v[i], s); return int(s.size()); }
static inline long Cudd_ReadPeakLiveNodeCount(DdManager* m) { return long(m->uniq.size()) + 1; }
static inline double cudd_frac(DdManager* m, DdNode* f, std::map<DdNode*, double>& c) {
    if (f == &m->one) return 1;
    if (f == Cudd_Not(&m->one)) return 0;
    auto it = c.find(f);
    if (it != c.end()) return it->second;
    int p = cudd_pos(m, f);
    return c[f] = (cudd_frac(m, cudd_ch(m, f, p, 1), c) + cudd_frac(m, cudd_ch(m, f, p, 0), c)) / 2;
}
static inline double Cudd_CountMinterm(DdManager* m, DdNode* f, int nvars) { std::map<DdNode*, double> c; return cudd_frac(m, f, c) * std::pow(2.0, nvars); }
static inline DdNode* Cudd_bddVectorCompose(DdManager* m, DdNode* f, DdNode** v) {
    if (Cudd_IsConstant(f)) return f;
    int p = cudd_pos(m, f);
    return Cudd_bddIte(m, v[m->order[p]], Cudd_bddVectorCompose(m, cudd_ch(m, f, p, 1), v), Cudd_bddVectorCompose(m, cudd_ch(m, f, p, 0), v));
}
static inline int Cudd_ReduceHeap(DdManager*, Cudd_ReorderingType, int) { return 1; }
