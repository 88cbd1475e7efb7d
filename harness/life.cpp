// life <script> <out.ndjson> <progress>: records the life of every state object
// the library creates, copies, uses and destroys while it works on a
// table-driven specification with a non-trivial state type.
//   case <id> <arity>
//   tab <k> <root> <n> rows..          (k = 1, 2, 3)
//   run <op> <kind> <mp> <threads> [k..]
#include "tabspec.hpp"
#include <tdzdd/dd/PathCounter.hpp>
#include <algorithm>
#include <unordered_map>
#ifdef _OPENMP
#include <omp.h>
#endif
#ifndef LIFE_K
extern "C" void vp_yield(void) {}
std::atomic<long> g_badCalls(0);
#endif
typedef std::vector<std::string> Args;

struct LifeLog {
    std::mutex m;
    std::unordered_map<void const*, int> addr;
    std::vector<std::string> ev;
    int specs; int mrg; long mcnt;
    void reset() { addr.clear(); ev.clear(); specs = 0; mcnt = 0; }
    int merge() { return mrg ? int((mcnt++ * 7 + mrg) / 2 % 3) : 0; }
    int id(void const* p) {
        auto t = addr.find(p);
        if (t != addr.end()) return t->second;
        int k = int(addr.size()) + 1;
        addr[p] = k;
        return k;
    }
    void put(int k, std::initializer_list<long> v) {
        std::string s = "[" + std::to_string(k);
        for (long x : v) s += "," + std::to_string(x);
        ev.push_back(s + "]");
    }
};
extern LifeLog g;
#ifndef LIFE_K
LifeLog g;
#endif
#define LOCK std::lock_guard<std::mutex> lock_(g.m)

// ---- the state type: heap-owning, self-referencing, logged -----------------
struct LState {
    int id; int* heap; LState* self;
    LState() : id(-1), heap(new int(7)), self(this) { LOCK; g.put(0, {g.id(this)}); }
    LState(LState const& o) : id(o.id), heap(new int(7)), self(this) { LOCK; g.put(1, {g.id(this), g.id(&o)}); }
    LState& operator=(LState const& o) { LOCK; g.put(3, {g.id(this), g.id(&o)}); id = o.id; return *this; }
    ~LState() {
        { LOCK; g.put(2, {g.id(this)}); }
        if (self == this) { delete heap; }
        self = 0; id = -2;
    }
};
inline std::ostream& operator<<(std::ostream& os, LState const& s) { return os << s.id; }

struct SpecNo {
    int no;
    SpecNo() { LOCK; no = ++g.specs; }
    SpecNo(SpecNo const&) { LOCK; no = ++g.specs; }
};

// 1. scalar state
template<int A>
struct LScalar: tdzdd::DdSpec<LScalar<A>, LState, A> {
    TabP t; int k; SpecNo sn;
    LScalar(TabP t, int k) : t(t), k(k) {}
    int getRoot(LState& s) { LOCK; g.put(4, {g.id(&s), k, sn.no}); s.id = t->root; return t->lev(s.id); }
    int getChild(LState& s, int level, int b) {
        LOCK; g.put(5, {g.id(&s), k, sn.no, level, b, s.id, s.id});
        if (s.id < 2 || s.id >= int(t->st.size()) + 2) return 0;
        s.id = t->child(s.id, b);
        return t->lev(s.id);
    }
    size_t hashCodeAtLevel(LState const& s, int level) const {
        LOCK; g.put(6, {g.id(&s), k, level});
        return s.id % 5;
    }
    bool equalToAtLevel(LState const& a, LState const& b, int level) const {
        LOCK; g.put(7, {g.id(&a), g.id(&b), k, level});
        return a.id == b.id;
    }
    int mergeStates(LState& a, LState& b) { LOCK; g.put(8, {g.id(&a), g.id(&b), k}); return g.merge(); }
    void destructLevel(int level) { LOCK; g.put(9, {k, sn.no, level}); }
    void printStateAtLevel(std::ostream& os, LState const& s, int level) const {
        LOCK; g.put(10, {g.id(&s), k, level}); os << s.id;
    }
};

// 2. hybrid: logged scalar plus a POD array that must travel with it
template<int A>
struct LHybrid: tdzdd::HybridDdSpec<LHybrid<A>, LState, int, A> {
    TabP t; int k; SpecNo sn;
    LHybrid(TabP t, int k) : t(t), k(k) { this->setArraySize(3); }
    void set(int* a, int id) const { a[0] = id; a[1] = id * 3; a[2] = id * 5; char* z = (char*)(a + 3); for (int i = 0; i < 4; ++i) z[i] = 0; }
    static int get(int const* a) { return a[1] == a[0] * 3 && a[2] == a[0] * 5 ? a[0] : -5; }
    int getRoot(LState& s, int* a) { LOCK; g.put(4, {g.id(&s), k, sn.no}); s.id = t->root; set(a, s.id); return t->lev(s.id); }
    int getChild(LState& s, int* a, int level, int b) {
        LOCK; g.put(5, {g.id(&s), k, sn.no, level, b, s.id, get(a)});
        if (s.id < 2 || s.id >= int(t->st.size()) + 2) return 0;
        s.id = t->child(s.id, b); set(a, s.id);
        return t->lev(s.id);
    }
    size_t hashCodeAtLevel(LState const& s, int level) const {
        LOCK; g.put(6, {g.id(&s), k, level});
        return s.id % 5;
    }
    bool equalToAtLevel(LState const& a, LState const& b, int level) const {
        LOCK; g.put(7, {g.id(&a), g.id(&b), k, level});
        return a.id == b.id;
    }
    int mergeStates(LState& a, int* x, LState& b, int* y) { LOCK; g.put(8, {g.id(&a), g.id(&b), k}); return g.merge(); }
    void destructLevel(int level) { LOCK; g.put(9, {k, sn.no, level}); }
    void printStateAtLevel(std::ostream& os, LState const& s, int const* a, int level) const {
        LOCK; g.put(10, {g.id(&s), k, level}); os << s.id;
    }
};

// 3. a pointer state whose storage the specification manages itself through
//    the documented construct/getCopy/destruct overrides
struct LPtr { LState* p; bool operator==(LPtr const& o) const { return p->id == o.p->id; } };
inline std::ostream& operator<<(std::ostream& os, LPtr const& s) { return os << s.p->id; }
template<int A>
struct LOwn: tdzdd::DdSpec<LOwn<A>, LPtr, A> {
    TabP t; int k; SpecNo sn;
    LOwn(TabP t, int k) : t(t), k(k) {}
    void construct(void* p) { static_cast<LPtr*>(p)->p = new LState(); }
    void getCopy(void* p, LPtr const& s) { LState* q = new LState(*s.p); static_cast<LPtr*>(p)->p = q; }
    void destruct(void* p) { delete static_cast<LPtr*>(p)->p; static_cast<LPtr*>(p)->p = 0; }
    int getRoot(LPtr& s) { LOCK; g.put(4, {g.id(s.p), k, sn.no}); s.p->id = t->root; return t->lev(s.p->id); }
    int getChild(LPtr& s, int level, int b) {
        LOCK; g.put(5, {g.id(s.p), k, sn.no, level, b, s.p->id, s.p->id});
        if (s.p->id < 2 || s.p->id >= int(t->st.size()) + 2) return 0;
        s.p->id = t->child(s.p->id, b);
        return t->lev(s.p->id);
    }
    size_t hashCode(LPtr const& s) const {
        LOCK; g.put(6, {g.id(s.p), k, t->lev(s.p->id)});
        return s.p->id % 5;
    }
    bool equalTo(LPtr const& a, LPtr const& b) const {
        LOCK; g.put(7, {g.id(a.p), g.id(b.p), k, t->lev(a.p->id)});
        return a.p->id == b.p->id;
    }
    void destructLevel(int level) { LOCK; g.put(9, {k, sn.no, level}); }
    void printState(std::ostream& os, LPtr const& s) const {
        LOCK; g.put(10, {g.id(s.p), k, t->lev(s.p->id)}); os << s.p->id;
    }
};

extern std::map<int, TabP> tabs;
#ifdef LIFE_K

template<int A, typename S> void one(std::string const& op, S const& s, bool mp) {
    using namespace tdzdd;
    if (op == "build") { DdStructure<A> d(s, mp); }
    else if (op == "find") { try { s.findOneInstance(); } catch (std::runtime_error&) {} }
    else if (op == "dot") { std::stringstream ss; s.dumpDot(ss, "x"); }
    else if (op == "cnt") { S c(s); PathCounter<S> pc(c); pc.count(); }
    else if (op == "cntf") { S c(s); PathCounter<S> pc(c); pc.countFast(); }
    else if (op == "cnt64") { S c(s); PathCounter<S> pc(c); pc.count64(); }
    else throw std::runtime_error("harness: op " + op);
}
template<int A, typename S> void subs(S const& s, TabP t2, bool mp) {
    tdzdd::DdStructure<A> d(TInt<A>(t2, 0));
    d.useMultiProcessors(mp);
    d.zddSubset(s);
}
template<typename S1, typename S2> void bin(std::string const& op, S1 const& a, S2 const& b, bool mp, std::true_type) {
    using namespace tdzdd;
    std::string how = op.substr(op.find('.') + 1), o = op.substr(0, op.find('.'));
    if (o == "and") one<2>(how, bddAnd(a, b), mp);
    else if (o == "or") one<2>(how, bddOr(a, b), mp);
    else if (o == "int") one<2>(how, zddIntersection(a, b), mp);
    else if (o == "uni") one<2>(how, zddUnion(a, b), mp);
    else throw std::runtime_error("harness: op " + op);
}
template<typename S1, typename S2> void bin(std::string const& op, S1 const& a, S2 const& b, bool mp, std::false_type) {
    throw std::runtime_error("harness: arity");
}
template<int A, typename S> void runS(std::string const& op, S const& s, S const& s2, bool mp, TabP t2) {
    using namespace tdzdd;
    size_t dot = op.find('.');
    if (dot == std::string::npos) {
        if (op == "subset") subs<A>(s, t2, mp);
        else one<A>(op, s, mp);
        return;
    }
    std::string o = op.substr(0, dot), how = op.substr(dot + 1);
    if (o == "bl") one<A>(how, bddLookahead(s), mp);
    else if (o == "zl") one<A>(how, zddLookahead(s), mp);
    else if (o == "bu") one<A>(how, bddUnreduction(s, 7), mp);
    else if (o == "zu") one<A>(how, zddUnreduction(s, 7), mp);
    else bin(op, s, s2, mp, std::integral_constant<bool, A == 2>());
}
template<int A, typename S> void runK(Args const& a) {
    bool mp = a[3] == "1";
#ifdef _OPENMP
    omp_set_num_threads(atoi(a[4].c_str()));
#endif
    TabP t1 = tabs[1], t2 = tabs.count(2) ? tabs[2] : t1;
    S s(t1, 1), u(t2, 2);
    runS<A>(a[1], s, u, mp, t2);
}
#define CAT_(a, b, c) a##b##_##c
#define CAT(a, b, c) CAT_(a, b, c)
void CAT(run_, LIFE_K, LIFE_A)(Args const& a) { runK<LIFE_A, LIFE_K<LIFE_A> >(a); }
#else
std::map<int, TabP> tabs;
void run_LScalar_2(Args const&);
void run_LScalar_3(Args const&);
void run_LHybrid_2(Args const&);
void run_LHybrid_3(Args const&);
void run_LOwn_2(Args const&);
void run_LOwn_3(Args const&);
static void run(int A, Args const& a) {
    std::string k = a[2];
    if (k == "sca") (A == 2 ? run_LScalar_2 : run_LScalar_3)(a);
    else if (k == "hyb") (A == 2 ? run_LHybrid_2 : run_LHybrid_3)(a);
    else if (k == "own") (A == 2 ? run_LOwn_2 : run_LOwn_3)(a);
    else throw std::runtime_error("harness: kind " + k);
}
int main(int argc, char** argv) {
    std::ifstream in(argv[1]); std::ofstream out(argv[2]); FILE* prog = fopen(argv[3], "w");
    std::string line; std::string id; int A = 2;
    while (std::getline(in, line)) {
        std::stringstream ss(line); Args a; std::string t;
        while (ss >> t) a.push_back(t);
        if (a.empty()) continue;
        if (a[0] == "case") {
            id = a[1]; A = atoi(a[2].c_str()); tabs.clear();
            rewind(prog); fprintf(prog, "%-40s\n", id.c_str()); fflush(prog);
            messagesFor(id);
        } else if (a[0] == "tab") {
            auto p = std::make_shared<Tab>();
            size_t k = 2;
            p->root = atoi(a[k++].c_str());
            int m = atoi(a[k++].c_str());
            for (int i = 0; i < m; ++i) {
                std::vector<int> row;
                for (int b = 0; b <= A; ++b) row.push_back(atoi(a[k++].c_str()));
                p->st.push_back(row);
            }
            tabs[atoi(a[1].c_str())] = p;
        } else if (a[0] == "run") {
            g.reset(); g.mrg = a.size() > 5 ? atoi(a[5].c_str()) : 0;
            bool exc = false;
            try {
                run(A, a);
            } catch (std::exception& e) {
                if (std::string(e.what()).substr(0, 8) == "harness:") { fprintf(stderr, "%s\n", e.what()); return 3; }
                exc = true;
            }
            out << "{\"id\":\"" << id << "\",\"A\":" << A << ",\"op\":\"" << a[1] << "\",\"exc\":" << (exc ? "true" : "false")
                << ",\"slots\":" << g.addr.size() << ",\"specs\":" << g.specs << ",\"tabs\":[";
            bool f = true;
            for (auto& kv : tabs) {
                out << (f ? "" : ",") << "{\"root\":" << kv.second->root << ",\"nodes\":[";
                f = false;
                for (size_t i = 0; i < kv.second->st.size(); ++i) {
                    out << (i ? "," : "") << "[";
                    for (size_t b = 0; b < kv.second->st[i].size(); ++b) out << (b ? "," : "") << kv.second->st[i][b];
                    out << "]";
                }
                out << "]}";
            }
            out << "],\"log\":[";
            for (size_t k = 0; k < g.ev.size(); ++k) out << (k ? "," : "") << g.ev[k];
            out << "]}\n";
        }
    }
    out.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    return 0;
}
#endif
