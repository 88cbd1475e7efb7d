// Feature units of the core harness; compiled once per (CORE_A, CORE_F).
#include "core_ses.hpp"
enum { A = CORE_A };
typedef Ses<A> S_;
static bool isOne(std::string const& s) { return s == "1"; }
namespace { struct Reg { Reg(char const* k, Feat<A>::Fn f) { Feat<A>::tab()[k] = f; } }; }

// calls f(spec) with the table spec of the given kind
template<typename F> static void specA(TabP p, std::string const& kind, F f) {
    if (kind == "i0") f(TInt<A>(p, 0));
    else if (kind == "i1") f(TInt<A>(p, 1));
    else if (kind == "i2") f(TInt<A>(p, 2));
    else if (kind == "i3") f(TInt<A>(p, 3));
    else if (kind == "i4") f(TInt<A>(p, 4));
    else if (kind == "eq") f(TEqv<A>(p));
    else if (kind == "nil") f(TNil<A>(p));
    else throw std::runtime_error("harness: unknown kind " + kind);
}
template<typename F> static void specB(TabP p, std::string const& kind, F f) {
    int m = atoi(kind.c_str() + 2);
    if (kind == "vec") f(TVec<A>(p));
    else if (kind.substr(0, 2) == "ac") f(TArr<A, unsigned char>(p, m));
    else if (kind.substr(0, 2) == "as") f(TArr<A, short>(p, m));
    else if (kind.substr(0, 2) == "al") f(TArr<A, long>(p, m));
    else throw std::runtime_error("harness: unknown kind " + kind);
}
template<typename F> static void specC(TabP p, std::string const& kind, F f) {
    int m = atoi(kind.c_str() + 2);
    if (kind.substr(0, 2) == "hc") f(THyb<A, char>(p, m));
    else if (kind.substr(0, 2) == "hi") f(THyb<A, int>(p, m));
    else if (kind.substr(0, 2) == "hl") f(THyb<A, long>(p, m));
    else throw std::runtime_error("harness: unknown kind " + kind);
}
template<typename F> static void specD(TabP p, std::string const& kind, F f) {
    int m = atoi(kind.c_str() + 2);
    if (kind == "i0" || kind == "i1" || kind == "i4") f(TInt<A>(p, kind[1] - '0'));
    else if (kind == "vec") f(TVec<A>(p));
    else if (kind == "eq") f(TEqv<A>(p));
    else if (kind.substr(0, 2) == "ac") f(TArr<A, unsigned char>(p, m));
    else if (kind.substr(0, 2) == "hi") f(THyb<A, int>(p, m));
    else throw std::runtime_error("harness: unknown kind " + kind);
}
static char famOf(std::string const& k) {
    return (k[0] == 'h') ? 'C' : (k == "vec" || k[0] == 'a') ? 'B' : 'A';
}

#if CORE_F == 1 || CORE_F == 2 || CORE_F == 3       // build<fam> r t kind mp
static void buildX(S_& z, Args const& a, Json& j) {
    j.str("r", a[1]).str("t", a[2]).str("kind", a[3]).b("mp", isOne(a[4]));
    bool mp = isOne(a[4]);
    auto f = [&](auto const& s) { z.build(a[1], s, mp); };
#if CORE_F == 1
    specA(z.T(a[2]), a[3], f);
#elif CORE_F == 2
    specB(z.T(a[2]), a[3], f);
#else
    specC(z.T(a[2]), a[3], f);
#endif
    z.obs(j, a[1]);
}
#if CORE_F == 1
static Reg r1("buildA", buildX);
#elif CORE_F == 2
static Reg r1("buildB", buildX);
#else
static Reg r1("buildC", buildX);
#endif
#endif

#if CORE_F == 4 || CORE_F == 5 || CORE_F == 6      // subset r t kind
static void subsetX(S_& z, Args const& a, Json& j) {
    j.str("r", a[1]).str("t", a[2]).str("kind", a[3]);
    S_::DD& d = z.R(a[1]);
    auto f = [&](auto const& s) { d.zddSubset(s); };
#if CORE_F == 4
    specA(z.T(a[2]), a[3], f);
#elif CORE_F == 5
    specB(z.T(a[2]), a[3], f);
#else
    specC(z.T(a[2]), a[3], f);
#endif
    z.obs(j, a[1]);
}
#if CORE_F == 4
static Reg r1("subsetA", subsetX);
#elif CORE_F == 5
static Reg r1("subsetB", subsetX);
#else
static Reg r1("subsetC", subsetX);
#endif
#endif

#if CORE_F == 7 || CORE_F == 8 // look r t kind b|z mp ; unred r t kind b|z mp n ; kind dd = register
static void lookX(S_& z, Args const& a, Json& j) {
    bool mp = isOne(a[5]), b = a[4] == "b";
    j.str("r", a[1]).str("t", a[2]).str("k", a[4]).str("kind", a[3]).b("mp", mp);
#if CORE_F == 8
    int n = atoi(a[6].c_str());
    j.i("n", n);
    auto f = [&](auto const& s) {
        if (b) z.build(a[1], tdzdd::bddUnreduction(s, n), mp);
        else z.build(a[1], tdzdd::zddUnreduction(s, n), mp);
    };
#else
    auto f = [&](auto const& s) {
        if (b) z.build(a[1], tdzdd::bddLookahead(s), mp);
        else z.build(a[1], tdzdd::zddLookahead(s), mp);
    };
#endif
    if (a[3] == "dd") f(z.R(a[2]));
    else specD(z.T(a[2]), a[3], f);
    z.obs(j, a[1]);
}
static Reg r1(CORE_F == 7 ? "look" : "unred", lookX);
#endif

#if CORE_F == 9                                     // one, dot, sap, iter
static void oneX(S_& z, Args const& a, Json& j) {   // one t kind times
    j.str("t", a[1]);
    int times = atoi(a[3].c_str());
    std::string s = "[";
    for (int k = 0; k < times; ++k) {
        if (k) s += ",";
        try {
            std::vector<std::pair<int, int> > v;
            if (a[2] == "dd") v = z.R(a[1]).findOneInstance();
            else specD(z.T(a[1]), a[2], [&](auto const& sp) { v = sp.findOneInstance(); });
            std::string e = "[";
            for (size_t i = 0; i < v.size(); ++i) {
                if (i) e += ",";
                e += "[" + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]";
            }
            s += e + "]";
        } catch (std::runtime_error& e) {
            if (std::string(e.what()).substr(0, 8) == "harness:") throw;
            s += "[[-1,-1]]";
        }
    }
    j.raw("inst", s + "]");
}
static Reg r1("one", oneX);
#if CORE_A == 2
static void iterX(S_& z, Args const& a, Json& j) {
    S_::DD const& d = z.R(a[1]);
    long cap = a.size() > 2 ? atol(a[2].c_str()) : 100000;
    j.str("r", a[1]);
    std::string s = "[";
    bool first = true, ok = true;
    long cnt = 0;
    typedef S_::DD::const_iterator It;
    It e = d.end();
    std::vector<It> past;
    for (It t = d.begin(); t != e && cnt <= cap; ++t, ++cnt) {
        if (!first) s += ",";
        first = false;
        s += jarr(*t);
        if (t->size() != (*t).size()) ok = false;
        if (t == e) ok = false;
        It u(t);                                    // a copy denotes the same position
        if (!(u == t) || *u != *t) ok = false;
        // positions are equal exactly when they are the same position
        for (size_t k = 0; k < past.size(); ++k)
            if (past[k] == t || !(past[k] != t)) ok = false;
        if (cnt < 8 || cnt % 7 == 0) { if (past.size() < 24) past.push_back(t); }
    }
    if (!past.empty()) {                            // a saved position resumes identically
        It t(past[past.size() / 2]);
        std::set<int> now = *t;
        ++t;
        if (*past[past.size() / 2] != now) ok = false;
        if (t == past[past.size() / 2]) ok = false;
    }
    j.raw("sets", s + "]").b("ok", ok);
}
static Reg r4("iter", iterX);
#endif
#endif

#if CORE_F >= 10 && CORE_F <= 13                    // op r name mp pattern x y [z [w]]
template<typename... SS>
static void opn(S_& z, Args const& a, bool mp, SS const&... ss) {
    using namespace tdzdd;
#if CORE_F == 10
    z.build(a[1], bddAnd(ss...), mp);
#elif CORE_F == 11
    z.build(a[1], bddOr(ss...), mp);
#elif CORE_F == 12
    z.build(a[1], zddIntersection(ss...), mp);
#else
    z.build(a[1], zddUnion(ss...), mp);
#endif
}
static void opX(S_& z, Args const& a, Json& j) {
    bool mp = a[3] == "1";
    std::string const& pat = a[4];
    j.str("r", a[1]).str("f", a[2]).b("mp", mp);
    std::string s = "[";
    for (size_t k = 5; k < a.size(); ++k) { if (k > 5) s += ","; s += "\"" + a[k] + "\""; }
    j.raw("args", s + "]");
    if (pat == "jj") opn(z, a, mp, TInt<2>(z.T(a[5]), 4), TInt<2>(z.T(a[6]), 4));
    else if (pat == "ii") opn(z, a, mp, TInt<2>(z.T(a[5])), TInt<2>(z.T(a[6])));
    else if (pat == "av") opn(z, a, mp, TArr<2, unsigned char>(z.T(a[5]), 5), TVec<2>(z.T(a[6])));
    else if (pat == "vi") opn(z, a, mp, TVec<2>(z.T(a[5])), TInt<2>(z.T(a[6])));
    else if (pat == "dd") opn(z, a, mp, z.R(a[5]), z.R(a[6]));
    else if (pat == "dh") opn(z, a, mp, z.R(a[5]), THyb<2, int>(z.T(a[6]), 2));
    else if (pat == "ed") opn(z, a, mp, TEqv<2>(z.T(a[5])), z.R(a[6]));
#ifndef VP_CXX98
    else if (pat == "iav") opn(z, a, mp, TInt<2>(z.T(a[5])), TArr<2, short>(z.T(a[6]), 4), TVec<2>(z.T(a[7])));
    else if (pat == "ddd") opn(z, a, mp, z.R(a[5]), z.R(a[6]), z.R(a[7]));
    else if (pat == "didi") opn(z, a, mp, z.R(a[5]), TInt<2>(z.T(a[6])), z.R(a[7]), TInt<2>(z.T(a[8])));
#endif
    else throw std::runtime_error("harness: pattern");
    z.obs(j, a[1]);
}
static Reg r1(CORE_F == 10 ? "op_and" : CORE_F == 11 ? "op_or" : CORE_F == 12 ? "op_int" : "op_uni", opX);
#endif

#if CORE_F == 14                                    // pcnt t kind
#include <tdzdd/dd/PathCounter.hpp>
static void pcntX(S_& z, Args const& a, Json& j) {
    j.str("t", a[1]).str("kind", a[2]);
    std::string c, f; uint64_t q = 0;
    auto go = [&](auto const& s0) {
        auto s(s0);
        c = tdzdd::countPaths(s);
        f = tdzdd::countPaths(s, true);
        q = tdzdd::countPaths64(s);
    };
    if (a[2] == "dd") go(z.R(a[1]));
    else specD(z.T(a[1]), a[2], go);
    j.raw("c", jdigits(c)).raw("f", jdigits(f)).raw("q", jdigits(std::to_string(q)));
}
static Reg r1("pcnt", pcntX);
#endif

#if CORE_F == 15                                    // merging specifications
// wts t cap w..          mbuild r t kind mode mp       msubset r t kind mode
namespace { struct WTab { TabP t; std::vector<std::vector<int> > w; int cap; }; }
static std::map<std::string, WTab> g_w;
namespace {   // one copy per arity
struct MState { int id; int c; };
inline std::ostream& operator<<(std::ostream& os, MState const& s) { return os << s.id << "/" << s.c; }
static int mstep(WTab const& w, int mode, int& id, int& c, int b) {
    c += w.w[id - 2][b];
    id = (mode == 1 && c > w.cap) ? 0 : w.t->child(id, b);
    return w.t->lev(id);
}
static int mmerge(int mode, int id, int& c1, int& c2) {
    if (mode == 3 && id < 2) return 0;              // 1-terminals stay together
    if (mode == 1) { if (c2 < c1) c1 = c2; return 0; }
    if (mode == 2) return c1 <= c2 ? 2 : 1;         // a tie cuts the second off
    return c1 < c2 ? 2 : c1 > c2 ? 1 : 0;
}
struct MScalar: tdzdd::DdSpec<MScalar, MState, A> {
    WTab w; int mode;
    MScalar(WTab const& w, int mode) : w(w), mode(mode) {}
    int getRoot(MState& s) const { s.id = w.t->root; s.c = 0; return w.t->lev(s.id); }
    int getChild(MState& s, int level, int b) const {
        CHECK_CALL(s.id >= 2 && s.id < int(w.t->st.size()) + 2 && w.t->lev(s.id) == level);
        return mstep(w, mode, s.id, s.c, b);
    }
    int mergeStates(MState& a, MState& b) { CHECK_CALL(a.id == b.id || (a.id < 2 && b.id < 2)); return mmerge(mode, a.id, a.c, b.c); }
    size_t hashCode(MState const& s) const { return s.id; }
    bool equalTo(MState const& a, MState const& b) const { return a.id == b.id; }
};
struct MArray: tdzdd::PodArrayDdSpec<MArray, int, A> {
    WTab w; int mode;
    MArray(WTab const& w, int mode) : w(w), mode(mode) { this->setArraySize(3); }
    int getRoot(int* s) const { s[0] = w.t->root; s[2] = 0; return w.t->lev(s[0]); }
    int getChild(int* s, int level, int b) const {
        CHECK_CALL(s[0] >= 2 && s[0] < int(w.t->st.size()) + 2 && w.t->lev(s[0]) == level);
        return mstep(w, mode, s[0], s[2], b);
    }
    int mergeStates(int* a, int* b) { return mmerge(mode, a[0], a[2], b[2]); }
    size_t hashCode(int const* s) const { return s[0]; }
    bool equalTo(int const* a, int const* b) const { return a[0] == b[0]; }
};
struct MHybrid: tdzdd::HybridDdSpec<MHybrid, MState, short, A> {
    WTab w; int mode;
    MHybrid(WTab const& w, int mode) : w(w), mode(mode) { this->setArraySize(4); }
    void put(short* a, int id) const { for (int i = 0; i < 4; ++i) a[i] = short(id); }
    int getRoot(MState& s, short* a) const { s.id = w.t->root; s.c = 0; put(a, s.id); return w.t->lev(s.id); }
    int getChild(MState& s, short* a, int level, int b) const {
        CHECK_CALL(s.id >= 2 && s.id < int(w.t->st.size()) + 2 && w.t->lev(s.id) == level && a[0] == s.id && a[3] == s.id);
        int r = mstep(w, mode, s.id, s.c, b); put(a, s.id); return r;
    }
    int mergeStates(MState& s, short* a, MState& t, short* b) { CHECK_CALL(a[0] == b[0] || (a[0] < 2 && b[0] < 2)); return mmerge(mode, s.id, s.c, t.c); }
    size_t hashCode(MState const& s) const { return s.id; }
    bool equalTo(MState const& a, MState const& b) const { return a.id == b.id; }
};
}  // namespace
static std::string wjson(WTab const& w) {
    std::string s = "[";
    for (size_t k = 0; k < w.w.size(); ++k) { if (k) s += ","; s += jarr(w.w[k]); }
    return s + "]";
}
static void wtsX(S_& z, Args const& a, Json& j) {
    WTab w; w.t = z.T(a[1]); w.cap = atoi(a[2].c_str());
    size_t k = 3;
    for (size_t i = 0; i < w.t->st.size(); ++i) {
        std::vector<int> r;
        for (int b = 0; b < A; ++b) r.push_back(atoi(a[k++].c_str()));
        w.w.push_back(r);
    }
    g_w[a[1]] = w;
    j.str("t", a[1]);
}
static int modeOf(std::string const& m) { return m == "min" ? 0 : m == "cap" ? 1 : m == "lvl" ? 3 : 2; }
template<typename F> static void mspec(Args const& a, F f) {
    WTab const& w = g_w.at(a[2]); int m = modeOf(a[4]);
    if (a[3] == "sca") f(MScalar(w, m));
    else if (a[3] == "arr") f(MArray(w, m));
    else if (a[3] == "hyb") f(MHybrid(w, m));
    else throw std::runtime_error("harness: kind " + a[3]);
}
static void mbuildX(S_& z, Args const& a, Json& j) {
    bool mp = isOne(a[5]);
    WTab const& w = g_w.at(a[2]);
    j.str("r", a[1]).str("t", a[2]).str("mode", a[4]).b("mp", mp).i("cap", w.cap).raw("w", wjson(w));
    mspec(a, [&](auto const& s) { z.build(a[1], s, mp); });
    z.obs(j, a[1]);
}
// mop r t kind mode mp f u: the merging t as an operand (and, int: first; AND, INT: second), or unreduced over u variables
static void mopX(S_& z, Args const& a, Json& j) {
    bool mp = isOne(a[5]);
    WTab const& w = g_w.at(a[2]);
    std::string const& f = a[6];
    int n = 0;
    if (f == "bunr" || f == "zunr") n = atoi(a[7].c_str());
    j.str("r", a[1]).str("t", a[2]).str("mode", a[4]).b("mp", mp).i("cap", w.cap).raw("w", wjson(w)).i("n", n);
    if (f == "bunr") { j.str("f", f); mspec(a, [&](auto const& s) { z.build(a[1], tdzdd::bddUnreduction(s, n), mp); }); }
    else if (f == "zunr") { j.str("f", f); mspec(a, [&](auto const& s) { z.build(a[1], tdzdd::zddUnreduction(s, n), mp); }); }
    else if (f == "zl") { j.str("f", f); mspec(a, [&](auto const& s) { z.build(a[1], tdzdd::zddLookahead(s), mp); }); }
    else {
#if CORE_A == 2
        TabP u = z.T(a[7]);
        j.str("u", a[7]).str("f", f == "and" || f == "AND" ? "and" : "sub");
        mspec(a, [&](auto const& s) {
            if (f == "and") z.build(a[1], tdzdd::bddAnd(s, TInt<A>(u)), mp);
            else if (f == "AND") z.build(a[1], tdzdd::bddAnd(TVec<A>(u), s), mp);
            else if (f == "int") z.build(a[1], tdzdd::zddIntersection(s, TVec<A>(u)), mp);
            else z.build(a[1], tdzdd::zddIntersection(TInt<A>(u), s), mp);
        });
#else
        throw std::runtime_error("harness: binary operations have arity 2");
#endif
    }
    z.obs(j, a[1]);
}
static void msubsetX(S_& z, Args const& a, Json& j) {
    WTab const& w = g_w.at(a[2]);
    j.str("r", a[1]).str("t", a[2]).str("mode", a[4]).i("cap", w.cap).raw("w", wjson(w));
    mspec(a, [&](auto const& s) { z.R(a[1]).zddSubset(s); });
    z.obs(j, a[1]);
}
static void mdotX(S_& z, Args const& a, Json& j) {   // mdot title t kind mode
    WTab const& w = g_w.at(a[2]);
    std::stringstream ss;
    j.str("title", a[1]).str("t", a[2]).str("mode", a[4]).i("cap", w.cap).raw("w", wjson(w));
    mspec(a, [&](auto const& s) { s.dumpDot(ss, a[1]); });
    j.str("text", ss.str());
}
static Reg r1("wts", wtsX), r2("mbuild", mbuildX), r3("msubset", msubsetX), r4("mdot", mdotX), r5("mop", mopX);
#endif

#if CORE_F == 16                                    // text output and input
#include <tdzdd/spec/GraphillionZdd.hpp>
namespace {
template<int AR> struct TLab: tdzdd::DdSpec<TLab<AR>, int, AR> {   // names its levels
    TabP t;
    TLab(TabP t) : t(t) {}
    int getRoot(int& s) const { s = t->root; return t->lev(s); }
    int getChild(int& s, int level, int value) const { s = t->child(s, value); return t->lev(s); }
    void printLevel(std::ostream& os, int level) const { os << "x" << level; }
};
}
template<typename SP> static std::string dotOf(SP const& s, std::string const& title, std::string const& how) {
    if (how == "str") return s.dot(title);
    std::stringstream ss;
    s.dumpDot(ss, title);
    return ss.str();
}
static void dotX(S_& z, Args const& a, Json& j) {   // dot t kind title wrap how
    std::string text;
    j.str("t", a[1]).str("kind", a[2]).str("title", a[3]).str("wrap", a[4]);
    auto f = [&](auto const& s) {
        if (a[4] == "bl") text = dotOf(tdzdd::bddLookahead(s), a[3], a[5]);
        else if (a[4] == "zl") text = dotOf(tdzdd::zddLookahead(s), a[3], a[5]);
        else text = dotOf(s, a[3], a[5]);
    };
    if (a[2] == "dd") f(z.R(a[1]));
    else if (a[2] == "lab") f(TLab<A>(z.T(a[1])));
    else specD(z.T(a[1]), a[2], f);
    j.str("text", text);
}
static void dottX(S_& z, Args const& a, Json& j) {  // the node table itself
    std::stringstream ss;
    j.str("r", a[1]).str("title", a[2]);
    z.R(a[1]).getDiagram()->dumpDot(ss, a[2]);
    z.obs(j, a[1]);
    j.str("text", ss.str());
}
static Reg r1("dot", dotX), r2("dott", dottX);
#if CORE_A == 2
static void sapX(S_& z, Args const& a, Json& j) {
    std::stringstream ss;
    j.str("r", a[1]);
    z.R(a[1]).dumpSapporo(ss);
    z.obs(j, a[1]);
    j.str("text", ss.str());
}
extern std::string g_scratch;
static void gzX(S_& z, Args const& a, Json& j) {    // gz r t base seed style: write in Graphillion's format, read back, build
    TabP t = z.T(a[2]);
    int base = atoi(a[3].c_str());
    unsigned seed = atoi(a[4].c_str());
    int top = t->root >= 2 ? t->lev(t->root) : 0;
    std::vector<std::string> lines;
    std::vector<unsigned> name(t->st.size() + 2);
    bool odd = seed & 1;
    for (size_t k = 2; k < name.size(); ++k) name[k] = odd ? k * 2 : (k * 7919 + seed) % 100003;
    auto ref = [&](int id) { return id == 0 ? std::string("B") : id == 1 ? std::string("T") : std::to_string(name[id]); };
    for (size_t k = 2; k < name.size(); ++k)
        lines.push_back(std::to_string(name[k]) + " " + std::to_string(base + top - t->lev(k)) + " " + ref(t->child(k, 0)) + " " + ref(t->child(k, 1)));
    if (t->root < 2) { lines.clear(); lines.push_back(t->root ? "T" : "B"); }
    if (a[5] == "shuf")
        for (size_t k = lines.size(); k > 1; --k) { seed = mixBits(seed + k); std::swap(lines[k - 1], lines[seed % k]); }
    std::string fn = g_scratch + ".gz";
    { std::ofstream o(fn); for (auto& s : lines) o << s << "\n"; o << ".\n"; }
    tdzdd::GraphillionZdd g;
    g.read(fn);
    std::remove(fn.c_str());
    j.str("r", a[1]).str("t", a[2]).b("mp", false);
    z.build(a[1], g, false);
    z.obs(j, a[1]);
}
static Reg r3("sap", sapX), r4("gz", gzX);
#endif
#endif
