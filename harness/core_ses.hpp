// Session interpreter for one arity: executes operations of a script on the
// real DdStructure<A> and records what an API user can observe.
#pragma once
#include "tabspec.hpp"
#include <algorithm>
#include <thread>
#ifdef _OPENMP
#include <omp.h>
#endif

// allocation accounting (memtag.cpp, optional): blocks allocated while the tag
// is set belong to the library
extern "C" void vp_memtag(int on);
extern "C" long vp_memlive();
struct MemTag { MemTag() { vp_memtag(1); } ~MemTag() { vp_memtag(0); } };

struct Json {
    std::string s; bool first;
    Json() : s("{"), first(true) {}
    void key(char const* k) { if (!first) s += ","; first = false; s += "\""; s += k; s += "\":"; }
    Json& i(char const* k, long v) { key(k); s += std::to_string(v); return *this; }
    Json& b(char const* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    Json& str(char const* k, std::string const& v) {
        key(k); s += "\"";
        for (size_t i = 0; i < v.size(); ++i) {
            char c = v[i];
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if (c == '\n') s += "\\n";
            else if ((unsigned char)c < 32) s += ' ';
            else s += c;
        }
        s += "\""; return *this;
    }
    Json& raw(char const* k, std::string const& v) { key(k); s += v; return *this; }
    std::string done() { return s + "}"; }
};

template<typename V> std::string jarr(V const& v) {
    std::string s = "[";
    bool f = true;
    for (auto const& x : v) { if (!f) s += ","; f = false; s += std::to_string(long(x)); }
    return s + "]";
}
// decimal string -> little-endian base-10000 digits (TLC integers are 32 bit)
inline std::string jdigits(std::string const& d) {
    std::vector<int> v;
    for (char c : d) if (c < '0' || c > '9') return "[-1]";
    if (d.empty()) return "[-1]";
    if (d.size() > 1 && d[0] == '0') return "[-2]";   // not canonical
    for (long e = long(d.size()); e > 0; e -= 4) {
        long b = std::max(0L, e - 4);
        v.push_back(atoi(d.substr(b, e - b).c_str()));
    }
    while (!v.empty() && v.back() == 0) v.pop_back();
    return jarr(v);
}

// ---- evaluator that records the evaluation protocol -----------------------
struct EvLog {
    std::mutex m; std::vector<std::string> ev; std::atomic<long> tag; std::atomic<long> stale;
    std::set<std::thread::id> thr;
    std::map<void const*, int> who;              // evaluator objects
    int inst(void const* p) { return who.insert(std::make_pair(p, int(who.size()))).first->second; }
    void reset() { ev.clear(); tag = 0; stale = 0; thr.clear(); who.clear(); }
};
extern EvLog g_ev;
struct TagVal {
    long tag;
    TagVal() : tag(-1) {}
    TagVal(TagVal const& o) : tag(o.tag) {}
    ~TagVal() { tag = -777; }
};
template<int A>
struct TagEval: tdzdd::DdEval<TagEval<A>, TagVal, long> {
    Busy busy;                                   // every thread has an evaluator of its own
    bool safe; long inits; int lastInit;
    TagEval(bool safe) : safe(safe), inits(0), lastInit(-1) {}
    bool isThreadSafe() const { return safe; }
    void initialize(int level) { ++inits; lastInit = level; }
    void evalTerminal(TagVal& v, int id) {
        std::lock_guard<std::mutex> g(g_ev.m);
        v.tag = id;
    }
    void evalNode(TagVal& v, int level, tdzdd::DdValues<TagVal, A> const& values) {
        Using use(busy);
        std::lock_guard<std::mutex> g(g_ev.m);
        v.tag = 2 + g_ev.tag++;
        g_ev.thr.insert(std::this_thread::get_id());
        std::string s = "[0," + std::to_string(v.tag) + "," + std::to_string(level)
            + "," + std::to_string(inits == 1 ? lastInit : -1);
        for (int b = 0; b < A; ++b) s += "," + std::to_string(values.get(b).tag);
        for (int b = 0; b < A; ++b) s += "," + std::to_string(values.getLevel(b));
        g_ev.ev.push_back(s + "," + std::to_string(g_ev.inst(this)) + "]");
    }
    void destructLevel(int i) {
        std::lock_guard<std::mutex> g(g_ev.m);
        g_ev.ev.push_back("[1," + std::to_string(i) + "," + std::to_string(g_ev.inst(this)) + "]");
    }
    long getValue(TagVal const& v) { return v.tag; }
};

typedef std::vector<std::string> Args;
typedef std::vector<std::string> Out;

// Heavy template code lives in separately compiled feature units (core_f.cpp),
// which register themselves here: a check links only the features it needs.
template<int A> struct Ses;
template<int A> struct Feat {
    typedef void (*Fn)(Ses<A>&, Args const&, Json&);
    static std::map<std::string, Fn>& tab() { static std::map<std::string, Fn> t; return t; }
};

template<int A>
struct Ses {
    typedef tdzdd::DdStructure<A> DD;
    std::map<std::string, TabP> tabs;
    std::map<std::string, std::shared_ptr<DD> > regs;

    DD& R(std::string const& k) { return *regs.at(k); }
    TabP T(std::string const& k) { return tabs.at(k); }

    // rows sorted bottom-up, ids 0/1 terminals; rooted at the handle's root
    std::string dump(DD const& d) {
        typedef std::pair<long, long> P;
        std::map<P, int> id; std::vector<P> q;
        tdzdd::NodeId r = d.root();
        std::vector<tdzdd::NodeId> st;
        if (r.row() > 0) { q.push_back(P(r.row(), r.col())); st.push_back(r); id[q[0]] = 0; }
        long limit = 4000000;
        while (!st.empty() && limit-- > 0) {
            tdzdd::NodeId f = st.back(); st.pop_back();
            for (int b = 0; b < A; ++b) {
                tdzdd::NodeId c = d.child(f, b);
                if (c.row() == 0) continue;
                P p(c.row(), c.col());
                if (id.insert(std::make_pair(p, 0)).second) { q.push_back(p); st.push_back(c); }
            }
        }
        std::sort(q.begin(), q.end());
        for (size_t k = 0; k < q.size(); ++k) id[q[k]] = int(k) + 2;
        auto code = [&](tdzdd::NodeId f) -> long {
            return f.row() == 0 ? long(f.col()) : long(id[P(f.row(), f.col())]);
        };
        std::string s = "[";
        for (size_t k = 0; k < q.size(); ++k) {
            if (k) s += ",";
            s += "[" + std::to_string(q[k].first);
            for (int b = 0; b < A; ++b)
                s += "," + std::to_string(code(d.child(tdzdd::NodeId(q[k].first, q[k].second), b)));
            s += "]";
        }
        s += "]";
        // where 0-decisions lead: from the root down to each level, and from every edge to the bottom
        std::string z = "[", z0 = "[";
        if (q.size() <= 60) {
            tdzdd::NodeTableEntity<A> const& t = *d.getDiagram();
            for (int k = 0; k <= r.row(); ++k) z += (k ? "," : "") + std::to_string(code(t.getZeroDescendant(r, k)));
            for (size_t k = 0; k < q.size(); ++k) {
                z0 += k ? ",[" : "[";
                for (int b = 0; b < A; ++b)
                    z0 += (b ? "," : "") + std::to_string(code(t.getZeroDescendant(d.child(tdzdd::NodeId(q[k].first, q[k].second), b), 0)));
                z0 += "]";
            }
        }
        Json j;
        j.raw("zd", z + "]").raw("zn", z0 + "]").i("root", code(r)).raw("nodes", s).i("size", long(d.size())).i("top", d.topLevel()).b("empty", d.empty());
        return j.done();
    }
    void obs(Json& j, std::string const& r) { vp_memtag(0); j.raw("d", dump(R(r))); }

    template<typename S> void build(std::string const& r, S const& s, bool mp) {
        if (mp) regs[r] = std::make_shared<DD>(s, true);
        else regs[r] = std::make_shared<DD>(s);
    }
    bool feat(std::string const& k, Args const& a, Json& j) {
        typename std::map<std::string, typename Feat<A>::Fn>::iterator t = Feat<A>::tab().find(k);
        if (t == Feat<A>::tab().end()) return false;
        t->second(*this, a, j);
        return true;
    }
    static bool isOne(std::string const& s) { return s == "1"; }

    void exec(Args const& a, Out& out) {
        std::string const& c = a[0];
        if (c == "tab") {               // tab name root nstates {level c0.. }*
            auto t = std::make_shared<Tab>();
            size_t k = 2;
            t->root = atoi(a[k++].c_str());
            int m = atoi(a[k++].c_str());
            for (int i = 0; i < m; ++i) {
                std::vector<int> row;
                for (int b = 0; b <= A; ++b) row.push_back(atoi(a[k++].c_str()));
                t->st.push_back(row);
            }
            tabs[a[1]] = t;
            std::string s = "[";
            for (int i = 0; i < m; ++i) { if (i) s += ","; s += jarr(t->st[i]); }
            Json j; j.str("op", "tab").str("r", a[1]);
            Json d; d.i("root", t->root).raw("nodes", s + "]");
            j.raw("d", d.done());
            out.push_back(j.done());
            return;
        }
#ifdef _OPENMP
        if (c == "thr") { omp_set_num_threads(atoi(a[1].c_str())); return; }
#else
        if (c == "thr") return;
#endif
        std::string evn = c;
        if (c.substr(0, 5) == "build") evn = "build";
        else if (c.substr(0, 6) == "subset" && c != "subsetr") evn = "subset";
        else if (c.substr(0, 3) == "op_") evn = "op";
        Json j; j.str("op", evn);
        struct Tag { Tag() { vp_memtag(1); } ~Tag() { vp_memtag(0); } } tagOn;
        if (c == "univ") {       // univ r n mp
            regs[a[1]] = std::make_shared<DD>(atoi(a[2].c_str()), isOne(a[3]));
            j.str("r", a[1]).i("n", atoi(a[2].c_str())).b("mp", isOne(a[3]));
            obs(j, a[1]);
        } else if (c == "none") {       // default constructor
            regs[a[1]] = std::make_shared<DD>();
            j.str("r", a[1]); obs(j, a[1]);
        } else if (c == "copy") {       // copy construction
            regs[a[1]] = std::make_shared<DD>(DD(R(a[2])));
            j.str("r", a[1]).str("s", a[2]); obs(j, a[1]);
        } else if (c == "asg") {        // assignment (self assignment when equal)
            DD& x = R(a[1]); DD& y = R(a[2]);
            x = y;
            j.str("r", a[1]).str("s", a[2]); obs(j, a[1]);
        } else if (c == "swap") {
            std::swap(R(a[1]), R(a[2]));
            j.str("r", a[1]).str("s", a[2]); obs(j, a[1]);
            j.raw("d2", dump(R(a[2])));
        } else if (c == "drop") {
            regs.erase(a[1]); j.str("r", a[1]);
        } else if (c == "sub") {        // sub r s b1 b2 ..: the subdiagram at the end of a path
            DD x(R(a[2]));
            std::vector<int> path;
            for (size_t k = 3; k < a.size() && x.root().row() > 0; ++k) {
                int b = atoi(a[k].c_str()) % A;
                path.push_back(b);
                x.root() = x.child(x.root(), b);
            }
            regs[a[1]] = std::make_shared<DD>(x);
            j.str("r", a[1]).str("s", a[2]).raw("path", jarr(path)); obs(j, a[1]);
        } else if (c == "leak") {
            j.i("n", vp_memlive());
        } else if (c == "mp") {
            bool old = R(a[1]).useMultiProcessors(isOne(a[2]));
            j.str("r", a[1]).b("flag", isOne(a[2])).b("old", old);
        } else if (c == "red") {        // red r q|b|z
            j.str("r", a[1]).str("k", a[2]);
            DD& d = R(a[1]);
            if (a[2] == "q") d.qddReduce();
            else if (a[2] == "b") d.bddReduce();
            else d.zddReduce();
            obs(j, a[1]);
        } else if (c == "subsetr") {    // subset r by another DD
            j.str("r", a[1]).str("s", a[2]);
            R(a[1]).zddSubset(R(a[2]));
            obs(j, a[1]);
        } else if (c == "rebuild") {    // DD used as a spec
            j.str("r", a[1]).str("s", a[2]).b("mp", isOne(a[3]));
            std::shared_ptr<DD> p = std::make_shared<DD>(R(a[2]), isOne(a[3]));
            // (copy-constructs when mp is false in overload resolution: force the spec view)
            regs[a[1]] = p;
            obs(j, a[1]);
        } else if (c == "b2z" || c == "z2b") {
            int n = atoi(a[3].c_str());
            j.str("r", a[1]).str("s", a[2]).i("n", n);
            regs[a[1]] = std::make_shared<DD>(c == "b2z" ? R(a[2]).bdd2zdd(n) : R(a[2]).zdd2bdd(n));
            obs(j, a[1]);
        } else if (c == "eq") {
            bool e = R(a[1]) == R(a[2]), e2 = R(a[2]) == R(a[1]);
            bool ne = R(a[1]) != R(a[2]);
            j.str("r", a[1]).str("s", a[2]).b("e", e).b("f", e2).b("ne", ne);
        } else if (c == "card") {
            j.str("r", a[1]).raw("c", jdigits(R(a[1]).zddCardinality()));
        } else if (c == "bcard") {
            int n = atoi(a[2].c_str());
            j.str("r", a[1]).i("n", n).raw("c", jdigits(R(a[1]).bddCardinality(n)));
        } else if (c == "cardn") {      // numeric variants, small counts
            int n = atoi(a[2].c_str());
            DD const& d = R(a[1]);
            j.str("r", a[1]).i("n", n);
            j.raw("zi", jdigits(std::to_string(d.evaluate(tdzdd::ZddCardinality<int, A>()))));
            j.raw("zd", jdigits(std::to_string((long long)d.evaluate(tdzdd::ZddCardinality<double, A>()))));
            j.raw("bi", jdigits(std::to_string(d.evaluate(tdzdd::BddCardinality<int, A>(n)))));
            j.raw("bl", jdigits(std::to_string(d.evaluate(tdzdd::BddCardinality<long long, A>(n)))));
        } else if (c == "eval") {       // eval r safe
            vp_memtag(0);
            g_ev.reset();
            DD const& d = R(a[1]);
            TagEval<A> e(isOne(a[2]));
            long v = d.evaluate(e);
            j.str("r", a[1]).i("v", v).i("top", d.topLevel()).b("safe", isOne(a[2])).i("thr", long(g_ev.thr.size()));
            std::string s = "[";
            for (size_t k = 0; k < g_ev.ev.size(); ++k) { if (k) s += ","; s += g_ev.ev[k]; }
            j.raw("log", s + "]");
            obs(j, a[1]);
        } else if (c == "dump") {
            j.str("r", a[1]); obs(j, a[1]);
        } else if (c == "bad") {
            j.i("n", g_badCalls.exchange(0));
        } else if (!feat(c, a, j)) throw std::runtime_error("harness: unknown op " + c);
        vp_memtag(0);
        out.push_back(j.done());
    }
};

struct SesBase { virtual ~SesBase() {} virtual void exec(Args const& a, Out& o) = 0; };
template<int A> struct SesImpl: SesBase {
    Ses<A> s;
    void exec(Args const& a, Out& o) { s.exec(a, o); }
};
