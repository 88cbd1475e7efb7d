// cont <script> <out.ndjson> <progress>: sessions on the library's containers
//   case <id> <kind> <slots> <variant>
//   <op> a b x y [list...]
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>
#include <tdzdd/util/MyVector.hpp>
#include <tdzdd/util/MyHashTable.hpp>
#include <tdzdd/util/MyList.hpp>
#include <tdzdd/util/MemoryPool.hpp>
#include <tdzdd/util/MySet.hpp>
#include <tdzdd/util/IntSubset.hpp>
#include <tdzdd/dd/DataTable.hpp>
using namespace tdzdd;
typedef std::vector<long> L;
static std::string arr(L const& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
template<typename V> std::string arr2(V const& v) {
    std::string s = "[";
    bool f = true;
    for (auto const& x : v) { if (!f) s += ","; f = false; s += arr(x); }
    return s + "]";
}
static void die(std::string const& w) { fprintf(stderr, "harness: %s\n", w.c_str()); exit(3); }
static L ints(std::string const& t) {          // numbers in a printed text
    L v; std::string cur;
    for (char c : t + " ") {
        if (isdigit(c) || (c == '-' && cur.empty())) cur += c;
        else if (!cur.empty()) { v.push_back(atol(cur.c_str())); cur.clear(); }
    }
    return v;
}
struct Ev {
    std::string op; int a, b; long x, y; L q;
    long r, live; bool exc; L s; std::vector<L> t; L u;
    Ev() : a(1), b(1), x(0), y(0), r(0), live(0), exc(false) {}
    std::string json() const {
        std::ostringstream o;
        o << "{\"o\":\"" << op << "\",\"a\":" << a << ",\"b\":" << b << ",\"x\":" << x << ",\"y\":" << y << ",\"q\":" << arr(q)
          << ",\"r\":" << r << ",\"live\":" << live << ",\"exc\":" << (exc ? "true" : "false") << ",\"s\":" << arr(s) << ",\"t\":" << arr2(t) << ",\"u\":" << arr(u) << "}";
        return o.str();
    }
};
struct Kind { virtual ~Kind() {} virtual void exec(Ev&) = 0; };

// an element that owns memory and knows whether it is alive
struct Item {
    static std::set<Item const*> all;
    static long faults;
    long* p;
    void born() { if (!all.insert(this).second) ++faults; }
    void use() const { if (!all.count(this)) ++faults; }
    Item() : p(new long(0)) { born(); }
    Item(long v) : p(new long(v)) { born(); }
    Item(Item const& o) : p(0) { o.use(); p = new long(*o.p); born(); }
    Item& operator=(Item const& o) { use(); o.use(); long v = *o.p; delete p; p = new long(v); return *this; }
    ~Item() { if (!all.erase(this)) ++faults; else delete p; }
    long v() const { use(); return *p; }
    size_t hash() const { return size_t(v()); }
    bool operator==(Item const& o) const { return v() == o.v(); }
    bool operator!=(Item const& o) const { return v() != o.v(); }
    friend std::ostream& operator<<(std::ostream& os, Item const& o) { return os << o.v(); }
};
std::set<Item const*> Item::all;
long Item::faults = 0;

// elements: Item, or a plain integer (which no constructor initialises by itself)
static long val(Item const& x) { return x.v(); }
struct Plain {
    long x;
    Plain() = default;
    Plain(long v) : x(v) {}
    size_t hash() const { return size_t(x); }
    bool operator==(Plain const& o) const { return x == o.x; }
    bool operator!=(Plain const& o) const { return x != o.x; }
    friend std::ostream& operator<<(std::ostream& os, Plain const& o) { return os << o.x; }
};
static long val(Plain const& p) { return p.x; }
template<typename Sz, typename El = Item> struct Vec : Kind {
    typedef MyVector<El, Sz> V;
    std::vector<std::unique_ptr<V> > s;
    Vec(int n) { Item::faults = 0; for (int i = 0; i < n; ++i) s.emplace_back(new V()); }
    void see(V& v, Ev& e) { e.s.clear(); for (Sz i = 0; i < v.size(); ++i) e.s.push_back(val(v[i])); e.u.clear(); e.u.push_back(v.size()); e.u.push_back(v.empty()); e.u.push_back(v.capacity() >= v.size()); }
    void exec(Ev& e) {
        V& A = *s[e.a - 1]; V& B = *s[e.b - 1];
        std::string const& o = e.op;
        if (o == "new") { if (e.x < 0) s[e.a - 1].reset(new V()); else s[e.a - 1].reset(new V(Sz(e.x))); }
        else if (o == "newv") s[e.a - 1].reset(new V(Sz(e.x), El(e.y)));
        else if (o == "copy") s[e.a - 1].reset(new V(B));
        else if (o == "asg") A = B;
        else if (o == "std") { std::vector<long> w(e.q.begin(), e.q.end()); if (e.x) s[e.a - 1].reset(new V(w)); else A = w; }
        else if (o == "swap") A.swap(B);
        else if (o == "rsv") { A.reserve(Sz(e.x)); e.r = A.capacity() >= Sz(e.x); }
        else if (o == "init") A.init(Sz(e.x));
        else if (o == "rsz") A.resize(Sz(e.x));
        else if (o == "er1") { El* p = A.erase(A.begin() + e.x); e.r = p - A.begin(); }
        else if (o == "er2") { El* p = A.erase(A.begin() + e.x, A.begin() + e.y); e.r = p - A.begin(); }
        else if (o == "clr") A.clear();
        else if (o == "push") A.push_back(El(e.x));
        else if (o == "pusho") A.push_back(A[Sz(e.x)]);
        else if (o == "pushn") for (long i = 0; i < e.x; ++i) A.push_back(El(e.y + i));
        else if (o == "pop") A.pop_back();
        else if (o == "set") { if (e.y & 1) A[Sz(e.x)] = El(e.y); else *(A.data() + e.x) = El(e.y); }
        else if (o == "back") { V const& c = A; e.r = val(e.x ? A.back() : c.back()); }
        else if (o == "eq") e.r = A == B;
        else if (o == "hash") e.r = A.hash() == B.hash();
        else if (o == "it") {
            V const& c = A; L f, r, rc;
            for (typename V::iterator t = A.begin(); t != A.end(); ++t) f.push_back(val(*t));
            for (typename V::reverse_iterator t = A.rbegin(); t != A.rend(); ++t) r.push_back(val(*t));
            L g; for (typename V::const_iterator t = c.begin(); t != c.end(); ++t) g.push_back(val(*t));
            for (typename V::const_reverse_iterator t = c.rbegin(); t != c.rend(); ++t) rc.push_back(val(*t));
            e.t.push_back(f); e.t.push_back(g); e.t.push_back(r); e.t.push_back(rc);
            std::ostringstream os; os << c; e.t.push_back(ints(os.str()));
        }
        else if (o == "see") {}
        else die(o);
        see(*s[e.a - 1], e);
        e.live = Item::faults ? -Item::faults : long(Item::all.size());
        if (std::is_same<El, Plain>::value) for (auto& x : s) e.live += x->size();
    }
};

struct Pay {                       // equality looks at the key only
    long k, v;
    Pay(long k = 0, long v = 0) : k(k), v(v) {}
    bool operator==(Pay const& o) const { return k == o.k; }
};
template<int M> struct PayHash {
    int salt;
    PayHash(int salt = 7) : salt(salt) {}
    size_t operator()(Pay const& p) const { return M == 0 ? 67872541ULL - 1 - p.k % 3 /* the last slots of every small table */ : M == 1 ? p.k * 314159257ULL : size_t(p.k) / 4 + salt; }
    bool operator()(Pay const& p, Pay const& q) const { return p.k == q.k; }
};
template<int M> struct Tab : Kind {
    typedef MyHashTable<Pay, PayHash<M>, PayHash<M> > T;
    std::vector<std::unique_ptr<T> > s;
    Tab(int n) { for (int i = 0; i < n; ++i) s.emplace_back(new T(PayHash<M>(3), PayHash<M>(3))); }
    void exec(Ev& e) {
        T& A = *s[e.a - 1]; T& B = *s[e.b - 1];
        std::string const& o = e.op;
        if (o == "new") { if (e.x < 0) s[e.a - 1].reset(new T(PayHash<M>(3), PayHash<M>(3))); else s[e.a - 1].reset(new T(size_t(e.x), PayHash<M>(3), PayHash<M>(3))); }
        else if (o == "copy") { if (e.x < 0) s[e.a - 1].reset(new T(B)); else s[e.a - 1].reset(new T(B, size_t(e.x))); }
        else if (o == "asg") A = B;
        else if (o == "mov") A.moveAssign(B);
        else if (o == "add") { Pay& p = A.add(Pay(e.x, e.y)); e.r = p.v; if (p.k != e.x) e.r = -1; }
        else if (o == "addn") { for (long i = 0; i < e.x; ++i) e.r += A.add(Pay(e.y + i * e.q[0], i % 97)).v == i % 97; }
        else if (o == "getn") { for (long i = 0; i < e.x; ++i) if (Pay* p = A.get(Pay(e.y + i, 0))) e.r += p->k == e.y + i; }
        else if (o == "put") { Pay& p = A.add(Pay(e.x, e.y)); p.v = e.y; e.r = p.v; }
        else if (o == "get") { Pay* p = A.get(Pay(e.x, 0)); e.r = p ? (p->k == e.x ? p->v : -2) : -1; }
        else if (o == "clr") A.clear();
        else if (o == "ini") A.initialize(size_t(e.x));
        else if (o == "reh") { if (e.x < 0) A.rehash(); else A.rehash(size_t(e.x)); }
        else if (o == "see") {}
        else die(o);
        T& Z = *s[e.a - 1]; T const& C = Z;
        if (e.x & 1) for (typename T::iterator t = Z.begin(); t != Z.end(); ++t) e.t.push_back(L{t->k, (*t).v});
        else for (typename T::const_iterator t = C.begin(); t != C.end(); ++t) e.t.push_back(L{t->k, (*t).v});
        e.u = L{long(Z.size()), Z.empty()};
    }
};
template<int M> struct KeyHash {
    size_t operator()(long k) const { return M == 0 ? 67872541ULL - 1 - k % 2 : k * 314159257ULL; }
    bool operator()(long a, long b) const { return a == b; }
};
template<int M> struct Map : Kind {
    typedef MyHashMap<long, long, KeyHash<M>, KeyHash<M> > T;
    std::vector<std::unique_ptr<T> > s;
    Map(int n) { for (int i = 0; i < n; ++i) s.emplace_back(new T()); }
    void exec(Ev& e) {
        T& A = *s[e.a - 1]; T& B = *s[e.b - 1];
        std::string const& o = e.op;
        if (o == "new") { if (e.x < 0) s[e.a - 1].reset(new T()); else s[e.a - 1].reset(new T(size_t(e.x))); }
        else if (o == "copy") { if (e.x < 0) s[e.a - 1].reset(new T(B)); else s[e.a - 1].reset(new T(B, size_t(e.x))); }
        else if (o == "asg") A = B;
        else if (o == "mov") A.moveAssign(B);
        else if (o == "add") e.r = A.add(typename T::Entry(e.x, e.y)).value;
        else if (o == "addn") { for (long i = 0; i < e.x; ++i) e.r += A.add(typename T::Entry(e.y + i * e.q[0], i % 97)).value == i % 97; }
        else if (o == "getn") { for (long i = 0; i < e.x; ++i) if (long* p = A.getValue(e.y + i)) e.r += *p >= 0; }
        else if (o == "put") { A[e.x] = e.y; e.r = A[e.x]; }
        else if (o == "get") { long* p = A.getValue(e.x); e.r = p ? *p : -1; }
        else if (o == "clr") A.clear();
        else if (o == "ini") A.initialize(size_t(e.x));
        else if (o == "reh") { if (e.x < 0) A.rehash(); else A.rehash(size_t(e.x)); }
        else if (o == "see") {}
        else die(o);
        T& Z = *s[e.a - 1]; T const& C = Z;
        if (e.x & 1) for (typename T::iterator t = Z.begin(); t != Z.end(); ++t) e.t.push_back(L{t->key, (*t).value});
        else for (typename T::const_iterator t = C.begin(); t != C.end(); ++t) e.t.push_back(L{t->key, (*t).value});
        e.u = L{long(Z.size()), Z.empty()};
    }
};

struct Tri { int a, b, c; Tri(long v = 0) : a(v), b(v + 1), c(v + 2) {} operator long() const { return b == a + 1 && c == a + 2 ? a : -77; }
    friend std::ostream& operator<<(std::ostream& os, Tri const& t) { return os << long(t); } };
template<typename T> long asl(T const& t) { return long(t); }
template<typename T, typename LI> void seeList(LI& A, Ev& e, std::map<void const*, size_t> const& len) {
    LI const& C = A;
    if (e.y & 1) for (typename LI::iterator t = A.begin(); t != A.end(); ++t) { L b; for (size_t i = 0; i < len.at(*t); ++i) b.push_back(asl((*t)[i])); e.t.push_back(b); }
    else for (typename LI::const_iterator t = C.begin(); t != C.end(); ++t) { L b; for (size_t i = 0; i < len.at(*t); ++i) b.push_back(asl((*t)[i])); e.t.push_back(b); }
    e.u = L{long(A.size()), A.empty()};
    if (!A.empty()) { e.u.push_back(asl(*A.front())); e.u.push_back(asl(*C.front())); }
}
template<typename T> void fill(T* p, L const& q) { for (size_t i = 0; i < q.size(); ++i) new (p + i) T(q[i]); }
template<typename T, size_t BL> struct Lst : Kind {
    typedef MyList<T, BL> LI;
    std::vector<std::unique_ptr<LI> > s;
    std::map<void const*, size_t> len;
    Lst(int n) { for (int i = 0; i < n; ++i) s.emplace_back(new LI()); }
    void exec(Ev& e) {
        LI& A = *s[e.a - 1]; LI& B = *s[e.b - 1];
        std::string const& o = e.op;
        try {
            if (o == "alln") { for (long i = 0; i < e.x; ++i) { T* p = A.alloc_front(); e.r += p == A.front(); len[p] = 1; new (p) T(1 + i % 100); } }
            else if (o == "popn") { for (long i = 0; i < e.x; ++i) A.pop_front(); }
            else if (o == "all") { T* p = e.q.size() == 1 && (e.x & 1) ? A.alloc_front() : A.alloc_front(e.q.size()); e.r = p == A.front(); len[p] = e.q.size(); fill(p, e.q); }
            else if (o == "pop") A.pop_front();
            else if (o == "clr") A.clear();
            else if (o == "asg") A = B;
            else if (o == "copy") { LI* n = new LI(B); s[e.a - 1].reset(n); }
            else if (o == "see") {}
            else die(o);
        } catch (std::runtime_error&) { e.exc = true; }
        seeList<T>(*s[e.a - 1], e, len);
    }
};
template<typename T> struct PList : Kind {
    typedef MyListOnPool<T> LI;
    MemoryPool pool;
    std::vector<std::unique_ptr<LI> > s;
    std::map<void const*, size_t> len;
    PList(int n) { for (int i = 0; i < n; ++i) s.emplace_back(new LI()); }
    void exec(Ev& e) {
        LI& A = *s[e.a - 1]; LI& B = *s[e.b - 1];
        std::string const& o = e.op;
        try {
            if (o == "alln") { for (long i = 0; i < e.x; ++i) { T* p = A.alloc_front(pool); e.r += p == A.front(); len[p] = 1; new (p) T(1 + i % 100); } }
            else if (o == "popn") { for (long i = 0; i < e.x; ++i) A.pop_front(); }
            else if (o == "all") { T* p = e.q.size() == 1 && (e.x & 1) ? A.alloc_front(pool) : A.alloc_front(pool, e.q.size()); e.r = p == A.front(); len[p] = e.q.size(); fill(p, e.q); }
            else if (o == "pop") A.pop_front();
            else if (o == "clr") A.clear();
            else if (o == "asg") A = B;
            else if (o == "copy") { LI* n = new LI(B); s[e.a - 1].reset(n); }
            else if (o == "see") {}
            else die(o);
        } catch (std::runtime_error&) { e.exc = true; }
        seeList<T>(*s[e.a - 1], e, len);
    }
};

struct Pool : Kind {
    struct Reg { char* p; size_t n; int slot; };
    MemoryPools s;
    std::map<long, Reg> live;
    long id;
    Pool(int n) : id(0) { s.resize(n); }
    void drop(int a) { for (auto t = live.begin(); t != live.end();) if (t->second.slot == a) live.erase(t++); else ++t; }
    void exec(Ev& e) {
        MemoryPool& A = s[e.a - 1]; MemoryPool& B = s[e.b - 1];
        std::string const& o = e.op;
        if (o == "all") {
            char* p = e.y == 1 ? reinterpret_cast<char*>(A.allocate<uint64_t>(e.x)) : e.y == 2 ? A.allocate<char>(e.x) : e.y == 3 ? A.allocator<char>().allocate(e.x) : static_cast<char*>(A.alloc(e.x));
            size_t n = e.y == 1 ? e.x * 8 : e.x;
            ++id;
            live[id] = Reg{p, n, e.a};
            e.r = reinterpret_cast<size_t>(p) % sizeof(void*);
            for (size_t i = 0; i < n; ++i) p[i] = char(id * 31 + i);
        }
        else if (o == "reu") { A.reuse(); drop(e.a); }
        else if (o == "clr") { A.clear(); drop(e.a); }
        else if (o == "spl") { A.splice(B); for (auto& t : live) if (t.second.slot == e.b) t.second.slot = e.a; }
        else if (o == "mov") { A.moveFrom(B); for (auto& t : live) if (t.second.slot == e.b) t.second.slot = e.a; }
        else if (o == "grow") s.resize(s.size() + e.x);
        else if (o == "rsv") s.reserve(s.capacity() + e.x);
        else if (o == "see") {}
        else die(o);
        std::vector<char*> ends;
        for (auto& t : live) { ends.push_back(t.second.p); ends.push_back(t.second.p + t.second.n); }
        std::sort(ends.begin(), ends.end());
        ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
        auto rank = [&](char* p) { return long(std::lower_bound(ends.begin(), ends.end(), p) - ends.begin()); };
        for (auto& t : live) {
            bool ok = true;
            for (size_t i = 0; i < t.second.n; ++i) if (t.second.p[i] != char(t.first * 31 + i)) ok = false;
            e.t.push_back(L{t.first, rank(t.second.p), rank(t.second.p + t.second.n), ok, t.second.slot});
        }
        e.u = L{s[e.a - 1].empty(), s[e.b - 1].empty()};
    }
};

struct BitOps { virtual ~BitOps() {} };
template<typename BS> void bitExec(Ev& e, BS& A, BS& B) {
    std::string const& o = e.op;
    if (o == "add") A.add(e.x);
    else if (o == "rem") A.remove(e.x);
    else if (o == "pull") A.pullout(e.x);
    else if (o == "clr") A.clear();
    else if (o == "has") e.r = A.includes(e.x);
    else if (o == "meet") e.r = A.intersects(B);
    else if (o == "eq") e.r = A == B;
    else if (o == "hash") e.r = A.hash() == B.hash();
    else if (o == "see") {}
    else die(o);
    for (typename BS::const_iterator t = A.begin(); t != A.end(); ++t) e.s.push_back(*t);
    std::ostringstream os; os << A;
    e.t.push_back(ints(os.str()));
    e.u = L{A.empty(), long(A.numWords())};
}
template<int N> struct Bit : Kind {
    std::vector<MyBitSet<N> > s;
    Bit(int n) : s(n) {}
    void exec(Ev& e) {
        MyBitSet<N>& A = s[e.a - 1]; MyBitSet<N>& B = s[e.b - 1];
        if (e.op == "asg") { A = B; e.op = "see"; bitExec(e, A, B); e.op = "asg"; return; }
        bitExec(e, A, B);
    }
};
struct BitP : Kind {
    MemoryPool pool;
    std::vector<MyBitSetOnPool*> s;
    std::vector<uint64_t*> guard;
    BitP(int n, int bits) {
        for (int i = 0; i < n; ++i) { s.push_back(MyBitSetOnPool::newInstance(pool, bits)); guard.push_back(pool.allocate<uint64_t>()); *guard.back() = 0x1234567812345678ULL; }
    }
    void exec(Ev& e) {
        bitExec<MyBitSet<0> >(e, *s[e.a - 1], *s[e.b - 1]);
        for (auto g : guard) if (*g != 0x1234567812345678ULL) e.live = -1;
    }
};
template<typename SS> void smallExec(Ev& e, SS& A, SS& B) {
    std::string const& o = e.op;
    std::vector<long> w(e.q.begin(), e.q.end());
    try {
        if (o == "add") A.add(e.x);
        else if (o == "rem") A.remove(e.x);
        else if (o == "clr") A.clear();
        else if (o == "has") e.r = A.includes(e.x);
        else if (o == "meet") e.r = A.intersects(B);
        else if (o == "meetq") e.r = A.intersects(w);
        else if (o == "equ") e.r = A.equals(B);
        else if (o == "equq") e.r = A.equals(w);
        else if (o == "con") e.r = A.containsAll(B);
        else if (o == "conq") e.r = A.containsAll(w);
        else if (o == "eq") e.r = A == B;
        else if (o == "hash") e.r = A.hash() == B.hash();
        else if (o == "see" || o == "asg") {}
        else die(o);
    } catch (std::out_of_range&) { e.exc = true; }
    for (typename SS::const_iterator t = A.begin(); t != A.end(); ++t) e.s.push_back(*t);
    L r, g;
    for (typename SS::const_reverse_iterator t = A.rbegin(); t != A.rend(); ++t) r.push_back(*t);
    for (size_t i = 0; i < A.size(); ++i) g.push_back(A.get(i));
    std::ostringstream os; os << A;
    e.t.push_back(ints(os.str())); e.t.push_back(r); e.t.push_back(g);
    e.u = L{A.empty(), long(A.size())};
}
template<typename T, int N> struct Small : Kind {
    struct G { MySmallSet<T, N> x; uint64_t g; G() : g(77) {} };
    std::vector<G> s;
    Small(int n) : s(n) {}
    void exec(Ev& e) {
        if (e.op == "asg") s[e.a - 1].x = s[e.b - 1].x;
        smallExec(e, s[e.a - 1].x, s[e.b - 1].x);
        for (auto& g : s) if (g.g != 77) e.live = -1;
    }
};
struct SmallP : Kind {
    MemoryPool pool;
    std::vector<MySmallSetOnPool<long>*> s;
    std::vector<uint64_t*> guard;
    SmallP(int n, int cap) {
        for (int i = 0; i < n; ++i) {
            if (i & 1) s.push_back(MySmallSetOnPool<long>::newInstance(pool, size_t(cap))); else s.push_back(MySmallSetOnPool<long>::newInstance(pool, cap));
            guard.push_back(pool.allocate<uint64_t>()); *guard.back() = 0x1234567812345678ULL;
        }
    }
    void exec(Ev& e) {
        if (e.op == "from") { std::vector<long> w(e.q.begin(), e.q.end()); s[e.a - 1] = MySmallSetOnPool<long>::newInstance(pool, w);
            guard.push_back(pool.allocate<uint64_t>()); *guard.back() = 0x1234567812345678ULL; e.op = "see"; smallExec<MySmallSet<long, 0> >(e, *s[e.a - 1], *s[e.b - 1]); e.op = "from"; }
        else smallExec<MySmallSet<long, 0> >(e, *s[e.a - 1], *s[e.b - 1]);
        for (auto g : guard) if (*g != 0x1234567812345678ULL) e.live = -1;
    }
};
struct DTab : Kind {
    typedef DataTable<Item> T;
    std::vector<std::unique_ptr<T> > s;
    DTab(int n) { Item::faults = 0; for (int i = 0; i < n; ++i) s.emplace_back(new T()); }
    void exec(Ev& e) {
        T& A = *s[e.a - 1]; T& B = *s[e.b - 1];
        std::string const& o = e.op;
        if (o == "new") s[e.a - 1].reset(new T(e.x));
        else if (o == "copy") s[e.a - 1].reset(new T(B));
        else if (o == "asg") A = B;
        else if (o == "init") A.init(e.x);
        else if (o == "rows") A.setNumRows(e.x);
        else if (o == "row") A.initRow(e.x, e.y);
        else if (o == "col") e.r = A.addColumn(e.x);
        else if (o == "set") A[e.x][e.q[0]] = Item(e.y);
        else if (o == "see") {}
        else die(o);
        T const& Z = *s[e.a - 1];
        for (int i = 0; i < Z.numRows(); ++i) { L r; for (size_t j = 0; j < Z[i].size(); ++j) r.push_back(Z[i][j].v()); e.t.push_back(r); }
        std::ostringstream os; os << Z;
        e.s = ints(os.str());
        e.u = L{Z.numRows(), long(Z.totalSize())};
        e.live = Item::faults ? -Item::faults : long(Item::all.size());
    }
};
struct Range : Kind {
    void exec(Ev& e) {
        IntRange d; std::unique_ptr<IntRange> r;
        if (e.q.size() == 0) r.reset(new IntRange()); else if (e.q.size() == 1) r.reset(new IntRange(e.q[0])); else if (e.q.size() == 2) r.reset(new IntRange(e.q[0], e.q[1])); else r.reset(new IntRange(e.q[0], e.q[1], e.q[2]));
        IntSubset const& s = *r;
        e.r = s.contains(e.x);
        e.u = L{s.lowerBound(), s.upperBound()};
    }
};
static Kind* make(std::string const& k, int n, int v) {
    if (k == "vec") { if (v == 3) return new Vec<size_t, Plain>(n); if (v == 4) return new Vec<int, Plain>(n); if (v == 1) return new Vec<int>(n); if (v == 2) return new Vec<unsigned short>(n); return new Vec<size_t>(n); }
    if (k == "tab") { if (v == 0) return new Tab<0>(n); if (v == 1) return new Tab<1>(n); return new Tab<2>(n); }
    if (k == "map") { if (v == 0) return new Map<0>(n); return new Map<1>(n); }
    if (k == "list") switch (v) { case 0: return new Lst<long, 1000>(n); case 1: return new Lst<long, 1>(n); case 2: return new Lst<long, 3>(n); case 3: return new Lst<char, 2>(n); case 4: return new Lst<Tri, 4>(n); default: return new Lst<int, 5>(n); }
    if (k == "plist") switch (v) { case 0: return new PList<long>(n); case 1: return new PList<char>(n); default: return new PList<Tri>(n); }
    if (k == "pool") return new Pool(n);
    if (k == "bit") switch (v) { case 1: return new Bit<1>(n); case 2: return new Bit<2>(n); case 3: return new Bit<3>(n); case 64: case 128: case 192: return new BitP(n, v); default: die("bit"); }
    if (k == "small") switch (v) { case 2: return new Small<int, 2>(n); case 4: return new Small<long, 4>(n); case 9: return new Small<short, 9>(n); default: return new SmallP(n, v - 100); }
    if (k == "dtab") return new DTab(n);
    if (k == "range") return new Range();
    die("kind " + k);
    return 0;
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    FILE* prog = fopen(argv[3], "w");
    std::string line, head, evs;
    std::unique_ptr<Kind> z;
    auto flush = [&]() {
        z.reset();
        if (!head.empty()) out << head << evs << "],\"left\":" << Item::all.size() << ",\"faults\":" << Item::faults << "}\n";
        evs.clear();
    };
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        std::vector<std::string> t; std::string q;
        while (ss >> q) t.push_back(q);
        if (t.empty()) continue;
        if (t[0] == "case") {
            flush();
            rewind(prog); fprintf(prog, "%-40s\n", t[1].c_str()); fflush(prog);
            z.reset(make(t[2], atoi(t[3].c_str()), atoi(t[4].c_str())));
            head = "{\"id\":\"" + t[1] + "\",\"kind\":\"" + t[2] + "\",\"n\":" + t[3] + ",\"v\":" + t[4] + ",\"ev\":[";
            continue;
        }
        Ev e;
        e.op = t[0]; e.a = atoi(t[1].c_str()); e.b = atoi(t[2].c_str()); e.x = atol(t[3].c_str()); e.y = atol(t[4].c_str());
        for (size_t i = 5; i < t.size(); ++i) e.q.push_back(atol(t[i].c_str()));
        z->exec(e);
        evs += (evs.empty() ? "" : ",") + e.json();
    }
    flush();
    out.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    return 0;
}
