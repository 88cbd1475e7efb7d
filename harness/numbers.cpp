// numbers <script> <out.ndjson> <progress>: big-number sessions
// case <id> <width> <slots> <nullmask>
#include <tdzdd/util/BigNumber.hpp>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <vector>
using namespace tdzdd;
typedef std::vector<std::string> Args;

// what translate<T>() needs; independent of the library
struct Bits {
    std::vector<bool> b;
    Bits(uint64_t v = 0) { while (v) { b.push_back(v & 1); v >>= 1; } }
    Bits& operator<<=(int k) { b.insert(b.begin(), k, false); return *this; }
    Bits& operator+=(uint64_t v) {
        Bits o(v);
        bool c = false;
        size_t n = std::max(b.size(), o.b.size()) + 1;
        b.resize(n);
        for (size_t i = 0; i < n; ++i) {
            int s = int(b[i]) + (i < o.b.size() ? int(o.b[i]) : 0) + c;
            b[i] = s & 1; c = s >> 1;
        }
        return *this;
    }
    std::vector<long> digits() const {
        std::vector<long> d((b.size() + 11) / 12);
        for (size_t i = 0; i < b.size(); ++i) if (b[i]) d[i / 12] |= 1L << (i % 12);
        return d;
    }
};
static std::string arr(std::vector<long> const& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
static std::string dec(std::string const& t) {
    std::vector<long> v;
    for (char c : t) v.push_back(c >= '0' && c <= '9' ? c - '0' : 99);
    return arr(v);
}
struct Ev {
    std::string op; int a = 1, b = 1; uint64_t n = 0, rem = 0; long k = 0, w = 0, g = 0; bool exc = false, r = false; Bits v; std::string d = "[]";
    std::string json() const {
        std::ostringstream s;
        s << "{\"op\":\"" << op << "\",\"a\":" << a << ",\"b\":" << b << ",\"n\":" << arr(Bits(n).digits()) << ",\"rem\":" << arr(Bits(rem).digits())
          << ",\"k\":" << k << ",\"w\":" << w << ",\"g\":" << g << ",\"exc\":" << (exc ? "true" : "false") << ",\"r\":" << (r ? "true" : "false")
          << ",\"v\":" << arr(v.digits()) << ",\"dec\":" << d << "}";
        return s.str();
    }
};
struct SesBase { virtual ~SesBase() {} virtual void exec(Args const&, Ev&) = 0; };

struct Free : SesBase {
    static size_t const CAP = 64;
    struct Slot { std::vector<uint64_t> mem; BigNumber x; bool null; };
    std::vector<Slot> s;
    Free(int n, int mask) : s(n) {
        for (int i = 0; i < n; ++i) {
            s[i].null = mask >> i & 1;
            if (s[i].null) { if (i & 1) s[i].x.setArray(0); continue; }
            s[i].mem.assign(CAP, canary());
            if (i & 1) s[i].x.setArray(s[i].mem.data()); else s[i].x = BigNumber(s[i].mem.data());
            s[i].x.store(uint64_t(0));
        }
    }
    static uint64_t canary() { return 0x5a5aa5a512345678ULL; }
    Bits read(Slot const& z) {       // the documented representation: 63 bits per word, top bit = more words
        Bits v;
        if (z.null) return v;
        std::vector<uint64_t> w;
        for (size_t i = 0; i < CAP; ++i) { w.push_back(z.mem[i]); if (!(z.mem[i] >> 63)) break; }
        for (size_t i = w.size(); i-- > 0;) { v <<= 63; v += w[i] & ~(uint64_t(1) << 63); }
        return v;
    }
    void exec(Args const& t, Ev& e) {
        Slot& A = s[e.a - 1]; Slot& B = s[e.b - 1];
        std::vector<std::vector<uint64_t> > before;
        for (auto& z : s) before.push_back(z.mem);
        std::string const& op = t[0];
        size_t old = A.x.size(), used = 0;
        try {
            if (op == "st") used = e.w = A.x.store(e.n);
            else if (op == "cp") used = e.w = A.x.store(B.x);
            else if (op == "add") used = e.w = A.x.add(B.x);
            else if (op == "div") { e.rem = A.x.divide(uint32_t(e.n)); used = old; e.w = A.x.size(); }
            else if (op == "shl") used = e.w = A.x.shiftLeft(e.k);
            else if (op == "eq") e.r = A.x == B.x;
            else if (op == "ne") e.r = A.x != B.x;
            else if (op == "eqn") e.r = A.x == e.n;
            else if (op == "nen") e.r = A.x != e.n;
            else if (op == "size") e.w = A.x.size();
            else if (op == "get") {}
            else if (op == "str") { if (e.k & 1) { std::string q = A.x; e.d = dec(q); } else { std::ostringstream o; o << A.x; e.d = dec(o.str()); } }
            else { fprintf(stderr, "harness: op %s\n", op.c_str()); exit(3); }
        } catch (std::runtime_error&) { e.exc = true; }
        if (op == "get" && !A.null) e.v = A.x.translate<Bits>(); else e.v = read(A);
        // memory outside the words of slot a must be untouched
        for (size_t i = 0; i < s.size(); ++i)
            for (size_t j = 0; j < s[i].mem.size(); ++j)
                if (s[i].mem[j] != before[i][j] && !(int(i) == e.a - 1 && j < std::max(used, old))) e.g = 1;
    }
};
template<int W> struct Fixed : SesBase {
    typedef FixedBigNumber<W> N;
    std::vector<N> s;
    Fixed(int n) : s(n) {}
    void exec(Args const& t, Ev& e) {
        N& A = s[e.a - 1]; N& B = s[e.b - 1];
        std::string const& op = t[0];
        bool shown = false;
        try {
            if (op == "st") { if (e.k & 1) A = N(uint32_t(e.n)); else A = uint32_t(e.n); }
            else if (op == "cp") A = B;
            else if (op == "add") A += B;
            else if (op == "sum") { N c = A + B; e.v = c.template translate<Bits>(); shown = true; }
            else if (op == "div") e.rem = A.divide(uint32_t(e.n));
            else if (op == "eq") e.r = A == B;
            else if (op == "ne") e.r = A != B;
            else if (op == "eqn") e.r = A == uint32_t(e.n);
            else if (op == "nen") e.r = A != uint32_t(e.n);
            else if (op == "get") {}
            else if (op == "str") { if (e.k & 1) { std::string q = A; e.d = dec(q); } else { std::ostringstream o; o << A; e.d = dec(o.str()); } }
            else { fprintf(stderr, "harness: op %s\n", op.c_str()); exit(3); }
        } catch (std::runtime_error&) { e.exc = true; }
        if (!shown) e.v = A.template translate<Bits>();
    }
};
static SesBase* make(int w, int n, int mask) {
    switch (w) {
    case 0: return new Free(n, mask);
    case 1: return new Fixed<1>(n);
    case 2: return new Fixed<2>(n);
    case 3: return new Fixed<3>(n);
    case 5: return new Fixed<5>(n);
    case 9: return new Fixed<9>(n);
    }
    fprintf(stderr, "harness: width\n"); exit(3);
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    FILE* prog = fopen(argv[3], "w");
    std::string line, head, evs;
    std::unique_ptr<SesBase> z;
    auto flush = [&]() { if (!head.empty()) out << head << evs << "]}\n"; evs.clear(); };
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Args t; std::string q;
        while (ss >> q) t.push_back(q);
        if (t.empty()) continue;
        if (t[0] == "case") {
            flush();
            rewind(prog); fprintf(prog, "%-40s\n", t[1].c_str()); fflush(prog);
            int w = atoi(t[2].c_str()), n = atoi(t[3].c_str()), mask = atoi(t[4].c_str());
            z.reset(make(w, n, mask));
            std::vector<long> nu;
            for (int i = 0; i < n; ++i) nu.push_back(w == 0 && (mask >> i & 1));
            head = "{\"id\":\"" + t[1] + "\",\"width\":" + t[2] + ",\"null\":" + arr(nu) + ",\"ev\":[";
            continue;
        }
        Ev e;
        e.op = t[0]; e.a = atoi(t[1].c_str()); e.b = atoi(t[2].c_str());
        e.n = strtoull(t[3].c_str(), 0, 10); e.k = atol(t[4].c_str());
        z->exec(t, e);
        evs += (evs.empty() ? "" : ",") + e.json();
    }
    flush();
    out.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    return 0;
}
