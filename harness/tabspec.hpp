// Table-driven DD specifications: the harness' way to feed arbitrary top-down
// specifications to TdZdd's public construction API.  A table is a rooted,
// levelled graph: ids 0/1 are the terminals, id k>=2 is row k-2 of `st`,
// whose first entry is the level and whose other entries are the children.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <memory>
#include <atomic>
#include <mutex>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <sstream>
#include <stdexcept>
#ifdef VP_CXX98            // the library as a compiler before C++11 sees it
#include <bits/stdc++.h>
#undef __cplusplus
#define __cplusplus 199711L
#endif
#include <tdzdd/DdSpec.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdEval.hpp>

// the library's progress messages are switched on for a third of the sessions (and thrown away)
struct NullBuf: std::streambuf { int overflow(int c) { return c; } };
inline void messagesFor(std::string const& id) {
    static NullBuf nb;
    static std::streambuf* orig = std::cerr.rdbuf();
    unsigned h = 0;
    for (char c : id) h = h * 31 + (unsigned char)c;
    bool on = h % 3 == 0;
    std::cerr.rdbuf(on ? &nb : orig);
    tdzdd::MessageHandler::showMessages(on);
}
#ifdef VP_CXX98
#undef __cplusplus
#define __cplusplus 201402L
#endif

struct Tab {
    int root;
    std::vector<std::vector<int> > st;   // st[k-2] = {level, c0, c1, ...}
    std::vector<int> cls;                // equivalence class of a state (optional)
    int lev(int id) const { return id == 0 ? 0 : id == 1 ? -1 : st[id - 2][0]; }
    int child(int id, int b) const { return st[id - 2][1 + b]; }
};
typedef std::shared_ptr<Tab const> TabP;

// A yield point for the scheduler shim; a no-op unless linked with it.
extern "C" void vp_yield(void);

static inline unsigned mixBits(unsigned x) {
    x ^= x >> 16; x *= 0x7feb352dU; x ^= x >> 15; x *= 0x846ca68bU; x ^= x >> 16;
    return x;
}

// protocol violations seen by specs (bad level/value/state passed by the library)
extern std::atomic<long> g_badCalls;

// A specification object may keep scratch data (getChild is not const), so one
// object must never expand two states at the same time.
struct Busy {
    mutable std::atomic<int> n;
    Busy() : n(0) {}
    Busy(Busy const&) : n(0) {}
    Busy& operator=(Busy const&) { return *this; }
};
struct Using {
    Busy const& b;
    Using(Busy const& b) : b(b) { if (b.n.fetch_add(1) != 0) ++g_badCalls; vp_yield(); }
    ~Using() { vp_yield(); b.n.fetch_sub(1); }
};

#define CHECK_CALL(cond) do { if (!(cond)) ++g_badCalls; } while (0)

// 1. scalar POD state
template<int A>
struct TInt: tdzdd::DdSpec<TInt<A>, int, A> {
    Busy busy;
    TabP t; int hmode;
    TInt(TabP t, int hmode = 0) : t(t), hmode(hmode) {}
    int getRoot(int& s) const { s = t->root; return t->lev(s); }
    int getChild(int& s, int level, int value) const {
        CHECK_CALL(s >= 2 && s < int(t->st.size()) + 2 && t->lev(s) == level);
        Using use(busy);
        int from = s;
        s = t->child(s, value);
        int l = t->lev(s);
        if (hmode == 4 && l <= 0) s = -1 - from * 16 - value;   // the state of a terminal means nothing
        return l;
    }
    size_t hashCode(int const& s) const {
        switch (hmode) {
        case 1: return 0;                       // every state collides
        case 2: return s % 3;
        case 3: return size_t(s) << 40;
        default: return this->rawHashCode(s);
        }
    }
};

// 2. scalar state with an equivalence coarser than identity that depends on the level:
// at level l only register l % 3 counts, the others hold a constant and the history
struct EqState { int id; int junk; int reg[3]; };
inline std::ostream& operator<<(std::ostream& os, EqState const& s) { return os << s.id; }
template<int A>
struct TEqv: tdzdd::DdSpec<TEqv<A>, EqState, A> {
    Busy busy;
    TabP t;
    TEqv(TabP t) : t(t) {}
    int put(EqState& s, int id) const {
        int l = t->lev(id), k = l > 0 ? l : 0;
        s.id = id;
        s.reg[k % 3] = id;
        s.reg[(k + 1) % 3] = 0;
        s.reg[(k + 2) % 3] = s.junk;
        return l;
    }
    int getRoot(EqState& s) const { s.junk = 1; return put(s, t->root); }
    int getChild(EqState& s, int level, int value) const {
        CHECK_CALL(s.id >= 2 && s.id < int(t->st.size()) + 2 && t->lev(s.id) == level);
        Using use(busy);
        s.junk = s.junk * 31 + s.id + value;    // history: ignored by equality
        return put(s, t->child(s.id, value));
    }
    size_t hashCodeAtLevel(EqState const& s, int level) const { return size_t(s.reg[level % 3]) * 7 + level; }
    bool equalToAtLevel(EqState const& a, EqState const& b, int level) const {
        return a.reg[level % 3] == b.reg[level % 3];
    }
};

// 3. POD array state, element type T, width m
template<int A, typename T>
struct TArr: tdzdd::PodArrayDdSpec<TArr<A, T>, T, A> {
    Busy busy;
    TabP t; int m;
    TArr(TabP t, int m) : t(t), m(m < 4 ? 4 : m) { this->setArraySize(this->m); }
    static void put(T* a, int m, int id) {
        // the words are compared as a whole: clear the padding as PathZdd does
        char* z = reinterpret_cast<char*>(a);
        size_t bytes = (m * sizeof(T) + 7) / 8 * 8;
        for (size_t k = 0; k < bytes; ++k) z[k] = 0;
        a[m - 1] = T(id & 15); a[m - 2] = T((id >> 4) & 15);
        a[m - 3] = T((id >> 8) & 15); a[m - 4] = T((id >> 12) & 15);
    }
    static int get(T const* a, int m) {
        return int(a[m - 1]) | int(a[m - 2]) << 4 | int(a[m - 3]) << 8 | int(a[m - 4]) << 12;
    }
    int getRoot(T* a) const { put(a, m, t->root); return t->lev(t->root); }
    int getChild(T* a, int level, int value) const {
        int s = get(a, m);
        CHECK_CALL(s >= 2 && s < int(t->st.size()) + 2 && t->lev(s) == level);
        Using use(busy);
        s = t->child(s, value);
        put(a, m, s);
        return t->lev(s);
    }
};

// 4. hybrid state: low bits in the scalar, high bits in the array
template<int A, typename TS>
struct THyb: tdzdd::HybridDdSpec<THyb<A, TS>, TS, short, A> {
    Busy busy;
    TabP t; int m;
    THyb(TabP t, int m) : t(t), m(m < 1 ? 1 : m) { this->setArraySize(this->m); }
    void put(TS& s, short* a, int id) const {
        char* z = reinterpret_cast<char*>(a);
        size_t bytes = (m * sizeof(short) + 7) / 8 * 8;
        for (size_t k = 0; k < bytes; ++k) z[k] = 0;
        s = TS(id & 7);
        a[m - 1] = short(id >> 3);
    }
    int get(TS const& s, short const* a) const { return int(s) | int(a[m - 1]) << 3; }
    int getRoot(TS& s, short* a) const { put(s, a, t->root); return t->lev(t->root); }
    int getChild(TS& s, short* a, int level, int value) const {
        int id = get(s, a);
        CHECK_CALL(id >= 2 && id < int(t->st.size()) + 2 && t->lev(id) == level);
        Using use(busy);
        id = t->child(id, value);
        put(s, a, id);
        return t->lev(id);
    }
};

// 5. class state owning heap memory
struct VecState {
    std::vector<int> v;
    bool operator==(VecState const& o) const { return v == o.v; }
};
inline std::ostream& operator<<(std::ostream& os, VecState const& s) {
    return os << (s.v.empty() ? -1 : s.v[0]);
}
template<int A>
struct TVec: tdzdd::DdSpec<TVec<A>, VecState, A> {
    Busy busy;
    TabP t;
    TVec(TabP t) : t(t) {}
    void put(VecState& s, int id) const {
        s.v.assign(1 + id % 3, id);
    }
    int getRoot(VecState& s) const { put(s, t->root); return t->lev(t->root); }
    int getChild(VecState& s, int level, int value) const {
        CHECK_CALL(!s.v.empty());
        int id = s.v.empty() ? 0 : s.v[0];
        CHECK_CALL(id >= 2 && id < int(t->st.size()) + 2 && t->lev(id) == level);
        Using use(busy);
        id = t->child(id, value);
        put(s, id);
        return t->lev(id);
    }
    size_t hashCode(VecState const& s) const {
        size_t h = 0;
        for (size_t i = 0; i < s.v.size(); ++i) h = h * 31 + s.v[i];
        return h;
    }
};

// 6. no state at all: at most one state per level
template<int A>
struct TNil: tdzdd::StatelessDdSpec<TNil<A>, A> {
    Busy busy;
    TabP t; std::vector<int> at;
    TNil(TabP t) : t(t) {
        for (size_t k = 0; k < t->st.size(); ++k) {
            int l = t->st[k][0];
            if (int(at.size()) <= l) at.resize(l + 1, 0);
            at[l] = int(k) + 2;
        }
    }
    int getRoot() const { return t->lev(t->root); }
    int getChild(int level, int value) const {
        CHECK_CALL(level >= 1 && level < int(at.size()));
        Using use(busy);
        return t->lev(t->child(at[level], value));
    }
};
