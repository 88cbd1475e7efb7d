// stand-in for SAPPOROBDD's ZBDD.h; see BDD.h
#pragma once
#include "BDD.h"
#include <cstdio>

class ZBDD: public sapporo::Handle {
    struct Raw {};
    ZBDD(long id, Raw) : Handle(id) {}
    static long con(int v) { return v < 0 ? -1 : v != 0; }
public:
    ZBDD() : Handle(0) {}
    ZBDD(int v) : Handle(con(v)) {}
    static ZBDD of(long id) { return ZBDD(id, Raw()); }
    friend ZBDD operator+(ZBDD const& f, ZBDD const& g) { sapporo::Call c; return of(sapporo::pkg().ap('+', f.get(), g.get())); }
    friend ZBDD operator-(ZBDD const& f, ZBDD const& g) { sapporo::Call c; return of(sapporo::pkg().ap('-', f.get(), g.get())); }
    friend ZBDD operator&(ZBDD const& f, ZBDD const& g) { sapporo::Call c; return of(sapporo::pkg().ap('*', f.get(), g.get())); }
    friend int operator==(ZBDD const& f, ZBDD const& g) { sapporo::Call c; return f.get() == g.get(); }
    friend int operator!=(ZBDD const& f, ZBDD const& g) { return !(f == g); }
    ZBDD& operator+=(ZBDD const& g) { return *this = *this + g; }
    ZBDD& operator-=(ZBDD const& g) { return *this = *this - g; }
    ZBDD Change(int v) const { sapporo::Call c; return of(sapporo::pkg().item('c', get(), var(v))); }
    ZBDD OffSet(int v) const { sapporo::Call c; return of(sapporo::pkg().item('0', get(), var(v))); }
    ZBDD OnSet(int v) const { sapporo::Call c; return of(sapporo::pkg().item('o', get(), var(v))); }
    ZBDD OnSet0(int v) const { sapporo::Call c; return of(sapporo::pkg().item('1', get(), var(v))); }
    int Top() const { sapporo::Call c; long f = get(); return f < 2 ? 0 : sapporo::pkg().nodes[f - 2].var; }
    bddword GetID() { sapporo::Call c; return bddword(get()); }
    bddword Size() const {
        sapporo::Call c;
        std::set<long> seen;
        std::vector<long> st(1, get());
        while (!st.empty()) {
            long f = st.back(); st.pop_back();
            if (f < 2 || !seen.insert(f).second) continue;
            st.push_back(sapporo::pkg().nodes[f - 2].c0);
            st.push_back(sapporo::pkg().nodes[f - 2].c1);
        }
        return bddword(seen.size());
    }
    void Print() const { printf("[ %ld ] Size= %llu\n", get(), Size()); fflush(stdout); }
};
