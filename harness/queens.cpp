// queens <script> <out.ndjson> <progress>
#include "core_ses.hpp"
#include <ddqueens/NQueenZdd.hpp>
#include <ddqueens/NAryZdd.hpp>
#include <ddqueens/ColoredZdd.hpp>
#include <ddqueens/ZddInterleave.hpp>
std::atomic<long> g_badCalls(0);
EvLog g_ev;
std::string g_scratch;
extern "C" void vp_yield(void) {}
extern "C" void vp_memtag(int) {}
extern "C" long vp_memlive() { return 0; }
typedef tdzdd::DdStructure<2> DD2;
struct TSpec: tdzdd::DdSpec<TSpec, int, 2> {
    TabP t;
    TSpec(TabP t) : t(t) {}
    int getRoot(int& s) const { s = t->root; return t->lev(s); }
    int getChild(int& s, int, int b) const { s = t->child(s, b); return t->lev(s); }
};
struct Q {
    Ses<2> s;
    std::map<std::string, DD2> dd;
    // how: b build, p parallel build, s subset of the power set of n levels, t parallel subset; then reduced iff r
    template<typename S> void out(Json& j, S const& spec, int levels, std::string const& how) {
        DD2 d;
        if (how[0] == 'b') d = DD2(spec);
        else if (how[0] == 'p') d = DD2(spec, true);
        else { d = DD2(levels, how[0] == 't'); d.zddSubset(spec); }
        if (how.size() > 1) d.zddReduce();
        fin(j, d);
    }
    void fin(Json& j, DD2 const& d) {
        j.raw("d", s.dump(d)).b("hasd", true);
        DD2 r(d); r.zddReduce();
        j.i("c", long(r.evaluate(tdzdd::ZddCardinality<uint64_t>())));
    }
    void exec(Args const& a, Json& j) {
        std::string const& op = a[0];
        j.str("op", op).str("err", "");
        if (op == "queen" || op == "rook") {
            int n = atoi(a[1].c_str()), f = atoi(a[2].c_str());
            j.i("n", n).i("f", f);
            if (op == "queen") { if (f < 0) out(j, NQueenZdd(n), n * n, a[3]); else out(j, NQueenZdd(n, f), n * n, a[3]); }
            else { if (f < 0) out(j, NRookZdd(n), n * n, a[3]); else out(j, NRookZdd(n, f), n * n, a[3]); }
        } else if (op == "cqueen" || op == "crook") {
            int n = atoi(a[1].c_str());
            j.i("n", n);
            if (op == "cqueen") out(j, ColoredNQueenZdd(n), n * n * n, a[2]); else out(j, ColoredNRookZdd(n), n * n * n, a[2]);
        } else if (op == "nary" || op == "onehot") {
            int n = atoi(a[1].c_str()), m = atoi(a[2].c_str());
            j.i("n", n).i("m", m);
            if (op == "nary") out(j, NAryZdd(n, m), (n - 1) * m, a[3]); else out(j, OneHotNAryZdd(n, m), n * m, a[3]);
        } else if (op == "inter" || op == "colored") {
            // inter m how t1 t2 ... ; "inter m how = t c" uses one diagram c times
            int m = atoi(a[1].c_str());
            bool same = a[3] == "=";
            int c = same ? atoi(a[5].c_str()) : int(a.size()) - 3;
            std::vector<DD2> v;
            std::string ds = "[";
            for (int k = 0; k < c; ++k) {
                v.push_back(dd.at(same ? a[4] : a[3 + k]));
                ds += (k ? "," : "") + s.dump(v[k]);
            }
            j.i("m", m).raw("ds", ds + "]");
            if (op == "inter") {
                if (same) out(j, ZddInterleave(dd.at(a[4]), c), m * c, a[2]); else out(j, ZddInterleave(v), m * c, a[2]);
            } else {
                DD2 d = DD2(OneHotNAryZdd(c, m), a[2][0] == 'p');
                if (same) d.zddSubset(ColoredZdd(dd.at(a[4]), c)); else d.zddSubset(ColoredZdd(v));
                if (a[2].size() > 1) d.zddReduce();
                fin(j, d);
            }
        } else if (op == "interpos") {
            // interpos how t c pos
            DD2 const& d = dd.at(a[2]);
            int c = atoi(a[3].c_str()), pos = atoi(a[4].c_str());
            j.i("n", c).i("f", pos).i("m", d.topLevel()).raw("ds", "[" + s.dump(d) + "]");
            out(j, ZddInterleave(d, c, pos), d.topLevel() * c, a[1]);
        } else throw std::runtime_error("harness: " + op);
    }
};
int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream outf(argv[2]);
    FILE* prog = fopen(argv[3], "w");
    std::string line, id;
    std::unique_ptr<Q> z;
    Out ev;
    auto flush = [&]() {
        if (id.empty()) return;
        outf << "{\"id\":\"" << id << "\",\"A\":2,\"ev\":[";
        for (size_t k = 0; k < ev.size(); ++k) outf << (k ? "," : "") << ev[k];
        outf << "]}\n";
        ev.clear();
    };
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Args a; std::string t;
        while (ss >> t) a.push_back(t);
        if (a.empty()) continue;
        if (a[0] == "case") {
            flush();
            id = a[1];
            rewind(prog); fprintf(prog, "%-40s\n", id.c_str()); fflush(prog);
            messagesFor(id);
            z.reset(new Q());
            continue;
        }
        if (a[0] == "tab") {        // tab name root rows (level c0 c1)*; a diagram, reduced if the name starts with R
            std::shared_ptr<Tab> p(new Tab());
            p->root = atoi(a[2].c_str());
            for (size_t k = 4; k + 2 < a.size(); k += 3) p->st.push_back({atoi(a[k].c_str()), atoi(a[k + 1].c_str()), atoi(a[k + 2].c_str())});
            DD2 d = DD2(TSpec(p));
            if (a[1][0] == 'R') d.zddReduce();
            z->dd[a[1]] = d;
            continue;
        }
        Json j;
        try { z->exec(a, j); ev.push_back(j.done()); }
        catch (std::exception& e) {
            if (std::string(e.what()).substr(0, 8) == "harness:") { fprintf(stderr, "%s\n", e.what()); return 3; }
            Json k; k.str("op", a[0]).str("err", e.what()); ev.push_back(k.done());
        }
    }
    flush();
    outf.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    return 0;
}
