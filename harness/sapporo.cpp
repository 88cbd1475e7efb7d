// sapporo <script> <out.ndjson> <progress>
#include "core_ses.hpp"
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/eval/ToBDD.hpp>
#include <tdzdd/eval/ToZBDD.hpp>
#include <tdzdd/spec/SapporoBdd.hpp>
#include <tdzdd/spec/SapporoZdd.hpp>
std::atomic<long> g_badCalls(0);
EvLog g_ev;
std::string g_scratch;
extern "C" void vp_yield(void) {}
extern "C" void vp_memtag(int) {}
extern "C" long vp_memlive() { return 0; }
typedef tdzdd::DdStructure<2> DD2;
struct TSpec: tdzdd::DdSpec<TSpec, int, 2> {
    TabP t;
    TSpec(TabP t) : t(t) {}
    int getRoot(int& s) const { s = t->root; return t->lev(s); }
    int getChild(int& s, int, int b) const { s = t->child(s, b); return t->lev(s); }
};
// the library's diagram as rows sorted by level
static std::string dumpLib(long root) {
    sapporo::Pkg& p = sapporo::pkg();
    std::map<int, std::vector<long> > at;
    std::set<long> seen;
    std::vector<long> st(1, root);
    while (!st.empty()) {
        long f = st.back(); st.pop_back();
        if (f < 2 || !seen.insert(f).second) continue;
        at[p.lev(f)].push_back(f);
        st.push_back(p.nodes[f - 2].c0);
        st.push_back(p.nodes[f - 2].c1);
    }
    std::map<long, long> id;
    id[0] = 0; id[1] = 1;
    long n = 2;
    std::string s;
    for (auto const& l : at) for (long f : l.second) id[f] = n++;
    for (auto const& l : at) for (long f : l.second)
        s += std::string(s.empty() ? "" : ",") + "[" + std::to_string(l.first) + "," + std::to_string(id[p.nodes[f - 2].c0]) + "," + std::to_string(id[p.nodes[f - 2].c1]) + "]";
    return "{\"root\":" + std::to_string(id[root]) + ",\"nodes\":[" + s + "]}";
}
struct Q {
    Ses<2> s;
    std::map<std::string, TabP> tabs;
    std::map<std::string, BDD> B;
    std::map<std::string, ZBDD> Z;
    DD2 make(std::string const& t, std::string const& how) {      // letters: p parallel, b/z/q reductions
        DD2 d(TSpec(tabs.at(t)), how.find('p') != std::string::npos);
        for (char c : how) {
            if (c == 'b') d.bddReduce();
            if (c == 'z') d.zddReduce();
            if (c == 'q') d.qddReduce();
        }
        return d;
    }
    void exec(Args const& a, Json& j) {
        std::string const& op = a[0];
        sapporo::Pkg& p = sapporo::pkg();
        p.calls = 0; p.limit = 2000000;
        long live = p.live;
        j.str("op", op);
        if (op == "vars") {                                        // vars level...
            for (size_t k = 1; k < a.size(); ++k) BDD_NewVarOfLev(atoi(a[k].c_str()));
            j.str("err", "").i("used", BDD_VarUsed());
            return;
        }
        std::string const& r = a[1];
        int off = atoi(a[3].c_str());
        j.str("r", r).str("x", a[2]).i("off", off).str("how", a[4]);
        std::string err;
        if (op == "tob" || op == "toz") {                          // tob r table off how
            DD2 d = make(a[2], a[4]);
            j.raw("d", s.dump(d)).i("top", d.topLevel());
            p.threads.clear();
            live = p.live;
            bool isnew = op == "tob" ? !B.count(r) : !Z.count(r);
            try {
                if (op == "tob") { BDD f = off ? d.evaluate(tdzdd::ToBDD(off)) : d.evaluate(tdzdd::ToBDD()); j.i("thr", long(p.threads.size())); B[r] = f; }
                else { ZBDD f = off ? d.evaluate(tdzdd::ToZBDD(off)) : d.evaluate(tdzdd::ToZBDD()); j.i("thr", long(p.threads.size())); Z[r] = f; }
                j.raw("f", dumpLib(op == "tob" ? B[r].get() : Z[r].get())).i("leak", p.live - live - isnew);
            } catch (std::runtime_error& e) { err = e.what(); }
        } else if (op == "fromb" || op == "fromz") {               // fromx r g off how table
            live = p.live;
            try {
                std::string dd;
                {
                    std::string const& h = a[4];
                    DD2 d;
                    if (op == "fromb") {
                        BDD const &f = B.at(r), &g = B.at(a[2]);
                        tdzdd::SapporoBdd sf = off ? tdzdd::SapporoBdd(f, off) : tdzdd::SapporoBdd(f), sg(g, off);
                        if (h == "build") d = DD2(sf);
                        else if (h == "subset") { DD2 e = make(a[5], "b"); d = DD2(tdzdd::bddAnd(e, sf)); }
                        else if (h == "and") d = DD2(tdzdd::bddAnd(sf, sg));
                        else if (h == "or") d = DD2(tdzdd::bddOr(sf, sg));
                        else if (h == "look") d = DD2(tdzdd::bddLookahead(sf));
                        else if (h == "unr") d = DD2(tdzdd::bddUnreduction(sf, atoi(a[5].c_str())));
                        else throw std::logic_error("harness: " + h);
                    } else {
                        ZBDD const &f = Z.at(r), &g = Z.at(a[2]);
                        tdzdd::SapporoZdd sf = off ? tdzdd::SapporoZdd(f, off) : tdzdd::SapporoZdd(f), sg(g, off);
                        if (h == "build") d = DD2(sf);
                        else if (h == "subset") { d = make(a[5], "z"); d.zddSubset(sf); }
                        else if (h == "and") d = DD2(tdzdd::zddIntersection(sf, sg));
                        else if (h == "or") d = DD2(tdzdd::zddUnion(sf, sg));
                        else if (h == "look") d = DD2(tdzdd::zddLookahead(sf));
                        else if (h == "unr") d = DD2(tdzdd::zddUnreduction(sf, atoi(a[5].c_str())));
                        else throw std::logic_error("harness: " + h);
                    }
                    dd = s.dump(d);
                }
                j.raw("d", dd).i("leak", p.live - live);
            } catch (std::runtime_error& e) { err = e.what(); }
        } else throw std::logic_error("harness: " + op);
        p.limit = 0;
        j.str("err", err).i("used", BDD_VarUsed());
    }
};
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream outf(argv[2]);
    FILE* prog = fopen(argv[3], "w");
    std::string line, id;
    std::unique_ptr<Q> z;
    Out ev;
    std::string tabs;
    auto flush = [&]() {
        if (id.empty()) return;
        outf << "{\"id\":\"" << id << "\",\"A\":2,\"tabs\":{" << tabs << "},\"ev\":[";
        for (size_t k = 0; k < ev.size(); ++k) outf << (k ? "," : "") << ev[k];
        outf << "]}\n";
        ev.clear();
        tabs.clear();
    };
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Args a; std::string t;
        while (ss >> t) a.push_back(t);
        if (a.empty()) continue;
        if (a[0] == "case") {
            flush();
            id = a[1];
            rewind(prog); fprintf(prog, "%-40s\n", id.c_str()); fflush(prog);
            messagesFor(id);
            z.reset();
            BDD_Init();
            z.reset(new Q());
            continue;
        }
        if (a[0] == "tab") {
            std::shared_ptr<Tab> p(new Tab());
            p->root = atoi(a[2].c_str());
            std::string s;
            for (size_t k = 4; k + 2 < a.size(); k += 3) {
                p->st.push_back({atoi(a[k].c_str()), atoi(a[k + 1].c_str()), atoi(a[k + 2].c_str())});
                s += std::string(s.empty() ? "" : ",") + "[" + a[k] + "," + a[k + 1] + "," + a[k + 2] + "]";
            }
            z->tabs[a[1]] = p;
            tabs += std::string(tabs.empty() ? "" : ",") + "\"" + a[1] + "\":{\"root\":" + a[2] + ",\"nodes\":[" + s + "]}";
            continue;
        }
        Json j;
        try { z->exec(a, j); ev.push_back(j.done()); }
        catch (std::logic_error& e) { fprintf(stderr, "%s\n", e.what()); return 3; }
    }
    flush();
    outf.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    return 0;
}
