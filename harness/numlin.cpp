// numlin <script> <out.ndjson> <progress>
#include "core_ses.hpp"
#include <numberlink/ConstraintZdd.hpp>
#include <numberlink/DegreeZdd.hpp>
#include <numberlink/NumlinZdd.hpp>
std::atomic<long> g_badCalls(0);
EvLog g_ev;
std::string g_scratch;
extern "C" void vp_yield(void) {}
extern "C" void vp_memtag(int) {}
extern "C" long vp_memlive() { return 0; }
typedef tdzdd::DdStructure<2> DD2;
static std::string unhex(std::string const& s) {
    std::string r;
    for (size_t k = 1; k + 1 < s.size(); k += 2) r += char(strtol(s.substr(k, 2).c_str(), 0, 16));
    return r;
}
struct N {
    Ses<2> s;
    Board q;
    void board(Json& j) {
        j.i("rows", q.rows).i("cols", q.cols);
        std::string n = "[", h = "[", v = "[";
        for (int i = 0; i < q.rows; ++i) { n += (i ? "," : "") + jarr(q.number.at(i)); if (int(q.number[i].size()) != q.cols) n += ",0"; }
        for (int i = 0; i < q.rows; ++i) for (int k = 0; k + 1 < q.cols; ++k) if (q.hlink.at(i).at(k)) h += (h.size() > 1 ? ",[" : "[") + std::to_string(i + 1) + "," + std::to_string(k + 1) + "]";
        for (int i = 0; i + 1 < q.rows; ++i) for (int k = 0; k < q.cols; ++k) if (q.vlink.at(i).at(k)) v += (v.size() > 1 ? ",[" : "[") + std::to_string(i + 1) + "," + std::to_string(k + 1) + "]";
        j.raw("num", n + "]").raw("h", h + "]").raw("v", v + "]");
    }
    template<typename S> void fam(Json& j, S const& spec, std::string const& how) {
        DD2 d;
        if (how[0] == 's') { d = DD2(q.rows * (q.cols - 1)); d.zddSubset(spec); }
        else d = DD2(spec, how[0] == 'p');
        if (how.size() > 1) d.zddReduce();
        j.raw("d", s.dump(d));
    }
    template<typename S> void fam2(Json& j, S const& spec, std::string const& how) {
        if (how[how.size() - 1] == 'l') fam(j, tdzdd::zddLookahead(spec), how); else fam(j, spec, how);
    }
    void exec(Args const& a, Json& j) {
        std::string const& op = a[0];
        if (op == "read") { std::istringstream is(unhex(a[5])); q.readNumbers(is); board(j); }
        else if (op == "transpose") { q.transpose(); board(j); }
        else if (op == "links") {
            for (size_t i = 0; i < q.hlink.size(); ++i) for (size_t k = 0; k < q.hlink[i].size(); ++k) q.hlink[i][k] = false;
            for (size_t k = 2; k + 1 < a.size(); k += 2) q.hlink.at(atoi(a[k].c_str()) - 1).at(atoi(a[k + 1].c_str()) - 1) = true;
            board(j);
        }
        else if (op == "vertical") { q.makeVerticalLinks(); board(j); }
        else if (op == "fill") { q.fillNumbers(); board(j); }
        else if (op == "write") { std::ostringstream os; q.writeNumbers(os); j.str("text", os.str()); }
        else if (op == "print") { std::ostringstream os; q.printNumlin(os); j.str("text", os.str()); }
        else if (op == "fam") {     // fam kind k how
            int k = atoi(a[2].c_str());
            j.str("kind", a[1]).i("k", k);
            if (a[1] == "degree") fam2(j, DegreeZdd(q), a[3]);
            else if (a[1] == "numlin") fam2(j, NumlinZdd(q, k), a[3]);
            else { ConstraintZdd c(q); NumlinZdd n(q, k); fam2(j, tdzdd::zddIntersection(c, n), a[3]); }
        }
        else throw std::runtime_error("harness: " + op);
    }
};
int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream outf(argv[2]);
    FILE* prog = fopen(argv[3], "w");
    std::string line, id;
    std::unique_ptr<N> z;
    Out ev;
    auto flush = [&]() {
        if (id.empty()) return;
        outf << "{\"id\":\"" << id << "\",\"A\":2,\"ev\":[";
        for (size_t k = 0; k < ev.size(); ++k) outf << (k ? "," : "") << ev[k];
        outf << "]}\n";
        ev.clear();
    };
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Args a; std::string t;
        while (ss >> t) a.push_back(t);
        if (a.empty()) continue;
        if (a[0] == "case") {
            flush();
            id = a[1];
            rewind(prog); fprintf(prog, "%-40s\n", id.c_str()); fflush(prog);
            messagesFor(id);
            z.reset(new N());
            continue;
        }
        Json head;
        head.str("op", a[0]);
        if (a[0] == "read") head.i("rows0", atoi(a[1].c_str())).i("cols0", atoi(a[2].c_str())).b("illegal", a[3] == "1").raw("lines", a[4]);
        if (a[0] == "links") head.raw("set", a[1]);
        Json j = head;
        try { z->exec(a, j); j.b("err", false); ev.push_back(j.done()); }
        catch (std::exception& e) {
            if (std::string(e.what()).substr(0, 8) == "harness:") { fprintf(stderr, "%s\n", e.what()); return 3; }
            head.b("err", true).str("what", e.what()); ev.push_back(head.done());
        }
    }
    flush();
    outf.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    return 0;
}
