// core <script> <out.ndjson> <progress>
#include "core_ses.hpp"
#include <unistd.h>
std::atomic<long> g_badCalls(0);
EvLog g_ev;
std::string g_scratch;
extern "C" __attribute__((weak)) void vp_yield(void) {}
extern "C" __attribute__((weak)) void vp_memtag(int) {}
extern "C" __attribute__((weak)) long vp_memlive() { return 0; }
extern "C" __attribute__((weak)) void vp_schedule(long seed) {}
#define DECL(k) SesBase* makeSes##k() __attribute__((weak));
DECL(2) DECL(3) DECL(4) DECL(5) DECL(7) DECL(10)
static SesBase* make(int A) {
    switch (A) {
    case 2: if (makeSes2) return makeSes2(); break;
    case 3: if (makeSes3) return makeSes3(); break;
    case 4: if (makeSes4) return makeSes4(); break;
    case 5: if (makeSes5) return makeSes5(); break;
    case 7: if (makeSes7) return makeSes7(); break;
    case 10: if (makeSes10) return makeSes10(); break;
    }
    throw std::runtime_error("harness: arity not linked");
}
int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    g_scratch = std::string(argv[3]) + ".tmp";
    FILE* prog = fopen(argv[3], "w");
    std::string line, id, A = "2";
    std::unique_ptr<SesBase> ses;
    Out ev;
    auto flush = [&]() {
        if (id.empty()) return;
        out << "{\"id\":\"" << id << "\",\"A\":" << A << ",\"ev\":[";
        for (size_t k = 0; k < ev.size(); ++k) out << (k ? "," : "") << ev[k];
        out << "]}\n";
        ev.clear();
    };
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        Args a; std::string t;
        while (ss >> t) a.push_back(t);
        if (a.empty()) continue;
        if (a[0] == "case") {
            ses.reset();
            flush();
            id = a[1]; A = a[2];
            rewind(prog); fprintf(prog, "%-40s\n", id.c_str()); fflush(prog);
            messagesFor(id);
            g_badCalls = 0;
            vp_schedule(a.size() > 3 ? atol(a[3].c_str()) : 0);
            ses.reset(make(atoi(A.c_str())));
            continue;
        }
        try {
            if (a[0] == "leak") { ses->exec(a, ev); continue; }
            ses->exec(a, ev);
        } catch (std::exception& e) {
            if (std::string(e.what()).substr(0, 8) == "harness:") { fprintf(stderr, "%s\n", e.what()); return 3; }
            Json j; j.str("op", "exc").str("at", a[0]).str("what", e.what());
            ev.push_back(j.done());
        }
    }
    ses.reset();
    flush();
    out.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    return 0;
}
