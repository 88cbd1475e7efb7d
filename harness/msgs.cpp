// msgs <script> <out.ndjson> <progress>: histories of message handlers
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <vector>
#include <iomanip>
#include <tdzdd/util/MessageHandler.hpp>
typedef tdzdd::MessageHandler MH;
// the clock of the session: quarters of seconds; user time likewise; memory in KB
static long g_et = 4000, g_ut = 0, g_rss = 1024;
static void split(long q, long& sec, long& usec) { sec = q / 4; usec = q % 4 * 250000; }
extern "C" time_t time(time_t* t) throw() { time_t x = g_et / 4; if (t) *t = x; return x; }
extern "C" int gettimeofday(struct timeval* t, void*) throw() { long a, b; split(g_et, a, b); t->tv_sec = a; t->tv_usec = b; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* t) throw() { long a, b; split(g_et, a, b); t->tv_sec = a; t->tv_nsec = b * 1000; return 0; }
extern "C" int getrusage(__rusage_who_t, struct rusage* r) throw() {
    memset(r, 0, sizeof *r);
    long a, b; split(g_ut, a, b);
    r->ru_utime.tv_sec = a; r->ru_utime.tv_usec = b;
    split(2 * g_ut + 1, a, b);
    r->ru_stime.tv_sec = a; r->ru_stime.tv_usec = b;
    r->ru_maxrss = g_rss;
    return 0;
}
static std::string text(std::string s) {             // underscores are spaces, | is a line feed, ~ is nothing
    std::string r;
    for (char c : s) if (c != '~') r += c == '_' ? ' ' : c == '|' ? '\n' : c;
    return r;
}
static std::string codes(std::string const& s) {
    std::string const t = s.size() > 3000 ? s.substr(0, 200) + std::string(1, 2) : s; std::string r = "[";   // runaway output is cut, and marked
    for (size_t k = 0; k < t.size(); ++k) r += (k ? "," : "") + std::to_string(int((unsigned char)t[k]));
    return r + "]";
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    FILE* prog = fopen(argv[3], "w");
    std::stringbuf sb;
    std::cerr.rdbuf(&sb);
    std::map<int, MH*> h;
    std::map<int, tdzdd::ResourceUsage> use;
    std::map<int, tdzdd::ElapsedTimeCounter> tim;
    std::string line, id, ev;
    // a session starts with no task open and the cursor at the beginning of a line
    auto flush = [&]() { if (!id.empty()) out << "{\"id\":\"" << id << "\",\"A\":2,\"ev\":[" << ev << "]}\n"; ev.clear(); };
    while (std::getline(in, line)) {
        std::stringstream ss(line);
        std::vector<std::string> a; std::string t;
        while (ss >> t) a.push_back(t);
        if (a.empty()) continue;
        if (a[0] == "case") {
            flush();
            id = a[1];
            rewind(prog); fprintf(prog, "%-40s\n", id.c_str()); fflush(prog);
            MH::showMessages(true);
            for (auto& x : h) x.second->~MH();          // memory is not reused: handlers are told apart by address
            h.clear();
            { static char mem[sizeof(MH)]; MH* m = new (mem) MH; *m << "x\n"; m->~MH(); }
            MH::showMessages(false);
            sb.str("");
            g_et = 4000; g_ut = 0; g_rss = 1024; use.clear(); tim.clear();
            continue;
        }
        std::string s = a.size() > 2 ? text(a[2]) : "";
        int k = atoi(a[1].c_str());
        long ret = -1;
        if (a[0] == "show") ret = MH::showMessages(k != 0);
        else if (a[0] == "new") h[k] = new (::operator new(sizeof(MH))) MH;
        else if (a[0] == "begin") h.at(k)->begin(s);
        else if (a[0] == "write") *h.at(k) << s;
        else if (a[0] == "steps") h.at(k)->setSteps(atoi(a[2].c_str()));
        else if (a[0] == "step") { if (s.empty()) h.at(k)->step(); else h.at(k)->step(s[0]); }
        else if (a[0] == "clock") g_et += 4 * k;
        else if (a[0] == "use") { g_et += k; g_ut += atol(a[2].c_str()); g_rss = atol(a[3].c_str()); }
        else if (a[0] == "uget") { auto x = use.find(k); if (x == use.end()) use[k] = tdzdd::ResourceUsage(); else x->second.update(); }
        else if (a[0] == "uadd") use.at(k) += use.at(atoi(a[2].c_str()));
        else if (a[0] == "usub") use.at(k) -= use.at(atoi(a[2].c_str()));
        else if (a[0] == "usum") use[k] = use.at(atoi(a[2].c_str())) + use.at(atoi(a[3].c_str()));
        else if (a[0] == "udif") use[k] = use.at(atoi(a[2].c_str())) - use.at(atoi(a[3].c_str()));
        else if (a[0] == "uout") { std::ostringstream o; o << std::hex << use.at(k) << " " << 255 << " " << use.at(k).elapsedTime() << " " << use.at(k).userTime() << " " << use.at(k).memory() << std::dec << " " << long(use.at(k).stime * 4); sb.str(o.str()); }
        else if (a[0] == "tstart") tim[k].start();
        else if (a[0] == "tstop") tim[k].stop();
        else if (a[0] == "treset") tim[k].reset();
        else if (a[0] == "tout") { std::ostringstream o; o << std::hex << tim[k] << " " << 255 << " " << long(double(tim[k]) * 4); sb.str(o.str()); }
        else if (a[0] == "end") { if (s.empty()) h.at(k)->end(); else h.at(k)->end(s); }
        else if (a[0] == "endi") h.at(k)->end(s, text(a[3]));
        else if (a[0] == "endn") h.at(k)->end(size_t(atol(a[2].c_str())));
        else if (a[0] == "del") { h.at(k)->~MH(); h.erase(k); }
        else return 3;
        bool num = a[0] == "steps" || a[0] == "endn" || a[0][0] == 'u' && a.size() > 2;
        ev += (ev.empty() ? "" : ",") + std::string("{\"op\":\"") + a[0] + "\",\"h\":" + std::to_string(k) + ",\"n\":" + (num ? a[2] : "0") + ",\"s\":" + codes(num ? a[2] : s)
            + ",\"i\":" + codes(a.size() > 3 ? text(a[3]) : "") + ",\"k\":" + (num && a.size() > 3 ? a[3] : "0") + ",\"ret\":" + std::to_string(ret) + ",\"out\":" + codes(sb.str()) + "}";
        sb.str("");
    }
    flush();
    out.close();
    rewind(prog); fprintf(prog, "%-40s\n", "DONE"); fclose(prog);
    fflush(0);
    _Exit(0);
}
