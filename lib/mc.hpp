// Stateless explicit enumeration of executions of the real code ("choice tree" model checking).
//
// A harness is a body that asks mc::choose / mc::deviate for every nondeterministic decision
// (configuration, operation, environment answer).  The explorer runs the body once per complete
// choice sequence, depth first, until every sequence within the bound has been executed.
//   choose(n)   : all n alternatives are explored
//   deviate(n)  : alternative 0 is the default; any other alternative costs one deviation and at
//                 most `bound` deviations are spent per execution (everything within is explored)
// Divergence while replaying a prefix is a hard error.  Every violation is replayed before it is
// reported and written out as a choice sequence that `--replay` runs again with a full log.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <vector>
#include <string>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <exception>
#include <stdexcept>
#include <functional>
#include <iomanip>
#include <limits>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

namespace mc {

struct Skip {};                                    // execution belongs to another shard / is pruned
struct Violation { std::string key, msg; };        // thrown by check()
struct Diverged : std::runtime_error { Diverged(const std::string&s):std::runtime_error(s){} };
struct Budget {};                                  // callback budget exceeded: treated as non-termination

struct Point { int n; int choice; bool dev; };

struct Engine {
    std::vector<Point> trace;       // current execution
    std::vector<int> prefix;        // forced choices
    size_t pos = 0;
    int bound = 1000000, spent = 0;
    bool verbose = false, replaying = false;
    int shard = 0, nshards = 1;
    std::string tier = "quick";
    // statistics
    uint64_t executions = 0, transitions = 0, skipped = 0, checks = 0;
    std::unordered_set<uint64_t> states, outcomes;
    uint64_t maxdepth = 0;
    // context of this execution, for messages
    std::vector<std::string> log;
    std::string ctx;
    uint64_t calls = 0, call_budget = 2000000;
    uint64_t outcome_hash = 0;
    std::vector<std::string> samples;
    struct V { std::string key, msg; std::vector<int> choices; std::vector<std::string> log; uint64_t count; };
    std::map<std::string, V> violations;
    std::map<std::string, uint64_t> counters;
    // crash journal (shared file)
    char* journal = nullptr; size_t jlen = 1 << 16;
};
inline Engine& E() { static Engine e; return e; }

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
inline uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
inline uint64_t hash_double(double d) { if (d == 0) d = 0; uint64_t u; std::memcpy(&u, &d, 8); return u; }

inline void journal_choice() {        // crash journal: the choices made so far survive a crash of this process
    Engine& e = E(); if (!e.journal) return;
    uint32_t n = (uint32_t)e.trace.size(); if (n > 10000 || n == 0) return;
    e.journal[8 + n - 1] = (char)e.trace[n - 1].choice; std::memcpy(e.journal, &n, 4);
}
inline void journal_ctx() {
    Engine& e = E(); if (!e.journal) return;
    size_t l = std::min(e.ctx.size(), (size_t)4000); std::memcpy(e.journal + 20000, e.ctx.data(), l); e.journal[20000 + l] = 0;
}

inline int pick(int n, bool dev) {
    Engine& e = E();
    if (n <= 0) throw Diverged("choice point without alternatives");
    int c = 0;
    if (e.pos < e.prefix.size()) {
        c = e.prefix[e.pos];
        if (c < 0 || c >= n) throw Diverged("replayed choice out of range");
    }
    e.pos++;
    if (dev && c) e.spent++;
    e.trace.push_back(Point{n, c, dev});
    if (e.trace.size() > 5000) throw Budget();
    journal_choice();
    return c;
}
inline int choose(int n) { return pick(n, false); }
inline int deviate(int n) {
    Engine& e = E();
    // with the budget spent only the default is available; the point is still recorded so that
    // the sequence replays under the same bound
    if (e.pos >= e.prefix.size() && e.spent >= e.bound) { e.pos++; e.trace.push_back(Point{1, 0, true}); journal_choice(); return 0; }
    return pick(n, true);
}
template <class T> inline const T& choose_from(const std::vector<T>& v) { return v[choose((int)v.size())]; }

// Call after the configuration choices: splits the work between processes.
inline void shard_point() {
    Engine& e = E();
    if (e.nshards <= 1 || e.replaying) return;
    uint64_t h = 12345; for (auto& p : e.trace) h = mix(h, p.choice + 17 * p.n);
    if ((int)((h >> 7) % e.nshards) != e.shard) throw Skip();
}
inline void transition(uint64_t n = 1) { E().transitions += n; }
inline void state(uint64_t h) { E().states.insert(h); }
inline void outcome(uint64_t h) { E().outcome_hash = mix(E().outcome_hash, h); }
inline void count(const std::string& k, uint64_t n = 1) { E().counters[k] += n; }
inline void ctx(const std::string& s) { E().ctx = s; journal_ctx(); if (E().verbose) std::printf("# %s\n", s.c_str()); }
inline void tick() { Engine& e = E(); if (++e.calls > e.call_budget) throw Budget(); }
template <class... A> inline std::string fmt(const A&... a) { std::ostringstream s; s << std::setprecision(17); int d[] = {0, ((void)(s << a), 0)...}; (void)d; return s.str(); }
template <class... A> inline void log(const A&... a) { Engine& e = E(); if (e.verbose || e.replaying) { e.log.push_back(fmt(a...)); if (e.verbose) std::printf("  %s\n", e.log.back().c_str()); } }
template <class... A> inline void fail(const std::string& key, const A&... a) { throw Violation{key, fmt(a...)}; }
template <class... A> inline void check(bool ok, const std::string& key, const A&... a) { E().checks++; if (!ok) throw Violation{key, fmt(a...)}; }

inline bool same_bits_or_nan(double a, double b) { return a == b || (a != a && b != b); }
inline bool close(double a, double b, double tol) {
    if (a == b) return true; if (a != a || b != b) return false;
    double m = std::max(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= tol * std::max(1.0, m);
}
template <class V> inline std::string show(const V& v) { std::ostringstream s; s << std::setprecision(17) << "("; bool f = true; for (auto const& x : v) { if (!f) s << ","; s << x; f = false; } s << ")"; return s.str(); }

typedef std::function<void()> Body;

// one execution with the given prefix; returns violation through *v
inline bool run_once(const Body& body, const std::vector<int>& prefix, Engine::V* v, bool& skipped) {
    Engine& e = E();
    e.prefix = prefix; e.trace.clear(); e.pos = 0; e.spent = 0; e.log.clear(); e.ctx.clear(); e.calls = 0; e.outcome_hash = 7; skipped = false;
    if (e.journal) { struct itimerval it; std::memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &it, 0); }
    if (e.journal) { uint32_t z = 0; std::memcpy(e.journal, &z, 4); e.journal[20000] = 0; }
    bool bad = false;
    try { body(); }
    catch (Skip&) { skipped = true; }
    catch (Violation& x) { bad = true; v->key = x.key; v->msg = x.msg; }
    catch (Budget&) { bad = true; v->key = "no-termination"; v->msg = "execution did not terminate within the call budget"; }
    catch (Diverged&) { throw; }
    catch (std::exception& x) { bad = true; v->key = "unexpected-exception"; v->msg = std::string("unexpected exception: ") + x.what(); }
    if (bad) {
        v->msg = (e.ctx.empty() ? "" : "[" + e.ctx + "] ") + v->msg;
        if (v->key == "unexpected-exception" || v->key == "no-termination") v->key += ":" + e.ctx;
        v->choices.clear(); for (auto& p : e.trace) v->choices.push_back(p.choice); v->log = e.log; v->count = 1;
    }
    if (e.pos < e.prefix.size()) throw Diverged("execution ended before the replayed prefix was consumed");
    return bad;
}

inline void explore(const Body& body) {
    Engine& e = E();
    std::vector<int> prefix;
    size_t max_keys = 60;
    for (;;) {
        Engine::V v; bool skipped = false;
        bool bad = run_once(body, prefix, &v, skipped);
        std::vector<Point> tr = e.trace;
        if (skipped) e.skipped++; else {
            e.executions++; e.outcomes.insert(e.outcome_hash); if (tr.size() > e.maxdepth) e.maxdepth = tr.size();
            if (!bad && (e.executions <= 2 || (e.executions & (e.executions - 1)) == 0) && e.samples.size() < 12) {
                std::string s = e.ctx + " choices=["; for (auto& p : tr) s += std::to_string(p.choice) + " "; s += "]"; e.samples.push_back(s);
            }
        }
        if (bad) {
            auto it = e.violations.find(v.key);
            if (it != e.violations.end()) it->second.count++;
            else if (e.violations.size() < max_keys) {
                // replay before report
                Engine::V v2; bool sk2 = false; bool sr = e.replaying; e.replaying = true;
                std::vector<int> full = v.choices; uint64_t tsave = e.transitions;
                bool bad2 = run_once(body, full, &v2, sk2);
                e.replaying = sr; e.transitions = tsave;
                if (!bad2 || v2.key != v.key) { std::printf("{\"flaky\":\"%s\"}\n", v.key.c_str()); throw Diverged("violation did not replay: " + v.key + " :: " + v.msg + " vs " + (bad2 ? v2.key + " :: " + v2.msg : std::string("no violation"))); }
                v.log = v2.log; e.violations[v.key] = v;
            }
        }
        // next sequence
        int i = (int)tr.size() - 1; int spent_before = 0; 
        std::vector<int> sp(tr.size() + 1, 0);
        for (size_t k = 0; k < tr.size(); k++) sp[k + 1] = sp[k] + ((tr[k].dev && tr[k].choice) ? 1 : 0);
        for (; i >= 0; --i) {
            if (tr[i].choice + 1 >= tr[i].n) continue;
            if (tr[i].dev && sp[i] + 1 > e.bound) continue;
            break;
        }
        (void)spent_before;
        if (i < 0) break;
        prefix.clear(); for (int k = 0; k < i; k++) prefix.push_back(tr[k].choice);
        prefix.push_back(tr[i].choice + 1);
    }
}

inline std::string json_escape(const std::string& s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else o += c; } return o;
}

inline void on_prof(int) { static const char m[] = "MC-HANG\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(77); }

// main for a harness: named bodies
inline int run_main(int argc, char** argv, const std::vector<std::pair<std::string, Body>>& bodies) {
    Engine& e = E(); std::string only, out, replay, jpath; bool list = false;
    if (const char* t = getenv("VERIF_TIER")) e.tier = t;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--body") only = val(); else if (a == "--bound") e.bound = atoi(val().c_str());
        else if (a == "--shard") { std::string s = val(); e.shard = atoi(s.c_str()); e.nshards = atoi(s.c_str() + s.find('/') + 1); }
        else if (a == "--out") out = val(); else if (a == "--replay") replay = val(); else if (a == "--journal") jpath = val();
        else if (a == "--tier") e.tier = val(); else if (a == "--list") list = true; else { std::fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    if (list) { for (auto& b : bodies) std::printf("%s\n", b.first.c_str()); return 0; }
    if (!jpath.empty()) {
        int fd = open(jpath.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd >= 0 && ftruncate(fd, e.jlen) == 0) e.journal = (char*)mmap(0, e.jlen, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sigaction(SIGPROF, &sa, 0);
    }
    const Body* b = nullptr; for (auto& x : bodies) if (x.first == only) b = &x.second;
    if (!b) { std::fprintf(stderr, "no such body %s\n", only.c_str()); return 2; }
    if (!replay.empty() || std::string(argv[argc - 1]) == "--replay") {
        std::vector<int> c; std::stringstream ss(replay); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) c.push_back(atoi(t.c_str()));
        e.verbose = e.replaying = true; Engine::V v; bool sk;
        bool bad = run_once(*b, c, &v, sk);
        if (bad) { std::printf("VIOLATED key=%s\n%s\n", v.key.c_str(), v.msg.c_str()); return 1; }
        std::printf("no violation\n"); return 0;
    }
    bool err = false; std::string errmsg;
    try { explore(*b); } catch (Diverged& d) { err = true; errmsg = d.what(); }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    std::fprintf(f, "{\"body\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"skipped\":%llu,\"states\":%llu,\"outcomes\":%llu,\"checks\":%llu,\"maxdepth\":%llu,\"bound\":%d,\"error\":\"%s\",",
        only.c_str(), (unsigned long long)e.executions, (unsigned long long)e.transitions, (unsigned long long)e.skipped, (unsigned long long)e.states.size(), (unsigned long long)e.outcomes.size(), (unsigned long long)e.checks, (unsigned long long)e.maxdepth, e.bound, json_escape(err ? errmsg : "").c_str());
    std::fprintf(f, "\"counters\":{"); bool first = true; for (auto& c : e.counters) { std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(c.first).c_str(), (unsigned long long)c.second); first = false; }
    std::fprintf(f, "},\"samples\":["); first = true; for (auto& s : e.samples) { std::fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str()); first = false; }
    std::fprintf(f, "],\"violations\":["); first = true;
    for (auto& kv : e.violations) {
        auto& v = kv.second; std::fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"count\":%llu,\"choices\":[", first ? "" : ",", json_escape(v.key).c_str(), json_escape(v.msg).c_str(), (unsigned long long)v.count); first = false;
        for (size_t i = 0; i < v.choices.size(); i++) std::fprintf(f, "%s%d", i ? "," : "", v.choices[i]);
        std::fprintf(f, "],\"log\":["); for (size_t i = 0; i < v.log.size() && i < 400; i++) std::fprintf(f, "%s\"%s\"", i ? "," : "", json_escape(v.log[i]).c_str());
        std::fprintf(f, "]}");
    }
    std::fprintf(f, "],\"state_hashes\":["); first = true; { uint64_t k = 0; for (auto h : e.states) { if (k++ > 200000) break; std::fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; } }
    std::fprintf(f, "]}\n"); if (f != stdout) fclose(f);
    std::fflush(0);
    return err ? 3 : (e.violations.empty() ? 0 : 1);
}
} // namespace mc
// lazily evaluated: key and message are only built for a violation
#define MC_CHECK(cond, key, ...) do { ++::mc::E().checks; if(!(cond)) ::mc::fail(key, __VA_ARGS__); } while (0)
#endif
