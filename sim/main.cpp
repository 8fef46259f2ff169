// Search driver: seeded cases over several processes, minimisation, replay.
#include "sim.h"
#include <atomic>
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

extern u64 total_runs, total_steps, total_faults[F_COUNT], total_ent_bytes, total_allocs, total_preempt, result_hash_acc;
extern std::function<void(u64)> on_signature;
extern u8 *cov_global;
bool is_debug_build;
static bool trivial;
static map<string, u64> stats;
void note_trivial() { trivial = true; }
void stat_inc(const string &name, u64 n) { stats[name] += n; }

#define SIGS (1u << 22)
#define MAXJ 16
struct Shared {
    std::atomic<u64> lowest;      // index of the first violating case
    std::atomic<u64> nsigs, ncases;
    std::atomic<u64> sigs[SIGS], cases[SIGS];
    struct W {
        u64 evals, trivial, runs, steps, faults[F_COUNT], ent, allocs, preempt, viol_index, mismatch_index, done_index;
        char viol[4096];
        char stats[16384];
        u8 cov[65536];
        bool timeout;
    } w[MAXJ];
};
static Shared *sh;
static bool add_sig(std::atomic<u64> *t, std::atomic<u64> &n, u64 s) {
    if(!s) s = 1;
    for(u64 i = mix64(s), k = 0; k < 64; k++, i++) {
        u64 cur = t[i % SIGS].load();
        if(cur == s) return false;
        if(cur == 0) {
            u64 z = 0;
            if(t[i % SIGS].compare_exchange_strong(z, s)) { n++; return true; }
            if(z == s) return false;
        }
    }
    return false;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static vector<Property *> props;
static Property *find(const string &id) {
    for(auto p : props) if(p->id == id) return p;
    return nullptr;
}
static u64 case_seed(u64 seed, u64 i) { return mix64(seed, 1000) % 1000000000 * 100000000 + i; }

static Case make(Property *p, const vector<Case> &fixed, u64 seed, u64 i, bool thorough) {
    Case c;
    if(i < fixed.size()) c = fixed[i];
    else {
        u64 cs = case_seed(seed, i - fixed.size());
        c = p->gen(cs, thorough);
        c.seed = cs;
    }
    c.prop = p->id;
    return c;
}
static string sanitize(const string &s) {
    string o;
    for(unsigned char c : s) { if(c >= 32 && c < 127) o += c; else if(c == '\n') o += ' '; else o += strf("\\x%02x", c); }
    if(o.size() > 1500) o.resize(1500);
    return o;
}

// ---------------------------------------------------------------- minimisation
static u64 shrink_tests;
static string shrink_class;
// the same kind of violation: the first words of the message, without numbers
static string viol_class(const string &m) {
    string o;
    int words = 0;
    for(char c : m) {
        if(isdigit((unsigned char) c)) continue;
        if(c == ' ' && ++words == 4) break;
        if(c == ':') break;
        o += c;
    }
    return o;
}
static bool still(Property *p, const Case &c) {
    shrink_tests++;
    auto v = p->check(c);
    return v && (shrink_class.empty() || viol_class(*v) == shrink_class);
}
static Case shrink(Property *p, Case c, double deadline) {
    bool progress = true;
    while(progress && now() < deadline) {
        progress = false;
        for(size_t n = c.lines.size(); n >= 1 && now() < deadline; n /= 2) {
            for(size_t i = 0; i + n <= c.lines.size() && now() < deadline;) {
                Case d = c;
                d.lines.erase(d.lines.begin() + i, d.lines.begin() + i + n);
                if(still(p, d)) { c = d; progress = true; } else i += n;
            }
        }
        // shorter words
        for(size_t i = 0; i < c.lines.size() && now() < deadline; i++) {
            auto lines = c.parse();
            Line l = lines[i];
            for(size_t k = 1; k < l.w.size(); k++) {
                string s = l.w[k];
                if(s.size() > 1 && s.find_first_not_of("0123456789") != string::npos) {
                    for(size_t n = std::max<size_t>(1, s.size() / 2); n >= 1 && now() < deadline; n /= 2)
                        for(size_t a = 0; a + n <= s.size() && now() < deadline;) {
                            string t = s.substr(0, a) + s.substr(a + n);
                            Case d = c;
                            Line m = l;
                            m.w[k] = t;
                            Case tmp;
                            tmp.addw(m.w);
                            d.lines[i] = tmp.lines[0];
                            if(!t.empty() && still(p, d)) { s = t; l = m; c = d; progress = true; }
                            else a += n;
                        }
                } else if(s.size() >= 1 && s.find_first_not_of("0123456789") == string::npos) {
                    u64 v = strtoull(s.c_str(), nullptr, 10);
                    for(u64 t : {(u64) 0, (u64) 1, v / 2, v - 1}) {
                        if(t >= v || now() >= deadline) continue;
                        Case d = c;
                        Line m = l;
                        m.w[k] = strf("%lu", t);
                        Case tmp;
                        tmp.addw(m.w);
                        d.lines[i] = tmp.lines[0];
                        if(still(p, d)) { l = m; c = d; progress = true; break; }
                    }
                }
            }
        }
    }
    return c;
}

// ---------------------------------------------------------------- workers
static void worker(Property *p, const vector<Case> &fixed, int id, int jobs, u64 seed, u64 ncases, bool thorough, double deadline) {
    auto &w = sh->w[id];
    u64 sig_acc = 0;
    on_signature = [&](u64 s) { add_sig(sh->sigs, sh->nsigs, s); sig_acc = mix64(sig_acc, s); };
    w.viol_index = w.mismatch_index = ~0ull;
    for(u64 i = id; i < ncases; i += jobs) {
        if(i > sh->lowest.load()) break;
        if(now() > deadline) { w.timeout = true; break; }
        Case c = make(p, fixed, seed, i, thorough);
        trivial = false;
        sig_acc = 0;
        result_hash_acc = 0;
        auto v = p->check(c);
        u64 h1 = result_hash_acc;
        w.evals++;
        w.done_index = i;
        if(trivial) w.trivial++;
        else add_sig(sh->cases, sh->ncases, mix64(sig_acc, 3));
        if((i / jobs) % 61 == 0 && !v) {
            result_hash_acc = 0;
            auto v2 = p->check(c);
            if(h1 != result_hash_acc || (bool) v != (bool) v2) {
                if(p->id == "C17") v = string("running the same case twice gives different results");
                else { w.mismatch_index = i; break; }
            }
        }
        if(v) {
            w.viol_index = i;
            snprintf(w.viol, sizeof(w.viol), "%s", sanitize(*v).c_str());
            u64 cur = sh->lowest.load();
            while(i < cur && !sh->lowest.compare_exchange_weak(cur, i)) {}
            break;
        }
    }
    w.runs = total_runs; w.steps = total_steps; w.ent = total_ent_bytes; w.allocs = total_allocs; w.preempt = total_preempt;
    for(int i = 0; i < F_COUNT; i++) w.faults[i] = total_faults[i];
    if(cov_global) memcpy(w.cov, cov_global, 65536);
    string s;
    for(auto &x : stats) s += strf("%s %lu\n", x.first.c_str(), x.second);
    snprintf(w.stats, sizeof(w.stats), "%s", s.c_str());
}

static string json_str(const string &s) {
    string o = "\"";
    for(unsigned char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c < 32 || c >= 127) o += strf("\\u%04x", c); else o += c; }
    return o + "\"";
}
static string slurp(const string &path) {
    FILE *f = fopen(path.c_str(), "rb");
    if(!f) return "";
    string s;
    char b[65536];
    size_t n;
    while((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
static void spit(const string &path, const string &s) {
    FILE *f = fopen(path.c_str(), "wb");
    if(!f) { fprintf(stderr, "cannot write %s\n", path.c_str()); exit(3); }
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}

int main(int argc, char **argv) {
    if(!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        setenv("SIM_NO_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    is_debug_build = strstr(argv[0], "debug") != nullptr;
    register_properties(props);
    string mode = argc > 1 ? argv[1] : "";
    map<string, string> o;
    for(int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    if(mode == "replay" && argc > 2) {
        Case c = Case::load(slurp(argv[2]));
        Property *p = find(c.prop);
        if(!p) { fprintf(stderr, "unknown property %s\n", c.prop.c_str()); return 3; }
        auto v = p->check(c);
        if(v) { printf("REPRODUCED %s\n", sanitize(*v).c_str()); return 1; }
        printf("no violation\n");
        return 0;
    }
    if(mode == "show") {  // print the case of a seed
        Property *p = find(o["--prop"]);
        if(!p) return 3;
        auto f = p->fixed();
        printf("%s", make(p, f, strtoull(o["--seed"].c_str(), 0, 0), strtoull(o["--index"].c_str(), 0, 0), o["--tier"] == "thorough").text().c_str());
        return 0;
    }
    if(mode == "known") {
        Property *p = find(o["--prop"]);
        if(!p) return 3;
        for(auto &k : p->known()) printf("%s %d\n", k.first.c_str(), (int) k.second);
        return 0;
    }
    if(mode == "list") { for(auto p : props) printf("%s %lu\n", p->id.c_str(), p->quick_cases()); return 0; }
    if(mode != "run") { fprintf(stderr, "usage: sim run|replay|show|list\n"); return 3; }

    Property *p = find(o["--prop"]);
    if(!p) { fprintf(stderr, "unknown property\n"); return 3; }
    u64 seed = o.count("--seed") ? strtoull(o["--seed"].c_str(), 0, 0) : 1;
    bool thorough = o["--tier"] == "thorough";
    int jobs = o.count("--jobs") ? atoi(o["--jobs"].c_str()) : 8;
    if(jobs > MAXJ) jobs = MAXJ;
    double limit = o.count("--time") ? atof(o["--time"].c_str()) : 60;
    auto fixed = p->fixed();
    u64 n = o.count("--cases") ? strtoull(o["--cases"].c_str(), 0, 0) : thorough ? ~0ull >> 8 : p->quick_cases();
    if(n != ~0ull >> 8) n += fixed.size();
    sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh->lowest = ~0ull;
    double start = now(), deadline = start + limit;
    fflush(nullptr);
    vector<pid_t> pids;
    for(int j = 0; j < jobs; j++) {
        pid_t pid = fork();
        if(pid == 0) {
            worker(p, fixed, j, jobs, seed, n, thorough, deadline);
            _exit(0);
        }
        pids.push_back(pid);
    }
    bool lost = false;
    for(auto pid : pids) {
        int st;
        waitpid(pid, &st, 0);
        if(!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker ended with status %#x\n", st); lost = true; }
    }
    double wall = now() - start;
    u64 evals = 0, triv = 0, runs = 0, steps = 0, ent = 0, allocs = 0, pre = 0, faults[F_COUNT] = {0}, edges = 0;
    map<string, u64> st;
    bool timeout = false;
    vector<u8> cov(65536);
    u64 mism = ~0ull;
    for(int j = 0; j < jobs; j++) {
        auto &w = sh->w[j];
        evals += w.evals; triv += w.trivial; runs += w.runs; steps += w.steps; ent += w.ent; allocs += w.allocs; pre += w.preempt;
        for(int i = 0; i < F_COUNT; i++) faults[i] += w.faults[i];
        for(int i = 0; i < 65536; i++) cov[i] |= w.cov[i];
        timeout |= w.timeout;
        mism = std::min(mism, w.mismatch_index);
        char name[256];
        unsigned long v;
        for(char *q = w.stats; sscanf(q, "%255s %lu", name, &v) == 2;) { st[name] += v; q = strchr(q, '\n'); if(!q) break; q++; }
    }
    for(u8 c : cov) edges += c != 0;
    string samples;
    for(u64 i = 0; i < 3 && i < evals; i++) {
        string t = make(p, fixed, seed, fixed.size() ? (i == 0 ? 0 : fixed.size() + i) : i, thorough).text();
        if(t.size() > 1200) t = t.substr(0, 1200) + "...";
        samples += (i ? "," : "") + json_str(t);
    }
    string js = strf("{\"evaluations\":%lu,\"trivial\":%lu,\"distinct_cases\":%lu,\"runs\":%lu,\"distinct_signatures\":%lu,\"edges\":%lu,\"steps\":%lu,"
                     "\"entropy_bytes\":%lu,\"allocations\":%lu,\"preemptions\":%lu,\"wall\":%.3f,\"stopped_by_time\":%s,\"fixed_cases\":%zu,",
                     evals, triv, (u64) sh->ncases, runs, (u64) sh->nsigs, edges, steps, ent, allocs, pre, wall, timeout ? "true" : "false", fixed.size());
    js += "\"rule\":" + json_str(p->rule()) + ",\"faults\":{";
    bool first = true;
    for(int i = 0; i < F_COUNT; i++) if(faults[i]) { js += strf("%s\"%s\":%lu", first ? "" : ",", fault_names[i], faults[i]); first = false; }
    js += "},\"stats\":{";
    first = true;
    for(auto &x : st) { js += strf("%s%s:%lu", first ? "" : ",", json_str(x.first).c_str(), x.second); first = false; }
    js += "},\"samples\":[" + samples + "]}";
    if(o.count("--out")) spit(o["--out"], js + "\n");
    else printf("%s\n", js.c_str());

    u64 low = sh->lowest.load();
    if(low != ~0ull) {
        string msg;
        for(int j = 0; j < jobs; j++) if(sh->w[j].viol_index == low) msg = sh->w[j].viol;
        Case c = make(p, fixed, seed, low, thorough);
        fprintf(stderr, "case %lu (seed %lu) violates %s: %s; minimising\n", low, c.seed, p->id.c_str(), msg.c_str());
        on_signature = nullptr;
        Case orig = c;
        { auto v = p->check(c); shrink_class = v ? viol_class(*v) : ""; }
        if(still(p, c)) c = shrink(p, c, now() + (o.count("--shrink") ? atof(o["--shrink"].c_str()) : 20));
        string dir = o.count("--replay-dir") ? o["--replay-dir"] : ".";
        string path = strf("%s/%s-%s-%lu.replay", dir.c_str(), p->id.c_str(), is_debug_build ? "debug" : "release", c.seed);
        auto attempt = [&](const Case &k) {
            spit(path, k.text());
            for(int r = 0; r < 2; r++) {
                fflush(nullptr);
                pid_t pid = fork();
                if(pid == 0) {
                    FILE *nf = freopen("/dev/null", "w", stdout);
                    (void) nf;
                    execl("/proc/self/exe", argv[0], "replay", path.c_str(), (char *) nullptr);
                    _exit(3);
                }
                int s;
                waitpid(pid, &s, 0);
                if(!WIFEXITED(s) || WEXITSTATUS(s) != 1) return false;
            }
            return true;
        };
        bool ok = attempt(c);
        if(!ok) { c = orig; ok = attempt(c); }
        auto v = p->check(c);
        if(!ok || !v) {
            printf("NOT-REPRODUCIBLE case %lu: %s\n", low, msg.c_str());
            if(p->id != "C17") return 4;
        }
        string text = "# " + (v ? sanitize(*v) : msg) + "\n" + strf("# build: %s; first seen with seed %lu, minimised with %lu runs from %zu to %zu lines\n",
            is_debug_build ? "debug" : "release", c.seed, shrink_tests, orig.lines.size(), c.lines.size()) + c.text();
        spit(path, text);
        printf("FOUND %s %s\n", path.c_str(), (v ? sanitize(*v) : msg).c_str());
        return 1;
    }
    if(mism != ~0ull) { printf("NONDETERMINISTIC case %lu\n", mism); return 4; }
    if(lost) return 5;
    return 0;
}
