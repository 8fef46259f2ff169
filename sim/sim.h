// Deterministic simulator for passgen: common declarations.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
using std::map;
using std::optional;
using std::string;
using std::vector;
typedef vector<u8> bytes;

string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- randomness
inline u64 mix64(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 mix64(u64 a, u64 b) { return mix64(mix64(a) ^ (b * 0xd6e8feb86659fd93ull)); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix64(seed, 77)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64) below((u64) (b - a + 1)); }
    bool chance(int num, int den) { return below(den) < (u64) num; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
    u64 pick(std::initializer_list<u64> v) { return *(v.begin() + below(v.size())); }
    // sizes that like boundaries
    u64 size(u64 max);
};

// ---------------------------------------------------------------- cases
string esc(const string &s);
string unesc(const string &s);
struct Line {
    vector<string> w;
    const string &operator[](size_t i) const { static string empty; return i < w.size() ? w[i] : empty; }
    size_t size() const { return w.size(); }
    u64 num(size_t i) const;
    i64 inum(size_t i) const;
};
struct Case {
    string prop;
    u64 seed = 0;
    vector<string> lines;
    void add(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void addw(const vector<string> &w);
    vector<Line> parse() const;
    string text() const;
    static Case load(const string &text);
};

// ---------------------------------------------------------------- byte streams
// A stream of bytes that is a pure function of (kind, seed, position).
struct Stream {
    string kind = "prng";  // prng zero ff mix prov script small
    u64 seed = 0;
    bytes script;  // for kind script: these bytes first, then prng
    mutable int code = 0;
    u8 at(u64 pos) const;
    static Stream of(const Line &l, size_t first);
    void describe(vector<string> &w) const;
};

// ---------------------------------------------------------------- world
enum FaultKind {
    F_ALLOC, F_ENT_SHORT, F_ENT_ERR, F_OPEN, F_READ_ERR, F_READ_EOF, F_READ_SHORT, F_SEEK, F_WRITE_ERR,
    F_WRITE_SHORT, F_REFUSE, F_PREEMPT, F_GARBAGE, F_NEST, F_CLOSE_ERR, F_NOLOCK, F_COUNT
};
extern const char *fault_names[F_COUNT];

struct FileSpec {
    string type = "reg";  // reg pipe chr dir
    string content;
    bool is_dev = false;
    Stream dev;
    u64 chunk_seed = 0, chunk_max = 0;          // how reads are split
    u64 fault_at = ~0ull; int fault_errno = 0;  // error (or EOF with errno 0) at this offset
    bool fault_once = false;
    int open_errno = 0;
};
struct EntFault { u64 call; string kind; u64 n; };

struct WorldCfg {
    u64 heap_seed = 1, stack_seed = 1, addr_shift = 0;
    std::set<u64> alloc_fail; u64 alloc_fail_from = ~0ull;
    Stream ent; vector<EntFault> ent_faults;
    map<string, FileSpec> files;
    map<string, string> env; vector<string> args;
    string out_type = "pipe"; u64 out_chunk = 0; u64 out_chunk_seed = 0;
    u64 out_fault_at = ~0ull; int out_errno = 0; bool out_fault_once = false;
    int close_errno = 0;
    u64 clock = 1000000000, pid = 4242;
    bool env_any = false; // every variable that is not set above has this value
    string env_rest;
    u64 budget = 400000000;
    bool real_seccomp = false;
    bool want_lock = false;      // record the first secret that memory which is not locked gets to see
    int mlock_errno = 0;         // locking memory is refused
    bool scan_secrets = false;
    bytes secrets;               // more secrets than the entropy
    u64 sched_seed = 0, sched_mean = 0;
    u64 mem_limit = 1ull << 30;
    static WorldCfg from(const Case &c);
};

enum ExitKind { K_NONE, K_RETURN, K_EXIT, K_ABORT, K_ASSERT, K_SIGNAL, K_ASAN, K_HANG, K_SECCOMP, K_VIOLATION, K_LOST };
extern const char *kind_names[];

struct Alloc { void *p; size_t size; bool freed; int phase; u64 hash; };

struct Result {
    ExitKind kind = K_NONE;
    int code = 0;
    u64 addr = 0;
    string out, err, events, note, blob;
    u64 steps = 0, hash = 0, sig = 0;
    u64 allocs = 0, live_allocs = 0, live_bytes = 0, streams_open = 0, config_open = 0, ent_bytes = 0, ent_calls = 0;
    u64 faults[F_COUNT] = {0};
    u64 secret_hits = 0, preemptions = 0;
    bool ok_status() const { return (kind == K_EXIT || kind == K_RETURN) && code == 0; }
    // the process ended by itself with a status
    bool status() const { return kind == K_EXIT || kind == K_RETURN; }
    string brief() const;
};

// run f in a child process in the simulated world
Result run_child(const WorldCfg &cfg, const std::function<void()> &f);
// run the command line tool
Result run_cli(const WorldCfg &cfg);
// run one of the auxiliary programs
Result run_tool(const WorldCfg &cfg, const string &name);

// do the filters that a run of the tool loaded (they are in its blob) admit this system call
bool filters_allow(const string &recorded, u32 arch, int nr, const u64 *args);

// --- to be used inside of the child
[[noreturn]] void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void blob_put(const void *p, size_t n);
void blob_str(const string &s);
void set_phase(int phase);
const vector<Alloc> &alloc_table();
u64 live_allocs(int phase = -1);
u64 open_streams();
void fault_fired(FaultKind k);
FILE *sim_file(const string &path);  // open a simulated file for reading
void set_entropy(const Stream &s, const vector<EntFault> &faults);
u64 entropy_delivered();
u64 entropy_calls();
u64 file_delivered(const string &path);
void add_secret(const void *p, size_t n);
bool contains_secret(const void *p, size_t n);
void sim_pause(bool paused);   // pause step counting
u64 steps_now();
extern "C" void *sim_malloc(size_t);
extern "C" void sim_free(void *);
// cooperative, preemptive (at basic blocks) scheduling of threads
void run_threads(u64 seed, u64 mean, const vector<std::function<void()>> &threads);

// ---------------------------------------------------------------- properties
struct Tier { bool thorough; };
struct Property {
    string id;
    Property(const char *id_) : id(id_) {}
    virtual ~Property() {}
    virtual Case gen(u64 seed, bool thorough) = 0;
    // returns a description of the violation, if there is one
    virtual optional<string> check(const Case &c) = 0;
    virtual u64 quick_cases() { return 3000; }
    virtual string rule() = 0;
    // known findings: identifier and whether it still happens
    virtual vector<std::pair<string, bool>> known() { return {}; }
    // cases that are always run first
    virtual vector<Case> fixed() { return {}; }
};
void register_properties(vector<Property *> &v);
void note_trivial();   // called by check: this case did not exercise the property
extern bool is_debug_build;
void stat_inc(const string &name, u64 n = 1);
