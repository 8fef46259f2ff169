// The simulated kernel, C library boundary, heap and scheduler.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <linux/bpf_common.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <pthread.h>
#include <seccomp.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/utsname.h>
#include <time.h>
#include <getopt.h>
#include <unistd.h>
#include <unordered_set>
#include <asm/termbits.h>
#include <stdio_ext.h>

extern "C" {
void __asan_poison_memory_region(void const volatile *addr, size_t size);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
void __asan_set_error_report_callback(void (*callback)(const char *));
int passgen_cli_main(int argc, char **argv);
int tool_wordlist_main(int argc, char **argv);
int tool_utf8_recode_main(int argc, char **argv);
int tool_tokenize_main(int argc, char **argv);
const char *__asan_default_options(void) {
    return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:halt_on_error=1:exitcode=86:"
           "symbolize=0:allocator_may_return_null=1:detect_stack_use_after_return=0:print_legend=0:print_full_thread_history=0:"
           "intercept_strlen=1:strict_string_checks=0:max_allocation_size_mb=4096:quarantine_size_mb=1:use_sigaltstack=0:disable_coredump=1";
}
}

const char *fault_names[F_COUNT] = {
    "allocation_failure", "entropy_short", "entropy_error", "open_error", "read_error", "read_truncated", "read_split", "seek_error",
    "write_error", "write_short", "callback_refusal", "preemption", "memory_garbage", "nested_use", "close_error", "memory_lock_refused"};
const char *kind_names[] = {"none", "return", "exit", "abort", "assert", "signal", "asan", "hang", "seccomp", "violation", "lost"};

// ---------------------------------------------------------------- shared memory
#define OUT_MAX (8u << 20)
#define ERR_MAX (256u << 10)
#define EV_MAX (4u << 20)
#define BLOB_MAX (24u << 20)
#define COV_SIZE 65536

struct Shm {
    u32 kind, code;
    u64 addr;
    u64 steps, allocs, live_allocs, live_bytes, streams_open, config_open, ent_bytes, ent_calls, secret_hits, preemptions;
    u64 faults[F_COUNT];
    u64 out_len, err_len, ev_len, blob_len, note_len;
    u64 ev_hash;
    char note[8192];
    u8 cov[COV_SIZE];
    char out[OUT_MAX], err[ERR_MAX], ev[EV_MAX];
    char blob[BLOB_MAX];
};
static Shm *shm;
u8 *cov_global;  // accumulated by the worker
static u64 cov_edges;

static void put(char *buf, u64 &len, u64 max, const void *p, size_t n) {
    size_t m = len < max ? max - len : 0;
    if(m > n) m = n;
    memcpy(buf + (len < max ? len : max), p, m);
    len += n;
}

void event(const char *fmt, ...) {
    char tmp[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(tmp, sizeof(tmp) - 1, fmt, ap);
    va_end(ap);
    if(n < 0) return;
    if(n > (int) sizeof(tmp) - 2) n = sizeof(tmp) - 2;
    tmp[n++] = '\n';
    for(int i = 0; i < n; i++) shm->ev_hash = (shm->ev_hash ^ (u8) tmp[i]) * 0x100000001b3ull;
    put(shm->ev, shm->ev_len, EV_MAX, tmp, n);
}
void blob_put(const void *p, size_t n) { put(shm->blob, shm->blob_len, BLOB_MAX, p, n); }
void blob_str(const string &s) { u32 n = s.size(); blob_put(&n, 4); blob_put(s.data(), n); }
void fault_fired(FaultKind k) { shm->faults[k]++; }

// ---------------------------------------------------------------- world state (child only)
struct OpenFile {
    FileSpec *spec;
    string path;
    u64 pos = 0;
    bool faulted = false;
    bool first_read = true;
    int fd;
    u64 nreads = 0;
};
struct World {
    map<size_t, vector<u8 *>> pool;
    WorldCfg cfg;
    vector<Alloc> allocs;
    int phase = 0;
    u64 nalloc = 0;
    u8 *arena, *arena_pos, *arena_end;
    u64 used = 0;
    std::map<FILE *, OpenFile *> streams;
    std::map<int, OpenFile *> fds;
    int next_fd = 3;
    std::map<string, u64> delivered;
    u64 ent_pos = 0, ent_calls = 0;
    bool out_first = true, err_first = true;
    u64 out_pos = 0, out_calls = 0;
    bool filter_loaded = false;
    vector<vector<sock_filter>> filter;   // all that were loaded, every one has to agree
    vector<void (*)(void)> atexit_fns;
    std::unordered_set<u64> secrets;
    u64 rand_state = 1;
    bool brk_done = false;
    bool lock_current = false, lock_future = false, lock_hole = false, lock_seen = false;
};
static World *W;
static volatile bool active;
static u64 budget = ~0ull;

#define ARENA_BASE ((u8 *) 0x200000000000ull)
#define ARENA_SIZE (3ull << 30)

[[noreturn]] static void finish(ExitKind kind, int code, u64 addr = 0) {
    active = false;
    shm->kind = kind;
    shm->code = code;
    shm->addr = addr;
    if(W) {
        if(W->cfg.scan_secrets && kind == K_EXIT && code == 0)
            for(auto &a : W->allocs) if(!a.freed && contains_secret(a.p, a.size)) shm->secret_hits++;
        u64 live = 0, lb = 0;
        for(auto &a : W->allocs)
            if(!a.freed) live++, lb += a.size;
        shm->allocs = W->nalloc;
        shm->live_allocs = live;
        shm->live_bytes = lb;
        shm->streams_open = W->streams.size() + W->fds.size();
        auto is_config = [](const string &p) { return p.size() >= 12 && p.compare(p.size() - 12, 12, "passgen.conf") == 0; };
        shm->config_open = 0;
        for(auto &f : W->streams) shm->config_open += is_config(f.second->path);
        for(auto &f : W->fds) shm->config_open += is_config(f.second->path);
        shm->ent_bytes = W->ent_pos;
        shm->ent_calls = W->ent_calls;
    }
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
void violation(const char *fmt, ...) {
    active = false;
    va_list ap;
    va_start(ap, fmt);
    shm->note_len = vsnprintf(shm->note, sizeof(shm->note), fmt, ap);
    va_end(ap);
    finish(K_VIOLATION, 0);
}

// ---------------------------------------------------------------- steps, coverage, preemption
static __thread u64 cov_prev;
static u64 sched_left = 0;
static bool sched_on = false;
static void sched_yield_point();
static uintptr_t text_base;

extern "C" void __sanitizer_cov_trace_pc(void) {
    if(!active) return;
    u64 pc = (u64) (uintptr_t) __builtin_return_address(0) - text_base;
    u64 h = pc * 0x9e3779b97f4a7c15ull;
    h ^= h >> 29;
    u64 idx = (h ^ cov_prev) & (COV_SIZE - 1);
    if(shm->cov[idx] < 255) shm->cov[idx]++;
    cov_prev = (h >> 1) & (COV_SIZE - 1);
    if(++shm->steps > budget) {
        event("step budget exceeded");
        finish(K_HANG, 0);
    }
    if(sched_on && --sched_left == 0) sched_yield_point();
}
void sim_pause(bool p) { active = !p; }
u64 steps_now() { return shm->steps; }

// scheduler: exactly one thread runs at any time.
struct Thr { sem_t sem; bool done; std::function<void()> f; pthread_t t; };
static vector<Thr *> thrs;
static int cur_thr = -1;
static Rng *sched_rng;
static u64 sched_mean;
static __thread int my_thr = -1;

static u64 sched_quantum() {
    // mostly short slices, now and then a long one
    if(sched_rng->chance(1, 6)) return 1 + sched_rng->below(sched_mean * 40 + 1);
    return 1 + sched_rng->below(2 * sched_mean + 1);
}
static int sched_pick() {
    vector<int> c;
    for(size_t i = 0; i < thrs.size(); i++)
        if(!thrs[i]->done) c.push_back(i);
    if(c.empty()) return -1;
    return c[sched_rng->below(c.size())];
}
static void sched_yield_point() {
    if(my_thr < 0) { sched_left = ~0ull; return; }
    bool was = active;
    active = false;
    int next = sched_pick();
    sched_left = sched_quantum();
    if(next != my_thr && next >= 0) {
        shm->preemptions++;
        shm->faults[F_PREEMPT]++;
        cur_thr = next;
        event("switch %d", next);
        sem_post(&thrs[next]->sem);
        sem_wait(&thrs[my_thr]->sem);
    }
    active = was;
}
static sem_t sched_done;
// every thread runs on a stack at a fixed address, so that a run does not depend on its history
#define STACK_BASE ((u8 *) 0x300000000000ull)
#define STACK_SIZE (8ul << 20)
#define STACK_STEP (16ul << 20)
static void stack_attr(pthread_attr_t *attr, int i) {
    u8 *at = STACK_BASE + i * STACK_STEP;
    void *p = mmap(at, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if(p != at) _exit(87);
    pthread_attr_init(attr);
    pthread_attr_setstack(attr, at, STACK_SIZE);
}
static char altstacks[16][65536];
static void set_altstack(int i) {
    stack_t ss = {};
    ss.ss_sp = altstacks[i & 15];
    ss.ss_size = sizeof(altstacks[0]);
    sigaltstack(&ss, nullptr);
}
static void *thr_main(void *arg) {
    int id = (int) (intptr_t) arg;
    my_thr = id;
    set_altstack(id + 1);
    sem_wait(&thrs[id]->sem);
    active = true;
    thrs[id]->f();
    active = false;
    thrs[id]->done = true;
    int next = sched_pick();
    sched_left = sched_quantum();
    event("done %d next %d", id, next);
    if(next >= 0) { cur_thr = next; sem_post(&thrs[next]->sem); }
    else sem_post(&sched_done);
    return nullptr;
}
void run_threads(u64 seed, u64 mean, const vector<std::function<void()>> &fs) {
    bool was = active;
    active = false;
    sched_rng = new Rng(seed);
    sched_mean = mean ? mean : 50;
    sem_init(&sched_done, 0, 0);
    for(auto &f : fs) {
        Thr *t = new Thr;
        sem_init(&t->sem, 0, 0);
        t->done = false;
        t->f = f;
        thrs.push_back(t);
    }
    for(size_t i = 0; i < thrs.size(); i++) {
        pthread_attr_t attr;
        stack_attr(&attr, i + 1);
        pthread_create(&thrs[i]->t, &attr, thr_main, (void *) (intptr_t) i);
    }
    sched_on = true;
    sched_left = sched_quantum();
    cur_thr = sched_pick();
    sem_post(&thrs[cur_thr]->sem);
    sem_wait(&sched_done);
    sched_on = false;
    for(auto t : thrs) pthread_join(t->t, nullptr);
    thrs.clear();
    active = was;
}

// ---------------------------------------------------------------- seccomp filter
static u32 bpf_run(const vector<sock_filter> &prog, const seccomp_data &d) {
    u32 A = 0, X = 0, M[16] = {0};
    for(size_t pc = 0; pc < prog.size(); pc++) {
        const sock_filter &f = prog[pc];
        switch(BPF_CLASS(f.code)) {
            case BPF_LD:
                if(BPF_MODE(f.code) == BPF_ABS) { if(f.k + 4 > sizeof(d)) return 0; memcpy(&A, (const u8 *) &d + f.k, 4); }
                else if(BPF_MODE(f.code) == BPF_IMM) A = f.k;
                else if(BPF_MODE(f.code) == BPF_MEM) A = M[f.k & 15];
                else if(BPF_MODE(f.code) == BPF_LEN) A = sizeof(d);
                break;
            case BPF_LDX:
                if(BPF_MODE(f.code) == BPF_IMM) X = f.k; else if(BPF_MODE(f.code) == BPF_MEM) X = M[f.k & 15];
                break;
            case BPF_ST: M[f.k & 15] = A; break;
            case BPF_STX: M[f.k & 15] = X; break;
            case BPF_ALU: {
                u32 v = BPF_SRC(f.code) == BPF_X ? X : f.k;
                switch(BPF_OP(f.code)) {
                    case BPF_ADD: A += v; break; case BPF_SUB: A -= v; break; case BPF_MUL: A *= v; break;
                    case BPF_DIV: A = v ? A / v : 0; break; case BPF_OR: A |= v; break; case BPF_AND: A &= v; break;
                    case BPF_LSH: A <<= v & 31; break; case BPF_RSH: A >>= v & 31; break; case BPF_NEG: A = -A; break;
                    case BPF_XOR: A ^= v; break; default: return 0;
                }
                break;
            }
            case BPF_JMP: {
                u32 v = BPF_SRC(f.code) == BPF_X ? X : f.k;
                bool t = false;
                switch(BPF_OP(f.code)) {
                    case BPF_JA: pc += f.k; continue;
                    case BPF_JEQ: t = A == v; break; case BPF_JGT: t = A > v; break; case BPF_JGE: t = A >= v; break;
                    case BPF_JSET: t = A & v; break; default: return 0;
                }
                pc += t ? f.jt : f.jf;
                break;
            }
            case BPF_RET: return BPF_RVAL(f.code) == BPF_A ? A : f.k;
            case BPF_MISC: if(BPF_MISCOP(f.code) == BPF_TAX) X = A; else A = X; break;
        }
    }
    return 0;
}
static bool bpf_allows(u32 ret) {
    u32 a = ret & SECCOMP_RET_ACTION_FULL;
    return a == SECCOMP_RET_ALLOW || a == SECCOMP_RET_LOG;
}
bool filter_allows(const vector<sock_filter> &prog, u32 arch, int nr, const u64 *args) {
    seccomp_data d;
    memset(&d, 0, sizeof(d));
    d.nr = nr;
    d.arch = arch;
    for(int i = 0; i < 6; i++) d.args[i] = args[i];
    return bpf_allows(bpf_run(prog, d));
}
// A system call that the real C library would make at this point.
static bool filters_allow(const vector<vector<sock_filter>> &fs, u32 arch, int nr, const u64 *args) {
    for(auto &f : fs) if(!filter_allows(f, arch, nr, args)) return false;
    return true;
}
static void sysc(const char *name, int nr, u64 a = 0, u64 b = 0, u64 c = 0, u64 d = 0, u64 e = 0, u64 f = 0) {
    u64 args[6] = {a, b, c, d, e, f};
    if(W && W->filter_loaded) {
        if(!filters_allow(W->filter, 0xC000003E, nr, args)) {
            event("denied %s %lx %lx %lx %lx", name, a, b, c, d);
            shm->note_len = snprintf(shm->note, sizeof(shm->note), "system call %s(%#lx, %#lx, %#lx, %#lx) is needed but not admitted", name, a, b, c, d);
            finish(K_SECCOMP, nr);
        }
    }
}
// something that has to be kept out of swap space is about to be in memory
static void secret_in_memory(const char *what, const char *more = "") {
    if(!W->cfg.want_lock || W->lock_seen || (W->lock_current && W->lock_future && !W->lock_hole)) return;
    W->lock_seen = true;
    event("not locked: %s%s", what, more);
}
bool filters_allow(const string &recorded, u32 arch, int nr, const u64 *args) {
    size_t p = 0;
    while(p + 4 <= recorded.size()) {
        u32 n;
        memcpy(&n, recorded.data() + p, 4);
        p += 4;
        if(p + n * sizeof(sock_filter) > recorded.size()) break;
        vector<sock_filter> f(n);
        memcpy(f.data(), recorded.data() + p, n * sizeof(sock_filter));
        p += n * sizeof(sock_filter);
        if(!filter_allows(f, arch, nr, args)) return false;
    }
    return true;
}

// ---------------------------------------------------------------- heap
struct Hdr { u64 magic, size, idx, pad; };
#define MAGIC 0x51a110c5deadbeefull

static u64 content_hash(const u8 *p, size_t n) {
    u64 h = 1469598103934665603ull ^ n;
    for(size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
    return h;
}
void set_phase(int phase) { W->phase = phase; }
const vector<Alloc> &alloc_table() { return W->allocs; }
u64 live_allocs(int phase) {
    u64 n = 0;
    for(auto &a : W->allocs) if(!a.freed && (phase < 0 || a.phase == phase)) n++;
    return n;
}
u64 open_streams() { return W->streams.size() + W->fds.size(); }
void add_secret(const void *pv, size_t n) {
    const u8 *p = (const u8 *) pv;
    for(size_t i = 0; i + 8 <= n; i++) {
        u64 v;
        memcpy(&v, p + i, 8);
        // words with little information in them are not secrets
        if((v & 0xffffffff) == (v >> 32) || !(v >> 16)) continue;
        W->secrets.insert(v);
    }
}
bool contains_secret(const void *pv, size_t n) {
    const u8 *p = (const u8 *) pv;
    for(size_t i = 0; i + 8 <= n; i++) {
        u64 v = 0;
        for(int j = 7; j >= 0; j--) v = v << 8 | p[i + j];
        if(W->secrets.count(v)) return true;
    }
    return false;
}

static void *arena_alloc(size_t size, size_t align, bool zero) {
    u64 k = ++W->nalloc;
    bool fail = W->cfg.alloc_fail.count(k) || k >= W->cfg.alloc_fail_from;
    if(fail) {
        fault_fired(F_ALLOC);
        event("alloc %lu size %zu fails", k, size);
        errno = ENOMEM;
        return nullptr;
    }
    if(size > W->cfg.mem_limit || W->used + size > W->cfg.mem_limit) {
        event("alloc %lu size %zu exceeds memory", k, size);
        errno = ENOMEM;
        return nullptr;
    }
    if(size >= 128 * 1024) sysc("mmap", SYS_mmap, 0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, (u64) -1, 0);
    else if(!W->brk_done) { W->brk_done = true; sysc("getrandom", SYS_getrandom, 0x1000, 8, 1); sysc("brk", SYS_brk, 0); }
    if(align < 16) align = 16;
    // some heaps give the block that was released last away again, as it is
    u8 *p = nullptr;
    auto pool = W->pool.find((size + 15) / 16);
    bool again = align == 16 && pool != W->pool.end() && !pool->second.empty();
    if(again) {
        p = pool->second.back();
        pool->second.pop_back();
    } else {
        p = W->arena_pos + sizeof(Hdr) + 32;
        p = (u8 *) (((uintptr_t) p + align - 1) / align * align);
        u8 *end = (u8 *) (((uintptr_t) p + size + 32 + 15) / 16 * 16);
        if(end > W->arena_end) { errno = ENOMEM; return nullptr; }
        __asan_poison_memory_region(W->arena_pos, end - W->arena_pos);
        W->arena_pos = end;
    }
    Hdr *h = (Hdr *) (p - sizeof(Hdr));
    W->used += size;
    h->magic = MAGIC;
    h->size = size;
    h->idx = W->allocs.size();
    __asan_unpoison_memory_region(p, size);
    if(zero) memset(p, 0, size);
    else if(!again) {
        u64 s = mix64(W->cfg.heap_seed, k);
        size_t i = 0;
        // garbage: depending on the seed all ones, repeated bytes, random or zero
        int mode = W->cfg.heap_seed == 0 ? 0 : 1 + s % 3;
        // and sometimes memory as it comes from the system, where what forgets to clear it seems to work
        if(W->cfg.heap_seed % 8 == 1) memset(p, 0, size);
        else if(mode == 0) memset(p, 0xa5, size);
        else if(mode == 1) memset(p, (s >> 8) & 1 ? 0xff : (s >> 16) & 0xff, size);
        else {
            for(; i + 8 <= size; i += 8) { s = mix64(s); memcpy(p + i, &s, 8); }
            for(; i < size; i++) p[i] = (u8) (s >> (8 * (i & 7)));
        }
    }
    W->allocs.push_back({p, size, false, W->phase, 0});
    return p;
}
static Hdr *arena_hdr(void *p, const char *what) {
    Hdr *h = (Hdr *) ((u8 *) p - sizeof(Hdr));
    if((u8 *) p < W->arena || (u8 *) p >= W->arena_end || h->magic != MAGIC || h->idx >= W->allocs.size() || W->allocs[h->idx].p != p)
        violation("memory: %s of a pointer that was never allocated", what);
    if(W->allocs[h->idx].freed) violation("memory: %s of a block that was released already (double free)", what);
    return h;
}
static bool in_arena(void *p) { return W && (u8 *) p >= ARENA_BASE && (u8 *) p < ARENA_BASE + ARENA_SIZE; }

struct Quiet { bool was; Quiet() : was(active) { active = false; } ~Quiet() { active = was; } };

extern "C" {
void *sim_malloc(size_t n) { Quiet q; return arena_alloc(n, 16, false); }
void *sim_calloc(size_t a, size_t b) {
    Quiet q;
    size_t n;
    if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return arena_alloc(n, 16, true);
}
void sim_free(void *p) {
    Quiet q;
    if(!p) return;
    if(!in_arena(p)) { free(p); return; }
    Hdr *h = arena_hdr(p, "free");
    Alloc &a = W->allocs[h->idx];
    a.freed = true;
    W->used -= a.size;
    if(W->cfg.scan_secrets) {
        a.hash = content_hash((u8 *) p, a.size);
        if(!W->secrets.empty() && contains_secret(p, a.size)) shm->secret_hits++;
    }
    if(a.size >= 128 * 1024) sysc("munmap", SYS_munmap, (u64) p, a.size);
    __asan_poison_memory_region(p, a.size ? a.size : 1);
    if(W->cfg.heap_seed % 4 == 3 && !((uintptr_t) p & 15)) W->pool[(a.size + 15) / 16].push_back((u8 *) p);
}
void *sim_realloc(void *p, size_t n) {
    Quiet q;
    if(!p) return arena_alloc(n, 16, false);
    if(!in_arena(p)) return realloc(p, n);
    Hdr *h = arena_hdr(p, "realloc");
    size_t old = W->allocs[h->idx].size;
    if(n == 0) { q.was = q.was; sim_free(p); return nullptr; }
    void *r = arena_alloc(n, 16, false);
    if(!r) return nullptr;
    memcpy(r, p, old < n ? old : n);
    if(old >= 128 * 1024 && n >= 128 * 1024) sysc("mremap", SYS_mremap, (u64) p, old, n, MREMAP_MAYMOVE);
    sim_free(p);
    return r;
}
void *sim_reallocarray(void *p, size_t a, size_t b) {
    size_t n;
    if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return sim_realloc(p, n);
}
void *sim_aligned_alloc(size_t al, size_t n) { Quiet q; return arena_alloc(n, al, false); }
int sim_posix_memalign(void **out, size_t al, size_t n) {
    Quiet q;
    void *p = arena_alloc(n, al, false);
    if(!p) return ENOMEM;
    *out = p;
    return 0;
}
char *sim_strndup(const char *s, size_t max) {
    size_t n = strnlen(s, max);
    char *p = (char *) sim_malloc(n + 1);
    if(!p) return nullptr;
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
char *sim_strdup(const char *s) { return sim_strndup(s, strlen(s)); }
int sim_vasprintf(char **out, const char *fmt, va_list ap) {
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    if(n < 0) return -1;
    *out = (char *) sim_malloc(n + 1);
    if(!*out) return -1;
    return vsnprintf(*out, n + 1, fmt, ap);
}
int sim_asprintf(char **out, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int n = sim_vasprintf(out, fmt, ap);
    va_end(ap);
    return n;
}
ssize_t sim_getdelim(char **line, size_t *cap, int delim, FILE *f) {
    size_t n = 0;
    for(;;) {
        int c = getc(f);
        if(c == EOF) break;
        if(!*line || n + 2 > *cap) {
            size_t nc = *cap && *line ? *cap * 2 : 120;
            char *p = (char *) sim_realloc(*line, nc);
            if(!p) return -1;
            *line = p;
            *cap = nc;
        }
        (*line)[n++] = c;
        if(c == delim) break;
    }
    if(!n) return -1;
    (*line)[n] = 0;
    return n;
}
ssize_t sim_getline(char **line, size_t *cap, FILE *f) { return sim_getdelim(line, cap, '\n', f); }

// ---------------------------------------------------------------- files
// a system call counts as much as the code around it
static void syscall_cost() {
    if(active && (shm->steps += 50) > budget) { event("step budget exceeded"); finish(K_HANG, 0); }
}
static ssize_t file_read(OpenFile *o, char *buf, size_t n) {
    syscall_cost();
    secret_in_memory("reading from ", o->path.c_str());
    Quiet q;
    FileSpec *s = o->spec;
    if(o->first_read) {
        o->first_read = false;
        sysc("newfstatat", SYS_newfstatat, o->fd, 0x1000, 0x1000, 0x1000);
        if(s->type == "chr") sysc("ioctl", SYS_ioctl, o->fd, TCGETS, 0x1000);
    }
    sysc("read", SYS_read, o->fd, 0x1000, n);
    if(s->type == "dir") { errno = EISDIR; fault_fired(F_READ_ERR); event("read %s EISDIR", o->path.c_str()); return -1; }
    size_t avail;
    if(s->is_dev) avail = n;
    else avail = o->pos < s->content.size() ? s->content.size() - o->pos : 0;
    size_t m = n < avail ? n : avail;
    if(s->chunk_max && m > 1) {
        u64 c = 1 + mix64(s->chunk_seed, o->nreads) % s->chunk_max;
        if(c < m) { m = c; fault_fired(F_READ_SHORT); }
    }
    o->nreads++;
    if(!(s->fault_once && o->faulted) && s->fault_at != ~0ull) {
        if(o->pos >= s->fault_at) {
            o->faulted = true;
            if(s->fault_errno) {
                fault_fired(F_READ_ERR);
                event("read %s at %lu error %d", o->path.c_str(), o->pos, s->fault_errno);
                errno = s->fault_errno;
                return -1;
            }
            fault_fired(F_READ_EOF);
            event("read %s at %lu end of file", o->path.c_str(), o->pos);
            return 0;
        }
        if(o->pos + m > s->fault_at) m = s->fault_at - o->pos;
    }
    if(s->is_dev) for(size_t i = 0; i < m; i++) buf[i] = s->dev.at(o->pos + i);
    else memcpy(buf, s->content.data() + o->pos, m);
    o->pos += m;
    if(W->cfg.scan_secrets && s->is_dev) { bytes b(buf, buf + m); add_secret(b.data(), m); }
    u64 &del = W->delivered[o->path];
    if(del < o->pos) del = o->pos;
    if(o->nreads < 200) event("read %s %zu -> %zu", o->path.c_str(), n, m);
    return m;
}
static int file_seek(OpenFile *o, off64_t *off, int whence) {
    Quiet q;
    sysc("lseek", SYS_lseek, o->fd, *off, whence);
    if(o->spec->type != "reg") { fault_fired(F_SEEK); errno = ESPIPE; return -1; }
    i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (i64) o->pos : (i64) o->spec->content.size();
    i64 np = base + *off;
    if(np < 0) { errno = EINVAL; return -1; }
    o->pos = np;
    *off = np;
    return 0;
}
static OpenFile *file_open(const char *path, int flags) {
    sysc("openat", SYS_openat, (u64) AT_FDCWD, 0x1000, flags);
    auto it = W->cfg.files.find(path);
    if(it == W->cfg.files.end()) { event("open %s ENOENT", path); errno = ENOENT; return nullptr; }
    if(it->second.open_errno) {
        fault_fired(F_OPEN);
        event("open %s error %d", path, it->second.open_errno);
        errno = it->second.open_errno;
        return nullptr;
    }
    if((flags & O_ACCMODE) != O_RDONLY) { event("open %s for writing", path); errno = EACCES; return nullptr; }
    OpenFile *o = new OpenFile;
    o->spec = &it->second;
    o->path = path;
    o->fd = W->next_fd++;
    event("open %s fd %d", path, o->fd);
    return o;
}
static ssize_t cookie_read(void *c, char *buf, size_t n) { return file_read((OpenFile *) c, buf, n); }
static int cookie_seek(void *c, off64_t *off, int whence) { return file_seek((OpenFile *) c, off, whence); }
static int cookie_close(void *c) {
    Quiet q;
    OpenFile *o = (OpenFile *) c;
    sysc("close", SYS_close, o->fd);
    event("close %s fd %d", o->path.c_str(), o->fd);
    return 0;
}
static FILE *wrap(OpenFile *o) {
    cookie_io_functions_t io = {cookie_read, nullptr, cookie_seek, cookie_close};
    FILE *f = fopencookie(o, "r", io);
    W->streams[f] = o;
    return f;
}
FILE *sim_fopen(const char *path, const char *mode) {
    Quiet q;
    int flags = O_RDONLY;
    if(strchr(mode, '+')) flags = O_RDWR;
    else if(*mode != 'r') flags = O_WRONLY;
    if(*mode != 'r') flags |= O_CREAT;
    if(strchr(mode, 'e')) flags |= O_CLOEXEC;
    OpenFile *o = file_open(path, flags);
    return o ? wrap(o) : nullptr;
}
FILE *sim_fdopen(int fd, const char *mode) {
    (void) mode;
    Quiet q;
    auto it = W->fds.find(fd);
    if(it == W->fds.end()) { errno = EBADF; return nullptr; }
    FILE *f = wrap(it->second);
    W->fds.erase(it);
    return f;
}
int sim_fclose(FILE *f) {
    Quiet q;
    if(f == stdout || f == stderr) { event("fclose std"); int r = fflush(f); return r; }
    if(!W->streams.count(f)) violation("memory: fclose of a stream that is not open (closed twice or never opened)");
    OpenFile *o = W->streams[f];
    W->streams.erase(f);
    // the buffer of a stream is memory of whoever opened it, and is released with it as it is
    if(W->cfg.scan_secrets && o->spec->is_dev && f->_IO_buf_base && contains_secret(f->_IO_buf_base, f->_IO_buf_end - f->_IO_buf_base)) {
        shm->secret_hits++;
        event("the buffer of the stream of %s contains random bytes when it is closed", o->path.c_str());
    }
    // keep the memory of the FILE, so that a use after fclose is found: it becomes poisoned
    int r = fclose(f);
    delete o;
    return r;
}
int sim_open(const char *path, int flags, ...) {
    Quiet q;
    OpenFile *o = file_open(path, flags);
    if(!o) return -1;
    W->fds[o->fd] = o;
    return o->fd;
}
int sim_openat(int dfd, const char *path, int flags, ...) { (void) dfd; return sim_open(path, flags); }
ssize_t sim_read(int fd, void *buf, size_t n) {
    Quiet q;
    auto it = W->fds.find(fd);
    if(it == W->fds.end()) { errno = EBADF; return -1; }
    it->second->first_read = false;
    return file_read(it->second, (char *) buf, n);
}
off_t sim_lseek(int fd, off_t off, int whence) {
    Quiet q;
    auto it = W->fds.find(fd);
    if(it == W->fds.end()) { errno = EBADF; return -1; }
    off64_t o = off;
    return file_seek(it->second, &o, whence) < 0 ? -1 : o;
}
int sim_close(int fd) {
    Quiet q;
    sysc("close", SYS_close, fd);
    auto it = W->fds.find(fd);
    if(it == W->fds.end()) { errno = EBADF; return -1; }
    event("close %s fd %d", it->second->path.c_str(), fd);
    delete it->second;
    W->fds.erase(it);
    return 0;
}
int sim_fileno(FILE *f) {
    Quiet q;
    if(f == stdout) return 1;
    if(f == stderr) return 2;
    if(f == stdin) return 0;
    auto it = W->streams.find(f);
    return it == W->streams.end() ? -1 : it->second->fd;
}
static const string &fd_type(int fd, u64 *size) {
    static string none = "", reg = "reg";
    *size = 0;
    if(fd >= 0 && fd <= 2) return fd == 1 ? W->cfg.out_type : none;
    for(auto &s : W->streams) if(s.second->fd == fd) { *size = s.second->spec->content.size(); return s.second->spec->type; }
    for(auto &s : W->fds) if(s.first == fd) { *size = s.second->spec->content.size(); return s.second->spec->type; }
    return none;
}
int sim_fstat(int fd, struct stat *st) {
    Quiet q;
    sysc("newfstatat", SYS_newfstatat, fd, 0x1000, 0x1000, 0x1000);
    u64 size;
    const string &t = fd_type(fd, &size);
    memset(st, 0, sizeof(*st));
    if(t == "" && fd > 2) { errno = EBADF; return -1; }
    st->st_size = t == "reg" ? size : 0;
    st->st_mode = t == "reg" || t == "file" ? S_IFREG : t == "dir" ? S_IFDIR : t == "chr" || t == "tty" ? S_IFCHR : S_IFIFO;
    st->st_blksize = 4096;
    return 0;
}
int sim_stat(const char *path, struct stat *st) {
    Quiet q;
    sysc("newfstatat", SYS_newfstatat, (u64) AT_FDCWD, 0x1000, 0x1000, 0);
    memset(st, 0, sizeof(*st));
    auto it = W->cfg.files.find(path);
    if(it == W->cfg.files.end()) { errno = ENOENT; return -1; }
    const string &t = it->second.type;
    st->st_size = t == "reg" ? it->second.content.size() : 0;
    st->st_mode = t == "reg" ? S_IFREG : t == "dir" ? S_IFDIR : t == "chr" ? S_IFCHR : S_IFIFO;
    return 0;
}
int sim_access(const char *path, int mode) {
    (void) mode;
    Quiet q;
    sysc("access", SYS_access, 0x1000, mode);
    if(W->cfg.files.count(path)) return 0;
    errno = ENOENT;
    return -1;
}
int sim_isatty(int fd) {
    Quiet q;
    sysc("ioctl", SYS_ioctl, fd, TCGETS, 0x1000);
    if(fd == 1 && W->cfg.out_type == "tty") return 1;
    errno = ENOTTY;
    return 0;
}
FILE *sim_tmpfile(void) { Quiet q; event("tmpfile"); sysc("openat", SYS_openat, (u64) AT_FDCWD, 0x1000, O_RDWR | O_CREAT); errno = EACCES; return nullptr; }
FILE *sim_popen(const char *c, const char *m) { (void) m; Quiet q; event("popen %s", c); sysc("clone3", SYS_clone3, 0x1000, 88); return nullptr; }
int sim_system(const char *c) { Quiet q; event("system %s", c); sysc("clone3", SYS_clone3, 0x1000, 88); return -1; }
int sim_socket(int a, int b, int c) { Quiet q; event("socket"); sysc("socket", SYS_socket, a, b, c); errno = EACCES; return -1; }
pid_t sim_fork(void) { Quiet q; event("fork"); sysc("clone", SYS_clone, 0x1200011); errno = EAGAIN; return -1; }
void *sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    Quiet q;
    sysc("mmap", SYS_mmap, (u64) addr, len, prot, flags, fd, off);
    if(fd >= 0) {
        auto it = W->fds.find(fd);
        if(it == W->fds.end()) { errno = EBADF; return MAP_FAILED; }
        void *p = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        const string &c = it->second->spec->content;
        if((size_t) off < c.size()) memcpy(p, c.data() + off, std::min(len, c.size() - off));
        return p;
    }
    return mmap(addr, len, prot, flags, fd, off);
}

// ---------------------------------------------------------------- output
static ssize_t out_write(void *c, const char *buf, size_t n) {
    secret_in_memory("writing output");
    (void) c;
    Quiet q;
    if(W->out_first) {
        W->out_first = false;
        sysc("newfstatat", SYS_newfstatat, 1, 0x1000, 0x1000, 0x1000);
        if(W->cfg.out_type == "tty" || W->cfg.out_type == "chr") sysc("ioctl", SYS_ioctl, 1, TCGETS, 0x1000);
    }
    size_t done = 0;
    // this is what the C library does: retry after short writes, stop at errors
    while(done < n) {
        sysc("write", SYS_write, 1, 0x1000, n - done);
        size_t m = n - done;
        if(W->cfg.out_chunk && m > 1) {
            u64 k = 1 + mix64(W->cfg.out_chunk_seed, W->out_calls) % W->cfg.out_chunk;
            if(k < m) { m = k; fault_fired(F_WRITE_SHORT); }
        }
        W->out_calls++;
        if(W->cfg.out_fault_at != ~0ull) {
            if(W->out_pos >= W->cfg.out_fault_at) {
                fault_fired(F_WRITE_ERR);
                event("write error %d at %lu", W->cfg.out_errno, W->out_pos);
                if(W->cfg.out_fault_once) W->cfg.out_fault_at = ~0ull;
                errno = W->cfg.out_errno;
                return done;
            }
            if(W->out_pos + m > W->cfg.out_fault_at) m = W->cfg.out_fault_at - W->out_pos;
        }
        put(shm->out, shm->out_len, OUT_MAX, buf + done, m);
        event("write %zu", m);
        W->out_pos += m;
        done += m;
    }
    return done;
}
static ssize_t err_write(void *c, const char *buf, size_t n) {
    (void) c;
    Quiet q;
    sysc("write", SYS_write, 2, 0x1000, n);
    put(shm->err, shm->err_len, ERR_MAX, buf, n);
    event("stderr %zu", n);
    return n;
}
ssize_t sim_write(int fd, const void *buf, size_t n) {
    Quiet q;
    if(fd == 1) {
        // a raw write: short writes are visible
        sysc("write", SYS_write, 1, 0x1000, n);
        size_t m = n;
        if(W->cfg.out_chunk && m > 1) {
            u64 k = 1 + mix64(W->cfg.out_chunk_seed, W->out_calls) % W->cfg.out_chunk;
            if(k < m) { m = k; fault_fired(F_WRITE_SHORT); }
        }
        W->out_calls++;
        if(W->cfg.out_fault_at != ~0ull) {
            if(W->out_pos >= W->cfg.out_fault_at) { fault_fired(F_WRITE_ERR); errno = W->cfg.out_errno; return -1; }
            if(W->out_pos + m > W->cfg.out_fault_at) m = W->cfg.out_fault_at - W->out_pos;
        }
        put(shm->out, shm->out_len, OUT_MAX, buf, m);
        W->out_pos += m;
        return m;
    }
    if(fd == 2) return err_write(nullptr, (const char *) buf, n);
    sysc("write", SYS_write, fd, 0x1000, n);
    errno = EBADF;
    return -1;
}
ssize_t sim_writev(int fd, const struct iovec *v, int n) {
    ssize_t t = 0;
    for(int i = 0; i < n; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if(r < 0) return t ? t : r; t += r; if((size_t) r < v[i].iov_len) break; }
    return t;
}

// ---------------------------------------------------------------- entropy
ssize_t sim_getrandom(void *buf, size_t n, unsigned flags) {
    syscall_cost();
    secret_in_memory("getrandom");
    Quiet q;
    sysc("getrandom", SYS_getrandom, 0x1000, n, flags);
    u64 call = W->ent_calls++;
    size_t m = n;
    for(auto &f : W->cfg.ent_faults) {
        // "kind+": from that call on
        bool on = !f.kind.empty() && f.kind.back() == '+';
        if(on ? call < f.call : f.call != call) continue;
        string kind = on ? f.kind.substr(0, f.kind.size() - 1) : f.kind;
        if(kind == "short") { m = f.n < n ? f.n : n ? n - 1 : 0; fault_fired(F_ENT_SHORT); }
        else {
            fault_fired(F_ENT_ERR);
            errno = kind == "eintr" ? EINTR : kind == "eagain" ? EAGAIN : kind == "enosys" ? ENOSYS : kind == "efault" ? EFAULT : EIO;
            event("getrandom %zu errno %d", n, errno);
            return kind == "zero" ? 0 : -1;
        }
    }
    for(size_t i = 0; i < m; i++) ((u8 *) buf)[i] = W->cfg.ent.at(W->ent_pos + i);
    if(W->cfg.scan_secrets) {
        bytes b(m);
        for(size_t i = 0; i < m; i++) b[i] = ((u8 *) buf)[i];
        add_secret(b.data(), m);
    }
    W->ent_pos += m;
    event("getrandom %zu -> %zu", n, m);
    return m;
}
int sim_getentropy(void *buf, size_t n) {
    if(n > 256) { errno = EIO; return -1; }
    ssize_t r = sim_getrandom(buf, n, 0);
    if(r < 0) return -1;
    if((size_t) r != n) { errno = EIO; return -1; }
    return 0;
}
void sim_arc4random_buf(void *buf, size_t n) { sim_getrandom(buf, n, 0); }

// ---------------------------------------------------------------- process
char *sim_getenv(const char *name) {
    Quiet q;
    auto it = W->cfg.env.find(name);
    event("getenv %s %s", name, it == W->cfg.env.end() ? "unset" : "set");
    if(it == W->cfg.env.end() && W->cfg.env_any && strcmp(name, "HOME") && strcmp(name, "XDG_CONFIG_PATH")) return (char *) W->cfg.env_rest.c_str();
    return it == W->cfg.env.end() ? nullptr : (char *) it->second.c_str();
}
char *sim_secure_getenv(const char *name) { return sim_getenv(name); }
static void flush_all() {
    active = false;
    fflush(stdout);
    fflush(stderr);
}
[[noreturn]] void sim_exit(int code) {
    for(size_t i = W->atexit_fns.size(); i-- > 0;) W->atexit_fns[i]();
    Quiet q;
    flush_all();
    secret_in_memory("the end of the run");
    event("exit %d", code);
    finish(K_EXIT, code & 0xff);
}
[[noreturn]] void sim__exit(int code) { active = false; event("_exit %d", code); finish(K_EXIT, code & 0xff); }
[[noreturn]] void sim_abort(void) { active = false; event("abort"); finish(K_ABORT, 0); }
[[noreturn]] void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
    (void) line; (void) fn; (void) file;
    active = false;
    event("assertion %s failed", e);
    shm->note_len = snprintf(shm->note, sizeof(shm->note), "assertion `%s' failed in %s", e, fn);
    finish(K_ASSERT, 0);
}
int sim_atexit(void (*f)(void)) { W->atexit_fns.push_back(f); return 0; }
int sim_raise(int sig) { active = false; event("raise %d", sig); finish(K_SIGNAL, sig); }
int sim_kill(pid_t p, int sig) { (void) p; active = false; event("kill %d", sig); finish(K_SIGNAL, sig); }
int sim_mlockall(int f) {
    Quiet q;
    sysc("mlockall", SYS_mlockall, f);
    event("mlockall %d", f);
    if(W->cfg.mlock_errno) { fault_fired(F_NOLOCK); errno = W->cfg.mlock_errno; return -1; }
    if(!(f & 3) || (f & ~7)) { errno = EINVAL; return -1; }
    // what is mapped later is locked if the latest call asks for it
    if(f & MCL_CURRENT) { W->lock_current = true; W->lock_hole = false; }
    W->lock_future = f & MCL_FUTURE;
    return 0;
}
int sim_munlockall(void) { Quiet q; sysc("munlockall", SYS_munlockall); event("munlockall"); W->lock_current = W->lock_future = false; return 0; }
int sim_munlock(const void *, size_t n) { Quiet q; sysc("munlock", SYS_munlock); event("munlock %zu", n); W->lock_hole = true; return 0; }
int sim_mlock(const void *, size_t) { Quiet q; sysc("mlock", SYS_mlock); return W->cfg.mlock_errno ? (errno = W->cfg.mlock_errno, -1) : 0; }
int sim_madvise(void *, size_t, int) { return 0; }
int sim_setrlimit(int, const void *) { return 0; }
int sim_getrlimit(int, void *) { errno = EPERM; return -1; }
time_t sim_time(time_t *t) { Quiet q; event("time"); W->cfg.clock += 7; if(t) *t = W->cfg.clock; return W->cfg.clock; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { Quiet q; event("clock_gettime"); W->cfg.clock += 3; ts->tv_sec = W->cfg.clock; ts->tv_nsec = mix64(W->cfg.clock) % 1000000000; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { Quiet q; event("gettimeofday"); W->cfg.clock += 3; tv->tv_sec = W->cfg.clock; tv->tv_usec = mix64(W->cfg.clock) % 1000000; return 0; }
clock_t sim_clock(void) { Quiet q; event("clock"); return W->cfg.clock += 5; }
pid_t sim_getpid(void) { Quiet q; event("getpid"); return W->cfg.pid; }
pid_t sim_getppid(void) { return W->cfg.pid - 1; }
pid_t sim_gettid(void) { return W->cfg.pid; }
uid_t sim_getuid(void) { return 1000; }
int sim_rand(void) { Quiet q; W->rand_state = mix64(W->rand_state); return W->rand_state & 0x7fffffff; }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned s) { W->rand_state = s; }
void sim_srandom(unsigned s) { W->rand_state = s; }
unsigned sim_sleep(unsigned s) { Quiet q; W->cfg.clock += s; event("sleep"); return 0; }
int sim_usleep(unsigned) { return 0; }
int sim_nanosleep(const struct timespec *, struct timespec *) { return 0; }
int sim_getopt_long(int argc, char *const argv[], const char *s, const struct option *l, int *i) {
    { Quiet q; event("getopt"); secret_in_memory("reading the options"); }
    Quiet q;
    return getopt_long(argc, argv, s, l, i);
}
int sim_getopt(int argc, char *const argv[], const char *s) { { Quiet q; event("getopt"); secret_in_memory("reading the options"); } Quiet q; return getopt(argc, argv, s); }

// ---------------------------------------------------------------- sandbox
static char dummy_ctx;
void *sim_seccomp_init(uint32_t act) {
    Quiet q;
    if(!W->cfg.real_seccomp) return &dummy_ctx;
    return seccomp_init(act);
}
int sim_seccomp_rule_add(void *ctx, uint32_t action, int nr, unsigned cnt, ...) {
    Quiet q;
    scmp_arg_cmp arr[6];
    va_list ap;
    va_start(ap, cnt);
    for(unsigned i = 0; i < cnt && i < 6; i++) arr[i] = va_arg(ap, scmp_arg_cmp);
    va_end(ap);
    if(ctx == &dummy_ctx) return 0;
    return seccomp_rule_add_array(ctx, action, nr, cnt, arr);
}
int sim_seccomp_rule_add_array(void *ctx, uint32_t action, int nr, unsigned cnt, const scmp_arg_cmp *arr) {
    Quiet q;
    if(ctx == &dummy_ctx) return 0;
    return seccomp_rule_add_array(ctx, action, nr, cnt, arr);
}
int sim_seccomp_rule_add_exact_array(void *ctx, uint32_t action, int nr, unsigned cnt, const scmp_arg_cmp *arr) {
    return sim_seccomp_rule_add_array(ctx, action, nr, cnt, arr);
}
int sim_seccomp_attr_set(void *ctx, int attr, uint32_t v) {
    Quiet q;
    if(ctx == &dummy_ctx) return 0;
    return seccomp_attr_set(ctx, (scmp_filter_attr) attr, v);
}
void sim_seccomp_release(void *ctx) {
    Quiet q;
    if(ctx == &dummy_ctx) return;
    seccomp_release(ctx);
}
static void record_filter(const vector<sock_filter> &prog) {
    u32 n = prog.size();
    blob_put(&n, 4);
    blob_put(prog.data(), n * sizeof(sock_filter));
}
int sim_seccomp_load(void *ctx) {
    Quiet q;
    event("sandbox loaded");
    if(ctx == &dummy_ctx) return 0;
    int fd = syscall(SYS_memfd_create, "bpf", 0);
    if(fd < 0 || seccomp_export_bpf(ctx, fd) != 0) { event("export failed"); return -1; }
    lseek(fd, 0, SEEK_SET);
    sock_filter f;
    vector<sock_filter> prog;
    while(read(fd, &f, sizeof(f)) == sizeof(f)) prog.push_back(f);
    close(fd);
    W->filter.push_back(prog);
    W->filter_loaded = true;
    record_filter(prog);
    return 0;
}
int sim_prctl(int op, unsigned long a, unsigned long b, unsigned long c, unsigned long d) {
    Quiet q;
    (void) c; (void) d;
    event("prctl %d", op);
    if(op == PR_SET_SECCOMP && a == SECCOMP_MODE_FILTER) {
        sock_fprog *p = (sock_fprog *) b;
        W->filter.push_back(vector<sock_filter>(p->filter, p->filter + p->len)); record_filter(W->filter.back());
        W->filter_loaded = true;
        event("sandbox loaded");
    }
    return 0;
}
long sim_syscall(long nr, long a, long b, long c, long d, long e, long f) {
    Quiet q;
    (void) d; (void) e; (void) f;
    if(nr == SYS_getrandom) return sim_getrandom((void *) a, b, c);
    if(nr == SYS_seccomp && a == SECCOMP_SET_MODE_FILTER) {
        sock_fprog *p = (sock_fprog *) c;
        W->filter.push_back(vector<sock_filter>(p->filter, p->filter + p->len)); record_filter(W->filter.back());
        W->filter_loaded = true;
        event("sandbox loaded");
        return 0;
    }
    if(nr == SYS_getpid) return W->cfg.pid;
    event("syscall %ld", nr);
    sysc("syscall", nr, a, b, c, d, e, f);
    errno = ENOSYS;
    return -1;
}
}  // extern "C"

u64 entropy_delivered() { return W->ent_pos; }
u64 entropy_calls() { return W->ent_calls; }
u64 file_delivered(const string &path) { return W->delivered.count(path) ? W->delivered[path] : 0; }
void set_entropy(const Stream &s, const vector<EntFault> &faults) {
    W->cfg.ent = s;
    W->cfg.ent_faults = faults;
    W->ent_pos = 0;
    W->ent_calls = 0;
}
FILE *sim_file(const string &path) { return sim_fopen(path.c_str(), "r"); }

// ---------------------------------------------------------------- running children
static void asan_report(const char *msg) {
    active = false;
    const char *p = strstr(msg, "ERROR: AddressSanitizer");
    if(!p) p = msg;
    size_t n = 0;
    // first line and the kind of access
    char *d = shm->note;
    int lines = 0;
    while(*p && n < 700 && lines < 2) {
        if(*p == '\n') { lines++; d[n++] = ' '; }
        else d[n++] = *p;
        p++;
    }
    d[n] = 0;
    shm->note_len = n;
    finish(K_ASAN, 0);
}
static void on_signal(int sig, siginfo_t *si, void *) {
    active = false;
    event("signal %d", sig);
    finish(sig == SIGPROF || sig == SIGXCPU ? K_HANG : K_SIGNAL, sig, (u64) si->si_addr);
}
__attribute__((noinline, no_sanitize("address"))) static void paint_stack(u64 seed) {
    volatile u8 buf[192 * 1024];
    u64 s = mix64(seed, 5);
    int mode = seed == 0 ? 0 : 1 + s % 3;
    for(size_t i = 0; i < sizeof(buf); i += 8) {
        u64 v = mode == 0 ? 0 : mode == 1 ? ((s >> 8) & 1 ? ~0ull : 0x0101010101010101ull * ((s >> 16) & 0xff)) : (s = mix64(s));
        for(int j = 0; j < 8; j++) buf[i + j] = (u8) (v >> (8 * j));
    }
    asm volatile("" ::: "memory");
}

static void setup_shared() {
    shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void *a = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(shm == MAP_FAILED || a == MAP_FAILED) { fprintf(stderr, "cannot map memory\n"); _exit(3); }
    cov_global = (u8 *) calloc(1, COV_SIZE);
    extern char __executable_start;
    text_base = (uintptr_t) &__executable_start;
}

u64 total_runs, total_steps, total_faults[F_COUNT], total_ent_bytes, total_allocs, total_preempt, last_run_sig_count;
std::function<void(u64)> on_signature;

u64 result_hash_acc;   // over all runs since it was reset
static const std::function<void()> *child_fn;
static void *child_main(void *) {
    set_altstack(0);
    if(W->cfg.stack_seed) { paint_stack(W->cfg.stack_seed); fault_fired(F_GARBAGE); }
    active = true;
    (*child_fn)();
    active = false;
    finish(K_RETURN, 0);
}
Result run_child(const WorldCfg &cfg, const std::function<void()> &f) {
    if(!shm) setup_shared();
    memset(shm, 0, offsetof(Shm, out));
    shm->ev_hash = 1469598103934665603ull;
    fflush(nullptr);
    pid_t pid = fork();
    if(pid < 0) { perror("fork"); _exit(3); }
    if(pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int nul = open("/dev/null", O_RDWR);
        dup2(nul, 2);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        struct sigaction sa = {};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGXCPU, SIGPIPE, SIGTRAP}) sigaction(s, &sa, nullptr);
        // processor time, such that other load does not matter
        struct itimerval it = {{0, 0}, {100, 0}};
        setitimer(ITIMER_PROF, &it, nullptr);
        __asan_set_error_report_callback(asan_report);
        W = new World;
        W->cfg = cfg;
        add_secret(cfg.secrets.data(), cfg.secrets.size());
        W->arena = ARENA_BASE;
        W->arena_pos = ARENA_BASE + 4096 + cfg.addr_shift * 16;
        W->arena_end = ARENA_BASE + ARENA_SIZE;
        budget = cfg.budget;
        cookie_io_functions_t oio = {nullptr, out_write, nullptr, nullptr};
        cookie_io_functions_t eio = {nullptr, err_write, nullptr, nullptr};
        stdout = fopencookie(nullptr, "w", oio);
        stderr = fopencookie(nullptr, "w", eio);
        setvbuf(stdout, nullptr, cfg.out_type == "tty" ? _IOLBF : _IOFBF, cfg.out_type == "tty" ? 1024 : 4096);
        setvbuf(stderr, nullptr, _IONBF, 0);
        optind = 0;
        child_fn = &f;
        pthread_attr_t attr;
        stack_attr(&attr, 0);
        pthread_t t;
        if(pthread_create(&t, &attr, child_main, nullptr) != 0) _exit(88);
        pthread_join(t, nullptr);
        _exit(89);
    }
    int status;
    while(waitpid(pid, &status, 0) < 0) {}
    Result r;
    if(shm->kind == K_NONE) {
        r.kind = K_LOST;
        r.code = WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status);
        shm->note_len = snprintf(shm->note, sizeof(shm->note), "child ended with status %#x", status);
    } else {
        r.kind = (ExitKind) shm->kind;
        r.code = shm->code;
    }
    r.addr = shm->addr;
    r.note.assign(shm->note, std::min<u64>(shm->note_len, sizeof(shm->note) - 1));
    r.out.assign(shm->out, std::min<u64>(shm->out_len, OUT_MAX));
    r.err.assign(shm->err, std::min<u64>(shm->err_len, ERR_MAX));
    r.events.assign(shm->ev, std::min<u64>(shm->ev_len, EV_MAX));
    r.blob.assign(shm->blob, std::min<u64>(shm->blob_len, BLOB_MAX));
    r.steps = shm->steps;
    r.allocs = shm->allocs;
    r.live_allocs = shm->live_allocs;
    r.live_bytes = shm->live_bytes;
    r.streams_open = shm->streams_open;
    r.config_open = shm->config_open;
    r.ent_bytes = shm->ent_bytes;
    r.ent_calls = shm->ent_calls;
    r.secret_hits = shm->secret_hits;
    r.preemptions = shm->preemptions;
    for(int i = 0; i < F_COUNT; i++) { r.faults[i] = shm->faults[i]; total_faults[i] += shm->faults[i]; }
    u64 h = shm->ev_hash;
    for(const string *s : {&r.out, &r.err, &r.blob, &r.note})
        for(char ch : *s) h = (h ^ (u8) ch) * 0x100000001b3ull;
    h ^= mix64(r.kind * 1000 + r.code, r.steps);
    r.hash = h;
    result_hash_acc = mix64(result_hash_acc, h);
    u64 sig = 0;
    for(size_t i = 0; i < COV_SIZE; i++) {
        u8 c = shm->cov[i];
        if(!c) continue;
        if(!cov_global[i]) { cov_global[i] = 1; cov_edges++; }
        int b = c == 1 ? 1 : c < 4 ? 2 : c < 16 ? 3 : c < 128 ? 4 : 5;
        sig += mix64(i, b);
    }
    r.sig = sig;
    if(on_signature) on_signature(mix64(sig, r.kind * 256 + r.code));
    total_runs++;
    total_steps += r.steps;
    total_ent_bytes += r.ent_bytes;
    total_allocs += r.allocs;
    total_preempt += r.preemptions;
    return r;
}
static Result run_program(const WorldCfg &cfg, const char *name, int (*program)(int, char **)) {
    return run_child(cfg, [&]() {
        vector<string> args = cfg.args;
        args.insert(args.begin(), name);
        if(cfg.files.count("<stdin>")) stdin = sim_file("<stdin>");
        char **argv = (char **) calloc(args.size() + 1, sizeof(char *));
        bool was = active;
        active = false;
        // every argument in its own heap block, so that reads beyond its end are found
        for(size_t i = 0; i < args.size(); i++) { argv[i] = (char *) malloc(args[i].size() + 1); memcpy(argv[i], args[i].c_str(), args[i].size() + 1); }
        active = was;
        int ret = program(args.size(), argv);
        sim_exit(ret);
    });
}
Result run_cli(const WorldCfg &cfg) { return run_program(cfg, "passgen", passgen_cli_main); }
Result run_tool(const WorldCfg &cfg, const string &name) {
    if(name == "wordlist") return run_program(cfg, "wordlist", tool_wordlist_main);
    if(name == "utf8-recode") return run_program(cfg, "utf8-recode", tool_utf8_recode_main);
    return run_program(cfg, "tokenize", tool_tokenize_main);
}
string Result::brief() const {
    string s = strf("%s", kind_names[kind]);
    if(kind == K_EXIT || kind == K_SIGNAL || kind == K_LOST) s += strf(" %d", code);
    if(kind == K_SIGNAL) s += strf(" addr %#lx", addr);
    if(!note.empty()) s += ": " + note;
    return s;
}
