// Shared by the property classes.
#pragma once
#include "gen.h"
#include "model.h"
#include "sim.h"
#include "api.h"
#include <cmath>
#include <algorithm>

vector<Property *> &property_list();
#define REGISTER(P) static bool registered_##P = (property_list().push_back(new P), true)

inline u64 ld(const void *p, int n) {
    u64 v = 0;
    for(int i = n - 1; i >= 0; i--) v = v << 8 | ((const u8 *) p)[i];
    return v;
}
// reading of what a child recorded
struct Reader {
    const string &s;
    size_t p = 0;
    explicit Reader(const string &s_) : s(s_) {}
    bool more() const { return p < s.size(); }
    u64 num(int n) { if(p + n > s.size()) { p = s.size(); return 0; } u64 v = ld(s.data() + p, n); p += n; return v; }
    string str() { u64 n = num(4); if(p + n > s.size()) n = s.size() - p; string r = s.substr(p, n); p += n; return r; }
};
inline void rec_num(u64 v, int n) { blob_put(&v, n); }

// the memory errors that no input may cause
inline optional<string> memory_error(const Result &r) {
    if(r.kind == K_ASAN || (r.kind == K_SIGNAL && r.code != 6) || r.kind == K_LOST) return "memory error: " + r.brief();
    if(r.kind == K_VIOLATION && r.note.compare(0, 7, "memory:") == 0) return r.note;
    return {};
}

// a null pointer is used because memory could not be allocated: that stops the run, and is no error
inline bool failed_stop(const Result &r) {
    return r.faults[F_ALLOC] && r.kind == K_SIGNAL && r.code == 11 && r.addr < (64u << 20);
}

// ---------------------------------------------------------------- operations on randomness objects
struct RandObj {
    passgen_random *r = nullptr;
    bool heap = false, file = false;
    string path;
    vector<u8> store;   // for objects of the caller
};
// executes the operation lines of a case, recording every result
void exec_random_ops(const vector<Line> &ops);
bool is_random_op(const string &k);
struct RandRec {
    u32 op;            // index of the line
    bool ok;
    string data;       // bytes handed out
    u64 ent0, ent1;    // bytes of the system source delivered before and after
};
vector<RandRec> read_random_recs(const string &blob);

// ---------------------------------------------------------------- whole runs (props_c.cpp)
string cmdline(const WorldCfg &w);
optional<string> output_mismatch(const CliModel &m, const Result &r);
optional<string> json_outputs(const string &out, bool entropy, vector<vector<u32>> &v);

// ---------------------------------------------------------------- generation through the library (props_b.cpp)
WordEnv words_of(const WorldCfg &w, const vector<Line> &ops);
bool setup_env(passgen_env *env, const vector<Line> &ops, passgen_random *r);
struct GenRec { int ret; double entropy; vector<u32> out; u64 used; };
void exec_generate(const string &pattern, const vector<Line> &ops, u64 n, bool entropy);
bool read_generate(const Result &res, vector<GenRec> &v);
string show_cps(const vector<u32> &v);
struct Common {
    string pattern;
    u64 count = 1;
    vector<Line> ops;
    PGroup g;
    WorldCfg w;
    WordEnv env;
    bool ok = false;
    explicit Common(const Case &c) {
        ops = c.parse();
        w = WorldCfg::from(c);
        for(auto &l : ops) { if(l[0] == "pattern") pattern = l[1]; if(l[0] == "count") count = l.num(1); }
        if(count > 100000) count = 100000;
        env = words_of(w, ops);
        try {
            g = parse_pattern(pattern);
            double chars, draws;
            model_size(g, env, chars, draws);
            ok = chars * count < 3e6 && draws * count < 2e6;
        } catch(Unsupported &) {}
    }
};
// histories of draws from the built-in generators (C05, C01)
Case gen_keystream(Rng &r);
optional<string> check_keystream_fresh(const Case &c);
