// C15, C16, C20: erasure, isolation, resources.
#include "props.h"
#include <cstdlib>

extern "C" int sim_fclose(FILE *f);
static string hex_of(const string &s) {
    string r;
    for(u8 c : s) r += strf("%02x", c);
    return r.empty() ? "-" : r;
}

// ---------------------------------------------------------------- C15
struct C15 : Property {
    C15() : Property("C15") {}
    u64 quick_cases() override { return 6000; }
    string rule() override {
        return "Histories of draws, reloads and seeks on every kind of source (opened directly, by description, over memory of the caller, inside an environment that generates), closed at any point, failed opens under allocation failures: the contents of every block at the moment it is released, of the blocks that are left "
               "and of the closed object are the same for different seeds, keys, passphrases, random bytes, and for different numbers of draws; no 8 consecutive random bytes are in any released block. Runs of the tool with the system source and derived ones: no released block contains 8 random bytes or a derived key. Every case that closes a source is non-trivial.";
    }
    static string secret(u64 seed, u64 n) {
        Rng r(seed);
        string s;
        const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
        for(u64 i = 0; i < n; i++) s += al[r.below(64)];
        return s;
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        if(r.chance(1, 3)) {
            gen_cli(r, c, G_WORDS | G_MARKOV | G_CONFIG | G_JSON | G_ENTROPY | G_SPLIT | (r.chance(1, 3) ? G_FILESOURCE : 0) | (r.chance(2, 3) ? G_DETERMINISTIC : 0) | (r.chance(1, 3) ? G_BIG : 0) | (r.chance(1, 4) ? G_LIST : 0));
            vector<string> keep;
            for(auto &l : c.lines) if(l.compare(0, 4, "ent ") != 0) keep.push_back(l);
            c.lines = keep;
            c.add("ent prng %lu", r.next() % 1000000);
            c.add("cli");
            return c;
        }
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        const char *kinds[] = {"chacha", "argon", "xorshift", "chacha-desc", "argon-desc", "xorshift-desc", "system", "system-desc", "dev", "dev-desc"};
        int n = 1 + r.below(3);
        for(int i = 0; i < n; i++) {
            const char *k = kinds[r.below(10)];
            u64 len = strncmp(k, "chacha", 6) == 0 ? r.pick({0, 1, 16, 31, 32}) : r.pick({1, 2, 8, 20, 63, 64, 65, 200});
            c.add("source %s %lu %lu %s %lu %lu", k, len, r.chance(1, 3) ? r.below(40) : 0, r.chance(1, 3) ? "obj" : r.chance(1, 3) ? "env" : "heap", r.next() % 1000000, r.chance(1, 3) ? 1 + r.below(40) : 0);
        }
        int m = r.below(thorough ? 60 : 20);
        for(int i = 0; i < m; i++) {
            u64 k = r.below(n);
            switch(r.below(8)) {
                case 0: c.add("draw %lu %lu", k, r.pick({1, 8, 16, 32, 64})); break;
                case 1: c.add("max %lu 64 %lu", k, 1 + r.below(1000)); break;
                case 2: c.add("reload %lu", k); break;
                case 3: c.add("seek %lu %lu", k, r.below(100000)); break;
                case 4: c.add("gen %lu %lu", k, 1 + r.below(30)); break;
                case 5: c.add("read %lu %lu", k, 1020 + r.below(8)); break;
                default: c.add("read %lu %lu", k, r.size(4000)); break;
            }
            if(r.chance(1, 12)) c.add("close %lu", k);
        }
        if(r.chance(1, 4)) c.add("allocfail %lu", 1 + r.below(8));
        return c;
    }
    struct Src { string kind; u64 len, iv; string how; u64 seed, tok; };
    static void exec(const vector<Line> &ops, int variant) {
        struct Obj { passgen_random *r = nullptr; u8 *mem = nullptr; passgen_env *env = nullptr; bool chacha = false, closed = false; string how; };
        vector<Obj> v;
        // kept until the end, as these are the caller's
        static vector<string> keep;
        keep.reserve(1000);
        auto close = [&](Obj &o) {
            if(!o.r) return;
            if(o.how == "env") { passgen_env_free(o.env); blob_put(o.env, sizeof(*o.env)); }
            else if(o.how == "obj") { passgen_random_close(o.r); blob_put(o.mem, sizeof(passgen_random)); if(contains_secret(o.mem, sizeof(passgen_random))) violation("the closed object contains random bytes"); }
            else passgen_random_free(o.r);
            o.r = nullptr;
            o.closed = true;
        };
        passgen_pattern pat;
        passgen_error err;
        bool parsed = false;
        int idx = 0;
        for(auto &l : ops) {
            if(l[0] == "source") {
                Obj o;
                string k = l[1];
                u64 seed = l.num(5) + (variant == 1 ? 7777777 : 0);
                u64 len = l.num(2);
                o.how = l[4];
                passgen_random *at = nullptr;
                if(o.how == "obj") {
                    o.mem = (u8 *) malloc(sizeof(passgen_random));
                    memset(o.mem, 0xa7, sizeof(passgen_random));
                    at = (passgen_random *) o.mem;
                }
                keep.push_back(secret(seed, len));
                string &s = keep.back();
                string iv = l.num(3) ? secret(seed + 1, k.compare(0, 6, "chacha") == 0 ? std::min<u64>(l.num(3), 8) : l.num(3)) : "";
                string tok = l.num(6) ? secret(seed + 2, l.num(6)) : "";
                o.chacha = k.compare(0, 6, "chacha") == 0 || k.compare(0, 5, "argon") == 0;
                if(k == "chacha") { bytes key(s.begin(), s.end()), n(iv.begin(), iv.end()); key.resize(32); n.resize(8); o.r = passgen_random_chacha20_open(at, key.data(), n.data()); }
                else if(k == "argon") o.r = passgen_random_chacha20_argon2_open(at, (const u8 *) s.c_str(), iv.empty() ? nullptr : (const u8 *) iv.c_str(), tok.empty() ? nullptr : (const u8 *) tok.c_str(), nullptr);
                else if(k == "xorshift") o.r = passgen_random_xorshift_open(at, mix64(seed) | 1);
                else if(k == "chacha-desc") o.r = passgen_random_open(at, ("chacha20:" + s + (iv.empty() ? "" : ":" + iv)).c_str());
                else if(k == "argon-desc") o.r = passgen_random_open(at, ("chacha20-argon2:" + s + (iv.empty() && tok.empty() ? "" : ":" + iv) + (tok.empty() ? "" : ":" + tok)).c_str());
                else if(k == "xorshift-desc") o.r = passgen_random_open(at, strf("xorshift:%lu", 1000000000ul + seed).c_str());
                else if(k == "system") o.r = passgen_random_system_open(at);
                else if(k == "system-desc") o.r = passgen_random_open(at, "system");
                else {
                    string path = strf("/dev/s%d", variant == 1);
                    o.r = k == "dev" ? passgen_random_path_open(at, path.c_str()) : passgen_random_open(at, ("file:" + path).c_str());
                }
                if(o.r && o.how == "env") { o.env = new passgen_env; passgen_env_init(o.env, o.r); }
                v.push_back(o);
                idx++;
                continue;
            }
            if(v.empty()) continue;
            Obj &o = v[l.num(1) % v.size()];
            if(!o.r) continue;
            u64 times = variant == 2 ? 2 : 1;
            for(u64 t = 0; t < times; t++) {
                if(l[0] == "draw") { int w = l.num(2); if(w == 8) passgen_random_u8(o.r); else if(w == 16) passgen_random_u16(o.r); else if(w == 32) passgen_random_u32(o.r); else if(w == 64) passgen_random_u64(o.r); else passgen_random_bool(o.r); }
                else if(l[0] == "max") { if(l.num(3)) passgen_random_u64_max(o.r, l.num(3)); }
                else if(l[0] == "reload") passgen_random_reload(o.r);
                else if(l[0] == "seek") { if(o.chacha) passgen_random_chacha20_seek(o.r, l.num(2) + t * 77); }
                else if(l[0] == "read") { u64 n = std::min<u64>(l.num(2), 1 << 20); u8 *b = (u8 *) malloc(n + 1); passgen_random_read(o.r, b, n); free(b); }
                else if(l[0] == "gen" && o.env) {
                    // the pattern takes no part in this, keep it
                    if(!parsed) { if(passgen_parse(&pat, &err, "[a-z]{5}(a|[0-9])")) violation("cannot parse the pattern"); parsed = true; }
                    u8 buf[64];
                    for(u64 i = 0; i < std::min<u64>(l.num(2), 1000); i++) passgen_generate_fill_utf8(&pat, o.env, nullptr, buf, sizeof(buf));
                }
            }
            if(l[0] == "close") close(o);
        }
        if(variant == 2) for(auto &o : v) if(o.r) passgen_random_u16(o.r);
        for(auto &o : v) close(o);
        sim_pause(true);
        for(auto &a : alloc_table()) {
            rec_num(0x424c4f43, 4);
            rec_num(a.size, 8);
            rec_num(a.freed, 1);
            if(a.freed) rec_num(a.hash, 8);
            else { u64 h = 5; for(size_t i = 0; i < a.size; i++) h = mix64(h, ((u8 *) a.p)[i]); rec_num(h, 8); if(contains_secret(a.p, a.size)) violation("a block of %zu bytes that is left contains random bytes", a.size); }
        }
        sim_pause(false);
    }
    optional<string> check(const Case &c) override {
        auto ops = c.parse();
        WorldCfg w = WorldCfg::from(c);
        w.scan_secrets = true;
        bool cli = false;
        for(auto &l : ops) if(l[0] == "cli") cli = true;
        if(cli) return check_cli(w);
        Result r[3];
        for(int k = 0; k < 3; k++) {
            WorldCfg x = w;
            x.ent.kind = "prng"; x.ent.code = 0; x.ent.seed = 100 + (k == 1);
            for(int j = 0; j < 2; j++) { FileSpec f; f.type = "chr"; f.is_dev = true; f.dev.kind = "prng"; f.dev.seed = 500 + j; f.dev.code = 0; x.files[strf("/dev/s%d", j)] = f; }
            r[k] = run_child(x, [&]() { exec(ops, k); });
            if(r[k].kind != K_RETURN) {
                if(r[k].kind == K_VIOLATION) return r[k].note;
                if(!failed_stop(r[k])) if(auto m = memory_error(r[k])) return m;
                note_trivial();
                return {};
            }
            if(r[k].secret_hits) return strf("%lu of the released blocks contain random bytes", r[k].secret_hits);
        }
        const char *why[] = {"", "the secrets", "the number of bytes drawn"};
        for(int k = 1; k < 3; k++) {
            if(r[k].blob == r[0].blob) continue;
            size_t i = 0;
            while(i < r[k].blob.size() && i < r[0].blob.size() && r[k].blob[i] == r[0].blob[i]) i++;
            size_t blocks = r[0].blob.find("COLB");
            if(r[k].blob.size() != r[0].blob.size()) return string("what is allocated depends on ") + why[k];
            if(blocks == string::npos || i < blocks) return strf("byte %zu of what the closed objects contain depends on %s", i, why[k]);
            size_t b = (i - blocks) / 21;
            return strf("the contents of a block of %lu bytes (allocation %zu) %s depend on %s", ld(r[0].blob.data() + blocks + b * 21 + 4, 8), b + 1, r[0].blob[blocks + b * 21 + 12] ? "when it is released" : "that is left", why[k]);
        }
        if(!r[0].allocs && r[0].blob.empty()) note_trivial();
        stat_inc("blocks_compared", r[0].allocs);
        return {};
    }
    optional<string> check_cli(WorldCfg w) {
        w.ent.kind = "prng"; w.ent.code = 0;
        CliModel m = model_cli(w);
        if(m.known && !m.random_desc.empty()) {
            bool sys = false;
            string path;
            if(auto s = source_of(m.random_desc, w, sys, &path)) {
                if(!sys && path.empty() && m.random_desc != "zero") {
                    for(u64 i = 0; i < 8192; i++) w.secrets.push_back(s->at(i));
                    stat_inc("runs_with_known_keystream");
                }
            }
        }
        Result r = run_cli(w);
        string what = "`" + cmdline(w) + "': ";
        if(auto e = memory_error(r)) return what + *e;
        if(!r.ok_status()) { note_trivial(); return {}; }
        if(r.secret_hits) return what + strf("%lu blocks contain random bytes when they are released or at the end", r.secret_hits);
        stat_inc("runs_scanned");
        return {};
    }
};
REGISTER(C15);

// ---------------------------------------------------------------- C16
struct C16 : Property {
    C16() : Property("C16") {}
    u64 quick_cases() override { return 2200; }
    string rule() override {
        return "Two to four callers with own sources (or the system source, of which the bytes are not compared), environments, wordlists, chains, maps and parsers, and shared finished patterns, interleaved at seeded basic blocks (preemption every 1 to a few thousand blocks) or one after the other in the same memory: "
               "what every caller gets has to be what it gets when it runs alone, generation nested in a generation callback has to give what two separate ones give, and the shared patterns stay as they are, byte for byte. Non-trivial: at least one preemption or nested generation.";
    }
    static string gen_source(Rng &r) {
        switch(r.below(4)) {
            case 0: return strf("xorshift:%lu", 1 + r.next() % 1000000000);
            case 1: return "chacha20:" + string(1 + r.below(32), 'a' + r.below(26)) + strf(":%lu", r.below(1000));
            case 2: return r.chance(1, 4) ? strf("chacha20-argon2:pw%lu:d%lu:t%lu", r.below(100), r.below(100), r.below(100)) : strf("xorshift:%lu", 1 + r.below(50));
            default: return r.chance(1, 6) ? "zero" : "chacha20:k" + strf("%lu", r.below(1000));
        }
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        c.add("ent prng %lu", r.next() % 1000000);
        // one after the other, or interleaved at basic blocks
        const u64 means[] = {1, 2, 5, 10, 30, 100, 300, 1000, 5000};
        c.add("schedule %lu %lu", r.next() % 1000000000, r.chance(1, 6) ? 0 : means[r.below(9)]);
        vector<string> lists;
        int nl = r.below(4);
        for(int i = 0; i < nl; i++) { string p = strf("/w/%c", 'a' + i); gen_wordlist(r, c, p, r.chance(1, 8), r.chance(1, 2)); lists.push_back(p); if(r.chance(1, 3)) c.addw({"readplan", p, strf("%lu", r.next() % 10000), strf("%lu", r.pick({1, 5, 64, 1000}))}); }
        // switching between callers at every block takes long with tens of thousands of words
        for(auto &l : c.lines) if(l.compare(0, 8, "genfile ") == 0) { Case x; x.lines = {l}; auto w = x.parse()[0].w; if(w.size() > 5 && strtoul(w[5].c_str(), nullptr, 10) > 3000) { w[5] = "2049"; Case y; y.addw(w); l = y.lines[0]; } }
        PatOpts o;
        if(nl) { o.words = {"w0", "w0", "w1"}; if(r.chance(1, 2)) o.markov = {"w0"}; }
        o.depth = 1 + r.below(3);
        o.budget = 60;
        int ns = 1 + r.below(2);
        for(int i = 0; i < ns; i++) c.addw({"shared", gen_pattern(r, o)});
        int nt = 2 + r.below(3);
        bool alike = r.chance(1, 3);   // everyone does the same
        bool system = r.chance(1, 5);  // with bytes of the system: nobody may get those of another
        vector<vector<vector<string>>> progs;
        for(int t = 0; t < nt; t++) {
            vector<vector<string>> p;
            if(alike && t) { p = progs[0]; p[0][1] = system ? "system" : gen_source(r); progs.push_back(p); continue; }
            p.push_back({"open", system ? "system" : gen_source(r)});
            if(nl) for(int i = 0; i < 2; i++) if(r.chance(3, 4)) p.push_back({"list", strf("w%d", i), r.pick(lists), strf("%lu", 1 + r.below(3))});
            int n = 1 + r.below(thorough ? 14 : 8);
            for(int i = 0; i < n; i++) {
                switch(r.below(13)) {
                    case 0: { string s = gen_pattern(r, o); if(r.chance(1, 5) && !s.empty()) s.erase(r.below(s.size()), 1); p.push_back({"parse", s}); break; }
                    case 1: case 2: { const char *modes[] = {"cb", "utf8", "unicode", "json"}; p.push_back({"gen", r.chance(2, 3) ? strf("%lu", r.below(ns)) : "own", modes[r.below(4)], strf("%lu", 1 + r.below(5))}); break; }
                    case 3: p.push_back({"nest", strf("%lu", r.below(ns)), gen_source(r), strf("%lu", 1 + r.below(5))}); break;
                    case 4: p.push_back({"read", strf("%lu", r.size(2500))}); break;
                    case 5: p.push_back({"draw", strf("%lu", r.pick({1, 8, 16, 32, 64}))}); break;
                    case 6: p.push_back({"max", strf("%lu", r.pick({8, 16, 32, 64})), strf("%lu", 1 + r.below(200)), strf("%lu", 1 + r.below(20))}); break;
                    case 7: p.push_back({"map", strf("%lu", r.below(r.chance(1, 4) ? 200 : 20)), strf("%lu", r.below(1000))}); break;
                    case 8: { string s = gen_word(r, true); for(u64 k = r.below(3); k; k--) s += gen_word(r, true); if(r.chance(1, 4)) s += "\xff"; p.push_back({"utf8", s}); break; }
                    case 9: p.push_back({"chain", strf("%lu", 1 + r.below(4)), strf("%lu", 1 + r.below(20)), strf("%lu", r.below(1000))}); break;
                    case 10: p.push_back({"reopen", system && r.chance(3, 4) ? "system" : gen_source(r)}); break;
                    case 11: p.push_back({"read", strf("%lu", 1025 + r.below(300))}); break;
                    case 12: for(u64 k = 1 + r.below(3); k; k--) { p.push_back({"seek", strf("%lu", r.below(r.chance(1, 2) ? 70 : 5000))}); p.push_back({"read", strf("%lu", r.below(40))}); } break;
                }
            }
            progs.push_back(p);
        }
        for(int t = 0; t < nt; t++) for(auto &l : progs[t]) { l.insert(l.begin(), {"t", strf("%d", t)}); c.addw(l); }
        return c;
    }
    struct Shared { passgen_pattern p; bool ok; };
    // one caller
    struct Caller {
        string out;
        passgen_random *rnd = nullptr, *rnd2 = nullptr;
        passgen_env *env = nullptr;
        passgen_pattern own;
        bool have_own = false;
        bool seekable = false;
        // bytes from the system are different every time
        bool sys = false;
        string raw;
        u64 nested = 0;
        void num(u64 v, int n = 8) { out.append((char *) &v, n); }
        void dbl(double d) { out.append((char *) &d, 8); }
        void add(const void *p, size_t n) { num(n); out.append((const char *) p, n); }
    };
    struct Cb { string out; std::function<void(u64)> inner; u64 n = 0, limit = 3000; };
    static int cb(void *data, uint32_t cp) {
        Cb *b = (Cb *) data;
        b->out.append((char *) &cp, 4);
        if(b->n++ > b->limit) return 77;
        if(b->inner) b->inner(b->n - 1);
        return 0;
    }
    static void open_env(Caller &k, const vector<Line> &prog, passgen_random *rnd, passgen_env *env) {
        (void) k;
        passgen_env_init(env, rnd);
        for(auto &l : prog) {
            if(l[2] != "list") continue;
            FILE *f = sim_file(l[4]);
            if(!f) continue;
            char *name = (char *) sim_malloc(l[3].size() + 1);
            memcpy(name, l[3].c_str(), l[3].size() + 1);
            if(passgen_env_wordlist_add(env, name, f, std::min<u64>(255, std::max<u64>(1, l.num(5))))) violation("cannot add a wordlist");
        }
    }
    // zero and repetitive sources can lead a chain round in circles, a limit on the characters stops it
    static void run_prog(Caller &k, const vector<Line> &prog, vector<Shared> &shared, bool nested) {
        size_t keep = 0;
        for(auto &l : prog) {
            const string &op = l[2];
            // what is made of them is not compared
            if(k.sys) k.out.resize(keep);
            keep = k.out.size();
            if(op == "open" || op == "reopen") {
                k.sys = l[3] == "system";
                if(k.env) { passgen_env_free(k.env); k.rnd = nullptr; }
                k.rnd = passgen_random_open(nullptr, l[3].c_str());
                k.seekable = l[3].compare(0, 8, "chacha20") == 0;
                k.num(k.rnd != nullptr);
                if(!k.rnd) return;
                if(!k.env) k.env = new passgen_env;
                open_env(k, prog, k.rnd, k.env);
            } else if(!k.env) return;
            else if(op == "parse") {
                if(k.have_own) passgen_pattern_free(&k.own);
                passgen_error e;
                memset(&e, 0, sizeof(e));
                k.have_own = passgen_parse(&k.own, &e, l[3].c_str()) == 0;
                k.num(k.have_own);
                if(!k.have_own) { k.add(e.message, e.message ? strlen(e.message) : 0); passgen_pattern_free(&k.own); }
            } else if(op == "gen") {
                passgen_pattern *p = l[3] == "own" ? (k.have_own ? &k.own : nullptr) : shared.empty() || !shared[l.num(3) % shared.size()].ok ? nullptr : &shared[l.num(3) % shared.size()].p;
                if(!p) continue;
                for(u64 i = 0; i < std::min<u64>(l.num(5), 50); i++) {
                    double e = 0;
                    if(l[4] == "cb") {
                        Cb b;
                        k.num(passgen_generate(p, k.env, &e, &b, cb));
                        k.add(b.out.data(), b.out.size());
                        k.dbl(e);
                        continue;
                    }
                    vector<u8> buf(8000, 0);
                    size_t n = l[4] == "utf8" ? passgen_generate_fill_utf8(p, k.env, &e, buf.data(), buf.size()) : l[4] == "json" ? passgen_generate_fill_json_utf8(p, k.env, &e, buf.data(), buf.size())
                             : passgen_generate_fill_unicode(p, k.env, &e, (u32 *) buf.data(), buf.size() / 4) * 4;
                    k.add(buf.data(), n);
                    k.dbl(e);
                }
            } else if(op == "nest") {
                if(shared.empty() || !shared[l.num(3) % shared.size()].ok) continue;
                passgen_pattern *p = &shared[l.num(3) % shared.size()].p, *q = k.have_own ? &k.own : p;
                passgen_random *r2 = passgen_random_open(nullptr, l[4].c_str());
                if(!r2) continue;
                passgen_env env2;
                open_env(k, prog, r2, &env2);
                Cb outer, inner;
                u64 every = std::max<u64>(1, l.num(5)), runs = 0;
                double e1 = 0, e2 = 0;
                auto one = [&]() {
                    inner.n = 0;
                    int ret = passgen_generate(q, &env2, &e2, &inner, cb);
                    inner.out.append((char *) &ret, 4);
                    inner.out.append((char *) &e2, 8);
                };
                u64 calls = 0;
                outer.inner = [&](u64 n) { if(n % every == 0 && calls < 20) { calls++; if(nested) { one(); k.nested++; } else runs++; } };
                int ret = passgen_generate(p, k.env, &e1, &outer, cb);
                for(u64 i = 0; i < runs; i++) one();
                k.num(ret);
                k.add(outer.out.data(), outer.out.size());
                k.dbl(e1);
                k.add(inner.out.data(), inner.out.size());
                passgen_env_free(&env2);
            } else if(op == "read") {
                u64 n = std::min<u64>(l.num(3), 100000);
                vector<u8> b(n + 1);
                passgen_random_read(k.rnd, b.data(), n);
                k.add(b.data(), n);
                if(k.sys) k.raw.append((char *) b.data(), n);
            } else if(op == "seek") {
                if(k.seekable) passgen_random_chacha20_seek(k.rnd, l.num(3));
            } else if(op == "draw") {
                int w = l.num(3);
                if(k.sys && w == 64) { u64 v = passgen_random_u64(k.rnd); k.raw.append((char *) &v, 8); continue; }
                k.num(w == 8 ? passgen_random_u8(k.rnd) : w == 16 ? passgen_random_u16(k.rnd) : w == 32 ? passgen_random_u32(k.rnd) : w == 64 ? passgen_random_u64(k.rnd) : passgen_random_bool(k.rnd));
            } else if(op == "max") {
                int w = l.num(3);
                u64 m = l.num(4);
                if(!m || m > 200) continue;
                for(u64 i = 0; i < std::min<u64>(l.num(5), 100); i++)
                    k.num(w == 8 ? passgen_random_u8_max(k.rnd, m) : w == 16 ? passgen_random_u16_max(k.rnd, m) : w == 32 ? passgen_random_u32_max(k.rnd, m) : passgen_random_u64_max(k.rnd, m));
            } else if(op == "map") {
                passgen_hashmap map;
                passgen_hashmap_init(&map, &passgen_hashmap_context_utf8);
                u64 n = std::min<u64>(l.num(3), 1000);
                vector<string> keys;
                for(u64 i = 0; i < n; i++) keys.push_back(strf("k%lu", mix64(l.num(4), i) % (2 * n)));
                for(u64 i = 0; i < n; i++) {
                    passgen_hashmap_entry e = passgen_hashmap_insert(&map, keys[i].c_str(), (void *) (i + 1));
                    k.num((u64) e.value);
                }
                for(u64 i = 0; i < n; i += 3) k.num((u64) passgen_hashmap_remove(&map, keys[i].c_str()).value);
                for(u64 i = 0; i < n; i++) { auto e = passgen_hashmap_lookup(&map, keys[i].c_str()); k.num(e ? (u64) e->value : 0); }
                k.num(map.len);
                passgen_hashmap_free(&map);
            } else if(op == "utf8") {
                const string &s = l[3];
                vector<u32> cps(s.size() + 1);
                vector<u8> widths(s.size() + 1);
                u32 *o = cps.data();
                const u8 *in = (const u8 *) s.data();
                int ret = passgen_utf8_decode(&o, s.size(), widths.data(), &in, s.size());
                k.num(ret);
                size_t n = o - cps.data();
                k.add(cps.data(), n * 4);
                k.add(widths.data(), n);
                vector<u8> enc(s.size() * 4 + 8);
                size_t op2 = 0, ip = 0;
                ret = passgen_utf8_encode(enc.data(), enc.size(), &op2, cps.data(), n, &ip);
                k.num(ret);
                k.add(enc.data(), op2);
                for(size_t i = 0; i < n; i++) { u8 j[16]; int m = passgen_utf8_encode_codepoint_json(j, cps[i]); k.add(j, m > 0 && m < 16 ? m : 0); }
            } else if(op == "chain") {
                passgen_markov m;
                u64 level = std::min<u64>(8, std::max<u64>(1, l.num(3)));
                passgen_markov_init(&m, level);
                Rng r(l.num(5));
                for(u64 i = 0; i < std::min<u64>(l.num(4), 100); i++) {
                    u32 w[12];
                    u64 n = r.below(12);
                    for(u64 j = 0; j < n; j++) w[j] = 'a' + r.below(5) * 21;
                    passgen_markov_add(&m, w, n, 1 + r.below(3));
                }
                if(l.num(4)) for(int i = 0; i < 3; i++) {
                    u32 ctx[16] = {0};
                    for(int j = 0; j < 40; j++) {
                        double e = 1;
                        u32 cp = passgen_markov_generate(&m, ctx, k.rnd, &e);
                        k.num(cp, 4);
                        k.dbl(e);
                        if(!cp) break;
                        memmove(ctx, ctx + 1, (level - 1) * 4);
                        ctx[level - 1] = cp;
                    }
                }
                passgen_markov_free(&m);
            }
        }
        if(k.sys) k.out.resize(keep);
        if(k.env) { passgen_env_free(k.env); k.env = nullptr; }
        if(k.have_own) { passgen_pattern_free(&k.own); k.have_own = false; }
    }
    static u64 shared_hash(const vector<Shared> &s) {
        u64 h = 1;
        for(auto &x : s) for(size_t i = 0; i < sizeof(x.p); i++) h = mix64(h, ((const u8 *) &x.p)[i]);
        for(auto &a : alloc_table()) {
            if(a.phase != 1) continue;
            h = mix64(h, a.freed);
            if(!a.freed) for(size_t i = 0; i < a.size; i++) h = mix64(h, ((const u8 *) a.p)[i]);
        }
        return h;
    }
    static vector<Shared> make_shared(const vector<string> &pats) {
        vector<Shared> s;
        set_phase(1);
        for(auto &p : pats) {
            Shared x;
            memset(&x, 0, sizeof(x));
            passgen_error e;
            x.ok = passgen_parse(&x.p, &e, p.c_str()) == 0;
            if(!x.ok) { passgen_pattern_free(&x.p); }
            s.push_back(x);
        }
        set_phase(2);
        return s;
    }
    optional<string> check(const Case &c) override {
        auto ops = c.parse();
        WorldCfg w = WorldCfg::from(c);
        vector<string> pats;
        vector<vector<Line>> progs;
        u64 seed = 1, mean = 50;
        for(auto &l : ops) {
            if(l[0] == "shared") pats.push_back(l[1]);
            if(l[0] == "schedule") { seed = l.num(1); mean = l.num(2); }
            if(l[0] == "t") { u64 t = l.num(1) % 4; if(progs.size() <= t) progs.resize(t + 1); progs[t].push_back(l); }
        }
        if(progs.empty()) { note_trivial(); return {}; }
        // too large
        try {
            for(auto &p : pats) { double a = 0, b = 0; auto g = parse_pattern(p); vector<Line> none; WordEnv env; model_size(g, env, a, b); if(a > 20000) { note_trivial(); return {}; } }
        } catch(Unsupported &) {}
        w.budget = 60000000;
        // alone
        vector<string> solo;
        double steps = 0;
        for(size_t t = 0; t < progs.size(); t++) {
            Result r = run_child(w, [&]() {
                vector<Shared> s = make_shared(pats);
                Caller k;
                run_prog(k, progs[t], s, false);
                blob_str(k.out);
            });
            if(r.kind != K_RETURN) { if(auto m = memory_error(r)) return strf("caller %zu alone: ", t) + *m; note_trivial(); return {}; }
            Reader rd(r.blob);
            solo.push_back(rd.str());
            steps += r.steps;
        }
        // together they do what they do alone, and some generations are nested more often
        w.budget = (u64) (steps * 4) + 20000000;
        Result r = run_child(w, [&]() {
            vector<Shared> s = make_shared(pats);
            u64 before = shared_hash(s);
            vector<Caller> k(progs.size());
            vector<std::function<void()>> fs;
            for(size_t t = 0; t < progs.size(); t++) fs.push_back([&, t]() { run_prog(k[t], progs[t], s, true); });
            if(mean) run_threads(seed, mean, fs);
            else for(auto &f : fs) f();
            if(shared_hash(s) != before) violation("generation changes the pattern it is given");
            u64 nested = 0;
            for(auto &x : k) { blob_str(x.out); nested += x.nested; }
            rec_num(nested, 8);
            for(auto &x : k) blob_str(x.raw);
        });
        if(r.kind == K_VIOLATION) return r.note;
        if(r.kind != K_RETURN) return strf("%zu callers together: ", progs.size()) + r.brief() + ", each of them alone finishes";
        Reader rd(r.blob);
        for(size_t t = 0; t < progs.size(); t++) {
            string s = rd.str();
            if(s == solo[t]) continue;
            size_t i = 0;
            while(i < s.size() && i < solo[t].size() && s[i] == solo[t][i]) i++;
            return strf("caller %zu of %zu gets other results than alone, from byte %zu of %zu on: %s instead of %s", t, progs.size(), i, solo[t].size(), hex_of(s.substr(i, 16)).c_str(), hex_of(solo[t].substr(i, 16)).c_str());
        }
        u64 nested = rd.num(8);
        if(w.ent.kind == "prng") {
            std::unordered_map<u64, std::pair<size_t, size_t>> seen;
            for(size_t t = 0; t < progs.size(); t++) {
                string raw = rd.str();
                for(size_t i = 0; i + 8 <= raw.size(); i++) {
                    u64 v;
                    memcpy(&v, raw.data() + i, 8);
                    auto it = seen.emplace(v, std::make_pair(t, i));
                    if(!it.second) return strf("caller %zu of %zu gets from byte %zu on what caller %zu got from byte %zu on from its own system source: %016lx", t, progs.size(), i, it.first->second.first, it.first->second.second, v);
                }
                stat_inc("system_bytes_disjoint", raw.size());
            }
        }
        stat_inc("nested_generations", nested);
        stat_inc("preemptions", r.preemptions);
        if(!mean) stat_inc("callers_one_after_the_other");
        if(!nested && !r.preemptions && (mean || progs.size() < 2)) note_trivial();
        return {};
    }
};
REGISTER(C16);

// ---------------------------------------------------------------- C20
struct C20 : Property {
    C20() : Property("C20") {}
    u64 quick_cases() override { return 16000; }
    string rule() override {
        return "Histories of operations of the whole library (sources of every kind, also ones that cannot be opened, patterns, valid and not, parsers abandoned midway, environments with wordlists that are redefined, unreadable or never used, generation, maps, chains, stacks, arrays) with I/O and allocation failures: "
               "once everything was closed and freed, no block and no stream is left, nothing was released twice or used afterwards. Runs of the tool that end with status 0 leave nothing; runs that fail release nothing twice. Non-trivial: something was acquired.";
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        if(r.chance(2, 5)) {
            gen_cli(r, c, G_WORDS | G_CONFIG | G_JSON | G_ENTROPY | G_SPLIT | G_DETERMINISTIC | G_FILESOURCE | G_LIST | (r.chance(1, 3) ? G_MARKOV : 0) | (r.chance(1, 3) ? G_BIG : 0) | (r.chance(1, 3) ? G_INVALID : 0) | (r.chance(1, 3) ? G_READFAULT : 0) |
                         (r.chance(1, 6) ? G_OUTFAULT : 0));
            if(r.chance(1, 8)) c.add("allocfail %lu", 1 + r.below(60));
            c.add("cli");
            return c;
        }
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        c.add("ent prng %lu", r.next() % 1000000);
        int nl = 1 + r.below(3);
        vector<string> lists;
        for(int i = 0; i < nl; i++) {
            string p = strf("/w/%c", 'a' + i);
            if(r.chance(1, 8)) c.addw({"file", p, "dir", ""});
            else if(r.chance(1, 6)) { const char *bad[] = {"", "\n\n", "abc\xff\n", "\xc3", "a\nb\nlong \xe2\x82\n"}; c.addw({"file", p, "reg", r.chance(1, 4) ? string("a\0b\n", 4) : string(bad[r.below(5)])}); }
            else gen_wordlist(r, c, p, r.chance(1, 4), true);
            if(r.chance(1, 4)) c.addw({"readfault", p, strf("%lu", r.pick({0, 1, 3, 10, 100, 4096, 5000})), r.chance(1, 4) ? "EOF" : "EIO", r.chance(1, 2) ? "once" : "always"});
            if(r.chance(1, 8)) c.addw({"openfault", p, "EACCES"});
            lists.push_back(p);
        }
        c.addw({"dev", "/dev/r", "prng", strf("%lu", r.below(1000))});
        if(r.chance(1, 4)) c.addw({"openfault", "/dev/r", "EMFILE"});
        PatOpts o;
        o.words = {"w0", "w1"};
        if(r.chance(1, 2)) o.markov = {"w0"};
        o.depth = 2;
        o.budget = 40;
        int n = 3 + r.below(thorough ? 60 : 25);
        for(int i = 0; i < n; i++) {
            string s = strf("%lu", r.below(3));
            switch(r.below(22)) {
                case 0: case 1: {
                    const char *d[] = {"system", "zero", "xorshift:5", "xorshift:0", "xorshift:", "chacha20:key", "chacha20:key:iv", "chacha20:012345678901234567890123456789012", "chacha20-argon2:a", "chacha20-argon2:a:b:c", "file:/dev/r", "file:/missing", "file:", "bogus", "", "file:/w/a"};
                    c.addw({"open", s, d[r.below(r.chance(1, 8) ? 16 : 15)], r.chance(1, 3) ? "obj" : r.chance(1, 4) ? "file" : "heap"});
                    break;
                }
                case 2: c.addw({"read", s, strf("%lu", r.size(3000))}); break;
                case 3: c.addw({"close", s}); break;
                case 4: case 5: { string p = gen_pattern(r, o); if(r.chance(1, 2) && !p.empty()) { if(r.chance(1, 2)) p.erase(r.below(p.size()), 1); else p.insert(r.below(p.size() + 1), 1, "()[]{}|\\-,\xff"[r.below(11)]); } c.addw({"parse", s, p}); break; }
                case 6: c.addw({"pfree", s}); break;
                case 7: { string p = gen_pattern(r, o); c.addw({"parser", p, strf("%lu", r.below(p.size() + 2)), r.chance(1, 2) ? "own" : "new", r.chance(1, 2) ? "tokens" : "text"}); break; }
                case 8: c.addw({"env", s, strf("%lu", r.below(3))}); break;
                case 9: case 10: case 11: c.addw({"list", s, r.chance(1, 8) ? "" : strf("w%lu", r.below(2)), r.pick(lists), strf("%lu", 1 + r.below(4))}); break;
                case 12: case 13: case 14: c.addw({"gen", s, strf("%lu", r.below(3)), strf("%lu", r.below(5))}); break;
                case 15: c.addw({"efree", s}); break;
                case 16: c.addw({"map", r.chance(1, 3) ? "utf32" : "utf8", strf("%lu", r.below(r.chance(1, 4) ? 300 : 30)), strf("%lu", r.below(10000))}); break;
                case 17: c.addw({"chain", strf("%lu", 1 + r.below(5)), strf("%lu", r.below(40)), strf("%lu", r.below(10000))}); break;
                case 18: c.addw({"wordlist", r.pick(lists), strf("%lu", 1 + r.below(4)), r.chance(1, 2) ? "load" : r.chance(1, 2) ? "init" : "parse"}); break;
                case 19: c.addw({"stack", strf("%lu", 1 + r.below(40)), strf("%lu", r.below(400)), strf("%lu", r.below(10000))}); break;
                case 20: c.addw({"array", strf("%lu", r.below(20)), strf("%lu", r.below(200)), strf("%lu", r.below(10000))}); break;
                case 21: c.addw({"close", s}); c.addw({"open", s, "chacha20:again", "heap"}); break;
            }
        }
        if(r.chance(1, 4)) {
            // what cannot report that there is no memory is left out
            vector<string> keep;
            for(auto &l : c.lines) {
                string k = l.substr(0, l.find(' '));
                if(!(k == "parse" || k == "parser" || k == "map" || k == "chain" || k == "stack" || k == "array")) keep.push_back(l);
            }
            c.lines = keep;
            c.add("allocfail %lu", 1 + r.below(40));
        }
        return c;
    }
    static int cb(void *data, uint32_t cp) { (void) cp; return ++*(u64 *) data > 3000 ? 77 : 0; }
    static char *dup(const string &s) {
        // memory of the caller, handed over
        char *p = (char *) sim_malloc(s.size() + 1);
        if(!p) return nullptr;
        memcpy(p, s.data(), s.size());
        p[s.size()] = 0;
        return p;
    }
    static void exec(const vector<Line> &ops) {
        struct R { passgen_random *r = nullptr; bool heap = true; passgen_random obj; } rs[3];
        struct P { passgen_pattern p; int state = 0; } ps[3];     // 0 nothing, 1 valid, 2 failed
        struct E { passgen_env e; bool on = false; } es[3];
        auto rclose = [&](R &x) { if(!x.r) return; if(x.heap) passgen_random_free(x.r); else passgen_random_close(x.r); x.r = nullptr; };
        auto pfree = [&](P &x) { if(x.state) passgen_pattern_free(&x.p); x.state = 0; };
        for(auto &l : ops) {
            u64 s = l.num(1) % 3;
            if(l[0] == "open") {
                R &x = rs[s];
                if(x.r) continue;
                x.heap = l[3] != "obj";
                memset(&x.obj, 0xa7, sizeof(x.obj));
                if(l[3] == "file") {
                    FILE *f = sim_file("/dev/r");
                    if(!f) continue;
                    x.r = passgen_random_file_open(nullptr, f);
                    if(!x.r) sim_fclose(f);     // still the caller's
                    continue;
                }
                x.r = passgen_random_open(x.heap ? nullptr : &x.obj, l[2].c_str());
            } else if(l[0] == "read") {
                u64 n = std::min<u64>(l.num(2), 100000);
                vector<u8> b(n + 1);
                if(rs[s].r) passgen_random_read(rs[s].r, b.data(), n);
            } else if(l[0] == "close") rclose(rs[s]);
            else if(l[0] == "parse") {
                pfree(ps[s]);
                passgen_error e;
                ps[s].state = passgen_parse(&ps[s].p, &e, l[2].c_str()) ? 2 : 1;
            } else if(l[0] == "pfree") pfree(ps[s]);
            else if(l[0] == "parser") {
                // a parser that is abandoned anywhere
                passgen_parser pr;
                passgen_pattern mine, *got;
                passgen_parser_init(&pr, l[3] == "own" ? &mine : nullptr);
                vector<u32> cps;
                u64 n = l.num(2);
                if(utf8_dec(l[1], cps)) {
                    if(l[4] == "tokens") {
                        passgen_token_parser tp;
                        memset(&tp, 0, sizeof(tp));
                        for(size_t i = 0; i < cps.size() && i < n; i++) {
                            passgen_token t;
                            memset(&t, 0, sizeof(t));
                            int ret = passgen_token_parse(&tp, &t, 1, cps[i]);
                            if(ret < 0) break;
                            if(ret == PASSGEN_TOKEN_INIT && passgen_parse_token(&pr, &t)) break;
                        }
                        if(n > cps.size()) passgen_parse_finish(&pr);
                    }
                }
                got = passgen_parser_free(&pr);
                if(got) { passgen_pattern_free(got); if(l[3] != "own") sim_free(got); }
            } else if(l[0] == "env") {
                if(es[s].on) continue;
                R &x = rs[l.num(2) % 3];
                passgen_random *r = nullptr;
                if(x.r && x.heap) { r = x.r; x.r = nullptr; }    // handed over
                passgen_env_init(&es[s].e, r);
                es[s].on = true;
            } else if(l[0] == "list") {
                if(!es[s].on) continue;
                FILE *f = sim_file(l[3]);
                if(!f) continue;
                char *name = dup(l[2]);
                if(!name) { sim_fclose(f); continue; }
                if(passgen_env_wordlist_add(&es[s].e, name, f, std::min<u64>(255, std::max<u64>(1, l.num(4))))) { sim_free(name); sim_fclose(f); }
            } else if(l[0] == "gen") {
                if(!es[s].on || !es[s].e.random || ps[l.num(2) % 3].state != 1) continue;
                for(u64 i = 0; i < std::min<u64>(l.num(3), 20); i++) { u64 n = 0; double e; passgen_generate(&ps[l.num(2) % 3].p, &es[s].e, &e, &n, cb); }
            } else if(l[0] == "efree") { if(es[s].on) { passgen_env_free(&es[s].e); es[s].on = false; } }
            else if(l[0] == "map") {
                passgen_hashmap m;
                passgen_hashmap_init(&m, &passgen_hashmap_context_utf8);
                Rng r(l.num(3));
                u64 n = std::min<u64>(l.num(2), 1000);
                for(u64 i = 0; i < n; i++) {
                    string key = strf("key%lu", r.below(n));
                    if(r.chance(1, 3)) {
                        passgen_hashmap_entry e = passgen_hashmap_remove(&m, key.c_str());
                        if(e.key) { sim_free((void *) e.key); sim_free(e.value); }
                        continue;
                    }
                    char *k = dup(key), *v = dup("value");
                    if(!k || !v) { sim_free(k); sim_free(v); continue; }
                    passgen_hashmap_entry e = passgen_hashmap_insert(&m, k, v);
                    if(e.key) { sim_free((void *) e.key); sim_free(e.value); }
                }
                passgen_hashmap_foreach(&m, nullptr, passgen_hashmap_entry_free);
                passgen_hashmap_free(&m);
            } else if(l[0] == "chain") {
                passgen_markov m;
                passgen_markov_init(&m, std::min<u64>(255, std::max<u64>(1, l.num(1))));
                Rng r(l.num(3));
                for(u64 i = 0; i < std::min<u64>(l.num(2), 500); i++) {
                    u32 w[12];
                    u64 n = r.below(12);
                    for(u64 j = 0; j < n; j++) w[j] = 1 + r.below(5) * 357 + r.below(40);
                    passgen_markov_add(&m, w, n, r.below(3));
                }
                passgen_markov_free(&m);
            } else if(l[0] == "wordlist") {
                FILE *f = sim_file(l[1]);
                if(!f) continue;
                passgen_wordlist wl;
                u64 level = std::min<u64>(255, std::max<u64>(1, l.num(2)));
                if(l[3] == "load") passgen_wordlist_load(&wl, f, level);
                else {
                    passgen_wordlist_init(&wl, f, level);
                    if(l[3] == "parse" && passgen_wordlist_parse(&wl) == 0) passgen_wordlist_parse_markov(&wl);
                }
                passgen_wordlist_free(&wl);
            } else if(l[0] == "stack") {
                passgen_stack st;
                u64 size = std::min<u64>(1000, std::max<u64>(1, l.num(1)));
                passgen_stack_init(&st, size);
                Rng r(l.num(3));
                vector<u8> el(size, 7);
                u64 n = 0;
                for(u64 i = 0; i < std::min<u64>(l.num(2), 2000); i++) {
                    if(n && r.chance(1, 3)) { passgen_stack_pop(&st, r.chance(1, 2) ? el.data() : nullptr); n--; }
                    else { passgen_stack_push(&st, el.data()); n++; }
                }
                passgen_stack_free(&st);
            } else if(l[0] == "array") {
                passgen_array a;
                passgen_array_init(&a, l.num(1) % 64);
                Rng r(l.num(3));
                u64 n = 0;
                for(u64 i = 0; i < std::min<u64>(l.num(2), 1000); i++) {
                    if(n && r.chance(1, 3)) { passgen_array_pop(&a); n--; }
                    else { passgen_array_push(&a, &a); n++; }
                }
                passgen_array_free(&a);
            }
        }
        for(auto &x : es) if(x.on) passgen_env_free(&x.e);
        for(auto &x : rs) rclose(x);
        for(auto &x : ps) pfree(x);
    }
    optional<string> check(const Case &c) override {
        auto ops = c.parse();
        WorldCfg w = WorldCfg::from(c);
        w.budget = 100000000;
        bool cli = false;
        for(auto &l : ops) if(l[0] == "cli") cli = true;
        if(cli) {
            Result r = run_cli(w);
            string what = "`" + cmdline(w) + "': ";
            if(!failed_stop(r)) if(auto e = memory_error(r)) return what + *e;
            // lists and sources belong to the options, which a run that fails does not release, but not the configuration
            if(r.kind == K_EXIT && r.code && r.config_open) return what + strf("a configuration is not closed before it ends with status %d", r.code);
            if(!r.ok_status()) { note_trivial(); return {}; }
            if(r.live_allocs) return what + strf("%lu blocks are not released", r.live_allocs);
            if(r.streams_open) return what + strf("%lu streams are not closed", r.streams_open);
            stat_inc("clean_runs");
            return {};
        }
        Result r = run_child(w, [&]() { exec(ops); });
        if(r.kind == K_VIOLATION) return r.note;
        if(!failed_stop(r)) if(auto e = memory_error(r)) return e;
        // assertions and aborts for failures that cannot be reported are another matter
        if(r.kind != K_RETURN) { note_trivial(); return {}; }
        if(!r.allocs) note_trivial();
        if(r.faults[F_ALLOC])
            for(auto &l : ops) if(l[0] == "parse" || l[0] == "parser" || l[0] == "map" || l[0] == "chain" || l[0] == "stack" || l[0] == "array") { note_trivial(); return {}; }
        if(r.live_allocs) return strf("%lu blocks (%lu bytes) are left after everything was freed", r.live_allocs, r.live_bytes);
        if(r.streams_open) return strf("%lu streams are left open", r.streams_open);
        stat_inc("clean_histories");
        stat_inc("blocks_released", r.allocs);
        return {};
    }
};
REGISTER(C20);
