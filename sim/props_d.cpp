// C10, C11, C14, C15, C16, C20: wordlists, Markov chains, sandbox, erasure, isolation, resources.
#include "props.h"
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>

// number of standard deviations (Wilson-Hilferty)
static double chi_sigma(double chi, double dof) {
    if(dof < 1) return 0;
    return (cbrt(chi / dof) - (1 - 2 / (9 * dof))) / sqrt(2 / (9 * dof));
}

// ---------------------------------------------------------------- C10
struct C10 : Property {
    C10() : Property("C10") {}
    u64 quick_cases() override { return 15000; }
    string rule() override {
        return "Wordlists (empty lines, no final newline, sizes around the buffers and tables, all of Unicode, damaged UTF-8, zero bytes) in files, pipes, devices and directories, with reads that are split at seeded places and errors at seeded offsets (also once only): "
               "generations through the library and whole runs: a sequence has to be made of complete lines, a list that cannot be read completely has to make every generation from it fail, a readable one none. "
               "Odds: chi-square over the lines of a list and every line reached. Non-trivial: a word was asked for.";
    }
    static void add_faults(Rng &r, Case &c) {
        vector<std::pair<string, u64>> files;
        for(auto &l : c.parse()) if(l[0] == "file" || l[0] == "genfile") files.push_back({l[1], l[0] == "file" && l.size() > 3 ? l[3].size() : 6000});
        for(auto &f : files) {
            if(r.chance(2, 3)) c.addw({"readplan", f.first, strf("%lu", r.next() % 100000), strf("%lu", r.pick({1, 2, 3, 7, 64, 1000, 4095, 4096, 5000}))});
            if(r.chance(1, 3)) {
                u64 at = r.chance(1, 4) ? f.second : r.chance(1, 4) ? f.second + 1 - std::min<u64>(f.second, r.below(3)) : r.chance(1, 4) ? 4095 + r.below(3) : r.below(f.second + 1);
                c.addw({"readfault", f.first, strf("%lu", at), r.chance(1, 6) ? "EOF" : r.chance(1, 2) ? "EIO" : r.chance(1, 2) ? "EINTR" : "EAGAIN", r.chance(1, 2) ? "once" : "always"});
            }
        }
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        u64 k = r.below(12);
        if(k == 0) {
            c.add("heap %lu", r.below(1000));
            c.add("ent prng %lu", r.next() % 1000000);
            gen_wordlist(r, c, "/w/a", r.chance(1, 2), true);
            if(r.chance(1, 2)) add_split(r, c);
            c.addw({"wl", "x", "/w/a", "1"});
            c.addw({"pattern", "\\w{x}"});
            c.add("odds %d", thorough ? 120 : 40);
            return c;
        }
        if(k < 5) {
            gen_cli(r, c, G_WORDS | G_SPLIT | G_READFAULT | (r.chance(1, 3) ? G_MARKOV : 0) | (r.chance(1, 3) ? G_CONFIG : 0) | (r.chance(1, 3) ? G_JSON : 0) | (r.chance(1, 3) ? G_BIG : 0) | (r.chance(1, 3) ? G_ENTROPY : 0));
            add_faults(r, c);
            return c;
        }
        gen_world(r, c);
        PatOpts o;
        o.depth = r.below(3);
        o.budget = 60;
        int n = 1 + r.below(3);
        for(int i = 0; i < n; i++) {
            string p = strf("/w/%c", 'a' + i), name = r.chance(1, 6) ? "" : strf("w%d", i);
            switch(r.below(9)) {
                case 0: c.addw({"file", p, "dir", ""}); break;
                case 1: {
                    const char *bad[] = {"", "\n", "\n\n\n", "abc\xff\n", "\xc3\n", "ab\xe2\x82\ncd\n", "\xed\xa0\x80\n", "\xf4\x90\x80\x80\n", "\xf0\x9f\x98\nlonger word\n", "\xc3"};
                    c.addw({"file", p, r.chance(1, 3) ? "pipe" : "reg", r.chance(1, 2) ? "ok\n" + gen_word(r, true) + gen_broken_utf8(r) + (r.chance(1, 2) ? "\n" : "") : bad[r.below(10)]});
                    break;
                }
                case 2: {
                    string s;
                    int lines = 1 + r.below(6), z = r.below(lines);
                    for(int j = 0; j < lines; j++) { s += gen_word(r, true); if(j == z) s += string(1, '\0') + (r.chance(1, 2) ? "tail" : ""); if(j + 1 < lines || r.chance(1, 2)) s += "\n"; }
                    c.addw({"file", p, "reg", s});
                    break;
                }
                case 3: {
                    // long words, with wide characters at the borders of the blocks they are decoded in
                    string s;
                    int lines = 1 + r.below(4);
                    for(int j = 0; j < lines; j++) {
                        u64 len = r.pick({100, 126, 127, 128, 129, 255, 256, 257, 300, 1000});
                        bool wide = r.chance(1, 2);
                        for(u64 q = 0; q < len; q++) utf8_put(s, wide && r.chance(1, 3) ? gen_codepoint(r, true, false) : 'a' + r.below(26));
                        if(r.chance(1, 8)) s += r.chance(1, 2) ? "\xe2\x82" : "\xff";
                        s += "\n";
                    }
                    string t;
                    for(char ch : s) if(ch) t += ch;
                    c.addw({"file", p, "reg", t});
                    break;
                }
                default: gen_wordlist(r, c, p, r.chance(1, 3), true);
            }
            c.addw({"wl", name, p, strf("%lu", 1 + r.below(4))});
            o.words.push_back(name);
            if(r.chance(1, 3)) o.markov.push_back(name);
        }
        if(r.chance(1, 6)) o.words.push_back("missing");
        add_faults(r, c);
        string pat = gen_pattern(r, o);
        if(r.chance(1, 2) || pat.find("\\w") == string::npos) {
            string w = "\\w{" + o.words[r.below(o.words.size())] + "}";
            pat = r.chance(1, 2) ? w + "-" + w : r.chance(1, 2) ? "(" + w + "|\\w{" + o.words[0] + "})" : w;
        }
        c.addw({"pattern", pat});
        c.add("count %lu", 1 + r.below(12));
        return c;
    }
    static void add_split(Rng &r, Case &c) { c.addw({"readplan", "/w/a", strf("%lu", r.next() % 100000), strf("%lu", r.pick({1, 3, 64, 1000, 4095}))}); }
    optional<string> check_cli(const Case &c) {
        WorldCfg w = WorldCfg::from(c);
        CliModel m = model_cli(w);
        if(!m.known || m.source_may_stop || m.words.empty()) { note_trivial(); return {}; }
        Result r = run_cli(w);
        string what = "`" + cmdline(w) + "': ";
        if(!r.status()) return what + "did not end with a status: " + r.brief();
        if(r.code != m.code) return what + strf("status %d, expected %d (%s): ", r.code, m.code, m.why.c_str()) + show(r.out);
        if(m.code == 9) stat_inc("runs_with_unusable_list");
        if(m.code == 0 && !m.list && !m.help && !m.version) {
            if(!m.markov) { if(auto bad = output_mismatch(m, r)) return what + *bad; }
            stat_inc("runs_with_complete_words");
        }
        return {};
    }
    optional<string> check(const Case &c) override {
        bool lib = false;
        u64 odds = 0;
        for(auto &l : c.parse()) { if(l[0] == "pattern") lib = true; if(l[0] == "odds") odds = l.num(1); }
        if(!lib) return check_cli(c);
        Common k(c);
        if(odds) {
            auto it = k.env.find("x");
            if(it == k.env.end() || !it->second.first.usable || k.pattern != "\\w{x}") { note_trivial(); return {}; }
            const Words &wd = it->second.first;
            map<string, u64> mult, seen;
            for(auto &s : wd.words) { vector<u32> t; if(!utf8_dec(s, t)) { note_trivial(); return {}; } mult[s]++; }
            u64 n = std::max<u64>(2000, wd.words.size() * odds);
            if(n > 400000) n = 400000;
            WorldCfg w = k.w;
            w.ent.kind = "prng"; w.ent.code = 0;
            vector<string> keys;
            for(auto &x : mult) keys.push_back(x.first);
            Result res = run_child(w, [&]() {
                passgen_pattern p;
                passgen_error e;
                if(passgen_parse(&p, &e, "\\w{x}")) violation("cannot parse the pattern");
                passgen_random *rn = passgen_random_open(nullptr, "system");
                passgen_env env;
                setup_env(&env, k.ops, rn);
                map<string, u64> count;
                for(u64 i = 0; i < n; i++) {
                    char buf[65536];
                    size_t len = passgen_generate_fill_utf8(&p, &env, nullptr, (u8 *) buf, sizeof(buf));
                    sim_pause(true);
                    string s(buf, len);
                    count[s]++;
                    sim_pause(false);
                }
                sim_pause(true);
                for(auto &x : count) { blob_str(x.first); rec_num(x.second, 8); }
                sim_pause(false);
            });
            if(res.kind != K_RETURN) return "generating words: " + res.brief();
            Reader rd(res.blob);
            while(rd.more()) { string s = rd.str(); seen[s] = rd.num(8); }
            double chi = 0;
            for(auto &x : seen) if(!mult.count(x.first)) return "the text `" + show(x.first) + "' is not a line of the wordlist";
            for(auto &x : mult) {
                double ex = (double) n * x.second / wd.words.size(), d = (double) seen[x.first] - ex;
                chi += d * d / ex;
                if(ex > 35 && !seen[x.first]) return strf("line `%s' was never chosen in %lu words, expected %.0f times", show(x.first).c_str(), n, ex);
            }
            double z = chi_sigma(chi, mult.size() - 1.0);
            if(mult.size() > 1 && z > 7) return strf("the %zu lines are not equally likely: chi-square %.1f, %.1f standard deviations", mult.size(), chi, z);
            stat_inc("words_counted", n);
            return {};
        }
        if(!k.ok || k.w.ent.kind == "zero" || k.w.ent.kind == "ff") { note_trivial(); return {}; }
        bool chain = k.pattern.find("\\m") != string::npos;
        WorldCfg w = k.w;
        if(chain) { w.ent.kind = "prng"; w.ent.code = 0; }
        Result res = run_child(w, [&]() { exec_generate(k.pattern, k.ops, k.count, false); });
        if(res.kind != K_RETURN) return "pattern `" + show(k.pattern) + "': " + res.brief();
        vector<GenRec> recs;
        if(!read_generate(res, recs)) return "pattern `" + show(k.pattern) + "' is refused";
        bool may = model_may_fail(k.g, k.env);
        for(size_t i = 0; i < recs.size(); i++) {
            string what = strf("pattern `%s', sequence %zu: ", show(k.pattern).c_str(), i);
            if(recs[i].ret) {
                if(!may) return what + "fails, although every list can be read";
                stat_inc("refused");
                continue;
            }
            stat_inc("generated");
            if(chain) continue;
            if(!model_member(k.g, k.env, recs[i].out)) return what + "`" + show_cps(recs[i].out) + "' is not made of complete lines of readable lists";
        }
        if(k.pattern.find("\\w") == string::npos && !chain) note_trivial();
        return {};
    }
};
REGISTER(C10);

// ---------------------------------------------------------------- C11
struct C11 : Property {
    C11() : Property("C11") {}
    u64 quick_cases() override { return 3600; }
    string rule() override {
        return "Chains of length 1 to 255 trained through the library with words of few and many characters (with code points that collide modulo the table sizes), weights, repeated and empty words: for every context the choice made for every value of the draw, that is the exact "
               "distribution, and the reported factor, against exact counts. Words generated from wordlists (of 1 to thousands of characters, all of Unicode): every transition has to occur in the list, transitions of frequent contexts chi-square. Non-trivial: a chain was trained.";
    }
    static u32 letter(Rng &r, int style) {
        switch(style) {
            case 0: return 'a' + r.below(3);
            case 1: return 'a' + r.below(26);
            case 2: return 1 + 3 * 7 * 17 * r.below(200);
            case 3: return 1 + 3 * 7 * 17 * 37 * 79 * r.below(2) + 21 * r.below(40);
            case 4: return 0x10000 + r.below(0x100000);
            case 5: return gen_codepoint(r, true, true);
            default: return 1 + r.below(2000);
        }
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        if(r.chance(1, 2)) {
            u64 level = r.chance(1, 6) ? r.pick({1, 5, 8, 16, 64, 128, 254, 255}) : 1 + r.below(4);
            c.add("chain %lu", level);
            int n = 1 + r.below(r.chance(1, 5) ? 200 : 12), style = r.below(7);
            if(level > 8) n = 1 + r.below(4);
            bool heavy = r.chance(1, 5);
            for(int i = 0; i < n; i++) {
                string s = strf("word %lu", heavy && r.chance(1, 4) ? r.pick({255, 256, 65535, 65536, 65537, 70000, r.below(200000)}) : r.chance(1, 5) ? r.below(100) : 1);
                u64 len = r.chance(1, 8) ? r.size(40) : r.below(6);
                for(u64 j = 0; j < len; j++) s += strf(" %u", letter(r, style));
                c.add("%s", s.c_str());
            }
            return c;
        }
        c.add("ent prng %lu", r.next() % 1000000);
        u64 level = r.chance(1, 5) ? r.pick({1, 6, 20, 100, 200, 255}) : 1 + r.below(4);
        string s;
        int n = 1 + r.below(r.chance(1, 4) ? 60 : 8), style = r.below(7);
        for(int i = 0; i < n; i++) {
            u64 len = r.chance(1, 10) ? r.pick({127, 128, 129, 254, 255, 256, 257, 1000}) : 1 + r.below(8);
            for(u64 j = 0; j < len; j++) {
                u32 cp = letter(r, style);
                if(cp == '\n' || cp == 0 || (cp >= 0xd800 && cp < 0xe000) || cp > 0x10ffff) cp = 'x';
                utf8_put(s, cp);
            }
            s += "\n";
        }
        c.addw({"file", "/w/a", "reg", s});
        if(r.chance(1, 3)) c.addw({"readplan", "/w/a", strf("%lu", r.next() % 100000), "50"});
        c.addw({"wl", "x", "/w/a", strf("%lu", level)});
        c.addw({"pattern", r.chance(1, 4) ? "\\w{x}\\m{x}" : "\\m{x}"});
        c.add("count %lu", r.chance(1, 3) ? (thorough ? 6000ul : 2500ul) : 1 + r.below(60));
        return c;
    }
    optional<string> check_chain(const Case &c) {
        WorldCfg w = WorldCfg::from(c);
        u64 level = 1;
        typedef std::pair<u64, vector<u32>> WW;
        vector<WW> words;
        for(auto &l : c.parse()) {
            if(l[0] == "chain") level = l.num(1);
            if(l[0] == "word") { WW x; x.first = l.num(1); for(size_t i = 2; i < l.size(); i++) x.second.push_back(l.num(i) ? l.num(i) : 1); words.push_back(x); }
        }
        if(level < 1 || level > 255) { note_trivial(); return {}; }
        map<vector<u32>, map<u32, u64>> t;
        for(auto &x : words) {
            if(!x.first) continue;
            vector<u32> ctx(level, 0), cp = x.second;
            cp.push_back(0);
            for(u32 ch : cp) { t[ctx][ch] += x.first; ctx.erase(ctx.begin()); ctx.push_back(ch); }
        }
        if(t.empty()) { note_trivial(); return {}; }
        w.budget = 4000000000ul;
        Result res = run_child(w, [&]() {
            passgen_markov m;
            passgen_markov_init(&m, level);
            for(auto &x : words) {
                sim_pause(true);
                // exactly as large as it has to be
                u32 *copy = (u32 *) sim_malloc(x.second.size() * 4);
                memcpy(copy, x.second.data(), x.second.size() * 4);
                sim_pause(false);
                passgen_markov_add(&m, copy, x.second.size(), x.first);
                sim_free(copy);
            }
            passgen_random rn;
            passgen_random_zero_open(&rn);
            for(auto &x : t) {
                u64 total = 0;
                for(auto &y : x.second) total += y.second;
                u64 step = total > 3000 ? total / 1500 : x.second.size() > 40 ? 1 + total / 150 : 1;
                for(u64 k = 0; k < total; k += step) {
                    // the draw takes the value k, whatever its width is
                    rn.pos = 0;
                    memset(rn.buffer, 0, sizeof(rn.buffer));
                    memcpy(rn.buffer, &k, 8);
                    double e = 1;
                    u32 cp = passgen_markov_generate(&m, x.first.data(), &rn, k % 2 ? nullptr : &e);
                    sim_pause(true);
                    rec_num(cp, 4);
                    rec_num(k % 2, 1);
                    blob_put(&e, 8);
                    sim_pause(false);
                }
            }
            passgen_random_close(&rn);
            passgen_markov_free(&m);
        });
        if(res.kind != K_RETURN) return strf("chain of length %lu: ", level) + res.brief();
        Reader rd(res.blob);
        for(auto &x : t) {
            u64 total = 0;
            for(auto &y : x.second) total += y.second;
            u64 step = total > 3000 ? total / 1500 : x.second.size() > 40 ? 1 + total / 150 : 1;
            map<u32, u64> seen;
            string ctx;
            for(u32 ch : x.first) ctx += strf(" %u", ch);
            for(u64 k = 0; k < total; k += step) {
                if(!rd.more()) return string("no result");
                u32 cp = rd.num(4);
                bool no_entropy = rd.num(1);
                u64 b = rd.num(8);
                double e;
                memcpy(&e, &b, 8);
                seen[cp]++;
                auto y = x.second.find(cp);
                if(y == x.second.end()) return strf("after%s: %u was chosen, which never follows", ctx.c_str(), cp);
                double want = (double) total / y->second;
                if(!no_entropy && fabs(e - want) > want * 1e-9) return strf("after%s: the choice of %u (%lu of %lu) is counted with a factor of %.6f", ctx.c_str(), cp, y->second, total, e);
            }
            stat_inc("contexts");
            for(auto &y : x.second) {
                u64 s = seen[y.first];
                if(step == 1 ? s != y.second : fabs((double) s * step - (double) y.second) > 2.0 * step) return strf("after%s: %u is chosen for %lu of %lu values of the draw, it occurs %lu times", ctx.c_str(), y.first, s * step, total, y.second);
            }
        }
        return {};
    }
    optional<string> check(const Case &c) override {
        for(auto &l : c.lines) if(l.compare(0, 6, "chain ") == 0) return check_chain(c);
        Common k(c);
        auto it = k.env.find("x");
        if(it == k.env.end() || (k.pattern != "\\m{x}" && k.pattern != "\\w{x}\\m{x}")) { note_trivial(); return {}; }
        const Words &wd = it->second.first;
        u64 level = it->second.second;
        if(!wd.markov_usable || level < 1 || level > 255) { note_trivial(); return {}; }
        auto t = wd.trans(level);
        WorldCfg w = k.w;
        w.ent.kind = "prng"; w.ent.code = 0;
        // words get as long as chance makes them
        u64 limit = 300000;
        Result res = run_child(w, [&]() {
            passgen_pattern p;
            passgen_error e;
            if(passgen_parse(&p, &e, "\\m{x}")) violation("cannot parse the pattern");
            passgen_random *rn = passgen_random_open(nullptr, "system");
            passgen_env env;
            setup_env(&env, k.ops, rn);
            if(k.pattern != "\\m{x}") {
                // the list was used for words before
                passgen_pattern q;
                if(passgen_parse(&q, &e, "\\w{x}")) violation("cannot parse the pattern");
                vector<u32> out;
                struct D { vector<u32> *o; } d{&out};
                if(passgen_generate(&q, &env, nullptr, &d, [](void *data, u32 cp) { ((D *) data)->o->push_back(cp); return 0; })) violation("no word can be taken from the list");
            }
            u64 total = 0;
            for(u64 i = 0; i < k.count && total < limit; i++) {
                struct D { vector<u32> o; } d;
                int ret = passgen_generate(&p, &env, nullptr, &d, [](void *data, u32 cp) { D *d = (D *) data; sim_pause(true); d->o.push_back(cp); sim_pause(false); return d->o.size() > 100000 ? 1234 : 0; });
                sim_pause(true);
                rec_num(ret, 4);
                rec_num(d.o.size(), 4);
                blob_put(d.o.data(), d.o.size() * 4);
                total += d.o.size() + 10;
                sim_pause(false);
            }
        });
        string what = strf("chain of length %lu: ", level);
        if(res.kind != K_RETURN) return what + res.brief();
        Reader rd(res.blob);
        map<vector<u32>, map<u32, u64>> seen;
        while(rd.more()) {
            int ret = (int) rd.num(4);
            u64 n = rd.num(4);
            vector<u32> o;
            for(u64 i = 0; i < n; i++) o.push_back(rd.num(4));
            if(ret == 1234) { stat_inc("endless"); continue; }
            if(ret) return what + strf("generation fails with %d", ret);
            o.push_back(0);
            vector<u32> ctx(level, 0);
            for(size_t i = 0; i < o.size(); i++) {
                auto x = t.find(ctx);
                if(x == t.end() || !x->second.count(o[i])) return what + strf("the word `%s' has the transition to %#x at %zu, which does not occur in the list", show_cps(vector<u32>(o.begin(), o.end() - 1)).c_str(), o[i], i);
                if(level < 20) seen[ctx][o[i]]++;
                ctx.erase(ctx.begin());
                ctx.push_back(o[i]);
            }
            stat_inc("words");
        }
        for(auto &x : seen) {
            auto &ref = t[x.first];
            double n = 0, total = 0, chi = 0;
            for(auto &y : x.second) n += y.second;
            for(auto &y : ref) total += y.second;
            if(n < 200) continue;
            double dof = -1, rest_e = 0, rest_s = 0;
            for(auto &y : ref) {
                double ex = n * y.second / total, s = x.second.count(y.first) ? x.second[y.first] : 0;
                if(ex < 5) { rest_e += ex; rest_s += s; continue; }
                chi += (s - ex) * (s - ex) / ex;
                dof++;
            }
            if(rest_e >= 5) { chi += (rest_s - rest_e) * (rest_s - rest_e) / rest_e; dof++; }
            if(dof < 1) continue;
            stat_inc("contexts_tested");
            double z = chi_sigma(chi, dof);
            if(z > 7) return what + strf("transitions after `%s' do not follow their frequencies: chi-square %.1f for %.0f", show_cps(x.first).c_str(), chi, dof);
        }
        return {};
    }
};
REGISTER(C11);

// ---------------------------------------------------------------- C14
struct C14 : Property {
    C14() : Property("C14") {}
    u64 quick_cases() override { return 10000; }
    string rule() override {
        return "Runs of the tool of every kind (help, listings, errors, configuration files, wordlists, all sources, large output) with standard output of every type, under the filter that the tool loads (its program is run on every system call that the simulated C library makes): "
               "no needed call may be denied, the filter has to be in force before the first file, variable or option is read, and it has to deny seeded hostile calls (processes, network, opening for writing, other descriptors, executable mappings; other ABIs). Every case is non-trivial.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        unsigned f = G_WORDS | G_MARKOV | G_CONFIG | G_DETERMINISTIC | G_JSON | G_ENTROPY | G_LIST | G_FILESOURCE;
        if(r.chance(1, 3)) f |= G_INVALID;
        if(r.chance(1, 3)) f |= G_READFAULT;
        if(r.chance(1, 3)) f |= G_OUTFAULT;
        if(r.chance(1, 2)) f |= G_BIG | G_SPLIT;
        gen_cli(r, c, f);
        const char *types[] = {"tty", "pipe", "file", "chr"};
        c.add("stdout %s 0 0", types[r.below(4)]);
        for(auto &l : vector<string>(c.lines))
            if(l.compare(0, 5, "file ") == 0 && r.chance(1, 3)) {
                // other kinds of files
                Case one;
                one.lines.push_back(l);
                Line x = one.parse()[0];
                if(x.size() > 3) c.addw({"file", x[1], r.chance(1, 2) ? "chr" : "pipe", x[3]});
            }
        // blocks of memory that the C library maps, moves and unmaps
        if(r.chance(1, 25))
            for(auto &l : vector<string>(c.lines))
                if(l.compare(0, 5, "file ") == 0 || l.compare(0, 8, "genfile ") == 0) {
                    Case one;
                    one.lines.push_back(l);
                    Line x = one.parse()[0];
                    if(x.size() < 3 || x[1].compare(0, 3, "/w/") || x[2] == "dir") continue;
                    c.addw({"genfile", x[1], x[2], "words", strf("%lu", r.next() % 100000), strf("%lu", 10000 + r.below(30000)), ""});
                    break;
                }
        c.add("hostile %lu", r.next() % 100000000);
        return c;
    }
    struct Call { string name; u32 arch; int nr; u64 a[6]; };
    static Call hostile(Rng &r) {
        Call k;
        for(auto &x : k.a) x = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.below(10) : r.next();
        const u32 X64 = 0xC000003E, I386 = 0x40000003, ARM64 = 0xC00000B7;
        k.arch = X64;
        auto pick = [&](std::initializer_list<int> l) { return *(l.begin() + r.below(l.size())); };
        auto bad_fd = [&]() { u64 v; do { v = r.chance(1, 2) ? r.below(20) : r.chance(1, 2) ? r.next() & 0xffffffff : r.next(); } while((u32) v == 1 || (u32) v == 2); return v; };
        auto write_flags = [&]() {
            u64 f = r.chance(1, 2) ? O_WRONLY : O_RDWR;
            if(r.chance(1, 4)) f = O_CREAT;
            if(r.chance(1, 8)) f = O_TRUNC;
            for(int x : {O_CREAT, O_TRUNC, O_APPEND, O_EXCL, O_CLOEXEC, O_NONBLOCK, O_DSYNC, 0x8000}) if(r.chance(1, 4)) f |= x;
            if(r.chance(1, 8)) f |= r.next() << 32;
            return f;
        };
        switch(r.below(13)) {
            case 0: k.name = "process"; k.nr = pick({SYS_clone, SYS_fork, SYS_vfork, SYS_execve, SYS_execveat, 435 /* clone3 */}); break;
            case 1: k.name = "network"; k.nr = pick({SYS_socket, SYS_connect, SYS_bind, SYS_listen, SYS_accept, SYS_accept4, SYS_sendto, SYS_sendmsg, SYS_sendmmsg, SYS_socketpair, SYS_recvfrom, SYS_recvmsg}); break;
            case 2: k.name = "openat for writing"; k.nr = SYS_openat; k.a[0] = r.chance(1, 2) ? (u64) AT_FDCWD : k.a[0]; k.a[2] = write_flags(); break;
            case 3: k.name = "open for writing"; k.nr = SYS_open; k.a[1] = write_flags(); break;
            case 4: k.name = "other ways to open for writing"; k.nr = pick({SYS_creat, 437 /* openat2 */, SYS_open_by_handle_at, SYS_truncate, SYS_ftruncate, SYS_fallocate}); break;
            case 5: k.name = "write to another descriptor"; k.nr = pick({SYS_write, SYS_write, SYS_writev}); k.a[0] = bad_fd(); break;
            case 6: k.name = "other ways to write"; k.nr = pick({SYS_pwrite64, SYS_pwritev, 328 /* pwritev2 */, SYS_sendfile, SYS_splice, SYS_tee, SYS_vmsplice, 326 /* copy_file_range */}); k.a[0] = bad_fd(); k.a[1] = bad_fd(); k.a[2] = bad_fd(); break;
            case 7: k.name = "executable mapping"; k.nr = SYS_mmap; k.a[0] = r.chance(1, 2) ? 0 : k.a[0]; k.a[2] = PROT_EXEC | r.below(4); if(r.chance(1, 6)) k.a[2] |= r.next() << 32; k.a[3] = r.chance(2, 3) ? MAP_PRIVATE | MAP_ANONYMOUS : r.next() & 0xff; k.a[4] = r.chance(1, 2) ? (u64) -1 : r.below(20); break;
            case 8: k.name = "making memory executable"; k.nr = pick({SYS_mprotect, SYS_mprotect, 329 /* pkey_mprotect */}); k.a[2] = PROT_EXEC | r.below(8); break;
            case 9: k.name = "other ways to do any of it"; k.nr = pick({SYS_ptrace, SYS_process_vm_writev, 425, 426, 427 /* io_uring */, SYS_io_submit, SYS_io_setup, SYS_dup2, SYS_dup3, SYS_shmat}); break;
            case 10: {
                k.name = "other ABI (32 bit)";
                k.arch = I386;
                k.nr = pick({2, 11, 120, 190, 358, 102, 359, 362, 8, 5, 295, 4, 146, 90, 192, 125, 26});
                if(k.nr == 5) k.a[1] = write_flags(); else if(k.nr == 295) k.a[2] = write_flags(); else if(k.nr == 4 || k.nr == 146) k.a[0] = bad_fd(); else if(k.nr == 192 || k.nr == 125) k.a[2] = 7;
                break;
            }
            case 11: {
                // anything but asking for the size and the settings of a
                // terminal: pushing characters into its input, taking it
                // over, changing its settings, other devices' requests
                k.name = "controlling a device";
                k.nr = SYS_ioctl;
                k.a[0] = r.chance(2, 3) ? r.below(3) : k.a[0];
                k.a[1] = (u64) pick({0x5412, 0x5412, 0x5402, 0x5403, 0x5404, 0x5407, 0x5409, 0x540b, 0x540c, 0x540e, 0x5410, 0x5414, 0x5415, 0x541b, 0x541c, 0x541d, 0x5421, 0x5422, 0x5423, 0x5450, 0x5451, 0x4b33, 0x1261, 0x8912});
                if(r.chance(1, 4)) do k.a[1] = r.chance(1, 2) ? 0x5400 + r.below(256) : r.next() & 0xffffffff; while(k.a[1] == 0x5401 || k.a[1] == 0x5413);
                break;
            }
            default:
                if(r.chance(1, 3)) { k.name = "other ABI (arm64)"; k.arch = ARM64; k.nr = pick({220, 221, 198, 203, 435}); }
                else {
                    k.name = "other ABI (x32)";
                    k.nr = pick({SYS_clone, SYS_fork, SYS_vfork, 520 /* execve */, SYS_socket, SYS_connect, SYS_openat, SYS_open, SYS_write, SYS_mmap, SYS_mprotect}) | 0x40000000;
                    int b = k.nr & 0xffff;
                    if(b == SYS_openat) k.a[2] = write_flags(); else if(b == SYS_open) k.a[1] = write_flags(); else if(b == SYS_write) k.a[0] = bad_fd(); else if(b == SYS_mmap || b == SYS_mprotect) k.a[2] = 7;
                }
        }
        return k;
    }
    optional<string> check(const Case &c) override {
        WorldCfg w = WorldCfg::from(c);
        w.real_seccomp = true;
        w.budget = 60000000;
        u64 hs = 0;
        for(auto &l : c.parse()) if(l[0] == "hostile") hs = l.num(1);
        Result r = run_cli(w);
        string what = "`" + cmdline(w) + "': ";
        if(r.kind == K_SECCOMP) return what + r.note + " (standard output: " + w.out_type + ")";
        // order
        size_t p = 0;
        bool loaded = false;
        while(p < r.events.size()) {
            size_t q = r.events.find('\n', p);
            if(q == string::npos) q = r.events.size();
            string e = r.events.substr(p, q - p);
            p = q + 1;
            if(e == "sandbox loaded") { loaded = true; break; }
            for(auto x : {"open ", "read ", "getrandom ", "getopt", "popen", "system", "fork", "socket", "tmpfile"})
                if(e.compare(0, strlen(x), x) == 0) return what + "`" + e + "' happens before the sandbox is in force";
        }
        if(!loaded) return what + "the sandbox is never put in force";
        stat_inc("runs_in_the_sandbox");
        Rng hr(hs);
        for(int i = 0; i < 40; i++) {
            Call k = hostile(hr);
            if(filters_allow(r.blob, k.arch, k.nr, k.a))
                return strf("the sandbox admits a hostile call, %s: number %d (%#x) of architecture %#x with arguments %#lx %#lx %#lx %#lx %#lx", k.name.c_str(), k.nr & 0xffff, k.nr, k.arch, k.a[0], k.a[1], k.a[2], k.a[3], k.a[4]);
            stat_inc("hostile_calls_denied");
        }
        return {};
    }
};
REGISTER(C14);

// ---------------------------------------------------------------- C24
struct C24 : Property {
    C24() : Property("C24") {}
    u64 quick_cases() override { return 6000; }
    string rule() override {
        return "Runs of the tool of every kind, with faults of files, output and randomness, in a simulated memory of which locked and unlocked parts are known: before anything is read, drawn or written, and until the end, all present and future memory has to be locked. "
               "The same run where locking memory is refused has to do the same, byte for byte. Every case is non-trivial.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        unsigned f = G_WORDS | G_MARKOV | G_CONFIG | G_DETERMINISTIC | G_JSON | G_ENTROPY | G_LIST | G_FILESOURCE;
        if(r.chance(1, 3)) f |= G_INVALID;
        if(r.chance(1, 3)) f |= G_READFAULT;
        if(r.chance(1, 3)) f |= G_OUTFAULT;
        if(r.chance(1, 6)) f |= G_ENTFAULT;
        if(r.chance(1, 3)) f |= G_BIG | G_SPLIT;
        gen_cli(r, c, f);
        const char *e[] = {"ENOMEM", "EPERM", "EAGAIN"};
        c.addw({"mlockfault", e[r.below(3)]});
        return c;
    }
    optional<string> check(const Case &c) override {
        WorldCfg w = WorldCfg::from(c), v = w;
        w.want_lock = true;
        w.mlock_errno = 0;
        w.budget = v.budget = 60000000;
        if(!v.mlock_errno) v.mlock_errno = EPERM;
        Result r = run_cli(w);
        string what = "`" + cmdline(w) + "': ";
        // a run that fails tells about itself without locking anything any more
        size_t p = r.events.find("not locked: ");
        if(p != string::npos) return what + "memory is not locked at: " + r.events.substr(p + 12, r.events.find('\n', p) - p - 12);
        Result s = run_cli(v);
        if((r.kind == K_HANG) != (s.kind == K_HANG) && std::min(r.steps, s.steps) > w.budget / 2) { note_trivial(); return {}; }
        if(r.kind != s.kind || r.code != s.code) return what + "ends with " + r.brief() + ", and where locking memory is refused with " + s.brief();
        if(r.out != s.out) return what + "where locking memory is refused, the output is " + show(s.out) + " instead of " + show(r.out);
        stat_inc("runs_locked");
        return {};
    }
};
REGISTER(C24);
