// C04, C06, C07, C10, C11: generation through the library.
#include "props.h"

// lines: pattern P | wl NAME PATH LEVEL | count N
WordEnv words_of(const WorldCfg &w, const vector<Line> &ops) {
    WordEnv env;
    for(auto &l : ops) {
        if(l[0] != "wl") continue;
        auto it = w.files.find(l[2]);
        Words wd;
        bool ok = it != w.files.end() && !it->second.open_errno;
        if(!ok) continue;
        const FileSpec &f = it->second;
        if(f.type != "dir" && !(f.fault_at <= f.content.size() && f.fault_errno)) {
            string content = f.content;
            if(f.fault_at < content.size()) content.resize(f.fault_at);
            wd = read_words(content);
        }
        env[l[1]] = {wd, l.num(3)};
    }
    return env;
}
static int collect(void *data, uint32_t cp) {
    ((vector<u32> *) data)->push_back(cp);
    return 0;
}
bool setup_env(passgen_env *env, const vector<Line> &ops, passgen_random *r) {
    passgen_env_init(env, r);
    for(auto &l : ops) {
        if(l[0] != "wl") continue;
        FILE *f = sim_file(l[2]);
        if(!f) continue;
        char *name = (char *) sim_malloc(l[1].size() + 1);
        memcpy(name, l[1].c_str(), l[1].size() + 1);
        if(passgen_env_wordlist_add(env, name, f, l.num(3))) violation("cannot add a wordlist");
    }
    return true;
}
u64 random_position(passgen_random *r) { return entropy_delivered() - (PASSGEN_RANDOM_BUFFER_LENGTH - r->pos); }
// parses the pattern and generates n sequences
void exec_generate(const string &pattern, const vector<Line> &ops, u64 n, bool entropy) {
    passgen_pattern p;
    passgen_error e;
    int ret = passgen_parse(&p, &e, pattern.c_str());
    rec_num(ret == 0, 1);
    if(ret) return;
    passgen_random *r = passgen_random_open(nullptr, "system");
    if(!r) violation("cannot open the system source");
    passgen_env env;
    setup_env(&env, ops, r);
    for(u64 i = 0; i < n; i++) {
        vector<u32> out;
        double ent = -7;
        int ret = passgen_generate(&p, &env, entropy ? &ent : nullptr, &out, collect);
        rec_num(1, 1);
        rec_num(ret, 4);
        blob_put(&ent, 8);
        rec_num(random_position(r), 8);
        rec_num(out.size(), 4);
        blob_put(out.data(), out.size() * 4);
    }
}
bool read_generate(const Result &res, vector<GenRec> &v) {
    Reader rd(res.blob);
    if(!rd.num(1)) return false;
    while(rd.more()) {
        GenRec g;
        rd.num(1);
        g.ret = (int) rd.num(4);
        u64 b = rd.num(8);
        memcpy(&g.entropy, &b, 8);
        g.used = rd.num(8);
        u64 n = rd.num(4);
        for(u64 i = 0; i < n && rd.more(); i++) g.out.push_back(rd.num(4));
        v.push_back(g);
    }
    return true;
}
string show_cps(const vector<u32> &v) { return show(utf8_enc(v)); }

static void gen_lists(Rng &r, Case &c, PatOpts &o, bool markov) {
    int n = r.below(3);
    for(int i = 0; i < n; i++) {
        string p = strf("/w/%c", 'a' + i), name = r.chance(1, 6) ? "" : strf("w%d", i);
        gen_wordlist(r, c, p, r.chance(1, 4), true);
        c.addw({"wl", name, p, strf("%lu", 1 + r.below(4))});
        o.words.push_back(name);
        if(markov) o.markov.push_back(name);
    }
}
// ---------------------------------------------------------------- C04
struct C04 : Property {
    C04() : Property("C04") {}
    u64 quick_cases() override { return 10000; }
    string rule() override {
        return "Random patterns over the whole grammar (nested weighted groups, optional items, repetitions, sets, escapes, all of Unicode, wordlists; long enough to cross the parser's buffers). "
               "Directed: the model picks the outcome of every choice (all first, all last, random), the source is scripted accordingly and the sequence has to be exactly that one. Membership: sequences from random "
               "and extreme streams have to be in the language. Odds: chi-square of thousands of sequences against the exact distribution for patterns with few outcomes. Non-trivial: the pattern leaves a choice open.";
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        PatOpts o;
        o.overlap = true;
        u64 k = r.below(10);
        if(k < 5) {
            o.depth = 1 + r.below(4);
            o.budget = r.chance(1, 5) ? 2500 : 250;
            gen_lists(r, c, o, false);
            const char *modes[] = {"min", "max", "random", "random", "edge"};
            c.add("choose %s %lu", modes[r.below(5)], r.next() % 1000000);
        } else if(k < 7) {
            o.depth = 1 + r.below(3);
            o.budget = 120;
            gen_lists(r, c, o, false);
            c.add("ent %s %lu", r.chance(1, 3) ? "mix" : r.chance(1, 3) ? "small" : "prng", r.next() % 1000000);
            c.add("count %lu", 1 + r.below(6));
        } else {
            o.small = true;
            o.depth = 1 + r.below(2);
            o.budget = 6;
            if(r.chance(1, 4)) {
                // a few words
                string s;
                int n = 2 + r.below(9);
                for(int i = 0; i < n; i++) s += strf("%c%s", (char) ('a' + r.below(4)), r.chance(1, 3) ? "\n" : "x\n");
                c.addw({"file", "/w/s", "reg", s});
                c.addw({"wl", "s", "/w/s", "2"});
                o.words.push_back("s");
            }
            c.add("ent prng %lu", r.next() % 1000000000);
            c.add("chi %d", thorough ? 30000 : 6000);
        }
        if(k < 5 && r.chance(1, 60)) {
            // more possible counts than fit in 16 bits
            u64 lo = r.pick({0, 1, 2, 1000, 65536}), n = r.pick({255, 256, 65535, 65536, 65537, 70000, 131072, 140000});
            c.addw({"pattern", strf("%s{%lu,%lu}", r.chance(1, 2) ? "a" : "(\xc3\xa9)", lo, lo + n)});
            return c;
        }
        if(k < 5 && r.chance(1, 60)) {
            // many alternatives, ranges of a set, elements or levels
            u64 n = r.pick({200, 255, 256, 257, 258, 300, 511, 513, 800});
            string p;
            switch(r.below(4)) {
                case 0:
                    for(u64 i = 0; i < n; i++) p += strf("%s%lu", i ? "|" : "", i);
                    if(r.chance(1, 2)) p = strf("x(%s){0,2}y", p.c_str());
                    break;
                case 1:
                    p = "[";
                    for(u64 i = 0; i < n; i++) p += utf8_enc({(u32) (0x4e00 + 3 * i)}) + (i % 5 == 4 ? "-" + utf8_enc({(u32) (0x4e01 + 3 * i)}) : "");
                    p += r.chance(1, 2) ? "]" : "]{1,3}";
                    break;
                case 2:
                    for(u64 i = 0; i < n; i++) p += strf("[%c-%c]?", (char) ('a' + i % 5), (char) ('f' + i % 7));
                    break;
                default:
                    for(u64 i = 0; i < n; i++) p += strf("(%c|", (char) ('a' + i % 26));
                    p += "!";
                    for(u64 i = 0; i < n; i++) p += ")";
            }
            c.addw({"pattern", p});
            return c;
        }
        c.addw({"pattern", gen_pattern(r, o)});
        return c;
    }
    optional<string> check(const Case &c) override {
        Common m(c);
        if(!m.ok) { note_trivial(); return {}; }
        const Line *choose = nullptr;
        u64 chi = 0;
        for(auto &l : m.ops) { if(l[0] == "choose") choose = &l; if(l[0] == "chi") chi = l.num(1); }
        if(chi > 100000) chi = 100000;
        if(choose) return directed(m, (*choose)[1], choose->num(2));
        if(chi) return odds(m, chi);
        Result res = run_child(m.w, [&]() { exec_generate(m.pattern, m.ops, m.count, false); });
        if(res.kind != K_RETURN) return "generating from `" + show(m.pattern) + "': " + res.brief();
        vector<GenRec> v;
        if(!read_generate(res, v)) return "the pattern `" + show(m.pattern) + "' was refused";
        for(auto &g : v) {
            if(g.ret) continue;
            if(!model_member(m.g, m.env, g.out)) return "the sequence `" + show_cps(g.out) + "' does not match the pattern `" + show(m.pattern) + "'";
        }
        stat_inc("membership_checks", v.size());
        return {};
    }
    optional<string> directed(Common &m, const string &mode, u64 seed) {
        Rng r(seed);
        Draws d;
        d.src = nullptr;
        bool choices = false;
        d.choose = [&](u64 max) {
            if(max > 1) choices = true;
            if(mode == "min") return (u64) 0;
            if(mode == "max") return max - 1;
            if(mode == "edge") return r.chance(1, 2) ? (u64) 0 : max - 1;
            return r.chance(1, 6) ? (r.chance(1, 2) ? 0 : max - 1) : r.next() % max;
        };
        GenOut want;
        bool fails = false;
        try { want = model_generate(m.g, m.env, d); }
        catch(GenFail &) { fails = true; }
        catch(MarkovUsed &) { note_trivial(); return {}; }
        if(!choices) note_trivial();
        m.w.ent.kind = "script";
        m.w.ent.code = 0;
        m.w.ent.script = d.script;
        Result res = run_child(m.w, [&]() { exec_generate(m.pattern, m.ops, 1, false); });
        if(res.kind != K_RETURN) return "generating from `" + show(m.pattern) + "': " + res.brief();
        vector<GenRec> v;
        if(!read_generate(res, v)) return "the pattern `" + show(m.pattern) + "' was refused";
        if(v.size() != 1) return string("nothing was generated");
        if(fails) {
            if(v[0].ret == 0) return "generation from `" + show(m.pattern) + "' succeeded without a usable wordlist";
            return {};
        }
        if(v[0].ret) return strf("generation from `%s' failed with %d", show(m.pattern).c_str(), v[0].ret);
        if(v[0].out != want.out)
            return "pattern `" + show(m.pattern) + "': the choices (" + mode + ") lead to `" + show_cps(want.out) + "', generated was `" + show_cps(v[0].out) + "'";
        stat_inc("directed_choices", d.ndraws);
        return {};
    }
    optional<string> odds(Common &m, u64 n) {
        map<string, double> dist;
        if(!model_distribution(m.g, m.env, 250, dist)) { note_trivial(); return {}; }
        if(dist.size() < 2) note_trivial();
        Result res = run_child(m.w, [&]() { exec_generate(m.pattern, m.ops, n, false); });
        if(res.kind != K_RETURN) return "generating from `" + show(m.pattern) + "': " + res.brief();
        vector<GenRec> v;
        if(!read_generate(res, v)) return "the pattern `" + show(m.pattern) + "' was refused";
        map<string, u64> count;
        u64 total = 0;
        for(auto &g : v) {
            if(g.ret) return strf("generation from `%s' failed with %d", show(m.pattern).c_str(), g.ret);
            string s = utf8_enc(g.out);
            if(!dist.count(s)) return "the sequence `" + show(s) + "' does not match the pattern `" + show(m.pattern) + "'";
            count[s]++;
            total++;
        }
        double x2 = 0, rest_p = 0;
        u64 rest_n = 0, cells = 0;
        for(auto &d : dist) {
            double e = d.second * total;
            if(e < 5) { rest_p += d.second; rest_n += count[d.first]; continue; }
            double diff = count[d.first] - e;
            x2 += diff * diff / e;
            cells++;
        }
        if(rest_p * total >= 5) { double e = rest_p * total, diff = rest_n - e; x2 += diff * diff / e; cells++; }
        else if(rest_n > 60) return "pattern `" + show(m.pattern) + strf("': outcomes of probability %g were generated %lu times in %lu", rest_p, rest_n, total);
        if(cells < 2) return {};
        double k = cells - 1, limit = k + 9 * sqrt(2 * k) + 45;
        if(x2 > limit) {
            string worst;
            double w = 0;
            for(auto &d : dist) { double e = d.second * total, diff = count[d.first] - e; if(e >= 5 && diff * diff / e > w) { w = diff * diff / e; worst = strf("`%s' %lu times instead of %.1f", show(d.first).c_str(), count[d.first], e); } }
            return "pattern `" + show(m.pattern) + strf("': the odds are wrong, chi-square %.1f for %lu outcomes (limit %.1f), %s in %lu", x2, cells, limit, worst.c_str(), total);
        }
        stat_inc("odds_tests");
        stat_inc("odds_sequences", total);
        return {};
    }
};
REGISTER(C04);

// ---------------------------------------------------------------- C06
struct C06 : Property {
    C06() : Property("C06") {}
    u64 quick_cases() override { return 7000; }
    string rule() override {
        return "Random patterns, wordlists and Markov chains: the value reported for every one of several sequences of a run (library, --entropy, --json) against the sum of the information of the choices "
               "on the path, computed by an independent model; the same run without entropy has to give the same sequences. Non-trivial: the entropy is not zero.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        if(r.chance(1, 3)) {
            gen_cli(r, c, G_WORDS | G_CONFIG | G_DETERMINISTIC | G_JSON | G_SPLIT);
            c.lines.push_back("arg -e");
            c.lines.push_back("cli");
            return c;
        }
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        PatOpts o;
        o.depth = 1 + r.below(4);
        o.budget = r.chance(1, 4) ? 120 : 60;
        c.add("ent %s %lu", r.chance(1, 4) ? "mix" : "prng", r.next() % 1000000);
        c.add("count %lu", 1 + r.below(5));
        gen_lists(r, c, o, false);
        if(r.chance(1, 4) && !o.words.empty()) {
            // Markov words between characters that are in no wordlist
            string p = "\xe2\x98\x83";
            int n = 1 + r.below(3);
            for(int i = 0; i < n; i++) p += "\\m{" + r.pick(o.words) + "}\xe2\x98\x83";
            if(r.chance(1, 2)) p += "[a-f]{2}x?";
            c.addw({"pattern", p});
            c.add("markov");
        } else c.addw({"pattern", gen_pattern(r, o)});
        return c;
    }
    optional<string> check(const Case &c) override {
        for(auto &l : c.lines) if(l == "cli") return check_cli(c);
        Common m(c);
        bool mk = false;
        for(auto &l : c.lines) if(l == "markov") mk = true;
        if(!m.ok) { note_trivial(); return {}; }
        Result res = run_child(m.w, [&]() { exec_generate(m.pattern, m.ops, m.count, true); });
        if(res.kind != K_RETURN) return "generating from `" + show(m.pattern) + "': " + res.brief();
        Result res2 = run_child(m.w, [&]() { exec_generate(m.pattern, m.ops, m.count, false); });
        vector<GenRec> v, v2;
        if(!read_generate(res, v)) { note_trivial(); return {}; }
        read_generate(res2, v2);
        if(v.size() != v2.size()) return string("without entropy the run is different: ") + res2.brief();
        for(size_t i = 0; i < v.size(); i++)
            if(v[i].ret != v2[i].ret || v[i].out != v2[i].out || v[i].used != v2[i].used) return "pattern `" + show(m.pattern) + "': asking for entropy changes the sequence";
        if(mk) return markov(m, v);
        Draws d;
        ByteSource src = stream_source(m.w.ent);
        d.src = &src;
        bool any = false;
        for(size_t i = 0; i < v.size(); i++) {
            GenOut want;
            try { want = model_generate(m.g, m.env, d); }
            catch(GenFail &) { break; }
            catch(MarkovUsed &) { return {}; }
            if(v[i].ret || v[i].out != want.out) break;   // the business of other properties
            if(want.bits > 900) continue;
            if(want.bits > 0) any = true;
            double got = log2(v[i].entropy);
            if(!(fabs(got - want.bits) < 1e-6 * (1 + want.bits)))
                return strf("pattern `%s': the choices of sequence %zu (`%s') are worth %.9f bits, reported were %.9f", show(m.pattern).c_str(), i, show_cps(v[i].out).c_str(), want.bits, got);
            stat_inc("values_compared");
        }
        if(!any) note_trivial();
        return {};
    }
    // bits of a word: information of each transition
    optional<string> markov(Common &m, const vector<GenRec> &v) {
        bool any = false;
        for(auto &g : v) {
            if(g.ret) continue;
            // split at the separator
            vector<vector<u32>> parts(1);
            for(u32 cp : g.out) { if(cp == 0x2603) parts.emplace_back(); else parts.back().push_back(cp); }
            double bits = 0;
            size_t k = 0;
            bool ok = true;
            for(auto &item : m.g.segs[0].items) {
                if(item.kind == PItem::CHAR && item.cp == 0x2603) { k++; continue; }
                if(item.kind != PItem::MARKOV) continue;
                auto it = m.env.find(item.name);
                if(it == m.env.end() || k >= parts.size()) { ok = false; break; }
                size_t level = it->second.second;
                auto tr = it->second.first.trans(level);
                vector<u32> ctx(level, 0), word = parts[k];
                word.push_back(0);
                for(u32 cp : word) {
                    auto t = tr.find(ctx);
                    if(t == tr.end() || !t->second.count(cp)) { ok = false; break; }
                    u64 total = 0;
                    for(auto &x : t->second) total += x.second;
                    bits += log2((double) total / t->second[cp]);
                    ctx.erase(ctx.begin());
                    ctx.push_back(cp);
                }
                if(!ok) break;
            }
            if(!ok) continue;   // wrong words are the business of C11
            // what follows the last separator
            for(auto &item : m.g.segs[0].items) {
                if(item.kind == PItem::SET) bits += item.min * log2(6);
                if(item.maybe) bits += 1;
            }
            if(bits > 900) continue;
            if(bits > 0) any = true;
            double got = log2(g.entropy);
            if(!(fabs(got - bits) < 1e-6 * (1 + bits))) return strf("pattern `%s': the choices of `%s' are worth %.9f bits, reported were %.9f", show(m.pattern).c_str(), show_cps(g.out).c_str(), bits, got);
            stat_inc("markov_values_compared");
        }
        if(!any) note_trivial();
        return {};
    }
    optional<string> check_cli(const Case &c) {
        WorldCfg w = WorldCfg::from(c), w2 = w;
        CliModel m = model_cli(w);
        if(!m.known || m.code || !m.entropy || m.help || m.version || m.list || !m.expect_exact || !m.alternatives.empty()) { note_trivial(); return {}; }
        for(auto &b : m.bits) if(b > 900) { note_trivial(); return {}; }
        Result r = run_cli(w);
        if(!r.ok_status()) return {};   // C08
        bool any = false;
        for(auto &b : m.bits) if(b > 0) any = true;
        if(!any) note_trivial();
        vector<double> got;
        double tol;
        if(m.json) {
            auto j = parse_json(r.out);
            if(!j || j->kind != Json::ARR) return {};  // C09
            for(auto &x : j->arr) {
                const Json *e = x.get("entropy");
                if(!e || e->kind != Json::NUM) return string("JSON output without the entropy that was asked for: ") + show(r.out);
                got.push_back(e->num);
            }
            tol = 2e-6;
        } else {
            size_t p = 0;
            while((p = r.err.find("entropy: ", p)) != string::npos) { got.push_back(atof(r.err.c_str() + p + 9)); p += 9; }
            tol = 0.0051;
        }
        if(got.size() != m.bits.size()) return strf("%zu sequences but %zu entropy values", m.bits.size(), got.size());
        for(size_t i = 0; i < got.size(); i++)
            if(fabs(got[i] - m.bits[i]) > tol + 1e-6 * m.bits[i]) return strf("sequence %zu: the choices are worth %.6f bits, reported were %.6f", i, m.bits[i], got[i]);
        stat_inc("cli_values_compared", got.size());
        // without -e
        vector<string> args;
        for(auto &a : w2.args) if(a != "-e" && a != "--entropy") args.push_back(a);
        w2.args = args;
        CliModel m2 = model_cli(w2);
        if(m2.known && !m2.entropy && m2.pattern == m.pattern && m2.random_desc == m.random_desc && m2.code == 0) {
            Result r2 = run_cli(w2);
            if(!m.json && r2.out != r.out) return string("asking for entropy changes the output");
        }
        return {};
    }
    vector<std::pair<string, bool>> known() override {
        // more than 1024 bits are reported as infinite
        Case c;
        c.add("ent prng 1");
        c.addw({"pattern", "[a-z]{300}"});
        Common m(c);
        Result res = run_child(m.w, [&]() { exec_generate(m.pattern, m.ops, 1, true); });
        vector<GenRec> v;
        bool bad = res.kind == K_RETURN && read_generate(res, v) && v.size() == 1 && !v[0].ret && std::isinf(v[0].entropy);
        return {{"overflow", bad}};
    }
};
REGISTER(C06);

// ---------------------------------------------------------------- C07
struct C07 : Property {
    C07() : Property("C07") {}
    u64 quick_cases() override { return 12000; }
    string rule() override {
        return "One sequence generated into buffers of the exact size asked for (guard bytes and red zones around them) for many lengths around that of the output, in the three encodings, and through a callback that "
               "refuses at the k-th character with some value; its text encoded and decoded into buffers of such lengths. Non-trivial: the sequence is not empty.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        c.add("ent prng %lu", r.next() % 1000000);
        PatOpts o;
        o.depth = 1 + r.below(3);
        o.budget = 40;
        gen_lists(r, c, o, r.chance(1, 3));
        c.addw({"pattern", gen_pattern(r, o)});
        const char *modes[] = {"refuse", "unicode", "utf8", "utf8", "json", "json", "encode", "decode"};
        string mode = modes[r.below(8)];
        // offsets relative to the length of the output
        c.add("fill %s %ld %lu", mode.c_str(), r.chance(1, 3) ? (long) r.range(-40, 3) : (long) r.range(-6, 8), r.pick({1, 2, 77, 0xffffffff, 0x80000000, 0x100, 0x10000}));
        return c;
    }
    static size_t json_len(u32 cp) {
        u8 tmp[16];
        return passgen_utf8_encode_codepoint_json(tmp, cp);
    }
    struct Refuse { vector<u32> out; u64 at; int value; passgen_random *r; u64 pos = 0; bool refused = false; };
    static int refuse_cb(void *data, uint32_t cp) {
        Refuse *f = (Refuse *) data;
        if(f->refused) violation("the callback was called again after it had refused a character");
        if(f->out.size() == f->at) {
            f->refused = true;
            f->pos = random_position(f->r);
            fault_fired(F_REFUSE);
            return f->value;
        }
        f->out.push_back(cp);
        return 0;
    }
    // text that is converted into a buffer of any length
    optional<string> check_convert(const Common &m, const string &mode, i64 delta, const vector<u32> &full, const string &enc8) {
        bool encode = mode == "encode";
        u64 need = encode ? enc8.size() : full.size();
        i64 len = (i64) need + delta;
        if(len < 0) len = (-len) % (need + 1);
        Result res = run_child(m.w, [&]() {
            if(encode) {
                u8 *out = (u8 *) sim_malloc(len);
                memset(out, 0x5c, len);
                u32 *in = (u32 *) sim_malloc(full.size() * 4);
                memcpy(in, full.data(), full.size() * 4);
                size_t out_pos = 0, in_pos = 0;
                int ret = passgen_utf8_encode(out, len, &out_pos, in, full.size(), &in_pos);
                rec_num(ret, 4); rec_num(in_pos, 8); rec_num(out_pos, 8);
                blob_put(out, len);
            } else {
                u32 *out = (u32 *) sim_malloc(len * 4), *o = out;
                u8 *widths = (u8 *) sim_malloc(len), *in = (u8 *) sim_malloc(enc8.size());
                memset(out, 0x5c, len * 4);
                memset(widths, 0x5c, len);
                memcpy(in, enc8.data(), enc8.size());
                const u8 *i = in;
                int ret = passgen_utf8_decode(&o, len, widths, &i, enc8.size());
                rec_num(ret, 4); rec_num(i - in, 8); rec_num(o - out, 8);
                blob_put(out, len * 4);
                blob_put(widths, len);
            }
        });
        string what = strf("%s with space for %ld, %lu are needed: ", encode ? "encoding" : "decoding", (long) len, need);
        if(res.kind != K_RETURN) return what + res.brief();
        Reader rd(res.blob);
        int ret = (int) rd.num(4);
        u64 in_pos = rd.num(8), out_pos = rd.num(8);
        string buf = res.blob.substr(std::min(rd.p, res.blob.size()));
        u64 in_len = encode ? full.size() : enc8.size();
        if(out_pos > (u64) len || in_pos > in_len) return what + strf("positions %lu and %lu", in_pos, out_pos);
        if((ret == 0) != (in_pos == in_len)) return what + strf("returned %d after %lu of %lu", ret, in_pos, in_len);
        if(ret < 0) return what + strf("returned %d", ret);
        stat_inc(ret ? "conversion_pieces" : "conversions_complete");
        if(encode) {
            if(ret && (u64) len >= need + 5) return what + "does not fit";
            if(buf.substr(0, out_pos) != utf8_enc(vector<u32>(full.begin(), full.begin() + in_pos))) return what + "wrong bytes";
        } else {
            if(ret && (u64) len >= need) return what + "does not fit";
            if(utf8_enc(vector<u32>(full.begin(), full.begin() + std::min<u64>(out_pos, full.size()))) != enc8.substr(0, in_pos)) return what + "the positions do not match";
            for(u64 i = 0; i < out_pos; i++) {
                if(ld(buf.data() + i * 4, 4) != full[i]) return what + strf("code point %lu is wrong", i);
                if((u8) buf[len * 4 + i] != utf8_enc({full[i]}).size()) return what + strf("the width of code point %lu is wrong", i);
            }
            for(u64 i = out_pos; i < (u64) len; i++) if((u32) ld(buf.data() + i * 4, 4) != 0x5c5c5c5c) return what + "something was written behind the text";
        }
        return {};
    }
    optional<string> check(const Case &c) override {
        Common m(c);
        const Line *fill = nullptr;
        for(auto &l : m.ops) if(l[0] == "fill") fill = &l;
        if(!fill || !m.ok) { note_trivial(); return {}; }
        string mode = (*fill)[1];
        i64 delta = fill->inum(2);
        int value = (int) fill->num(3);
        if(!value) value = 1;
        // the whole sequence
        Result base = run_child(m.w, [&]() { exec_generate(m.pattern, m.ops, 1, true); });
        if(base.kind != K_RETURN) return "generating from `" + show(m.pattern) + "': " + base.brief();
        vector<GenRec> v;
        if(!read_generate(base, v) || v.size() != 1) { note_trivial(); return {}; }
        const vector<u32> &full = v[0].out;
        bool failed = v[0].ret != 0;
        if(full.empty()) note_trivial();
        string enc8 = utf8_enc(full);
        u64 json_size = 0;
        if(mode == "json") for(u32 cp : full) json_size += json_len(cp);
        if(mode == "encode" || mode == "decode") return check_convert(m, mode, delta, full, enc8);
        u64 need = mode == "utf8" ? enc8.size() : mode == "json" ? json_size : full.size();
        i64 len = (i64) need + delta;
        if(len < 0) len = (-len) % (need + 1);
        Result res = run_child(m.w, [&]() {
            passgen_pattern p;
            passgen_error e;
            if(passgen_parse(&p, &e, m.pattern.c_str())) violation("the pattern is refused the second time");
            passgen_random *r = passgen_random_open(nullptr, "system");
            passgen_env env;
            setup_env(&env, m.ops, r);
            double ent = -7;
            if(mode == "refuse") {
                Refuse f{{}, (u64) len, value, r};
                int ret = passgen_generate(&p, &env, &ent, &f, refuse_cb);
                rec_num(ret, 4);
                rec_num(f.refused, 1);
                rec_num(f.out.size(), 4);
                blob_put(f.out.data(), f.out.size() * 4);
                if(f.refused && random_position(r) != f.pos)
                    violation("randomness was drawn after the callback refused a character (%lu bytes)", random_position(r) - f.pos);
                return;
            }
            size_t unit = mode == "unicode" ? 4 : 1;
            u8 *buf = (u8 *) sim_malloc(len * unit);
            for(i64 i = 0; i < len * (i64) unit; i++) buf[i] = 0x5c;
            u64 got = mode == "unicode" ? passgen_generate_fill_unicode(&p, &env, &ent, (uint32_t *) buf, len)
                    : mode == "utf8" ? passgen_generate_fill_utf8(&p, &env, &ent, buf, len) : passgen_generate_fill_json_utf8(&p, &env, &ent, buf, len);
            rec_num(got, 8);
            blob_put(&ent, 8);
            blob_put(buf, len * unit);
        });
        if(res.kind != K_RETURN) return strf("pattern `%s', %s with %ld for a sequence of %lu: %s", show(m.pattern).c_str(), mode.c_str(), (long) len, need, res.brief().c_str());
        Reader rd(res.blob);
        string what = strf("pattern `%s' (%s, length %ld, needed %lu): ", show(m.pattern).c_str(), mode.c_str(), (long) len, need);
        if(mode == "refuse") {
            int ret = (int) rd.num(4);
            bool refused = rd.num(1);
            u64 n = rd.num(4);
            vector<u32> out;
            for(u64 i = 0; i < n; i++) out.push_back(rd.num(4));
            for(u64 i = 0; i < n; i++) if(i >= full.size() || out[i] != full[i]) return what + "the characters before the refusal are not those of the sequence";
            if(refused && ret != value) return what + strf("the callback refused with %d, generation returned %d", value, ret);
            if(!refused && !failed && (ret || n != full.size())) return what + strf("without a refusal generation returned %d after %lu of %zu characters", ret, n, full.size());
            if(!refused && (u64) len < full.size()) return what + "characters are missing";
            stat_inc("refusals", refused);
            return {};
        }
        u64 got = rd.num(8);
        u64 eb = rd.num(8);
        double ent;
        memcpy(&ent, &eb, 8);
        string buf = res.blob.substr(std::min(rd.p, res.blob.size()));
        size_t unit = mode == "unicode" ? 4 : 1;
        if(got > (u64) len) return what + strf("reported %lu", got);
        // what is reported counts, and nothing else was touched beyond what could be needed
        if(failed) { if(got) return what + strf("reported %lu although the sequence cannot be generated", got); return {}; }
        if((u64) len >= need && got != need) return what + strf("reported %lu", got);
        if((u64) len < need && got != 0) return what + strf("reported success (%lu) for a sequence that does not fit", got);
        stat_inc(got == need ? "complete" : "refused");
        if(got) {
            string want;
            if(mode == "utf8") want = enc8;
            else if(mode == "unicode") for(u32 cp : full) want.append((char *) &cp, 4);
            if(mode == "json") {
                auto j = parse_json("\"" + buf.substr(0, got) + "\"");
                if(!j || j->kind != Json::STR || j->str != full) return what + "the buffer does not hold the JSON string of the sequence: " + show(buf.substr(0, got));
            } else if(buf.substr(0, got * unit) != want) return what + "the buffer does not hold the sequence";
            if(ent != v[0].entropy) return what + "the entropy depends on the kind of sink";
        }
        // space beyond the sequence is left alone (one character of slack while encoding)
        size_t slack = mode == "utf8" ? 4 : 0;
        if(got) for(size_t i = got * unit + slack; i < buf.size(); i++) if((u8) buf[i] != 0x5c) return what + strf("byte %zu behind the sequence was changed", i);
        return {};
    }
};
REGISTER(C07);
