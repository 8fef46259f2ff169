// C05, C08, C09, C12, C13, C17, C18, C19: whole runs of the tool and histories of library calls.
#include "props.h"
#include <cstdlib>
#include <cerrno>

static bool is_option(const string &a, const char *sh, const char *lg) { return a == sh || a == lg || a.compare(0, strlen(lg) + 1, string(lg) + "=") == 0; }

// decoded strings of JSON output, nullopt with a reason if it is not exactly what is documented
optional<string> json_outputs(const string &out, bool entropy, vector<vector<u32>> &v) {
    if(out.size() < 2 || out.back() != '\n') return string("does not end in a newline");
    string body = out.substr(0, out.size() - 1), why;
    auto j = parse_json(body, &why);
    if(!j) return "is not valid JSON (" + why + ")";
    if(j->kind != Json::ARR) return string("is not an array");
    for(auto &o : j->arr) {
        if(o.kind != Json::OBJ) return string("holds something else than objects");
        const Json *s = o.get("output");
        if(!s || s->kind != Json::STR) return string("holds an object without output");
        if(o.obj.size() != (entropy ? 2 : 1)) return strf("holds an object of %zu members", o.obj.size());
        const Json *e = o.get("entropy");
        if(entropy && (!e || (e->kind != Json::NUM && e->kind != Json::NUL))) return string("holds an object without entropy");
        v.push_back(s->str);
    }
    return {};
}
// does standard output hold exactly what the model expects
optional<string> output_mismatch(const CliModel &m, const Result &r) {
    if(m.help || m.version) { if(!r.out.empty()) return "unexpected output: " + show(r.out); return {}; }
    if(m.list || !m.expect_exact) return {};
    if(!m.json) {
        if(r.out == m.expect_out) return {};
        for(auto &a : m.alternatives) if(r.out == a) return {};
        size_t i = 0;
        while(i < r.out.size() && i < m.expect_out.size() && r.out[i] == m.expect_out[i]) i++;
        return strf("standard output differs at byte %zu of %zu: `%s', expected `%s'", i, m.expect_out.size(), show(r.out.substr(i > 20 ? i - 20 : 0)).c_str(), show(m.expect_out.substr(i > 20 ? i - 20 : 0)).c_str());
    }
    vector<vector<u32>> v;
    auto bad = json_outputs(r.out, m.entropy, v);
    if(bad) return "JSON output " + *bad + ": " + show(r.out);
    if(v != m.outs && m.alternatives.empty()) {
        if(v.size() != m.outs.size()) return strf("%zu objects instead of %zu", v.size(), m.outs.size());
        for(size_t i = 0; i < v.size(); i++) if(v[i] != m.outs[i]) return strf("object %zu holds `%s' instead of `%s'", i, show(utf8_enc(v[i])).c_str(), show(utf8_enc(m.outs[i])).c_str());
    }
    return {};
}
string cmdline(const WorldCfg &w) {
    string s = "passgen";
    for(auto &a : w.args) s += " '" + show(a, 60) + "'";
    return s;
}
static bool entropy_trouble(const WorldCfg &w, const CliModel &m) {
    if(!w.ent_faults.empty() || m.source_may_stop) return true;
    return false;
}
// could this run use something as source of randomness that can end
static bool file_source(const WorldCfg &w) {
    for(auto &a : w.args) if(a.find("file:") != string::npos) return true;
    for(auto &f : w.files) if(f.second.content.find("file:") != string::npos) return true;
    return false;
}

// ---------------------------------------------------------------- C05
struct C05 : Property {
    C05() : Property("C05") {}
    u64 quick_cases() override { return 9000; }
    string rule() override {
        return "Command lines with master passphrase, domain and token or an explicit deterministic source (from options and configuration files), random patterns, wordlists, amounts, split reads and writes: "
               "output byte by byte against the documented derivation computed by independent implementations of Argon2id, BLAKE2b, ChaCha20, xorshift and the drawing rules; the equivalent -m/-r forms against each other; "
               "a second run with other entropy, memory contents and time. Histories of draws, large reads, reloads and seeks on library objects against the keystream. Non-trivial: a deterministic source was used.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        if(r.chance(1, 2)) return gen_api(r);
        gen_cli(r, c, G_DETERMINISTIC | G_WORDS | G_CONFIG | G_SPLIT | G_BIG | G_JSON | (r.chance(1, 3) ? G_MARKOV : 0));
        bool det = false;
        for(auto &l : c.lines) if(l.find("xorshift") != string::npos || l.find("chacha") != string::npos || l == "arg -m" || l.find("--master") != string::npos) det = true;
        if(!det) {
            if(r.chance(1, 2)) c.addw({"arg", "-rchacha20-argon2:" + gen_word(r, true) + (r.chance(1, 2) ? ":" + gen_word(r, true) : "")});
            else {
                c.addw({"arg", "-m"});
                c.addw({"arg", r.chance(1, 10) ? "" : gen_word(r, true)});
                if(r.chance(1, 2)) { c.addw({"arg", "-d"}); c.addw({"arg", gen_word(r, true)}); }
                if(r.chance(1, 2)) { c.addw({"arg", "-t"}); c.addw({"arg", gen_word(r, true)}); }
            }
        }
        return c;
    }
    static string hexs(Rng &r, int n) { string s; for(int i = 0; i < n; i++) s += strf("%02x", (int) r.below(256)); return s; }
    static Case gen_api(Rng &r, bool fresh = false) {
        Case c;
        gen_world(r, c);
        c.add("api");
        int n = 1 + r.below(3);
        vector<bool> chacha(n);
        auto open = [&](int i) {
            const char *mode = r.chance(1, 2) ? "heap" : "obj";
            chacha[i] = false;
            switch(r.below(6)) {
                case 0: case 1: c.addw({"open", strf("%d", i), "chacha", hexs(r, 32), mode, hexs(r, 8)}); chacha[i] = true; break;
                case 2: c.addw({"open", strf("%d", i), "argon", gen_word(r, true), mode, r.chance(1, 2) ? "-" : gen_word(r, true), r.chance(1, 2) ? "-" : gen_word(r, true)}); chacha[i] = true; break;
                case 3: c.addw({"open", strf("%d", i), "xorshift", strf("%lu", r.next()), mode}); break;
                case 4: c.addw({"open", strf("%d", i), "desc", "xorshift:" + strf("%lu", r.next() % 1000000000000ull), mode}); break;
                default: {
                    string k;
                    u64 len = r.pick({0, 1, 16, 31, 32});
                    for(u64 j = 0; j < len; j++) k += (char) ('a' + r.below(26));
                    string d = "chacha20:" + k;
                    if(r.chance(1, 2)) { d += ":"; u64 vl = r.pick({0, 1, 7, 8, 9, 20}); for(u64 j = 0; j < vl; j++) d += (char) ('a' + r.below(26)); }
                    c.addw({"open", strf("%d", i), "desc", d, mode});
                    chacha[i] = true;
                }
            }
        };
        for(int i = 0; i < n; i++) open(i);
        int ops = 4 + r.below(40);
        for(int k = 0; k < ops; k++) {
            int i = r.below(n);
            switch(r.below(fresh ? 9 : 12)) {
                case 0: case 1: case 2: c.add("draw %d %lu", i, r.pick({1, 8, 16, 32, 64})); break;
                case 3: case 4: { u64 w = r.pick({8, 16, 32, 64}); u64 m = 1 + r.below(r.chance(1, 2) ? 200 : ~0ull >> (64 - w)); if(w < 64) m &= (1ull << w) - 1; if(!m) m = 1; c.add("max %d %lu %lu %lu", i, w, m, 1 + r.below(r.chance(1, 5) ? 300 : 4)); break; }
                case 5: case 6: c.add("read %d %lu", i, r.chance(1, 3) ? r.size(1100) : r.below(60)); break;
                case 7: c.add("read %d %lu", i, r.pick({1023, 1024, 1025, 1087, 1088, 2048, 3000, 4097, r.size(20000)})); break;
                case 8: if(r.chance(1, 3)) { c.add("close %d", i); open(i); break; } c.add("draw %d 8", i); c.add("reload %d", i); break;
                default:
                    if(chacha[i]) c.add("seek %d %lu", i, r.chance(1, 3) ? r.below(200) : r.chance(1, 2) ? r.pick({0, 1, 63, 64, 65, 1023, 1024, 1025, 1 << 20, (1ull << 32) - 1, 1ull << 32, (1ull << 38) - 32, 1ull << 38, 1ull << 40}) : r.below(1ull << 36));
                    else c.add("draw %d 64", i);
            }
        }
        return c;
    }
    optional<string> check(const Case &c) override {
        for(auto &l : c.lines) if(l == "api") return check_api(c);
        WorldCfg w = WorldCfg::from(c);
        CliModel m = model_cli(w);
        if(!m.known || m.random_desc.empty() || m.random_desc == "system" || m.code || m.list || m.help) { note_trivial(); return {}; }
        if(m.random_desc.compare(0, 5, "file:") == 0) note_trivial();
        Result r = run_cli(w);
        if(m.source_may_stop && !r.ok_status()) return {};
        if(r.kind == K_HANG) {
            // a Markov chain can follow a circle for ever when the source repeats itself
            bool repeats = m.random_desc == "zero" || m.random_desc.compare(0, 8, "xorshift") == 0 || m.random_desc.compare(0, 5, "file:") == 0, chain = false;
            for(auto &a : w.args) if(a.find("\\m") != string::npos) chain = true;
            for(auto &f : w.files) if(f.second.content.find("\\m") != string::npos) chain = true;
            if(repeats && chain) { note_trivial(); return {}; }
        }
        if(!r.ok_status()) return "`" + cmdline(w) + "' with a deterministic source: " + r.brief() + " " + show(r.err + r.out);
        auto bad = output_mismatch(m, r);
        if(bad) return "`" + cmdline(w) + "' (source " + show(m.random_desc) + "): " + *bad;
        stat_inc("outputs_compared", m.amount);
        if(m.random_desc == "zero" || m.random_desc.compare(0, 5, "file:") == 0) return {};
        // another machine, another time
        WorldCfg w2 = w;
        w2.ent.seed += 17;
        w2.heap_seed += 3; w2.stack_seed += 5; w2.clock += 1000000; w2.pid += 11; w2.addr_shift += 1;
        Result r2 = run_cli(w2);
        if(r2.out != r.out || r2.code != r.code || r2.kind != r.kind) return "`" + cmdline(w) + "' gives a different result in another environment: " + show(r.out) + " and " + show(r2.out);
        // the other way to write the same thing
        WorldCfg w3 = w;
        w3.args.clear();
        string pass, domain, token;
        bool have = false, plain = true;
        for(size_t i = 0; i < w.args.size(); i++) {
            const string &a = w.args[i];
            if(is_option(a, "-r", "--random") || a.compare(0, 2, "-r") == 0 || a == "--") plain = false;
            const char *names[][2] = {{"-m", "--master"}, {"-d", "--domain"}, {"-t", "--token"}};
            bool taken = false;
            for(int k = 0; k < 3 && !taken; k++) {
                string v;
                if(a == names[k][0] || a == names[k][1]) { if(i + 1 < w.args.size()) v = w.args[++i]; taken = true; }
                else if(a.compare(0, strlen(names[k][1]) + 1, string(names[k][1]) + "=") == 0) { v = a.substr(strlen(names[k][1]) + 1); taken = true; }
                else if(a.compare(0, 2, names[k][0]) == 0) { v = a.substr(2); taken = true; }
                if(taken) { if(k == 0) { pass = v; have = true; } else if(k == 1) domain = v; else token = v; }
            }
            if(!taken) {
                w3.args.push_back(a);
                // options with an argument in the next word
                for(auto o : {"-a", "--amount", "-p", "--preset", "-P", "--define-preset", "-w", "--wordlist", "-M", "--markov-length", "-D", "--depth"})
                    if(a == o && i + 1 < w.args.size()) { w3.args.push_back(w.args[++i]); break; }
            }
        }
        if(have && plain && (pass + domain + token).find(':') == string::npos) {
            w3.args.insert(w3.args.begin(), "--random=chacha20-argon2:" + pass + ":" + domain + ":" + token);
            Result r3 = run_cli(w3);
            if(r3.out != r.out || r3.kind != r.kind || r3.code != r.code) return "`" + cmdline(w) + "' and `" + cmdline(w3) + "' give different results: " + show(r.out) + " and " + show(r3.out);
            stat_inc("equivalent_forms_compared");
        }
        return {};
    }
    struct Obj { ByteSource s; u64 bstart = 0, spos = 1024, pos = 0; bool open = false, ok = true, wild = false, xor8 = false, touched = false, matched = false;
        u64 high = 0;
        u8 get() { u8 b = s.at(bstart + pos); if(++pos == 1024) reload(); return b; }
        void reload() { bstart = spos; spos += 1024; pos = 0; }
    };
    // With fresh set, only bytes that were handed out before, or that are no part of the
    // keystream at all, are an error.
    static optional<string> check_api(const Case &c, bool fresh = false) {
        WorldCfg w = WorldCfg::from(c);
        vector<Line> ops = c.parse();
        Result res = run_child(w, [&]() { exec_random_ops(ops); });
        if(fresh && res.kind != K_RETURN) { note_trivial(); return {}; }
        if(res.kind != K_RETURN) return "draws from a deterministic source: " + res.brief();
        Obj o[8];
        for(auto &rec : read_random_recs(res.blob)) {
            const Line &l = ops[rec.op];
            Obj &x = o[l.num(1) % 8];
            string what = "operation `";
            for(size_t i = 0; i < l.size(); i++) what += (i ? " " : "") + show(l[i], 40);
            what += "': ";
            if(l[0] == "open") {
                x = Obj();
                optional<ByteSource> s;
                bool sys;
                if(l[2] == "desc") s = source_of(l[3], w, sys);
                else if(l[2] == "xorshift") s = xorshift_source(l.num(3));
                else if(l[2] == "zero") s = source_of("zero", w, sys);
                else if(l[2] == "chacha") {
                    bytes k, v;
                    for(size_t i = 0; i + 1 < l[3].size(); i += 2) k.push_back(strtoul(l[3].substr(i, 2).c_str(), nullptr, 16));
                    for(size_t i = 0; i + 1 < l[5].size(); i += 2) v.push_back(strtoul(l[5].substr(i, 2).c_str(), nullptr, 16));
                    k.resize(32); v.resize(8);
                    s = chacha_source(k.data(), v.data());
                } else if(l[2] == "argon") s = argon_source(l[3], l[5] == "-" ? "" : l[5], l[6] == "-" ? "" : l[6]);
                else { note_trivial(); return {}; }
                if(rec.ok != (bool) s) return what + (rec.ok ? "an invalid source was opened" : "the source was refused");
                if(!s) continue;
                x.s = *s;
                x.open = true;
                x.xor8 = l[2] == "xorshift" || l[3].compare(0, 8, "xorshift") == 0;
                continue;
            }
            if(!x.open) continue;
            if(l[0] == "close") { x.open = false; continue; }
            // when a buffer has just been used up completely, it is open whether the next one has been fetched
            if(x.pos == 0 && x.touched && (l[0] == "reload" || (l[0] == "read" && l.num(2) >= 1024))) x.wild = true;
            if(l[0] == "seek") { x.bstart = l.num(2); x.spos = x.bstart + 1024; x.pos = 0; x.wild = false; x.touched = false; continue; }
            if(x.wild) continue;
            if(l[0] == "reload") { x.reload(); x.touched = false; continue; }
            string want;
            u64 spos0 = x.spos;
            if(l[0] == "read") {
                u64 n = std::min<u64>(l.num(2), 1 << 20);
                if(n > 1024) { for(u64 i = 0; i < n; i++) want += (char) x.s.at(x.spos + i); x.spos += x.xor8 ? (n + 7) / 8 * 8 : n; }
                else { for(u64 i = 0; i < n; i++) want += (char) x.get(); if(n) x.touched = true; }
            } else if(l[0] == "draw") {
                int wd = l.num(2);
                x.touched = true;
                if(wd == 1) want = string(1, (char) (x.get() < 128));
                else for(int i = 0; i < wd / 8; i++) want += (char) x.get();
            } else if(l[0] == "max") {
                u64 m = l.num(3), times = l.num(4) ? l.num(4) : 1, mask = m;
                for(int s = 1; s < 64; s *= 2) mask |= mask >> s;
                x.touched = true;
                for(u64 k = 0; k < times; k++) {
                    u64 v;
                    do { v = 0; for(u64 i = 0; i < l.num(2) / 8; i++) v |= (u64) x.get() << (8 * i); v &= mask; } while(v >= m);
                    want.append((char *) &v, 8);
                }
            }
            if(rec.data != want) {
                size_t i = 0;
                while(i < want.size() && i < rec.data.size() && want[i] == rec.data[i]) i++;
                if(fresh) {
                    // from here on the stream is not followed any more
                    x.open = false;
                    if(!x.matched) { note_trivial(); continue; }
                    size_t len = std::min<size_t>(8, rec.data.size() - i);
                    if(i >= rec.data.size() || len < 4) continue;
                    bool ahead = false;
                    u64 end = x.spos + 70000;
                    for(u64 p = 0; p + len <= end; p++) {
                        bool same = true;
                        for(size_t k = 0; k < len && same; k++) same = x.s.at(p + k) == (u8) rec.data[i + k];
                        if(!same) continue;
                        if(p + len <= x.high || (l[0] == "read" && want.size() > 1024 && p >= spos0 && p + len <= spos0 + i)) return what + strf("bytes %zu to %zu are those at position %lu of the keystream, which were handed out before", i, i + len - 1, p);
                        ahead = true;
                    }
                    if(!ahead) return what + strf("bytes %zu to %zu are not part of the keystream", i, i + len - 1);
                    continue;
                }
                return what + strf("byte %zu is %02x, the keystream has %02x", i, (u8) rec.data[i], (u8) want[i]);
            }
            stat_inc("keystream_bytes_compared", want.size());
            if(want.size()) x.matched = true;
            x.high = std::max(x.high, l[0] == "read" && want.size() > 1024 ? x.spos : x.bstart + x.pos);
        }
        return {};
    }
};
REGISTER(C05);
Case gen_keystream(Rng &r) { return C05::gen_api(r, true); }
optional<string> check_keystream_fresh(const Case &c) { return C05::check_api(c, true); }

// ---------------------------------------------------------------- C08
static const char *invalid_patterns[] = {"(", ")", "a{2", "[a", "\\q", "a{3,2}", "?", "\\u{110000}", "\\u{d800}", "\xff", "abc\xc3", "(a|b", "a)b", "x{", "[a-z", "\\u{12", "ab\xe2\x82"};
// some words of a list are not valid UTF-8
static void damage_words(Rng &r, Case &c) {
    auto lines = c.parse();
    for(size_t i = 0; i < lines.size(); i++) {
        Line &l = lines[i];
        if(l[0] != "file" || l.size() < 4 || l[1].compare(0, 3, "/w/") != 0 || r.chance(1, 2)) continue;
        static const char *bad[] = {"\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\x80", "\xc0\xaf"};
        int n = 1 + r.below(3);
        for(int k = 0; k < n; k++) l.w[3].insert(r.below(l.w[3].size() + 1), r.chance(1, 2) ? gen_broken_utf8(r) : bad[r.below(7)]);
        Case t;
        t.addw(l.w);
        c.lines[i] = t.lines[0];
    }
}
// a character of which the lowest byte is the one of an ASCII character
static string lookalike(Rng &r, u8 c) {
    u32 cp = r.chance(1, 3) && c > 0x20 && c < 0x7f ? 0xff00 + c - 0x20 : c + 256 * (1 + r.below(r.chance(1, 2) ? 8 : 0x200));
    if(cp >= 0xd800 && cp < 0xe000) cp += 0x1000;
    return utf8_enc({cp});
}
struct C08 : Property {
    C08() : Property("C08") {}
    u64 quick_cases() override { return 8000; }
    string rule() override {
        return "Command lines of every kind (all options, presets, configurations, wordlists, invalid ones) with standard output failing, coming short or being interrupted at any byte, once or for good, with reads and opens failing, "
               "on pipes, files, terminals: status 0 only with the complete output (that of the run without faults, and that of the model), the documented status otherwise. Non-trivial: a fault fired or the model predicts the status.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        unsigned f = G_WORDS | G_CONFIG | G_SPLIT | G_JSON | G_ENTROPY | G_INVALID | G_LIST;
        if(r.chance(1, 2)) f |= G_BIG;
        if(r.chance(1, 3)) f |= G_MARKOV;
        if(r.chance(1, 2)) f |= G_OUTFAULT;
        if(r.chance(1, 4)) f |= G_READFAULT;
        if(r.chance(1, 4)) f |= G_DETERMINISTIC;
        gen_cli(r, c, f);
        if(r.chance(1, 3)) damage_words(r, c);
        if(r.chance(1, 12)) {
            c.lines.erase(std::remove_if(c.lines.begin(), c.lines.end(), [](const string &l) { return l.compare(0, 4, "arg ") == 0; }), c.lines.end());
            string p = invalid_patterns[r.below(sizeof(invalid_patterns) / sizeof(*invalid_patterns))];
            if(r.chance(1, 2)) { PatOpts o; o.depth = 1; o.budget = 20; o.controls = false; string q = gen_pattern(r, o); if(q[0] != '-' && q.find("\\") == string::npos && p[0] != '?' && p[0] != '\\') p = q + p; }
            c.addw({"invalid", p});
            c.addw({"arg", p});
        } else if(r.chance(1, 6)) damage_pattern(r, c);
        return c;
    }
    // one slip in a pattern (the last operand)
    static void damage_pattern(Rng &r, Case &c) {
        auto lines = c.parse();
        for(size_t i = lines.size(); i-- > 0;) {
            if(lines[i][0] != "arg" || lines[i].size() < 2 || lines[i][1].empty() || lines[i][1][0] == '-') continue;
            string s = lines[i][1];
            static const char *slips[] = {"(", ")", "[", "]", "{", "}", "|", "?", "\\", "\\u{", "\\u", "\\u{00", "\\w{", "\\q", "{2,", "{3,1}", "{x}", "[b-a]", "-", "\xff", "\xc3", "\xe2\x82", "\\u{1234567}"};
            int n = r.chance(1, 4) ? 2 : 1;
            for(int k = 0; k < n; k++) {
                size_t p = r.chance(1, 3) ? s.size() : 1 + r.below(s.size());
                if(r.chance(1, 3)) {
                    // not the character that is meant, often in braces
                    if(r.chance(1, 2)) { size_t q = s.find('{', r.below(s.size())); if(q != string::npos) p = q + r.below(s.size() - q); }
                    if(r.chance(1, 3)) { s.insert(p, "\\u{61}"); p += 3 + r.below(3); }
                    if(p < s.size() && !(s[p] & 0x80)) s.replace(p, 1, lookalike(r, s[p]));
                } else
                if(r.chance(1, 4)) { if(p < s.size()) s.erase(p, 1); }
                else s.insert(p, r.chance(1, 4) ? gen_broken_utf8(r) : slips[r.below(sizeof(slips) / sizeof(*slips))]);
            }
            Case t;
            t.addw({"arg", s});
            c.lines[i] = t.lines[0];
            return;
        }
    }
    optional<string> check(const Case &c) override {
        WorldCfg w = WorldCfg::from(c);
        const string *invalid = nullptr;
        vector<Line> lines = c.parse();
        for(auto &l : lines) if(l[0] == "invalid" && w.args.size() == 1 && w.args[0] == l[1]) invalid = &w.args[0];
        CliModel m = model_cli(w);
        Result r = run_cli(w);
        bool fired = r.faults[F_WRITE_ERR] || r.faults[F_READ_ERR] || r.faults[F_OPEN] || r.faults[F_READ_EOF];
        if(!fired && !m.known) note_trivial();
        string what = "`" + cmdline(w) + "': ";
        if(invalid && !m.known && m.random_desc.empty() == false) {
            // known to be refused, whatever comes before
            bool same = false;
            for(auto p : invalid_patterns) if(*invalid == p) same = true;
            if(same && !(r.status() && r.code == 3) && !r.faults[F_WRITE_ERR]) return what + "an invalid pattern has to end with status 3: " + r.brief();
            if(r.ok_status()) return what + "an invalid pattern ends with status 0, output " + show(r.out);
            return {};
        }
        Result clean = r;
        if(w.out_fault_at != ~0ull) {
            WorldCfg w0 = w;
            w0.out_fault_at = ~0ull;
            clean = run_cli(w0);
            if(r.ok_status()) {
                if(!clean.ok_status()) return what + "status 0 although without the write fault it is " + clean.brief();
                if(r.out != clean.out) return what + strf("status 0 after a write fault, but only %zu of %zu bytes were accepted", r.out.size(), clean.out.size());
            } else if(clean.ok_status() && !r.faults[F_WRITE_ERR]) return what + "fails without a fault: " + r.brief();
            else if(clean.ok_status() && !r.status()) return what + "a write fault does not lead to a status: " + r.brief();
            if(r.faults[F_WRITE_ERR]) stat_inc("write_faults_judged");
        }
        if(!m.known) return {};
        if(entropy_trouble(w, m)) return {};
        if(!clean.status()) return what + "did not end with a status: " + clean.brief();
        if(clean.code != m.code) return what + strf("status %d, expected %d (%s)", clean.code, m.code, m.why.c_str());
        stat_inc(strf("status_%d", m.code));
        if(m.code == 0 && !m.markov) {
            auto bad = output_mismatch(m, clean);
            if(bad) return what + "status 0, but " + *bad;
        }
        if(m.code == 0 && m.markov) {
            u64 n = 0;
            if(m.json) { vector<vector<u32>> v; if(auto b = json_outputs(clean.out, m.entropy, v)) return what + *b; n = v.size(); if(n != m.amount) return what + strf("%lu of %lu sequences with status 0", n, m.amount); }
        }
        return {};
    }
};
REGISTER(C08);

// ---------------------------------------------------------------- C09
struct C09 : Property {
    C09() : Property("C09") {}
    u64 quick_cases() override { return 3600; }
    string rule() override {
        return "Command lines with patterns and wordlists holding control characters, quotes, backslashes, zero and any other code point, any amount, every kind of standard output and split writes: the exact bytes against the model "
               "of the framing; JSON by a strict parser with strings decoded and compared; and the same run with and without JSON and with zero bytes as separator against each other (also for Markov words). Non-trivial: the run succeeded.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        gen_cli(r, c, G_WORDS | G_SPLIT | G_JSON | G_ENTROPY | G_BIG | G_CONFIG | (r.chance(1, 3) ? G_MARKOV : 0) | (r.chance(1, 4) ? G_DETERMINISTIC : 0));
        if(r.chance(1, 3)) {
            // anything, directly
            string p;
            int n = 1 + r.below(12);
            for(int i = 0; i < n; i++) {
                u32 cp = r.chance(1, 2) ? r.below(128) : gen_codepoint(r, true, true);
                switch(r.below(3)) {
                    case 0: p += strf("\\u{%x}", cp); break;
                    case 1: p += cp ? escape_literal(cp) : "\\u{0}"; break;
                    default: { u32 hi = cp + r.below(40); if((cp < 128 && hi > 127) || cp == 0) hi = cp; p += strf("[\\u{%x}-\\u{%x}]{1,%lu}", cp, hi < cp ? cp : hi, 1 + r.below(5)); }
                }
            }
            c.addw({"replace", p});
        }
        if(r.chance(1, 12)) c.addw({"arg", strf("-a%lu", 100 + r.below(400))});
        return c;
    }
    static vector<string> without(const vector<string> &args) {
        vector<string> v;
        for(auto &a : args) if(a != "-j" && a != "--json" && a != "-z" && a != "--null") v.push_back(a);
        return v;
    }
    optional<string> check(const Case &c) override {
        WorldCfg w = WorldCfg::from(c);
        for(auto &l : c.parse())
            if(l[0] == "replace" && l.size() > 1) {
                // the pattern is replaced by this one
                CliModel m0 = model_cli(w);
                bool done = false;
                for(auto &a : w.args) if(!done && !m0.pattern.empty() && a == m0.pattern) { a = l[1][0] == '-' ? "x" + l[1] : l[1]; done = true; }
                if(!done) { w.args = {l[1][0] == '-' ? "x" + l[1] : l[1]}; }
            }
        CliModel m = model_cli(w);
        Result r = run_cli(w);
        if(!r.ok_status() || m.help || m.version || m.list) { note_trivial(); return {}; }
        string what = "`" + cmdline(w) + "': ";
        if(m.known && m.code == 0) { auto bad = output_mismatch(m, r); if(bad) return what + *bad; stat_inc("outputs_compared"); }
        if(m.known && (m.help || m.list || m.version)) return {};
        bool minus_j = false;
        for(auto &a : w.args) if(a == "-j" || a == "--json" || a == "-z" || a == "--null" || a == "-l") minus_j = true;
        (void) minus_j;
        if(!m.known) return {};
        // the three forms of the same run
        WorldCfg wj = w, wn = w, wz = w;
        wj.args = without(w.args); wn.args = wj.args; wz.args = wj.args;
        wj.args.insert(wj.args.begin(), "-j");
        wz.args.insert(wz.args.begin(), "-z");
        CliModel mj = model_cli(wj), mn = model_cli(wn), mz = model_cli(wz);
        if(!mj.known || !mn.known || !mz.known || mj.pattern != m.pattern || !mj.json || mn.json || !mz.null || mn.null) return {};
        Result rj = run_cli(wj), rn = run_cli(wn), rz = run_cli(wz);
        if(!rj.ok_status() || !rn.ok_status() || !rz.ok_status()) return what + "the success depends on the output format: " + rj.brief() + ", " + rn.brief() + ", " + rz.brief();
        vector<vector<u32>> v;
        if(auto bad = json_outputs(rj.out, mj.entropy, v)) return what + "JSON output " + *bad + ": " + show(rj.out, 300);
        if(v.size() != m.amount) return what + strf("%zu objects instead of %lu", v.size(), m.amount);
        string jn, jz;
        for(size_t i = 0; i < v.size(); i++) { if(i) { jn += '\n'; jz += '\0'; } string t = utf8_enc(v[i]); jn += t; jz += t; }
        if(rn.out != jn + "\n") return what + "plain output is not the sequences of the JSON output joined by newlines: " + show(rn.out) + " and " + show(rj.out);
        if(rz.out != jz + "\n") return what + "output with zero bytes is not the sequences of the JSON output joined by zero bytes: " + show(rz.out) + " and " + show(rj.out);
        stat_inc("forms_compared");
        return {};
    }
};
REGISTER(C09);

// ---------------------------------------------------------------- C12
// damages lines of a case
static void mutate(Rng &r, string &s) {
    int n = 1 + r.below(r.chance(1, 4) ? 8 : 2);
    static const char *tokens[] = {"(", ")", "[", "]", "{", "}", "|", "?", "\\", "\\u{", "\\w{", "\\m{", "\\p{", "{0}", "{1,", "-", ":", "\n", "\t", " ", "#", "random ", "preset ", "wordlist ", "xorshift:", "chacha20:",
                                   "chacha20-argon2:", "file:", "zero", "system", "4294967295", "18446744073709551616", "99999999999", "-1", "0", "\xff", "\xc3", "\xe2\x82", "\xf4\x90\x80\x80", "\xed\xa0\x80", "\xc0\x80", "%s%n", "\x7f", "\x01"};
    for(int i = 0; i < n; i++) {
        size_t p = r.below(s.size() + 1);
        switch(r.below(8)) {
            case 7: if(p < s.size() && !(s[p] & 0x80)) s.replace(p, 1, lookalike(r, s[p])); break;
            case 0: if(p < s.size()) s[p] = (char) (1 + r.below(255)); break;
            case 1: s.insert(p, tokens[r.below(sizeof(tokens) / sizeof(*tokens))]); break;
            case 2: s.insert(p, tokens[r.below(sizeof(tokens) / sizeof(*tokens))]); break;
            case 3: if(p < s.size()) s.erase(p, 1 + r.below(s.size() - p)); break;
            case 4: { if(s.size() > 2000) break; size_t q = p + r.below(s.size() - p + 1); string t = s.substr(p, q - p); u64 k = r.chance(1, 6) ? 40 : 1; for(u64 j = 0; j < k && s.size() < 4000; j++) s.insert(p, t); break; }
            case 5: s.insert(p, string(1, (char) (1 + r.below(255)))); break;
            case 6: if(r.chance(1, 3)) s.insert(p, string(r.size(3000), tokens[r.below(11)][0])); break;
        }
    }
}
static void mutate_case(Rng &r, Case &c) {
    auto lines = c.parse();
    vector<size_t> cand;
    for(size_t i = 0; i < lines.size(); i++) if(lines[i][0] == "arg" || (lines[i][0] == "file" && lines[i].size() > 3) || (lines[i][0] == "env" && r.chance(1, 10))) cand.push_back(i);
    if(cand.empty()) return;
    int n = 1 + r.below(3);
    for(int k = 0; k < n; k++) {
        size_t i = cand[r.below(cand.size())];
        Line &l = lines[i];
        size_t at = l[0] == "arg" ? 1 : l[0] == "env" ? 2 : 3;
        while(l.w.size() <= at) l.w.push_back("");
        mutate(r, l.w[at]);
        if(l[0] != "file") { size_t z; while((z = l.w[at].find('\0')) != string::npos) l.w[at][z] = 'z'; }
        else if(r.chance(1, 10)) { if(!l.w[at].empty()) l.w[at][r.below(l.w[at].size())] = 0; }
        Case t;
        t.addw(l.w);
        c.lines[i] = t.lines[0];
    }
}
struct C12 : Property {
    C12() : Property("C12") {}
    u64 quick_cases() override { return 18000; }
    string rule() override {
        return "Command lines, configuration files, environments and wordlists that are valid, slightly damaged or arbitrary bytes, of sizes around every internal limit, combined with split and failing reads, opens and writes, failing entropy and hostile "
               "previous memory contents; parsers and openers of the library called directly with the same material; deep nesting. The simulated allocator and AddressSanitizer report any access outside of live objects, double release, wild stream; crashes and failing "
               "assertions are violations. Non-trivial: every case.";
    }
    vector<Case> fixed() override {
        vector<Case> v;
        auto add = [&](const string &pat, int code) {
            Case c;
            c.add("ent prng 5");
            c.addw({"arg", pat});
            c.add("status %d", code);
            v.push_back(c);
        };
        for(int d : {10, 1022, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 20000}) {
            string p;
            for(int i = 0; i < d; i++) p += "(";
            p += "x";
            for(int i = 0; i < d; i++) p += ")";
            add(p, d <= 1023 ? 0 : d < 4095 ? 9 : 3);
            string q(d, '(');
            add(q, 3);
            add(string(d, ')'), 3);
        }
        add("\\w{}", 9);
        add("\\w", -1);
        add("\\m{}", 9);
        for(int n : {255, 256, 257, 1000, 70000}) add(string(n, 'a'), 0);
        for(int n : {31, 32, 33, 100, 1000}) { string p = "["; for(int i = 0; i < n; i++) utf8_put(p, 0x100 + 2 * i); add(p + "]", 0); string q = "("; for(int i = 0; i < n; i++) q += "a|"; add(q + "b)", 0); }
        return v;
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        if(r.chance(1, 5)) {
            gen_world(r, c);
            c.add("ent prng %lu", r.below(1000));
            PatOpts o;
            o.depth = 3;
            o.words = {r.chance(1, 2) ? "a" : boundary_name(r)};
            o.markov = {r.chance(1, 2) ? "a" : boundary_name(r)};
            string s;
            switch(r.below(4)) {
                case 0: s = gen_pattern(r, o); mutate(r, s); c.addw({"parse", s}); break;
                case 1: { s = gen_pattern(r, o); mutate(r, s); mutate(r, s); mutate(r, s); c.addw({"parse", s}); break; }
                case 2: { u64 n = r.size(600); for(u64 i = 0; i < n; i++) s += (char) (1 + r.below(255)); c.addw({"parse", s}); break; }
                default: {
                    const char *d[] = {"xorshift:", "chacha20:", "chacha20-argon2:", "file:", "zero", "system", ""};
                    s = d[r.below(7)];
                    u64 n = r.chance(1, 2) ? r.below(50) : r.pick({255, 256, 257, 300, 1023, 1024, 1025, 2000});
                    for(u64 i = 0; i < n; i++) s += r.chance(1, 12) ? ':' : (char) (1 + r.below(255));
                    c.addw({"opendesc", s});
                }
            }
            return c;
        }
        unsigned f = G_WORDS | G_MARKOV | G_CONFIG | G_DETERMINISTIC | G_SPLIT | G_JSON | G_ENTROPY | G_LIST | G_FILESOURCE | G_RAWBYTES;
        if(r.chance(1, 2)) f |= G_INVALID;
        if(r.chance(1, 4)) f |= G_OUTFAULT;
        if(r.chance(1, 4)) f |= G_READFAULT;
        if(r.chance(1, 6)) f |= G_ENTFAULT;
        if(r.chance(1, 3)) f |= G_BIG;
        gen_cli(r, c, f);
        if(r.chance(3, 4)) mutate_case(r, c);
        if(r.chance(1, 20)) c.addw({"env", r.chance(1, 2) ? "HOME" : "XDG_CONFIG_PATH", "/" + string(r.pick({100, 200, 255, 256, 300, 1023, 1024, 4096, 10000}), 'h')});
        if(r.chance(1, 25)) c.addw({"genfile", r.chance(1, 2) ? "/etc/passgen.conf" : "/home/u/.config/passgen.conf", "reg", r.chance(1, 2) ? "bytes" : "comment", strf("%lu", r.next() % 1000), strf("%lu", r.pick({10239, 10240, 10241, 20480, 50000}))});
        return c;
    }
    optional<string> check(const Case &c) override {
        WorldCfg w = WorldCfg::from(c);
        w.budget = 40000000;
        int status = -2;
        for(auto &l : c.parse()) {
            if(l[0] == "status") status = (int) l.inum(1);
            if(l[0] == "parse" || l[0] == "opendesc") return api(w, l[0] == "parse", l[1]);
        }
        Result r = run_cli(w);
        string what = "`" + cmdline(w) + "': ";
        if(auto e = memory_error(r)) return what + *e;
        bool trouble = !w.ent_faults.empty() || file_source(w);
        if(r.kind == K_ASSERT && !trouble) return what + r.brief();
        if(r.kind == K_ABORT && !trouble) return what + "aborts";
        if(r.kind == K_LOST) return what + r.brief();
        if(status >= 0 && !(r.status() && r.code == status)) return what + strf("expected status %d: ", status) + r.brief();
        return {};
    }
    optional<string> api(const WorldCfg &w, bool parse, const string &s0) {
        string s = s0.substr(0, s0.find('\0'));
        Result r = run_child(w, [&]() {
            // exact size, so that reads beyond the end are found
            char *text = (char *) sim_malloc(s.size() + 1);
            memcpy(text, s.c_str(), s.size() + 1);
            if(parse) {
                passgen_pattern p;
                passgen_error e;
                memset(&p, 0x6b, sizeof(p));
                int ret = passgen_parse(&p, &e, text);
                rec_num(ret, 4);
                if(ret) return;
                passgen_random *rnd = passgen_random_open(nullptr, nullptr);
                passgen_env env;
                passgen_env_init(&env, rnd);
                u64 n = 0;
                double ent;
                passgen_generate(&p, &env, &ent, &n, [](void *d, uint32_t) { return ++*(u64 *) d > 200000 ? 1 : 0; });
                passgen_pattern_free(&p);
                passgen_env_free(&env);
            } else {
                passgen_random o, *rnd = passgen_random_open(&o, text);
                if(!rnd) return;
                u8 tmp[3000];
                passgen_random_read(rnd, tmp, 10);
                passgen_random_read(rnd, tmp, sizeof(tmp));
                passgen_random_close(rnd);
            }
        });
        string what = (parse ? "parsing and generating `" : "opening randomness `") + show(s, 200) + "': ";
        if(auto e = memory_error(r)) return what + *e;
        if(r.kind == K_ASSERT || r.kind == K_LOST) return what + r.brief();
        if(r.kind == K_ABORT && (parse || s.compare(0, 5, "file:") != 0)) return what + "aborts";
        return {};
    }
};
REGISTER(C12);

// ---------------------------------------------------------------- C13
// the output consists of a prefix of the right one and of messages
static bool is_failed_prefix(const string &all, const string &base, const string &err) {
    string out = all;
    // a failed assertion prints where it was on standard output
    if(err.find("Assertion failed") != string::npos)
        while(out.size() > 2 && out.compare(out.size() - 2, 2, "]\n") == 0) {
            size_t q = out.rfind('\n', out.size() - 2), b = out.rfind("[0x");
            if(b == string::npos || (q != string::npos && b < q)) break;
            size_t from = q == string::npos ? 0 : q + 1, p = out.find("/", from);
            size_t lcp = 0;
            while(lcp < out.size() && lcp < base.size() && out[lcp] == base[lcp]) lcp++;
            out.resize(p != string::npos && p < b && lcp > from ? std::min(lcp, p) : from);
        }
    size_t lcp = 0;
    while(lcp < out.size() && lcp < base.size() && out[lcp] == base[lcp]) lcp++;
    for(size_t s = lcp + 1; s-- > 0;) {
        size_t p = s;
        for(;;) {
            bool diag = out.compare(p, 5, "error") == 0 || out.compare(p, 12, "\033[1;31merror") == 0 || out.compare(p, 5, "Error") == 0;
            if(!diag) break;
            size_t q = out.find('\n', p);
            if(q == string::npos) { p = out.size(); break; }
            p = q + 1;
        }
        if(out.compare(p, string::npos, "") == 0 || out.compare(p, string::npos, "\n") == 0 || out.compare(p, string::npos, "]\n") == 0) return true;
        if(lcp - s > 400) break;
    }
    return false;
}
struct C13 : Property {
    C13() : Property("C13") {}
    u64 quick_cases() override { return 700; }
    string rule() override {
        return "Command lines with configurations, presets, wordlists, Markov chains and every kind of randomness source: first without failures, counting the allocations, then with the k-th one failing, once, from there on, or together with a second one, "
               "for every k (sampled when there are more than 48): status 0 only with the identical output, otherwise standard output is a prefix of it followed by messages. Non-trivial: an allocation failed.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        if(r.chance(1, 12)) {
            // names that differ in one place
            gen_world(r, c);
            c.add("ent prng %lu", r.below(1000));
            string base;
            for(u64 n = 9 + r.below(r.chance(1, 3) ? 60 : 24); n > 0; n--) base += 'a' + (char) r.below(26);
            for(int i = 0; i < 12; i++) {
                string path = strf("/w/%d", i), name = base;
                size_t p = r.below(base.size());
                if(i == 0) {}
                else if(i < 3) name = base.substr(0, p);
                else if(i < 4) name += "x";
                else name = base.substr(0, std::min<size_t>(base.size(), (8u << i % 4) - 5 + (i > 8))) + base.substr(std::min<size_t>(base.size(), (8u << i % 4) - 4 + (i > 8)));
                if(i && name == base) continue;
                c.addw({"file", path, "reg", strf("word%d\n", i)});
                c.addw({"arg", "-w"});
                c.addw({"arg", name + ":" + path});
            }
            c.addw({"arg", string(r.chance(1, 4) ? "\\m{" : "\\w{") + base + "}"});
            c.add("failures %lu", r.next() % 1000000);
            return c;
        }
        if(r.chance(1, 10)) {
            // patterns that outgrow the first piece of a stack
            c.add("ent prng %lu", r.below(1000));
            if(r.chance(1, 3)) { c.addw({"arg", "-a"}); c.addw({"arg", "3"}); }
            c.addw({"arg", gen_wide(r)});
            c.add("failures %lu", r.next() % 1000000);
            return c;
        }
        gen_cli(r, c, G_WORDS | G_MARKOV | G_CONFIG | G_DETERMINISTIC | G_JSON | G_ENTROPY | G_FILESOURCE | (r.chance(1, 8) ? G_BIG : 0) | (r.chance(1, 6) ? G_LIST : 0) | (r.chance(1, 8) ? G_INVALID : 0));
        c.add("failures %lu", r.next() % 1000000);
        return c;
    }
    optional<string> check(const Case &c) override {
        WorldCfg w = WorldCfg::from(c);
        w.budget = 60000000;
        u64 fseed = 0;
        for(auto &l : c.parse()) if(l[0] == "failures") fseed = l.num(1);
        bool explicit_fail = !w.alloc_fail.empty() || w.alloc_fail_from != ~0ull;
        WorldCfg w0 = w;
        w0.alloc_fail.clear();
        w0.alloc_fail_from = ~0ull;
        Result base = run_cli(w0);
        if(!base.status() || base.allocs == 0) { note_trivial(); return {}; }
        if(explicit_fail) { w.budget *= 3; return one(w, base); }
        u64 n = base.allocs;
        Rng r(fseed);
        vector<u64> ks;
        if(n <= 48) for(u64 k = 1; k <= n; k++) ks.push_back(k);
        else for(int i = 0; i < 40; i++) ks.push_back(1 + r.below(i < 10 ? n / 4 + 1 : n));
        for(u64 k : ks) {
            int modes = r.chance(1, 4) ? 3 : 1 + r.below(2);
            for(int mode = 0; mode < modes; mode++) {
                WorldCfg v = w0;
                v.budget = w0.budget * 3;
                if(mode == 0) v.alloc_fail = {k};
                else if(mode == 1) v.alloc_fail_from = k;
                else { v.alloc_fail = {k, k + 1 + r.below(6)}; }
                if(auto e = one(v, base)) return strf("allocation %lu of %lu fails%s: ", k, n, mode == 0 ? "" : mode == 1 ? " and all later ones" : " and another one") + *e;
            }
        }
        return {};
    }
    optional<string> one(const WorldCfg &w, const Result &base) {
        Result r = run_cli(w);
        if(!r.faults[F_ALLOC]) return {};
        stat_inc("failures_injected");
        string what = "`" + cmdline(w) + "': ";
        if(r.kind == K_HANG) return what + "never ends";
        if(r.kind == K_ASAN) return what + r.brief();
        if(r.kind == K_VIOLATION) return what + r.note;
        if(r.kind == K_SIGNAL && r.code == 11 && r.addr >= (64u << 20)) return what + r.brief();
        if(r.ok_status()) {
            if(!base.ok_status()) return what + strf("status 0, without failures it is %d", base.code);
            if(r.out != base.out) return what + "status 0 with output `" + show(r.out) + "' instead of `" + show(base.out) + "'";
            stat_inc("failures_survived");
            return {};
        }
        stat_inc(r.status() ? "failures_reported" : "failures_crashed");
        if(!is_failed_prefix(r.out, base.out, r.err)) return what + r.brief() + " after output `" + show(r.out) + "', without failures it is `" + show(base.out) + "'";
        return {};
    }
};
REGISTER(C13);

// ---------------------------------------------------------------- C17
struct C17 : Property {
    C17() : Property("C17") {}
    u64 quick_cases() override { return 4800; }
    string rule() override {
        return "The same command line, files, variables and entropy run under different previous contents of heap and stack (zeroes, ones, repeated bytes, random), addresses, splits of reads and writes, kinds of standard output, time, process identity and unrelated "
               "files and variables: output, messages and status have to be the same. Valid, damaged and failing runs, and runs with faults at fixed offsets. Non-trivial: the run does more than print help.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        unsigned f = G_WORDS | G_MARKOV | G_CONFIG | G_DETERMINISTIC | G_JSON | G_ENTROPY | G_LIST | G_FILESOURCE;
        if(r.chance(1, 3)) f |= G_INVALID;
        if(r.chance(1, 4)) f |= G_READFAULT;
        if(r.chance(1, 3)) f |= G_BIG;
        if(r.chance(1, 5)) f |= G_OUTFAULT;
        gen_cli(r, c, f);
        if(r.chance(1, 3)) mutate_case(r, c);
        c.add("vary %lu", r.next() % 1000000);
        return c;
    }
    optional<string> check(const Case &c) override {
        WorldCfg w = WorldCfg::from(c);
        w.budget = 40000000;
        // the offset of a fault in the output depends on nothing, but a single failure depends on the splits
        if(w.out_fault_once) w.out_fault_once = false;
        u64 vs = 1;
        for(auto &l : c.parse()) if(l[0] == "vary") vs = l.num(1);
        Result a = run_cli(w);
        if(a.kind == K_HANG) {
            // goes on for long, or for ever: also with other contents of memory
            WorldCfg v = w;
            v.heap_seed = w.heap_seed % 8 == 1 ? 0 : 1;
            v.budget = w.budget / 4;
            Result b = run_cli(v);
            if(b.kind != K_HANG) return "`" + cmdline(w) + strf("' does not end within %lu basic blocks, and with other contents of memory within %lu: ", w.budget, b.steps) + b.brief();
            note_trivial();
            return {};
        }
        Rng r(vs);
        for(int k = 0; k < 3; k++) {
            WorldCfg v = w;
            string changed;
            bool mem = k == 0 || r.chance(2, 3), io = k == 1 || r.chance(1, 2), other = k == 2 || r.chance(1, 3);
            if(mem) { v.heap_seed = r.chance(1, 3) ? (w.heap_seed % 8 == 1 ? 0 : 1) : r.below(100000); v.stack_seed = 1 + r.below(100000); v.addr_shift = r.below(64); changed += " memory"; }
            if(io) {
                for(auto &f : v.files) if(r.chance(1, 2)) { f.second.chunk_seed = r.next() % 1000; f.second.chunk_max = r.pick({0, 1, 3, 64, 1000, 5000}); }
                v.out_chunk = r.pick({0, 1, 7, 100, 5000});
                v.out_chunk_seed = r.next() % 1000;
                if(w.out_fault_at == ~0ull) { const char *t[] = {"pipe", "reg", "tty", "chr"}; v.out_type = t[r.below(4)]; }
                changed += " splits";
            }
            if(other) {
                v.clock += r.below(1ull << 33); v.pid += r.below(30000);
                v.env["LANG"] = "de_DE.UTF-8"; v.env["PATH"] = "/x"; v.env["POSIXLY_INCORRECT"] = "1";
                v.env["PASSGEN_SOMETHING"] = strf("%lu", r.next());
                v.env["USER"] = "nobody";
                // whatever other variable the program asks for
                v.env_any = r.chance(3, 4);
                v.env_rest = r.pick(vector<string>{"", "0", "1", "7", "zero", "xorshift:1", "xorshift:77", "chacha20:abc", "yes", "a", "[a-z]{3}", "/etc/passgen.conf", "/home/u", "x:abc", strf("%lu", r.next())});
                v.files["/etc/unrelated"].content = "random zero\n";
                v.files["passgen.conf"].content = "random zero\n";
                changed += " surroundings";
            }
            if(other && !w.files.count("/etc/passgen.conf") && r.chance(1, 2)) {
                // an empty configuration is as good as none
                v.files["/etc/passgen.conf"].content = "";
            }
            v.budget = w.budget * 10;
            Result b = run_cli(v);
            string what = "`" + cmdline(w) + "' under different" + changed + ": ";
            if(a.kind != b.kind || a.code != b.code) return what + a.brief() + " and " + b.brief();
            if(a.kind == K_SIGNAL || a.kind == K_ASAN) continue;
            if(a.out != b.out) return what + "standard output `" + show(a.out) + "' and `" + show(b.out) + "'";
            if(a.err != b.err) return what + "messages `" + show(a.err) + "' and `" + show(b.err) + "'";
            if(a.ent_bytes != b.ent_bytes) return what + strf("%lu and %lu bytes of entropy used", a.ent_bytes, b.ent_bytes);
        }
        stat_inc("variants_compared", 3);
        if(a.out.empty()) note_trivial();
        return {};
    }
};
REGISTER(C17);

// ---------------------------------------------------------------- C18
struct C18 : Property {
    C18() : Property("C18") {}
    u64 quick_cases() override { return 20000; }
    string rule() override {
        return "Histories of insertions, replacements, removals, look-ups and traversals of up to thousands of names on the map (keys found by search so that they collide in one or both positions, in groups that fit), every answer against a reference map; "
               "and definitions of presets and wordlists spread over system configuration, user configuration and options, with redefinitions: the preset or word that is used and the listing against the model. Non-trivial: a name was redefined or removed, or the map grew.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        gen_world(r, c);
        if(r.chance(1, 2)) return gen_map(r, c);
        return gen_layers(r, c);
    }
    Case gen_map(Rng &r, Case &c) {
        u64 names = r.chance(1, 6) ? 300 + r.below(2000) : 1 + r.below(r.chance(1, 2) ? 12 : 80);
        u64 n = r.chance(1, 8) ? 2000 + r.below(3000) : 5 + r.below(200);
        c.add("map %s %lu %lu %lu %lu", r.chance(2, 3) ? "utf8" : "utf32", names, n, r.next() % 100000000, r.below(4));
        return c;
    }
    static string letters(u64 x) { string s; do { s += (char) ('a' + x % 26); x /= 26; } while(x); return s; }
    Case gen_layers(Rng &r, Case &c) {
        c.addw({"env", "HOME", "/home/u"});
        bool xdg = r.chance(1, 4);
        if(xdg) c.addw({"env", "XDG_CONFIG_PATH", "/xdg"});
        static const char *builtin[] = {"apple1", "apple2", "uuid", "edge", "firefox", "proquint16", "proquint64", "proquint128"};
        int uniq = 0;
        int names = 1 + r.below(r.chance(1, 4) ? 60 : 5), lists = r.chance(1, 2) ? 1 + r.below(4) : 0;
        for(int i = 0; i < lists * 2; i++) c.addw({"file", strf("/l/%d", i), "reg", strf("list%d\nlist%d\n", i, i)});
        auto preset_name = [&]() { return r.chance(1, 3) ? string(builtin[r.below(8)]) : "n" + letters(r.below(names)); };
        auto value = [&]() { string s = "V" + strf("%d", uniq++); if(r.chance(1, 5)) s += ":x:y"; if(r.chance(1, 5)) s += "[a]{2}"; if(r.chance(1, 8)) s = ""; return s; };
        auto list_def = [&]() { return "w" + letters(r.below(lists)) + ":" + (r.chance(1, 8) ? "/missing" : strf("/l/%d", (int) r.below(lists * 2))); };
        for(const char *path : {"/etc/passgen.conf", xdg ? "/xdg/passgen.conf" : "/home/u/.config/passgen.conf"}) {
            string s;
            int n = r.below(r.chance(1, 4) ? 40 : 6);
            for(int i = 0; i < n; i++) {
                if(lists && r.chance(1, 3)) s += "wordlist " + list_def() + "\n";
                else s += "preset " + preset_name() + ":" + value() + "\n";
            }
            c.addw({"file", path, "reg", s});
        }
        if(xdg) c.addw({"file", "/home/u/.config/passgen.conf", "reg", "preset uuid:WRONG\n"});
        int n = r.below(5);
        // the option that asks for a preset may come before its definition
        int early = r.chance(1, 4) ? r.below(n + 1) : -1;
        for(int i = 0; i < n; i++) {
            if(i == early) c.addw({"arg", "-p" + preset_name()});
            if(lists && r.chance(1, 3)) { string d = list_def(); if(d.find("missing") != string::npos) continue; c.addw({"arg", "-w"}); c.addw({"arg", d}); }
            else { c.addw({"arg", "-P"}); c.addw({"arg", preset_name() + ":" + value()}); }
        }
        u64 k = r.below(3);
        if(k == 0) c.addw({"arg", "-l"});
        else if(early >= 0 && early < n) {}
        else if(k == 1 && lists) { string p; for(int i = 0; i < lists; i++) p += strf("%s\\w{w%s}", i ? "." : "", letters(i).c_str()); c.addw({"arg", p}); }
        else c.addw({"arg", "-p" + preset_name()});
        return c;
    }
    optional<string> check(const Case &c) override {
        for(auto &l : c.parse()) if(l[0] == "map") return check_map(WorldCfg::from(c), l);
        WorldCfg w = WorldCfg::from(c);
        CliModel m = model_cli(w);
        if(!m.known) { note_trivial(); return {}; }
        Result r = run_cli(w);
        string what = "`" + cmdline(w) + "': ";
        if(m.list) {
            if(!r.ok_status()) return what + r.brief();
            // names are unique in a map, order does not matter
            map<string, string> seen;
            for(size_t p = 0; p < r.out.size();) {
                size_t q = r.out.find('\n', p);
                if(q == string::npos) return what + "the listing ends within a line";
                string line = r.out.substr(p, q - p);
                p = q + 1;
                if(line.compare(0, 7, "preset ") != 0) return what + "listing holds the line `" + show(line) + "'";
                size_t s = line.find(' ', 7);
                if(s == string::npos) return what + "listing holds the line `" + show(line) + "'";
                string name = line.substr(7, s - 7);
                if(seen.count(name)) return what + "preset `" + name + "' is listed twice";
                seen[name] = line.substr(s + 1);
            }
            for(auto &p : m.presets) {
                if(!seen.count(p.first)) return what + "preset `" + show(p.first) + "' is not listed";
                if(seen[p.first] != p.second) return what + "preset `" + show(p.first) + "' is listed as `" + show(seen[p.first]) + "', its last definition is `" + show(p.second) + "'";
            }
            if(seen.size() != m.presets.size()) return what + strf("%zu presets are listed, %zu are defined", seen.size(), m.presets.size());
            stat_inc("listings_compared");
            return {};
        }
        if(m.source_may_stop) return {};
        if(!r.status()) return what + r.brief();
        if(r.code != m.code) return what + strf("status %d instead of %d (%s), output `%s'", r.code, m.code, m.why.c_str(), show(r.out).c_str());
        if(m.code) return {};
        auto bad = output_mismatch(m, r);
        if(bad) return what + *bad;
        stat_inc("definitions_compared");
        return {};
    }
    // operations: kind, key, value
    struct Op { int k; u32 key; u64 val; };
    static vector<u32> key32(u32 i, u64 style) {
        // unique within the part that takes part in the hash
        vector<u32> v(4 + i % 5);
        v[0] = 1 + i * 7 + (style & 1 ? 0x10000 : 0);
        for(size_t j = 1; j < v.size(); j++) v[j] = 0x61 + (i >> j) % 20;
        if(v.size() == 8) v[1] = 0x100 + i;
        return v;
    }
    static string key8(u32 i, u64 style) {
        switch(style) {
            case 0: return letters(i);
            case 1: return strf("name-%u", i);
            case 2: { string s = letters(i * 77777 + 5); string t = s; for(u32 k = 0; k < i % 12; k++) t += s; return t; }
            default: return i == 0 ? string() : strf("\xc3\xa9%x", i * 2654435761u);
        }
    }
    optional<string> check_map(const WorldCfg &w, const Line &l) {
        bool utf32 = l[1] == "utf32";
        u64 names = std::min<u64>(l.num(2), 5000), n = std::min<u64>(l.num(3), 20000), style = l.num(5) % 4;
        if(!names) names = 1;
        Rng r(l.num(4));
        vector<Op> ops;
        u64 phase_len = 1 + r.below(n + 1);
        int bias = 0;
        for(u64 i = 0; i < n; i++) {
            if(i % phase_len == 0) bias = r.below(4);
            u64 k = r.below(12);
            int kind = k < (bias == 0 ? 8 : bias == 1 ? 3 : 5) ? 0 : k < (bias == 1 ? 9 : 8) ? 1 : k < 11 ? 2 : 3;
            if(kind == 3 && n > 400 && !r.chance(1, 40)) kind = 2;
            ops.push_back({kind, (u32) r.below(names), r.chance(1, 12) ? 0 : 1 + r.next() % 1000000});
        }
        Result res = run_child(w, [&]() {
            // several objects for the same key, as callers pass equal but not identical ones
            vector<const void *> k1(names), k2(names);
            for(u32 i = 0; i < names; i++) {
                for(auto *t : {&k1, &k2}) {
                    if(utf32) { auto k = key32(i, style); k.push_back(0); u32 *p = (u32 *) sim_malloc(k.size() * 4); memcpy(p, k.data(), k.size() * 4); (*t)[i] = p; }
                    else { string k = key8(i, style); char *p = (char *) sim_malloc(k.size() + 1); memcpy(p, k.c_str(), k.size() + 1); (*t)[i] = p; }
                }
            }
            passgen_hashmap m;
            memset(&m, 0x77, sizeof(m));
            passgen_hashmap_init(&m, utf32 ? &passgen_hashmap_context_utf32 : &passgen_hashmap_context_utf8);
            struct Ref { const void *key; u64 val; };
            map<u32, Ref> ref;
            map<const void *, u32> of;
            for(u32 i = 0; i < names; i++) { of[k1[i]] = i; of[k2[i]] = i; }
            bool redefined = false;
            for(u64 step = 0; step < ops.size(); step++) {
                const Op &o = ops[step];
                const void *key = (step & 1) ? k1[o.key] : k2[o.key];
                auto it = ref.find(o.key);
                if(o.k == 0) {
                    passgen_hashmap_entry prev = passgen_hashmap_insert(&m, key, (void *) o.val);
                    if(it == ref.end()) { if(prev.key || prev.value) violation("step %lu: inserting the new name %u returned a previous entry", step, o.key); }
                    else {
                        redefined = true;
                        if((u64) prev.value != it->second.val) violation("step %lu: inserting the name %u again returned the value %lu, it had %lu", step, o.key, (u64) prev.value, it->second.val);
                        if(prev.key != it->second.key) violation("step %lu: inserting the name %u again returned another key than the one it was inserted with", step, o.key);
                    }
                    ref[o.key] = {key, o.val};
                } else if(o.k == 1) {
                    passgen_hashmap_entry e = passgen_hashmap_remove(&m, key);
                    if(it == ref.end()) { if(e.key) violation("step %lu: removing the name %u, which is not there, returned an entry", step, o.key); }
                    else {
                        if((u64) e.value != it->second.val || e.key != it->second.key) violation("step %lu: removing the name %u returned the wrong entry", step, o.key);
                        ref.erase(it);
                        redefined = true;
                    }
                } else if(o.k == 2) {
                    passgen_hashmap_entry *e = passgen_hashmap_lookup(&m, key);
                    if(!e != (it == ref.end())) violation("step %lu: the name %u is %s", step, o.key, e ? "found, but not defined" : "defined, but not found");
                    if(e && (u64) e->value != it->second.val) violation("step %lu: the name %u has the value %lu, defined last as %lu", step, o.key, (u64) e->value, it->second.val);
                } else {
                    struct V { std::set<u32> seen; map<u32, Ref> *ref; map<const void *, u32> *of; } v{{}, &ref, &of};
                    passgen_hashmap_foreach(&m, &v, [](void *u, passgen_hashmap_entry *e) {
                        V *v = (V *) u;
                        auto f = v->of->find(e->key);
                        if(f == v->of->end()) violation("the traversal yields a key that was never inserted");
                        if(!v->seen.insert(f->second).second) violation("the traversal yields the name %u twice", f->second);
                        auto it = v->ref->find(f->second);
                        if(it == v->ref->end()) violation("the traversal yields the name %u, which was removed", f->second);
                        if((u64) e->value != it->second.val) violation("the traversal yields an old value of the name %u", f->second);
                        return 0;
                    });
                    if(v.seen.size() != ref.size()) violation("the traversal yields %zu of %zu names", v.seen.size(), ref.size());
                }
                if(m.len != ref.size()) violation("step %lu: the map counts %zu names, defined are %zu", step, m.len, ref.size());
            }
            // everything at the end
            for(u32 i = 0; i < names; i++) {
                passgen_hashmap_entry *e = passgen_hashmap_lookup(&m, k1[i]);
                auto it = ref.find(i);
                if(!e != (it == ref.end())) violation("in the end the name %u is %s", i, e ? "found, but not defined" : "defined, but not found");
                if(e && (u64) e->value != it->second.val) violation("in the end the name %u has the value %lu, defined last as %lu", i, (u64) e->value, it->second.val);
            }
            passgen_hashmap_free(&m);
            rec_num(redefined, 1);
        });
        if(res.kind != K_RETURN) return strf("map with %s keys, %lu names, %lu operations: ", l[1].c_str(), names, n) + res.brief();
        if(!Reader(res.blob).num(1)) note_trivial();
        stat_inc("map_operations", n);
        return {};
    }
};
REGISTER(C18);

// ---------------------------------------------------------------- C19
struct C19 : Property {
    C19() : Property("C19") {}
    u64 quick_cases() override { return 12000; }
    string rule() override {
        return "Runs of the tool and library calls on degenerate inputs (empty and huge wordlists, zero weights, reversed and huge repetitions, empty groups and sets, deep nesting, many names, colliding keys within the supported range, garbage) with interrupted, "
               "split and failing input and output: the number of basic blocks executed against a budget computed from the sizes of inputs and outputs. Non-trivial: every case that ends.";
    }
    vector<Case> fixed() override {
        vector<Case> v;
        for(const char *p : {"a{0}", "(){100000}", "((){1000}){100}", "[]{1000}", "(|){1000}", "a{0,0}", "(a{0}|b){50}", "\\w{x}", "\\m{x}", "a{99999,3}", "a{18446744073709551615}", "a{4294967296}", "a{99999999999999999999}", "({0}a)", "({0}a|{0}b)",
                             "([]|[]|[])?{10}", "\\u{}", "\\w", "[z-a]", "a{,}", "a{}", "a{1,}", "a{,5}"})
            for(int list = 0; list < 2; list++) {
                Case c;
                c.add("ent prng 9");
                if(list) { c.addw({"file", "/w", "reg", ""}); c.addw({"arg", "-w"}); c.addw({"arg", "x:/w"}); }
                c.addw({"arg", p});
                c.add("patlen");
                v.push_back(c);
            }
        return v;
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        // sources that fail or end, used by the tool and through the library
        if(r.chance(1, 6)) for(auto p : property_list()) if(p->id == "C02") return p->gen(r.next(), thorough);
        if(r.chance(1, 4)) {
            // many names
            gen_world(r, c);
            c.addw({"env", "HOME", "/home/u"});
            string s;
            int n = r.below(r.chance(1, 3) ? 4000 : 300), style = r.below(4);
            for(int i = 0; i < n; i++) {
                string name = style == 0 ? strf("%d", i) : style == 1 ? string(i % 700, 'a') : style == 2 ? strf("name%08x", (int) (i * 2654435761u)) : gen_word(r, true);
                size_t z;
                while((z = name.find(':')) != string::npos || (z = name.find('\n')) != string::npos) name[z] = 'c';
                s += (r.chance(1, 6) ? "wordlist " : "preset ") + name + ":x\n";
                if(s.size() > 300000) break;
            }
            c.addw({"file", "/etc/passgen.conf", "reg", s});
            c.addw({"arg", r.chance(1, 2) ? "-l" : "abc"});
            return c;
        }
        unsigned f = G_WORDS | G_MARKOV | G_CONFIG | G_SPLIT | G_JSON | G_ENTROPY | G_INVALID | G_LIST | G_BIG;
        if(r.chance(1, 3)) f |= G_OUTFAULT;
        if(r.chance(1, 3)) f |= G_READFAULT;
        if(r.chance(1, 3)) f |= G_ENTFAULT;
        if(r.chance(1, 3)) f |= G_DETERMINISTIC;
        gen_cli(r, c, f);
        if(r.chance(1, 8)) {
            // degenerate lists
            const char *contents[] = {"", "\n", "\n\n\n\n", "a", "\0\0", "\n\na\n\n", "\xff\n", " \n"};
            c.addw({"file", "/w/a", "reg", contents[r.below(8)]});
        }
        return c;
    }
    static optional<string> check_ops(const Case &c) {
        WorldCfg w = WorldCfg::from(c);
        auto ops = c.parse();
        double budget = 1000000;
        for(auto &l : ops) {
            // a source that is interrupted for ever may be asked for ever
            if(l[0] == "readfault" && (l[3] == "EINTR" || l[3] == "EAGAIN") && l[4] != "once") { note_trivial(); return {}; }
            budget += 20000;
            if(l[0] == "read") budget += 1000 * (1 + l.num(2) / 64);
        }
        w.budget = (u64) budget;
        Result r = run_child(w, [&]() { exec_random_ops(ops); });
        if(r.kind == K_HANG) return strf("operations on sources of randomness have not ended after %.0f basic blocks: ", budget) + r.brief();
        stat_inc("bounded_histories");
        if(r.steps > budget / 2) stat_inc("used_over_half_of_the_budget");
        return {};
    }
    optional<string> check(const Case &c) override {
        bool ops = false;
        for(auto &l : c.lines) { if(l.compare(0, 5, "open ") == 0) ops = true; if(l == "cli") { ops = false; break; } }
        if(ops) return check_ops(c);
        WorldCfg w = WorldCfg::from(c);
        for(auto &f : w.files) if(f.second.fault_at != ~0ull && (f.second.fault_errno == EINTR || f.second.fault_errno == EAGAIN) && !f.second.fault_once) { for(auto &l : c.lines) if(l == "cli") { note_trivial(); return {}; } }
        CliModel m = model_cli(w);
        // sizes of what comes in
        double in = 2000, names = 0;
        for(auto &f : w.files) { in += f.second.content.size(); for(char ch : f.second.content) if(ch == '\n') names++; }
        for(auto &a : w.args) in += a.size();
        double budget = 300000 + in * 600;
        // Markov chains: every character of every list is added along a path of the length of the chain
        double chars = 0, draws = 0;
        if(m.parsed) {
            model_size(m.group, m.words, chars, draws);
            budget += m.amount * (chars * 400 + draws * 400 + 2000);
            for(auto &l : m.words) if(l.second.first.markov_usable) budget += in * 60 * l.second.second;
            // words of Markov chains are as long as chance makes them
            if(m.markov) budget += 20000000;
        } else if(!m.known) {
            if(m.why.find("large") == string::npos && !m.pattern.empty()) {
                // rejected, or not modelled: bounded by the largest numbers that occur
                budget += 200000000;
            } else { note_trivial(); return {}; }
        }
        if(budget > 380000000) { note_trivial(); return {}; }
        bool huge = false;
        if(!m.parsed) {
            // patterns outside of the model can ask for a large output
            u64 v = 0;
            for(char ch : m.pattern) { if(isdigit((unsigned char) ch)) v = v * 10 + ch - '0'; else v = 0; if(v > 2000) huge = true; }
            for(char ch : m.pattern) if(ch == '{') v++;
            for(auto &l : c.lines) if(l == "patlen") huge = false;
        }
        if(huge) { note_trivial(); return {}; }
        // a Markov chain can follow a circle for ever when the source repeats itself
        bool chain = false, repeats = m.random_desc == "zero" || m.random_desc.compare(0, 8, "xorshift") == 0;
        for(auto &a : w.args) { if(a.find("\\m") != string::npos) chain = true; if(a.find("xorshift") != string::npos || a.find("zero") != string::npos) repeats = true; }
        for(auto &f : w.files) { if(f.second.content.find("\\m") != string::npos) chain = true; if(f.second.content.find("xorshift") != string::npos || f.second.content.find("zero") != string::npos) repeats = true; }
        if(chain) { if(w.ent.kind != "prng") { w.ent.kind = "prng"; w.ent.code = 0; } if(repeats) { note_trivial(); return {}; } }
        w.budget = (u64) budget;
        Result r = run_cli(w);
        if(r.kind == K_HANG) return "`" + cmdline(w) + strf("' has not ended after %.0f basic blocks, with %.0f bytes of input and at most %.0f characters of output", budget, in, chars * m.amount);
        if(r.kind == K_SIGNAL && r.code == 11) return "`" + cmdline(w) + "': " + r.brief();
        stat_inc("bounded_runs");
        double pct = 100.0 * r.steps / budget;
        if(pct > 50) stat_inc("used_over_half_of_the_budget");
        return {};
    }
    vector<std::pair<string, bool>> known() override {
        // keys in UTF-32 that agree in the first quarter of their characters
        WorldCfg w;
        w.budget = 3000000;
        w.mem_limit = 64u << 20;
        Result r = run_child(w, [&]() {
            passgen_hashmap m;
            passgen_hashmap_init(&m, &passgen_hashmap_context_utf32);
            static u32 keys[4][9];
            for(u32 i = 0; i < 3; i++) { for(u32 j = 0; j < 8; j++) keys[i][j] = 'a'; keys[i][7] = 'a' + i; keys[i][8] = 0; passgen_hashmap_insert(&m, keys[i], (void *) 1); }
            passgen_hashmap_free(&m);
        });
        return {{"utf32-keys", r.kind != K_RETURN}};
    }
};
REGISTER(C19);
