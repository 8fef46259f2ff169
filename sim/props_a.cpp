// C01, C02, C03: randomness objects.
#include "props.h"

// In a world of kind prov, the bytes of a source are digits of their position. Three runs
// with different digits identify every byte that was handed out.
static Case with_digit(const Case &c, int k) {
    Case d = c;
    for(auto &l : d.lines) {
        size_t p = l.find(" prov ");
        if(p != string::npos) {
            size_t q = l.find(' ', p + 6);
            l = l.substr(0, p + 6) + strf("%d", k) + (q == string::npos ? "" : l.substr(q));
        }
    }
    return d;
}
struct Origin { bool ok = false; string error; };

// check the provenance of all bytes recorded in the three runs
static optional<string> provenance(const Case &c, const Result r[3], const vector<Line> &ops) {
    vector<RandRec> a[3];
    for(int k = 0; k < 3; k++) a[k] = read_random_recs(r[k].blob);
    for(int k = 1; k < 3; k++) {
        if(r[k].kind != r[0].kind || a[k].size() != a[0].size()) return string("the course of the operations depends on the values of the random bytes: ") + r[0].brief() + " / " + r[k].brief();
    }
    map<string, vector<bool>> used;      // by source
    map<u64, string> source;              // of each object
    map<u64, vector<std::pair<u64, u64>>> ranges;
    map<u64, u64> lo;
    u64 bytes_seen = 0;
    auto limit_of = [&](const string &s) {
        u64 lim = 12000000;
        for(auto &o : ops) {
            if(s.compare(0, o[1].size() + 1, o[1] + "#") != 0 && s.compare(0, o[1].size() + 6, "file:" + o[1] + "#") != 0) continue;
            if(o[0] == "readfault" && o[4] != "once") lim = std::min(lim, o.num(2));
            if(o[0] == "genfile") lim = std::min(lim, o.num(5));
        }
        return lim;
    };
    map<string, u64> limits;
    for(size_t i = 0; i < a[0].size(); i++) {
        const RandRec &x = a[0][i];
        const Line &l = ops[x.op];
        u64 id = l.num(1) % 8;
        if(l[0] == "open") {
            if(!x.ok) continue;
            string s = l[2] == "system" || l[2] == "default" || l[3] == "system" ? "system" : strf("%s#%u", l[3].c_str(), x.op);
            source[id] = s;
            ranges[id].clear();
        }
        if(x.ent1 > x.ent0) ranges[id].push_back({x.ent0, x.ent1});
        const string &s = source[id];
        for(int k = 1; k < 3; k++) if(a[k][i].data.size() != x.data.size() || a[k][i].ok != x.ok) return string("the runs differ");
        if(l[0] != "read" && l[0] != "draw") continue;
        if(l[0] == "draw" && l.num(2) == 1) continue;
        if(!limits.count(s)) limits[s] = limit_of(s);
        u64 lim = limits[s];
        auto &us = used[s];
        for(size_t b = 0; b < x.data.size(); b++) {
            u64 pos = (u8) a[0][i].data[b] | (u64) (u8) a[1][i].data[b] << 8 | (u64) (u8) a[2][i].data[b] << 16;
            bytes_seen++;
            string where = strf("byte %zu handed out by operation %u (%s %s %s)", b, x.op, l[0].c_str(), l[1].c_str(), l[2].c_str());
            if(s == "system") {
                bool in = false;
                for(auto &g : ranges[id]) if(pos >= g.first && pos < g.second) in = true;
                if(!in) return where + strf(" was not delivered to this object by its source (it decodes to position %lu)", pos);
            } else {
                if(pos >= lim) return where + strf(" was never delivered by the file (position %lu)", pos);
            }
            if(us.size() <= pos) us.resize(pos + 65536);
            if(us[pos]) return where + strf(" was handed out before (position %lu of the source)", pos);
            us[pos] = true;
        }
    }
    stat_inc("bytes_traced", bytes_seen);
    if(!bytes_seen) note_trivial();
    return {};
}
static u64 draw_size(Rng &r) {
    switch(r.below(8)) {
        case 0: return r.below(9);
        case 1: return 1020 + r.below(8);
        case 2: return 1024 + r.below(6);
        case 3: return r.pick({0, 1, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 5000, 10000});
        case 4: return 100 + r.below(900);
        case 5: return r.below(64);
        default: return 1 + r.below(300);
    }
}
static void gen_ops(Rng &r, Case &c, const vector<vector<string>> &opens, int n, bool faults) {
    for(auto &o : opens) c.addw(o);
    for(int i = 0; i < n; i++) {
        u64 k = r.below(opens.size());
        switch(r.below(14)) {
            case 0: case 1: case 2: case 3: c.add("read %lu %lu", k, draw_size(r)); break;
            case 4: c.add("draw %lu 8", k); break;
            case 5: c.add("draw %lu 16", k); break;
            case 6: c.add("draw %lu 32", k); break;
            case 7: case 8: c.add("draw %lu 64", k); break;
            case 9: { u64 m = 1 + r.below(40); for(u64 j = 0; j < m; j++) c.add("draw %lu %lu", k, r.pick({1, 8, 16, 32, 64, 64, 64})); break; }
            case 10: c.add("read %lu %lu", k, 1024 - r.below(12)); c.add("draw %lu %lu", k, r.pick({16, 32, 64})); break;
            case 11: if(r.chance(1, 3)) c.add("reload %lu", k); else c.add("draw %lu 1", k); break;
            case 12: if(r.chance(1, 4)) { c.add("close %lu", k); c.addw(opens[k]); } else c.add("read %lu %lu", k, r.below(5)); break;
            case 13: c.add("read %lu %lu", k, draw_size(r) + (r.chance(1, 6) ? r.below(20000) : 0)); break;
        }
    }
    (void) faults;
    for(size_t k = 0; k < opens.size(); k++) if(r.chance(3, 4)) c.add("close %lu", (u64) k);
}
static vector<vector<string>> gen_opens(Rng &r, Case &c, bool faults) {
    vector<vector<string>> v;
    int n = 1 + r.below(3);
    for(int i = 0; i < n; i++) {
        string how = r.chance(1, 3) ? "obj" : "heap", id = strf("%d", i);
        switch(r.below(6)) {
            case 0: case 1: v.push_back({"open", id, "system", "-", how}); break;
            case 2: v.push_back({"open", id, r.chance(1, 2) ? "default" : "desc", "system", how}); break;
            default: {
                string p = strf("/dev/src%d", i);
                bool dev = r.chance(2, 3);
                if(dev) c.addw({"dev", p, "prov", "0"});
                else c.addw({"genfile", p, r.chance(1, 2) ? "reg" : "pipe", "prov", "0", strf("%lu", faults ? r.pick({0, 1, 1023, 1024, 1025, 2048, 5000, 40000}) : 300000)});
                if(r.chance(1, 2)) c.addw({"readplan", p, strf("%lu", r.below(1000)), strf("%lu", r.pick({1, 3, 100, 1000, 1024, 4000}))});
                if(faults && r.chance(5, 6))
                    c.addw({"readfault", p, strf("%lu", r.pick({0, 1, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, r.below(12000), 1024 + r.below(4000), 1024 + r.below(4000)})), r.chance(1, 2) ? "EOF" : r.chance(1, 2) ? "EIO" : "EINTR", r.chance(1, 2) ? "once" : "always"});
                u64 t = r.below(3);
                v.push_back({"open", id, t == 0 ? "path" : t == 1 ? "file" : "desc", t == 2 ? "file:" + p : p, how});
            }
        }
    }
    return v;
}
static Result run_ops(const Case &c) {
    auto ops = c.parse();
    WorldCfg w = WorldCfg::from(c);
    w.budget = 3000000;
    return run_child(w, [&]() { exec_random_ops(ops); });
}

// ---------------------------------------------------------------- C01
struct C01 : Property {
    C01() : Property("C01") {}
    u64 quick_cases() override { return 3200; }
    string rule() override {
        return "A case is a sequence of opens, draws (1 bit to tens of kilobytes), reloads and closes on one to three randomness objects over the system source, devices, pipes and files with split reads. "
               "Every source delivers bytes that spell their own position; three runs identify each byte handed out. Bytes drawn from the built-in generators must not be ones of their keystream that were handed out before. Non-trivial: at least one byte was traced.";
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        if(r.chance(1, 4)) return gen_keystream(r);
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        c.add("ent prov 0");
        auto opens = gen_opens(r, c, false);
        gen_ops(r, c, opens, 2 + r.below(thorough ? 120 : 40), false);
        return c;
    }
    optional<string> check(const Case &c) override {
        for(auto &l : c.lines) if(l == "api") return check_keystream_fresh(c);
        Result r[3];
        for(int k = 0; k < 3; k++) {
            r[k] = run_ops(with_digit(c, k));
            if(r[k].kind == K_NONE || r[k].kind == K_LOST) return r[k].brief();
        }
        // crashes are the business of other properties, what was handed out before counts
        return provenance(c, r, c.parse());
    }
};
REGISTER(C01);

// ---------------------------------------------------------------- C02
struct C02 : Property {
    C02() : Property("C02") {}
    u64 quick_cases() override { return 8000; }
    string rule() override {
        return "Operations as in C01, and invocations of the tool, while the source fails: short deliveries, errors, EINTR, zero-length results of getrandom at any call, error / end of file (transient or "
               "permanent) at any offset of devices, pipes and files, files that are too short. Every byte handed out or printed must be one that was delivered, and no two the same. Non-trivial: a fault was injected.";
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        bool cli = r.chance(1, 3);
        c.add(cli ? "ent word 0" : "ent prov 0");
        static const char *kinds[] = {"short", "short", "eintr", "zero", "eio", "eagain", "enosys", "efault"};
        int nf = 1 + r.below(3);
        for(int i = 0; i < nf; i++)
            c.add("entfault %lu %s %lu", r.chance(3, 4) ? 1 + r.below(4) : r.below(1 + r.below(thorough ? 20 : 9)), kinds[r.below(8)], r.pick({0, 1, 7, 8, 255, 256, 512, 1016, 1023, r.below(1024)}));
        if(r.chance(1, 8)) c.add("entfault %lu %s+ %lu", r.below(4), kinds[r.pick({1, 4, 6, 7})], r.pick({1, 255, 1000}));
        if(r.chance(1, 12)) { u64 from = r.below(4); for(u64 i = from; i < from + 30; i++) c.add("entfault %lu eintr 0", i); }
        if(!cli) {
            auto opens = gen_opens(r, c, true);
            gen_ops(r, c, opens, 2 + r.below(thorough ? 80 : 30), true);
            return c;
        }
        c.add("cli");
        c.addw({"env", "HOME", "/home/u"});
        string desc = "system";
        if(r.chance(1, 2)) {
            string p = "/dev/src";
            if(r.chance(1, 2)) c.addw({"dev", p, "word", "0"});
            else c.addw({"genfile", p, r.chance(1, 2) ? "reg" : "pipe", "word", "0", strf("%lu", r.pick({0, 100, 1024, 2000, 2048, 4096, 6000, 20000}))});
            if(r.chance(1, 2)) c.addw({"readplan", p, strf("%lu", r.below(1000)), strf("%lu", r.pick({1, 3, 100, 1000, 1024, 4000}))});
            if(r.chance(5, 6)) c.addw({"readfault", p, strf("%lu", r.pick({0, 1, 1023, 1024, 1025, r.below(4000)})), r.chance(1, 2) ? "EOF" : "EIO", r.chance(1, 2) ? "once" : "always"});
            desc = "file:" + p;
        }
        if(desc != "system" && r.chance(1, 4)) c.addw({"file", "/home/u/.config/passgen.conf", "reg", "random " + desc + "\n"});
        else if(desc != "system" || r.chance(1, 3)) { c.addw({"arg", "-r"}); c.addw({"arg", desc}); }
        u64 len = r.pick({1, 10, 100, 127, 128, 129, 200});
        if(r.chance(1, 3)) { c.addw({"arg", "-a"}); c.addw({"arg", strf("%lu", 1 + r.below(6))}); }
        if(r.chance(1, 5)) c.addw({"arg", "-j"});
        c.addw({"arg", strf("[\\u{10000}-\\u{10fffe}]{%lu}", len)});
        return c;
    }
    optional<string> check(const Case &c) override {
        auto ops = c.parse();
        bool cli = false, file = false;
        for(auto &l : ops) { if(l[0] == "cli") cli = true; if(l[0] == "dev" || l[0] == "genfile") file = true; }
        Result r[3];
        for(int k = 0; k < (cli ? 1 : 3); k++) {
            Case d = with_digit(c, k);
            WorldCfg wd = WorldCfg::from(d);
            wd.budget = 5000000;
            r[k] = cli ? run_cli(wd) : run_ops(d);
            if(r[k].kind == K_LOST) return r[k].brief();
        }
        u64 f = r[0].faults[F_ENT_SHORT] + r[0].faults[F_ENT_ERR] + r[0].faults[F_READ_ERR] + r[0].faults[F_READ_EOF] + r[0].faults[F_OPEN];
        if(!f) note_trivial();
        if(!cli) return provenance(c, r, ops);
        // every character printed is the lowest 20 bits of a value drawn from the source, which spells its position
        vector<u32> all, t;
        if(!utf8_dec(r[0].out, all)) return string("the output is not UTF-8: ") + show(r[0].out);
        for(u32 cp : all) if(cp >= 0x10000 && cp <= 0x10fffe) t.push_back(cp - 0x10000);
        u64 delivered = 0;
        if(file) {
            delivered = 32768;
            for(auto &l : ops) {
                if(l[0] == "genfile") delivered = std::min(delivered, l.num(5));
                if(l[0] == "readfault" && l[4] != "once") delivered = std::min(delivered, l.num(2));
            }
        }
        delivered = std::max(delivered, std::min<u64>(r[0].ent_bytes, 32768));
        Stream st;
        st.kind = "word";
        map<u32, u64> avail;
        for(u64 p = 0; p + 3 <= delivered; p++) avail[(st.at(p) | st.at(p + 1) << 8 | st.at(p + 2) << 16) & 0xfffff]++;
        for(size_t i = 0; i < t.size(); i++) {
            auto it = avail.find(t[i]);
            if(it == avail.end()) return strf("character %zu printed (%s) comes from bytes that the source did not deliver (value %#x, %lu bytes delivered)", i, r[0].brief().c_str(), t[i], delivered);
            if(!it->second) return strf("character %zu printed (%s) comes from random bytes that were used before (value %#x)", i, r[0].brief().c_str(), t[i]);
            it->second--;
        }
        // a run that says it succeeded has printed what was asked for
        u64 amount = 1, len = 0;
        for(size_t i = 0; i < ops.size(); i++) if(ops[i][0] == "arg") {
            if(ops[i][1] == "-h") amount = 0;
            if(ops[i][1] == "-a" && i + 1 < ops.size()) amount = ops[i + 1].num(1);
            size_t b = ops[i][1].find("fe}]{");
            if(b != string::npos) b += 3;
            if(b != string::npos) len = strtoull(ops[i][1].c_str() + b + 2, nullptr, 10);
        }
        if(r[0].ok_status() && t.size() != amount * len) return strf("exit status 0, but %zu characters were printed instead of %lu", t.size(), amount * len);
        stat_inc("characters_traced", t.size());
        return {};
    }
};
REGISTER(C02);

// ---------------------------------------------------------------- C03
struct C03 : Property {
    C03() : Property("C03") {}
    u64 quick_cases() override { return 10000; }
    string rule() override {
        return "Bounded and full draws of every width with maxima near powers of two, small and large ones: exact comparison with rejection of masked little-endian values on hostile streams; "
               "exact equidistribution over all 256 / 65536 source values for 8 and 16 bits; chi-square over 64 strata for all widths. Every case is non-trivial.";
    }
    static u64 gen_max(Rng &r, int w) {
        u64 top = w == 64 ? ~0ull : (1ull << w) - 1;
        u64 m;
        switch(r.below(6)) {
            case 0: m = 1 + r.below(10); break;
            case 1: { u64 k = r.below(w); m = (1ull << k) + r.below(5) - 2; break; }
            case 2: m = top - r.below(4); break;
            case 3: { u64 k = 1 + r.below(w - 1); m = (1ull << k) + (1ull << (k - 1)); break; }
            case 4: m = 1 + r.next() % top; break;
            default: { u64 k = 1 + r.below(w); m = 1 + (r.next() & (k == 64 ? ~0ull : (1ull << k) - 1)); break; }
        }
        m &= top;
        return m ? m : 1;
    }
    Case gen(u64 seed, bool thorough) override {
        Rng r(seed);
        Case c;
        c.add("heap %lu", r.below(1000));
        c.add("stack %lu", 1 + r.below(1000));
        u64 k = r.below(10);
        if(k < 5) {
            c.add("ent %s %lu", r.chance(1, 2) ? "mix" : "prng", r.below(1000000));
            c.addw({"open", "0", "system", "-", "heap"});
            int n = 5 + r.below(60);
            for(int i = 0; i < n; i++) {
                int w = 8 << r.below(4);
                if(r.chance(1, 4)) c.add("draw 0 %lu", r.pick({1, 8, 16, 32, 64}));
                else if(r.chance(1, 10)) c.add("read 0 %lu", r.below(1024));
                else c.add("max 0 %d %lu %lu", w, gen_max(r, w), 1 + r.below(30));
            }
        } else if(k < 7) {
            // all source values exactly once
            c.add("cycle %d %lu", r.chance(3, 4) ? 8 : 16, r.next() % 1000000);
            int w = r.chance(3, 4) ? 8 : 16;
            c.lines.back() = strf("cycle %d %lu", w, r.next() % 1000000);
            if(r.chance(1, 8)) c.add("boolean");
            else c.add("bound %lu", gen_max(r, w));
        } else {
            int w = 8 << r.below(4);
            c.add("ent prng %lu", r.next() % 1000000000);
            c.add("chi %d %lu %d", w, gen_max(r, w), thorough ? 60000 : 20000);
        }
        return c;
    }
    optional<string> check(const Case &c) override {
        auto ops = c.parse();
        int width = 0;
        u64 bound = 0, seed = 0, n = 0;
        bool cyc = false, chi = false, boolean = false;
        for(auto &l : ops) {
            if(l[0] == "cycle") { cyc = true; width = l.num(1); seed = l.num(2); }
            if(l[0] == "bound") bound = l.num(1);
            if(l[0] == "boolean") boolean = true;
            if(l[0] == "chi") { chi = true; width = l.num(1); bound = l.num(2); n = l.num(3); }
        }
        if((cyc || chi) && width != 8 && width != 16 && width != 32 && width != 64) return {};
        if(!cyc && !chi) return exact(c, ops);
        if(chi && bound < 2) { boolean = bound == 1; }
        if(!boolean && !bound) return {};
        WorldCfg w = WorldCfg::from(c);
        u64 values = 1ull << (width & 31), bytes_total = 0;
        if(cyc) {
            // every value once in a random order, followed by bytes that are accepted immediately
            if(boolean) { width = 8; values = 256; }
            vector<u32> perm(values);
            for(u64 i = 0; i < values; i++) perm[i] = i;
            Rng r(seed);
            for(u64 i = values - 1; i > 0; i--) std::swap(perm[i], perm[r.below(i + 1)]);
            w.ent.kind = "script"; w.ent.code = 0;
            for(u64 i = 0; i < values; i++) for(int b = 0; b < width / 8; b++) w.ent.script.push_back(perm[i] >> (8 * b));
            bytes_total = w.ent.script.size();
            w.ent.script.resize(bytes_total + 4096, 0);
            n = values;
        }
        Result res = run_child(w, [&]() {
            passgen_random *r = passgen_random_open(nullptr, "system");
            if(!r) violation("cannot open the system source");
            for(u64 i = 0; i < n; i++) {
                u64 v = boolean ? passgen_random_bool(r) : width == 8 ? passgen_random_u8_max(r, bound) : width == 16 ? passgen_random_u16_max(r, bound)
                      : width == 32 ? passgen_random_u32_max(r, bound) : passgen_random_u64_max(r, bound);
                blob_put(&v, 8);
                // position in the source: what was delivered minus what is left in the buffer
                u64 pos = entropy_delivered() - (PASSGEN_RANDOM_BUFFER_LENGTH - r->pos);
                if(cyc && pos >= bytes_total) break;
            }
            passgen_random_free(r);
        });
        if(res.kind != K_RETURN) return "drawing: " + res.brief();
        if(boolean) bound = 2;
        Reader rd(res.blob);
        map<u64, u64> count;
        u64 total = 0;
        while(rd.more()) {
            u64 v = rd.num(8);
            if(v >= bound) return strf("a draw of %d bits below %lu returned %lu", width, bound, v);
            count[chi && bound > 64 ? (u64) ((unsigned __int128) v * 64 / bound) : v]++;
            total++;
        }
        if(cyc) {
            // the last value can be one that came from the bytes after the cycle
            u64 mn = ~0ull, mx = 0, diff = 0;
            for(u64 v = 0; v < bound; v++) { u64 k = count.count(v) ? count[v] : 0; if(v == 0) continue; mn = std::min(mn, k); mx = std::max(mx, k); }
            if(bound > 1) {
                u64 c0 = count.count(0) ? count[0] : 0;
                diff = c0 > mx ? c0 - mx : mn > c0 ? mn - c0 : 0;
                if(mn != mx || diff > 1) return strf("%s below %lu: over one cycle of all %lu source values the outcomes are not equally frequent (between %lu and %lu times)", boolean ? "boolean" : "draws", bound, values, std::min(mn, c0), std::max(mx, c0));
            }
            stat_inc("exact_cycles");
        } else if(bound > 1) {
            u64 cells = bound > 64 ? 64 : bound;
            double x2 = 0;
            for(u64 v = 0; v < cells; v++) {
                double share;
                if(bound > 64) {
                    // number of values in this stratum
                    unsigned __int128 lo = ((unsigned __int128) v * bound + 63) / 64, hi = ((unsigned __int128) (v + 1) * bound + 63) / 64;
                    share = (double) (hi - lo) / (double) bound;
                } else share = 1.0 / bound;
                double e = share * total, d = (count.count(v) ? count[v] : 0) - e;
                x2 += d * d / e;
            }
            double k = cells - 1;
            // far beyond every plausible value: about 1e-12 for one case
            double limit = k + 8 * sqrt(2 * k) + 40;
            if(x2 > limit) return strf("draws of %d bits below %lu are not uniform: chi-square %.1f for %lu draws in %lu classes (limit %.1f)", width, bound, x2, total, cells, limit);
            stat_inc("chi_square_tests");
        }
        return {};
    }
    optional<string> exact(const Case &c, const vector<Line> &ops) {
        WorldCfg w = WorldCfg::from(c);
        Result res = run_child(w, [&]() { exec_random_ops(ops); });
        if(res.kind != K_RETURN) return "drawing: " + res.brief();
        Stream st = w.ent;
        u64 pos = 0;
        for(auto &x : read_random_recs(res.blob)) {
            const Line &l = ops[x.op];
            if(l[0] == "read") pos += l.num(2);
            if(l[0] == "draw") {
                u64 n = std::max<u64>(1, l.num(2) / 8), v = 0;
                for(u64 i = 0; i < n; i++) v |= (u64) st.at(pos + i) << (8 * i);
                pos += n;
                if(l.num(2) == 1) v = !(v & 128);
                if(ld(x.data.data(), n) != v) return strf("draw of %lu bits: %#lx instead of the delivered value %#lx", l.num(2), ld(x.data.data(), n), v);
            }
            if(l[0] == "max") {
                u64 bits = l.num(2), n = bits / 8, m = l.num(3), mask = m;
                for(int s = 1; s < 64; s *= 2) mask |= mask >> s;
                for(size_t k = 0; k + 8 <= x.data.size(); k += 8) {
                    u64 got = ld(x.data.data() + k, 8), v;
                    if(got >= m) return strf("draw of %lu bits below %lu returned %lu", bits, m, got);
                    do {
                        v = 0;
                        for(u64 i = 0; i < n; i++) v |= (u64) st.at(pos + i) << (8 * i);
                        pos += n;
                        v &= mask;
                    } while(v >= m);
                    if(got != v) return strf("draw of %lu bits below %lu returned %lu, rejection sampling of the delivered values gives %lu", bits, m, got, v);
                }
            }
        }
        stat_inc("exact_histories");
        return {};
    }
};
REGISTER(C03);
