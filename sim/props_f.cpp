// C25: the auxiliary programs.
#include "props.h"

struct C25 : Property {
    C25() : Property("C25") {}
    u64 quick_cases() override { return 12000; }
    string rule() override {
        return "Runs of the auxiliary programs (their real main functions) on generated wordlists, texts and arguments, valid and damaged, with reads that are split at seeded places, failing opens, reads and allocations: "
               "their reports are compared with those computed from the input, their status with whether it can be processed. Non-trivial: there is something to process.";
    }
    Case gen(u64 seed, bool thorough) override {
        (void) thorough;
        Rng r(seed);
        Case c;
        gen_world(r, c);
        switch(r.below(5)) {
            case 0: case 1: {
                c.addw({"tool", "wordlist"});
                const char *cmds[] = {"dump", "dump", "random", "random", "help", "dum", ""};
                string cmd = cmds[r.below(r.chance(1, 6) ? 7 : 4)];
                if(r.chance(1, 30)) break;
                c.addw({"arg", cmd});
                if(!r.chance(1, 20)) c.addw({"arg", r.chance(1, 20) ? "/w/missing" : "/w/a"});
                if(r.chance(1, 40)) c.addw({"arg", "more"});
                if(r.chance(1, 12)) c.addw({"file", "/w/a", "dir", ""});
                else if(r.chance(1, 6)) {
                    const char *odd[] = {"", "\n", "\n\n\n", "x", "abc\xff\n", "a\nb", "\na\n\n\nb\n"};
                    c.addw({"file", "/w/a", r.chance(1, 3) ? "pipe" : "reg", r.chance(1, 6) ? string("a\0b\n", 4) : r.chance(1, 6) ? string("ab\nc\n\0\0", 7) : odd[r.below(7)]});
                } else gen_wordlist(r, c, "/w/a", r.chance(1, 2), true);
                faults(r, c, "/w/a");
                break;
            }
            case 2: case 3: {
                c.addw({"tool", "utf8-recode"});
                // more than fits in 16 bits
                if(r.chance(1, 40)) c.addw({"genfile", "<stdin>", r.chance(1, 2) ? "pipe" : "reg", "a", "0", strf("%lu", r.pick({8192, 32767, 65535, 65536, 65537, 70000, 140000})), text(r, r.below(200))});
                else c.addw({"file", "<stdin>", r.chance(1, 2) ? "pipe" : "reg", text(r, r.chance(1, 2) ? 120 + r.below(20) : r.below(600))});
                faults(r, c, "<stdin>");
                break;
            }
            default:
                c.addw({"tool", "tokenize"});
                if(r.chance(1, 20)) break;
                PatOpts o;
                o.words = {"abc"};
                string s = r.chance(1, 2) ? gen_pattern(r, o) : text(r, r.below(60));
                for(u64 n = r.below(3); n--;) {
                    const char *escapes[] = {"\\", "\\n", "\\\\", "\\u", "\\u{", "\\u{41}", "\\u{0000FF}", "\\u{10ffff}", "\\u{1234567}", "\\u{g}", "\\q", "\\\xc3\xa9", "}", "\\e", "\\|"};
                    s.insert(r.chance(1, 2) ? s.size() : r.below(s.size() + 1), escapes[r.below(sizeof(escapes) / sizeof(*escapes))]);
                }
                string t;
                for(char ch : s) if(ch) t += ch;
                c.addw({"arg", t});
        }
        if(r.chance(1, 8)) c.add("allocfail %lu", r.below(30));
        return c;
    }
    // what the characters mean: escapes are one token, nothing follows a malformed one
    static string tokens(const vector<u32> &t) {
        string s;
        for(size_t i = 0; i < t.size(); i++) {
            u32 v = t[i];
            if(v == '\\') {
                if(++i >= t.size()) return s;
                static const char from[] = "abefnrtv\\", to[] = "\a\b\033\f\n\r\t\v\\";
                const char *at = t[i] && t[i] < 128 ? strchr(from, t[i]) : nullptr;
                if(at) v = to[at - from];
                else if(t[i] != 'u') v = t[i] | 1u << 30;
                else {
                    if(++i >= t.size() || t[i] != '{') return s;
                    v = 0;
                    for(int n = 0; ++i < t.size() && t[i] != '}'; n++) {
                        if(n == 6 || t[i] > 127 || !isxdigit(t[i])) return s;
                        v = v * 16 + (t[i] <= '9' ? t[i] - '0' : (t[i] | 32) - 'a' + 10);
                    }
                    if(i >= t.size()) return s;
                }
            }
            s += strf("Parsed token: %x\n", v);
        }
        return s;
    }
    static string text(Rng &r, u64 n) {
        string s;
        while(s.size() < n) utf8_put(s, gen_codepoint(r, true, true));
        if(r.chance(1, 8) && !s.empty()) s[r.below(s.size())] = (char) r.below(256);
        if(r.chance(1, 8)) s.insert(r.below(s.size() + 1), gen_broken_utf8(r));
        if(r.chance(1, 12)) s.resize(s.size() - std::min<u64>(s.size(), 1));
        return s;
    }
    static void faults(Rng &r, Case &c, const string &path) {
        u64 size = 6000;
        for(auto &l : c.parse()) if(l[0] == "file" && l[1] == path && l.size() > 3) size = l[3].size();
        if(r.chance(1, 2)) c.addw({"readplan", path, strf("%lu", r.next() % 100000), strf("%lu", r.pick({1, 2, 3, 7, 64, 127, 129, 4095, 4096}))});
        if(r.chance(1, 4)) c.addw({"readfault", path, strf("%lu", r.chance(1, 4) ? size : r.below(size + 1)), r.chance(1, 2) ? "EIO" : "EINTR", r.chance(1, 2) ? "once" : "always"});
        if(r.chance(1, 12) && path != "<stdin>") c.addw({"openfault", path, r.chance(1, 2) ? "ENOENT" : "EACCES"});
    }
    optional<string> check(const Case &c) override {
        string tool;
        vector<Line> ops = c.parse();
        for(auto &l : ops) if(l[0] == "tool") tool = l[1];
        if(tool.empty()) { note_trivial(); return {}; }
        WorldCfg w = WorldCfg::from(c);
        Result r = run_tool(w, tool);
        string what = "`" + tool;
        for(auto &a : w.args) what += " " + show(a);
        what += "': ";
        if(auto m = memory_error(r)) if(!failed_stop(r)) return what + *m;
        // what was not allocated stops the program or makes it fail, but never changes what it reports
        bool alloc = r.faults[F_ALLOC] != 0;
        if(alloc && !r.ok_status()) { stat_inc("stopped_by_allocation_failure"); return {}; }
        if(!r.status()) return what + "did not end with a status: " + r.brief();
        int want = 0;
        string report;
        auto path = [&](const string &p) -> const FileSpec * { auto it = w.files.find(p); return it == w.files.end() ? nullptr : &it->second; };
        if(tool == "wordlist") {
            string cmd = w.args.empty() ? "help" : w.args[0];
            if(cmd == "help") note_trivial();
            else if(cmd != "dump" && cmd != "random") want = 1;
            else if(w.args.size() != 2) want = 1;
            else {
                const FileSpec *f = path(w.args[1]);
                bool readable = f && !f->open_errno && f->type != "dir" && !(f->fault_at <= f->content.size() && f->fault_errno);
                string content = readable ? f->content : "";
                if(readable && f->fault_at < content.size()) content.resize(f->fault_at);
                while(!content.empty() && !content.back()) content.pop_back();
                if(content.find('\0') != string::npos) readable = false;
                Words wd = read_words(content);
                if(!readable || (cmd == "random" && wd.words.empty())) want = 1;
                else if(cmd == "dump") {
                    report = strf("size = %zu\ncount = %zu\n", content.size(), wd.words.size());
                    for(auto &x : wd.words) report += x + "\n";
                } else if(r.code == 0) {
                    if(w.ent.kind == "zero" || w.ent.kind == "ff") {}
                    bool found = false;
                    for(auto &x : wd.words) found |= r.out == x + "\n";
                    if(!found) return what + "`" + show(r.out) + "' is not one of the words";
                    report = r.out;
                    stat_inc("random_words");
                }
            }
        } else if(tool == "utf8-recode") {
            const FileSpec *f = path("<stdin>");
            if(!f) { note_trivial(); return {}; }
            vector<u32> cps;
            bool failing = f->fault_at <= f->content.size() && f->fault_errno;
            if(failing || !utf8_dec(f->content, cps)) want = 1;
            else if(r.code == 0) {
                // the last line tells how many there are
                string last = strf("read %zu codepoints\n", cps.size());
                if(r.out.size() < last.size() || r.out.compare(r.out.size() - last.size(), last.size(), last)) {
                    return what + strf("%zu bytes of standard input with %zu code points, reported: ", f->content.size(), cps.size()) + show(r.out);
                }
                report = r.out;
                stat_inc("recoded");
            }
        } else {
            vector<u32> cps;
            if(w.args.empty() || !utf8_dec(w.args[0], cps)) want = 1;
            else {
                string first = strf("Read %zu codepoints\n", cps.size());
                if(r.code == 0) {
                    if(r.out.compare(0, first.size(), first)) return what + "reported " + show(r.out) + ", expected " + show(first);
                    // the tokens, in order, and nothing that is taken for a token
                    string got;
                    for(size_t p = 0; p < r.out.size();) {
                        size_t e = std::min(r.out.find('\n', p), r.out.size());
                        string line = r.out.substr(p, e - p);
                        p = e + 1;
                        if(line.compare(0, 14, "Parsed token: ") == 0) got += line + "\n";
                    }
                    string expected = tokens(cps);
                    if(got != expected) return what + "the tokens are " + show(got) + ", expected " + show(expected);
                    stat_inc("tokenized");
                }
                report = r.out;
            }
        }
        if(r.code != want && !(want && r.code)) return what + strf("status %d, expected %d: ", r.code, want) + show(r.out);
        if(want == 0 && r.out != report) return what + "reported " + show(r.out) + ", expected " + show(report);
        stat_inc(want ? "refused" : "reported");
        return {};
    }
};
REGISTER(C25);
