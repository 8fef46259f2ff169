#include "gen.h"
#include <algorithm>

static bool special(u32 c) { return c < 128 && c && strchr("()[]{}|?\\", (int) c); }

u32 gen_codepoint(Rng &r, bool unicode, bool controls) {
    static const u32 tricky[] = {0x17c, 0x128, 0x129, 0x15b, 0x15d, 0x17b, 0x17d, 0x13f, 0x15c, 0x12d, 0x7c00, 0x1f428, 0x7ff, 0x800, 0xffff,
                                 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0x80, 0xa0, 0xff, 0x100, 0x2028, 0xfffd, 0x1005c, 0x10022, 0x122, 0x10a, 0x100d};
    u64 k = r.below(20);
    if(unicode && k < 3) return tricky[r.below(sizeof(tricky) / sizeof(*tricky))];
    if(unicode && k < 5) {
        u32 c = r.chance(1, 2) ? 0x80 + r.below(0x800) : 0x80 + r.below(0x10ff80);
        return c >= 0xd800 && c <= 0xdfff ? 0xe9 : c;
    }
    if(controls && k == 5) return r.pick({7, 8, 27, 12, 10, 13, 9, 11, 1, 31, 127});
    if(k < 9) { const char *p = "-_.:,!\"'/ }]#@%&*+=<>~^$`;0123456789"; return p[r.below(strlen(p))]; }
    if(k == 9) { const char *p = "|(){}[]?\\"; return p[r.below(strlen(p))]; }
    return 'a' + r.below(26) - (r.chance(1, 4) ? 32 : 0);
}
// as a literal in a pattern
string escape_literal(u32 c) {
    string s;
    switch(c) {
        case 7: return "\\a";
        case 8: return "\\b";
        case 27: return "\\e";
        case 12: return "\\f";
        case 10: return "\\n";
        case 13: return "\\r";
        case 9: return "\\t";
        case 11: return "\\v";
        case '\\': return "\\\\";
        case '?': return "[?]";
        default: break;
    }
    if(special(c)) { s = "\\"; s += (char) c; return s; }
    utf8_put(s, c);
    return s;
}
static string lit(Rng &r, u32 c, bool escapes) {
    if(c == '}' || c == ']') { if(r.chance(1, 2)) return string(1, (char) c); }
    if(escapes && !special(c) && c != ',' && c != '-' && !(c >= '0' && c <= '9') && c >= 32 && r.chance(1, 8)) {
        int w = r.below(3);
        string s = w == 0 ? strf("\\u{%x}", c) : w == 1 ? strf("\\u{%06x}", c) : strf("\\u{%X}", c);
        return s;
    }
    if(escapes && c < 32 && r.chance(1, 2)) return strf("\\u{%x}", c);
    return escape_literal(c);
}
static string set_char(u32 c) {
    string s;
    switch(c) {
        case '-': return "\\-";
        case '\\': return "\\\\";
        case ']': return "";
        case 10: return "\\n";
        default: utf8_put(s, c); return s;
    }
}
static string gen_set(Rng &r, const PatOpts &o) {
    string s = "[";
    if(!o.small && r.chance(1, 40)) return "[]";
    int n = o.small ? 1 + r.below(3) : r.chance(1, 12) ? 30 + r.below(12) : 1 + r.below(6);
    vector<std::pair<u32, u32>> used;
    for(int i = 0; i < n; i++) {
        u32 a = gen_codepoint(r, o.unicode, o.controls), b = a;
        if(r.chance(1, 2)) {
            if(a >= 'a' && a <= 'z') b = a + r.below('z' - a + 1);
            else if(a >= 'A' && a <= 'Z') b = a + r.below('Z' - a + 1);
            else if(a >= '0' && a <= '9') b = a + r.below('9' - a + 1);
            else if(!o.small && a >= 32 && a < 127) b = std::min<u32>(126, a + (u32) r.below(r.chance(1, 3) ? 4 : 127 - a));
            else if(a > 0x80 && !o.small) { b = a + (r.chance(1, 5) ? r.below(5000) : r.below(40)); if(b > 0x10ffff) b = 0x10ffff; }
            if(o.small && b > a + 3) b = a + 3;
        }
        if(a <= 0xdfff && b >= 0xd800) b = a;
        if(a == ']' || b == ']' || (a < 32 && b != a)) continue;
        bool overlap = false;
        // sets of more than 16 bits
        if(!o.small && o.unicode && r.chance(1, 60)) { a = r.pick({0x10000, 0xe000, 0x10000 + r.below(0x1000)}); b = a + r.pick({0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0x10000 + r.below(0xe0000)}); if(b > 0x10ffff) b = 0x10ffff; }
        if(o.overlap && !used.empty() && r.chance(1, 4)) {
            auto &u = r.pick(used);
            if(r.chance(1, 2)) a = b = r.chance(1, 2) ? u.second : u.first;
            else { a = u.first; b = u.second; }
        }
        else for(auto &u : used) if(a <= u.second && b >= u.first) overlap = true;
        if(overlap) continue;
        used.push_back({a, b});
        if(a == b) s += set_char(a);
        else s += (a == '-' && s.size() == 1 && r.chance(1, 2) ? "-" : set_char(a)) + "-" + set_char(b);
    }
    if(used.empty()) s += "x";
    return s + "]";
}
static string gen_alt(Rng &r, const PatOpts &o, int depth, double budget, bool top);

// mostly small ones, some whose sum does not fit in 32 bits
static u64 gen_weight(Rng &r, bool large) {
    static const u64 big[] = {4294967295ull, 4294967294ull, 4000000000ull, 3000000000ull, 2147483648ull, 2147483647ull, 1431655766ull, 65536ull};
    if(large) return big[r.below(sizeof(big) / sizeof(big[0]))];
    return 1 + r.below(r.chance(1, 10) ? 100000 : 6);
}
static string gen_group(Rng &r, const PatOpts &o, int depth, double budget) {
    string s = "(";
    int n = 1 + r.below(r.chance(1, 20) ? 40 : 4);
    int zero = o.weights && n > 1 && r.chance(1, 8) ? (int) r.below(n) : -1;
    bool large = o.weights && r.chance(1, 10);
    for(int i = 0; i < n; i++) {
        if(i) s += "|";
        string body = gen_alt(r, o, depth, budget, false);
        // never leave the whole group empty
        if(i == (zero == 0 ? 1 : 0) && body.empty()) body = "x";
        string w;
        if(i == zero) w = "{0}";
        else if(o.weights && (large ? r.chance(3, 4) : r.chance(1, 4))) w = strf("{%lu}", gen_weight(r, large));
        s += w + body;
    }
    return s + ")";
}
static string gen_item(Rng &r, const PatOpts &o, int depth, double budget, double &cost) {
    string s;
    u64 k = r.below(12);
    double unit = 1;
    bool can_modify = true;
    if(k < 2 && o.groups && depth > 0) { unit = std::max(1.0, budget / 3); s = gen_group(r, o, depth - 1, unit); }
    else if(k < 5 && o.sets) s = gen_set(r, o);
    else if(k == 5 && !o.words.empty()) { s = "\\w{" + r.pick(o.words) + "}"; unit = 12; }
    else if(k == 6 && !o.markov.empty()) { s = "\\m{" + r.pick(o.markov) + "}"; unit = 20; }
    else {
        // a run of characters, modifiers only apply to the last one of them
        int n = o.small ? 1 : r.chance(1, 4) ? 5 + r.below(6) : 1 + r.below(3);
        for(int i = 0; i < n; i++) s += lit(r, gen_codepoint(r, o.unicode, o.controls), o.escapes);
        cost = n;
    }
    cost = std::max(cost, unit);
    if(can_modify) {
        if(o.reps && r.chance(1, 4)) {
            u64 cap = std::max<u64>(1, (u64) (budget / unit));
            if(o.small && cap > 3) cap = 3;
            u64 a = r.chance(1, 10) ? 0 : 1 + r.below(std::min<u64>(cap, r.chance(1, 8) ? 40 : 5)), b = a;
            if(a > cap) a = b = cap;
            if(r.chance(1, 2)) b = a + r.below(std::min<u64>(cap - a + 1, r.chance(1, 8) ? 300 : 5));
            if(a == b && r.chance(3, 4)) s += strf("{%lu}", a); else s += strf("{%lu,%lu}", a, b);
            cost = unit * (double) b + cost;
        }
        if(o.maybe && r.chance(1, 6)) s += "?";
    }
    return s;
}
static string gen_alt(Rng &r, const PatOpts &o, int depth, double budget, bool top) {
    string s;
    if(!top && r.chance(1, 10)) return s;
    int n = 1 + r.below(o.small ? 2 : 4);
    for(int i = 0; i < n && budget > 0; i++) {
        double cost = 0;
        s += gen_item(r, o, depth, budget / 2, cost);
        budget -= cost;
    }
    return s;
}
string gen_wide(Rng &r) {
    int n = r.chance(1, 4) ? r.pick({64, 65, 97, 129}) : 31 + (int) r.below(5);
    string s;
    switch(r.below(4)) {
        case 0:
            for(int i = 0; i < n; i++) s += (i ? "|" : "") + string(1, (char) ('a' + r.below(26))) + (r.chance(1, 3) ? "x" : "");
            return r.chance(1, 2) ? "(" + s + "){3}" : s;
        case 1:
            for(int i = 0; i < n; i++) s += string(1, (char) ('a' + r.below(26))) + (r.chance(1, 3) ? "?" : r.chance(1, 2) ? "{1,2}" : "[0-9]");
            return s;
        case 2:
            for(int i = 0; i < n; i++) { u32 cp = 0x4e00 + 5 * i; utf8_put(s, cp); if(r.chance(1, 3)) { s += "-"; utf8_put(s, cp + 2); } }
            return "[" + s + "]{4}";
        default:
            if(n > 80) n = 80;
            for(int i = 0; i < n; i++) s += r.chance(1, 4) ? "(b|" : r.chance(1, 4) ? "c(" : "(";
            s += "a";
            for(int i = 0; i < n; i++) s += r.chance(1, 6) ? "|d)" : ")";
            return s;
    }
}
string gen_pattern(Rng &r, const PatOpts &o) {
    string s;
    int n = o.groups && r.chance(1, 4) ? 2 + r.below(3) : 1;
    for(int i = 0; i < n; i++) {
        if(i) s += "|";
        if(n > 1 && o.weights && r.chance(1, 4)) s += strf("{%lu}", gen_weight(r, r.chance(1, 8)));
        s += gen_alt(r, o, o.depth, o.budget, true);
    }
    // patterns that are longer than the internal buffer of the parser
    if(!o.small && o.budget >= 200 && r.chance(1, 12)) {
        u64 target = r.pick({250, 256, 257, 300, 512, 513, 700});
        string t;
        while(t.size() < target) { double c = 0; t += gen_item(r, o, 1, 4, c); }
        s = r.chance(1, 2) ? t + s : s + t;
    }
    return s;
}

string gen_word(Rng &r, bool unicode) {
    string s;
    int n = r.chance(1, 30) ? 100 + r.below(100) : 1 + r.below(9);
    bool narrow = r.chance(1, 2);
    for(int i = 0; i < n; i++) {
        u32 c;
        if(narrow) c = 'a' + r.below(3);
        else if(unicode && r.chance(1, 6)) c = gen_codepoint(r, true, false);
        else c = r.chance(1, 20) ? '\'' : 'a' + r.below(26);
        utf8_put(s, c);
    }
    return s;
}
// bytes around the borders of what is valid UTF-8 (mostly they are not)
string gen_broken_utf8(Rng &r) {
    static const u8 leads[] = {0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xfe, 0xff};
    static const u8 rest[] = {0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf};
    string s(1, (char) leads[r.below(sizeof(leads))]);
    for(u64 n = r.below(5); n--;) s += (char) (r.chance(1, 8) ? leads[r.below(sizeof(leads))] : rest[1 + r.below(sizeof(rest) - 1)]);
    if(r.chance(1, 6)) s += (char) rest[0];
    return s;
}
// passphrases and the like, of sizes around those of blocks and tables
string gen_secret(Rng &r, bool unicode) {
    if(!r.chance(1, 3)) return gen_word(r, unicode);
    string s;
    size_t n = r.pick({15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 136, 255, 256, 257, 1000, 1100});
    while(s.size() < n) s += (char) (r.chance(1, 10) ? " :%=;-_./"[r.below(9)] : r.chance(1, 20) ? 1 + r.below(126) : 'a' + r.below(26));
    return s;
}
void gen_wordlist(Rng &r, Case &c, const string &path, bool big, bool unicode) {
    string type = r.chance(1, 4) ? "pipe" : "reg";
    u64 k = r.below(big ? 8 : 6);
    if(k >= 6) {
        // many words, around the limits of the tables
        u64 n = r.chance(1, 25) ? r.pick({16384, 16385, 65535, 65536, 65537, 70000}) : r.pick({255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2049});
        c.addw({"genfile", path, type, r.chance(1, 2) ? "short" : "words", strf("%lu", r.next() % 100000), strf("%lu", n), r.chance(1, 3) ? "last" : ""});
        return;
    }
    string s;
    if(k == 5) {
        // files of a size around that of the buffers
        u64 target = r.pick({1023, 1024, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 16384});
        while(s.size() < target) s += gen_word(r, unicode) + "\n";
        s.resize(target);
        while(!s.empty() && (s.back() & 0x80)) s.back() = 'x';
        vector<u32> tmp;
        if(!utf8_dec(s, tmp)) { s.assign(target, 'y'); for(size_t i = 6; i < target; i += 7) s[i] = '\n'; }
        if(r.chance(1, 2)) s.back() = '\n';
    } else {
        int n = 1 + r.below(r.chance(1, 4) ? 40 : 8);
        // white space, control characters and byte order marks are nothing special
        bool odd = r.chance(1, 4);
        if(odd && r.chance(1, 6)) s += "\xef\xbb\xbf";
        for(int i = 0; i < n; i++) {
            if(r.chance(1, 10)) s += "\n";
            string word = gen_word(r, unicode);
            if(odd && r.chance(1, 2)) {
                static const char *special[] = {" ", "\r", "\t", "\v", "\f", "\x01", "\x7f", "\x1b", "\\", "\"", "#", "#", "//", ";", "--", "-", "=", "'", "(", "[", "!", "~", "1", "0", "A", "\\n", ":", ",", "%s", "{", "}", "|", "\xc2\xa0", "\xc2\x85", "\xe2\x80\xa8", "\xef\xbb\xbf", "\xef\xbf\xbd", "\xef\xbf\xbf", "\xf4\x8f\xbf\xbf"};
                string t;
                do t += r.chance(1, 3) ? " " : special[r.below(sizeof(special) / sizeof(*special))]; while(t.size() < 6 && r.chance(2, 5));
                if(r.chance(1, 12)) word.clear();
                if(r.chance(1, 3)) word = t + word;
                else if(r.chance(1, 2)) word += t;
                else { vector<u32> cps; utf8_dec(word, cps); cps.resize(cps.size() / 2); string head = utf8_enc(cps); word = head + t + word.substr(head.size()); }
            }
            s += word;
            if(i + 1 < n || r.chance(2, 3)) s += "\n";
            if(r.chance(1, 12)) s += "\n\n";
        }
    }
    if(r.chance(1, 25)) s += string(1 + r.below(3), '\0');
    c.addw({"file", path, type, s});
}

void gen_world(Rng &r, Case &c) {
    c.add("heap %lu", r.below(1000));
    c.add("stack %lu", 1 + r.below(1000));
    vector<string> w = {"ent"};
    Stream s;
    u64 k = r.below(6);
    s.kind = k == 0 ? "mix" : k == 1 ? "small" : "prng";
    s.seed = r.next() % 1000000;
    s.describe(w);
    c.addw(w);
}

static string gen_desc(Rng &r, bool file) {
    auto text = [&](size_t n) { string s; for(size_t i = 0; i < n; i++) s += (char) (r.chance(1, 8) ? "_-. /"[r.below(5)] : 'a' + r.below(26)); return s; };
    switch(r.below(file ? 7 : 6)) {
        case 0: return strf("xorshift:%lu", 1 + r.below(1ull << (1 + r.below(62))));
        case 1: return "chacha20:" + text(r.below(33));
        case 2: return "chacha20:" + text(r.below(33)) + ":" + text(r.below(10));
        case 3: return "chacha20-argon2:" + text(r.below(20)) + (r.chance(1, 2) ? ":" + text(r.chance(1, 4) ? 30 + r.below(110) : r.below(12)) + (r.chance(1, 2) ? ":" + text(r.chance(1, 4) ? 30 + r.below(110) : r.below(12)) : "") : "");
        case 4: return r.chance(1, 3) ? "zero" : "system";
        case 5: return "chacha20-argon2:" + text(r.pick({1, 31, 32, 64, 127, 128, 129, 300}));
        default: return "file:/dev/rnd";
    }
}

// names of which the size is just at a power of two
string boundary_name(Rng &r) {
    string s;
    size_t want = (size_t) r.pick({8, 16, 16, 32, 32, 64, 128, 256, 1024}) - r.below(7);
    while(s.size() < want) utf8_put(s, r.chance(1, 2) ? 'a' + (u32) r.below(26) : (u32) r.pick({0xe9, 0x20ac, 0x1f600, 0x10ffff}));
    return s;
}

void gen_cli(Rng &r, Case &c, unsigned f) {
    gen_world(r, c);
    // files
    vector<string> names, cli_names, markov_names;
    PatOpts o;
    o.budget = (f & G_BIG) && r.chance(1, 4) ? 3000 : 150;
    if(f & G_RAWBYTES) o.controls = true;
    bool use_words = (f & G_WORDS) && r.chance(2, 3);
    vector<string> paths;
    if(use_words) {
        int n = 1 + r.below(3);
        for(int i = 0; i < n; i++) {
            string p = strf("/w/%c", 'a' + i);
            // nothing in a path is special
            if(r.chance(1, 8)) { const char *tails[] = {":x", "::", ":/w/a", " y", "=z", ".txt", "#1", "\xc3\xa9"}; p += tails[r.below(8)]; }
            gen_wordlist(r, c, p, f & G_BIG, true);
            paths.push_back(p);
            if((f & G_SPLIT) && r.chance(1, 2)) c.addw({"readplan", p, strf("%lu", r.next() % 10000), strf("%lu", r.pick({1, 2, 7, 100, 4096}))});
            if((f & G_READFAULT) && r.chance(1, 3)) c.addw({"readfault", p, strf("%lu", r.chance(1, 2) ? r.below(30) : r.below(5000)), r.chance(2, 3) ? "EIO" : "EINTR"});
            if((f & G_READFAULT) && r.chance(1, 8)) c.addw({"openfault", p, r.chance(1, 2) ? "EACCES" : "EMFILE"});
        }
    }
    if(f & G_FILESOURCE) {
        vector<string> w = {"dev", "/dev/rnd", "prng", strf("%lu", r.next() % 100000)};
        c.addw(w);
        if((f & G_SPLIT) && r.chance(1, 2)) c.addw({"readplan", "/dev/rnd", strf("%lu", r.next() % 10000), strf("%lu", r.pick({1, 7, 256, 1000, 4095}))});
        if((f & G_ENTFAULT) && r.chance(1, 2)) c.addw({"readfault", "/dev/rnd", strf("%lu", r.pick({0, 1, 512, 1023, 1024, 4095, 4096, 8192, r.below(20000)})), r.chance(1, 2) ? "EIO" : "EOF"});
    }
    // names that are almost the same
    string family;
    if(r.chance(1, 12)) for(u64 n = 12 + r.below(r.chance(1, 4) ? 60 : 8); n > 0; n--) family += 'a' + (char) r.below(26);
    auto wl_name = [&]() {
        if(!family.empty()) {
            string s = family;
            size_t cut = 8;
            while(2 * cut < s.size()) cut *= 2;
            cut = std::min(s.size() - 1, r.chance(1, 2) ? cut - r.below(7) : 2 * cut - r.below(7));
            switch(r.below(6)) {
                case 0: return s.substr(0, cut);
                case 1: return s + "x";
                case 2: case 3: return s.erase(cut, 1);
                default: return s;
            }
        }
        if(r.chance(1, 12)) return boundary_name(r);
        return string(r.chance(1, 4) ? "english" : r.chance(1, 10) ? "" : strf("w%lu", r.below(4)));
    };
    // configuration
    bool home = !r.chance(1, 10);
    if(home) c.addw({"env", "HOME", "/home/u"});
    bool xdg = r.chance(1, 4);
    if(xdg) c.addw({"env", "XDG_CONFIG_PATH", "/xdg"});
    vector<string> presets = {"apple1", "apple2", "uuid", "firefox", "proquint64", "proquint128", "edge"};
    bool config_random = false;
    if(f & G_CONFIG) {
        vector<string> files = {"/etc/passgen.conf", xdg ? "/xdg/passgen.conf" : "/home/u/.config/passgen.conf"};
        for(auto &p : files) {
            if(r.chance(1, 3)) continue;
            string s;
            int n = r.below(6);
            for(int i = 0; i < n; i++) {
                switch(r.below(8)) {
                    case 0: s += "# comment random wordlist\n"; break;
                    case 1: s += "\n"; break;
                    case 2: case 3: case 4: {
                        string name = r.chance(1, 3) ? r.pick(presets) : strf("p%lu", r.below(5));
                        PatOpts po;
                        po.budget = 40; po.depth = 1; po.escapes = false; po.controls = false;
                        string pat = gen_pattern(r, po);
                        // configuration files are made of lines
                        for(auto &ch : pat) if(ch == '\n') ch = 'n';
                        s += "preset " + string(r.below(3), ' ') + name + ":" + pat + "\n";
                        presets.push_back(name);
                        break;
                    }
                    case 5: case 6:
                        if(!paths.empty()) {
                            string nm = wl_name();
                            s += "wordlist\t" + nm + ":" + (r.chance(1, 6) ? "/missing" : r.pick(paths)) + "\n";
                            names.push_back(nm);
                        }
                        break;
                    case 7:
                        if((f & G_DETERMINISTIC) && r.chance(1, 2)) { s += "random " + gen_desc(r, f & G_FILESOURCE) + "\n"; config_random = true; }
                        else s += "option value\n";
                        break;
                }
            }
            if(r.chance(1, 3) && !s.empty() && s.back() == '\n') s.pop_back();
            if((f & G_BIG) && r.chance(1, 8)) {
                string pre;
                u64 target = r.pick({10238, 10239, 10240, 10241, 20480, 30000});
                while(pre.size() + 60 < target - std::min<u64>(target, s.size())) pre += "# " + string(40, 'x') + "\n";
                s = pre + s;
            }
            if((f & G_INVALID) && r.chance(1, 12)) s += "\npreset nocolon\n";
            c.addw({"file", p, "reg", s});
            if((f & G_SPLIT) && r.chance(1, 2)) c.addw({"readplan", p, strf("%lu", r.next() % 10000), strf("%lu", r.pick({1, 5, 64, 1000}))});
            if((f & G_READFAULT) && r.chance(1, 5)) c.addw({"readfault", p, strf("%lu", r.below(s.size() + 1)), "EIO"});
            if((f & G_READFAULT) && r.chance(1, 10)) c.addw({"openfault", p, "EACCES"});
        }
    }
    (void) config_random;
    // options
    vector<vector<string>> opts;
    auto opt = [&](const char *sh, const char *lg, const string &v) {
        switch(r.below(4)) {
            case 0: opts.push_back({string(sh) + v}); if(v.empty()) opts.back() = {sh, v}; break;
            case 1: opts.push_back({string(lg) + "=" + v}); break;
            case 2: opts.push_back({lg, v}); break;
            default: opts.push_back({sh, v}); break;
        }
    };
    u64 amount = 1;
    if(r.chance(1, 2)) {
        amount = 1 + r.below(r.chance(1, 6) ? 60 : 4);
        if((f & G_BIG) && r.chance(1, 5)) amount = r.pick({127, 128, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 1100 + r.below(400)});
        opt("-a", "--amount", strf("%lu", amount));
    }
    if(r.chance(1, 8)) opts.push_back({"-z"});
    if((f & G_JSON) && r.chance(1, 2)) opts.push_back({r.chance(1, 2) ? "-j" : "--json"});
    if((f & G_ENTROPY) && r.chance(1, 2)) opts.push_back({r.chance(1, 2) ? "-e" : "--entropy"});
    if(use_words) {
        int n = 1 + r.below(3);
        // long chains of long lists take minutes and gigabytes
        bool large = false;
        for(auto &l : c.parse()) if(l[0] == "genfile" && l.num(5) > 3000) large = true;
        for(int i = 0; i < n; i++) {
            if((f & G_MARKOV) && r.chance(1, 3)) opt("-M", "--markov-length", strf("%lu", !large && r.chance(1, 8) ? r.pick({8, 64, 254, 255}) : 1 + r.below(4)));
            string nm = wl_name();
            opt("-w", "--wordlist", nm + ":" + r.pick(paths));
            names.push_back(nm);
        }
    }
    if(f & G_DETERMINISTIC) {
        if(r.chance(1, 2)) opt("-r", "--random", gen_desc(r, f & G_FILESOURCE));
        if(r.chance(1, 3)) {
            opt("-m", "--master", gen_secret(r, true));
            if(r.chance(1, 2)) opt("-d", "--domain", r.chance(1, 8) ? "" : gen_secret(r, false));
            if(r.chance(1, 2)) opt("-t", "--token", r.chance(1, 8) ? "" : gen_secret(r, true));
        }
    } else if((f & G_FILESOURCE) && r.chance(1, 2)) opt("-r", "--random", "file:/dev/rnd");
    else if(r.chance(1, 3)) opt("-r", "--random", r.chance(1, 2) ? "system" : "xorshift:77");
    if(r.chance(1, 4)) {
        string name = r.chance(1, 3) ? r.pick(presets) : strf("q%lu", r.below(4));
        PatOpts po;
        po.budget = 60; po.depth = 2;
        opt("-P", "--define-preset", name + ":" + gen_pattern(r, po));
        presets.push_back(name);
    }
    for(auto &n : names) o.words.push_back(n);
    if(f & G_MARKOV) for(auto &n : names) o.markov.push_back(n);
    if((f & (G_WORDS | G_INVALID)) == (G_WORDS | G_INVALID) && r.chance(1, 10)) o.words.push_back("unknown");
    if((f & G_INVALID) && r.chance(1, 3)) {
        switch(r.below(10)) {
            case 0: opts.push_back({"-a", r.chance(1, 2) ? "0" : "99999999999"}); break;
            case 1: opts.push_back({"-q"}); break;
            case 2: opts.push_back({"--frobnicate"}); break;
            case 3: opts.push_back({"-M", r.chance(1, 2) ? "0" : "256"}); break;
            case 4: opts.push_back({"-r", r.chance(1, 2) ? "bogus" : "xorshift:0"}); break;
            case 5: opts.push_back({"-w", r.chance(1, 2) ? "nocolon" : "x:/missing"}); break;
            case 6: opts.push_back({"-p", "missing-preset"}); break;
            case 7: opts.push_back({"-P", "nocolon"}); break;
            case 8: opts.push_back({"-r", "file:/missing"}); break;
            case 9: opts.push_back({"-r", "chacha20:" + string(33 + r.below(300), 'k')}); break;
        }
    }
    if((f & G_LIST) && r.chance(1, 6)) opts.push_back({r.chance(1, 3) ? "-h" : r.chance(1, 2) ? "-v" : "-l"});
    // keep the order of options, as redefinitions depend on it
    string pattern;
    bool by_preset = r.chance(1, 5) && amount <= 60, empty = false;
    if(by_preset) opt("-p", "--preset", r.pick(presets));
    if(by_preset && r.chance(1, 2)) std::rotate(opts.begin() + r.below(opts.size()), opts.end() - 1, opts.end());
    size_t at = r.below(opts.size() + 1);
    if(!by_preset || ((f & G_INVALID) && r.chance(1, 20))) {
        o.depth = 1 + r.below(4);
        if(amount > 60) { o.budget = 12; o.depth = 1; }
        pattern = r.chance(1, 20) && amount <= 60 ? gen_wide(r) : gen_pattern(r, o);
        if(pattern[0] == '-') pattern = "x" + pattern;
        if(r.chance(1, 40)) pattern = "";
        empty = pattern.empty();
        size_t z;
        while((z = pattern.find('\0')) != string::npos) pattern[z] = 'z';
        if((f & G_BIG) && amount <= 60 && r.chance(1, 6)) {
            // long outputs, also of many groups
            if(r.chance(1, 3)) pattern = strf("%s([a-c]%s){%lu}", r.chance(1, 2) ? "(x|y)?" : "", r.chance(1, 2) ? "" : "|z", r.pick({1022, 1023, 1024, 1025, 1100, 1500}));
            else pattern = strf("(%s){%lu}", pattern.c_str(), 2 + r.below(60));
        }
    }
    size_t second = (f & G_INVALID) && r.chance(1, 30) ? r.below(opts.size() + 1) : ~0ull;
    for(size_t i = 0; i <= opts.size(); i++) {
        if(i == second) c.addw({"arg", r.chance(1, 4) ? "" : gen_pattern(r, [] { PatOpts p; p.depth = 1; p.budget = 10; p.controls = false; return p; }())});
        if(i == at && (!pattern.empty() || empty)) c.addw({"arg", pattern});
        if(i < opts.size()) for(auto &w : opts[i]) c.addw({"arg", w});
    }
    // standard output
    if(r.chance(1, 2)) {
        const char *types[] = {"pipe", "reg", "tty", "chr"};
        u64 chunk = (f & G_SPLIT) && r.chance(1, 2) ? r.pick({1, 3, 50, 1000, 4095}) : 0;
        c.add("stdout %s %lu %lu", types[r.below(4)], chunk, r.next() % 1000);
    }
    if(f & G_OUTFAULT) {
        const char *errs[] = {"ENOSPC", "EPIPE", "EIO", "EINTR", "EAGAIN", "EBADF"};
        u64 off = r.chance(1, 3) ? r.below(4) : r.chance(1, 2) ? r.below(100) : r.pick({4095, 4096, 4097, 8192, r.below(20000)});
        c.add("outfault %lu %s%s", off, errs[r.below(6)], r.chance(1, 3) ? " once" : "");
    }
    if((f & G_ENTFAULT) && r.chance(2, 3)) {
        const char *kinds[] = {"short", "eintr", "zero", "eio", "eagain", "enosys"};
        int n = 1 + r.below(2);
        // for good, with an error that waiting does not cure
        if(r.chance(1, 5)) c.add("entfault %lu %s 0", r.below(3), r.chance(1, 2) ? "eio+" : "enosys+");
        for(int i = 0; i < n; i++)
            c.add("entfault %lu %s %lu", r.chance(1, 2) ? r.below(2) : r.below(12), kinds[r.below(6)], r.pick({0, 1, 8, 255, 256, 512, 1023, r.below(1024)}));
    }
}
