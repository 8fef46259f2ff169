// Cases, streams and the description of simulated worlds.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>

string strf(const char *fmt, ...) {
    va_list ap, ap2;
    va_start(ap, fmt);
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    va_end(ap);
    string s(n > 0 ? n : 0, 0);
    if(n > 0) vsnprintf(&s[0], n + 1, fmt, ap2);
    va_end(ap2);
    return s;
}

u64 Rng::size(u64 max) {
    switch(below(4)) {
        case 0: return below(max < 4 ? max + 1 : 4);
        case 1: return below((max < 40 ? max : 40) + 1);
        case 2: {
            u64 b = 1ull << below(20);
            u64 v = b + below(5) - 2;
            return v > max ? below(max + 1) : v;
        }
        default: return below(max + 1);
    }
}

// words are separated by spaces, everything that is not printable is escaped
string esc(const string &s) {
    if(s.empty()) return "%-";
    string o;
    for(unsigned char c : s) {
        if(c <= ' ' || c >= 127 || c == '%') o += strf("%%%02x", c);
        else o += (char) c;
    }
    return o;
}
string unesc(const string &s) {
    if(s == "%-") return "";
    string o;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '%' && i + 2 < s.size()) {
            o += (char) strtoul(s.substr(i + 1, 2).c_str(), nullptr, 16);
            i += 2;
        } else o += s[i];
    }
    return o;
}
u64 Line::num(size_t i) const { return strtoull((*this)[i].c_str(), nullptr, 0); }
i64 Line::inum(size_t i) const { return strtoll((*this)[i].c_str(), nullptr, 0); }

void Case::add(const char *fmt, ...) {
    va_list ap, ap2;
    va_start(ap, fmt);
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    va_end(ap);
    string s(n, 0);
    vsnprintf(&s[0], n + 1, fmt, ap2);
    va_end(ap2);
    lines.push_back(s);
}
void Case::addw(const vector<string> &w) {
    string s;
    for(size_t i = 0; i < w.size(); i++) s += (i ? " " : "") + esc(w[i]);
    lines.push_back(s);
}
static Line parse_line(const string &l) {
    Line r;
    size_t p = 0;
    while(p < l.size()) {
        size_t q = l.find(' ', p);
        if(q == string::npos) q = l.size();
        if(q > p) r.w.push_back(unesc(l.substr(p, q - p)));
        p = q + 1;
    }
    return r;
}
vector<Line> Case::parse() const {
    vector<Line> v;
    for(auto &l : lines) v.push_back(parse_line(l));
    return v;
}
string Case::text() const {
    string s = "property " + prop + "\nseed " + strf("%lu", seed) + "\n";
    for(auto &l : lines) s += l + "\n";
    return s;
}
Case Case::load(const string &text) {
    Case c;
    size_t p = 0;
    while(p < text.size()) {
        size_t q = text.find('\n', p);
        if(q == string::npos) q = text.size();
        string l = text.substr(p, q - p);
        p = q + 1;
        if(l.empty() || l[0] == '#') continue;
        if(l.compare(0, 9, "property ") == 0 && c.prop.empty()) c.prop = l.substr(9);
        else if(l.compare(0, 5, "seed ") == 0) c.seed = strtoull(l.c_str() + 5, nullptr, 0);
        else c.lines.push_back(l);
    }
    return c;
}

// ---------------------------------------------------------------- streams
u8 Stream::at(u64 pos) const {
    if(!code) {
        static const char *names[] = {"", "prng", "zero", "ff", "prov", "small", "mix", "script", "word"};
        code = 99;
        for(int i = 1; i < 9; i++) if(kind == names[i]) code = i;
    }
    switch(code) {
        case 1: return (u8) (mix64(seed, pos >> 3) >> (8 * (pos & 7)));
        case 2: return 0;
        case 3: return 0xff;
        case 4: return (u8) (pos >> (8 * seed));
        case 5: return (u8) (mix64(seed, pos >> 3) >> (8 * (pos & 7))) & 3;
        case 6:
            switch(mix64(seed, pos / 48) % 4) {
                case 0: return 0;
                case 1: return 0xff;
                case 2: return (mix64(seed, pos) & 1) ? 0x80 : 0x7f;
                default: return (u8) mix64(seed, pos);
            }
        case 7:
            if(pos < script.size()) return script[pos];
            return (u8) (mix64(seed, pos >> 3) >> (8 * (pos & 7)));
        case 8: {  // words of 8 bytes that spell their number in bytes 1 and 2; their other bytes are even
            u64 w = pos >> 3;
            switch(pos & 7) {
                case 0: return 0;
                case 1: return (u8) w;
                case 2: return 0xa0 | ((w >> 8) & 15);
                default: return 0xe0 | ((pos & 7) << 1);
            }
        }
    }
    return 0;
}
static bytes unhex(const string &s) {
    bytes b;
    for(size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(strtoul(s.substr(i, 2).c_str(), nullptr, 16));
    return b;
}
Stream Stream::of(const Line &l, size_t i) {
    Stream s;
    if(l.size() > i) s.kind = l[i];
    s.seed = l.num(i + 1);
    if(l.size() > i + 2) s.script = unhex(l[i + 2]);
    return s;
}
void Stream::describe(vector<string> &w) const {
    w.push_back(kind);
    w.push_back(strf("%lu", seed));
    if(kind == "script") {
        string h;
        for(u8 b : script) h += strf("%02x", b);
        w.push_back(h);
    }
}

// ---------------------------------------------------------------- worlds
static const struct { const char *name; int num; } errnos[] = {
    {"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EPIPE", EPIPE}, {"EINTR", EINTR}, {"EAGAIN", EAGAIN}, {"EACCES", EACCES}, {"ENOENT", ENOENT},
    {"EMFILE", EMFILE}, {"ENOMEM", ENOMEM}, {"EBADF", EBADF}, {"EISDIR", EISDIR}, {"EFBIG", EFBIG}, {"ENOSYS", ENOSYS}, {"EOF", 0},
};
static int errno_of(const string &s) {
    for(auto &e : errnos) if(s == e.name) return e.num;
    return atoi(s.c_str());
}
// contents that are too large to be written out
static string gen_content(const string &kind, u64 seed, u64 n) {
    string s;
    Rng r(seed);
    if(kind == "words") {
        for(u64 i = 0; i < n; i++) {
            int len = 1 + r.below(9);
            for(int j = 0; j < len; j++) s += (char) ('a' + r.below(26));
            s += strf("%lu\n", i);
        }
    } else if(kind == "short") {  // distinct very short words
        for(u64 i = 0; i < n; i++) { s += (char) ('a' + i % 26); if(i >= 26) s += strf("%lu", i / 26); s += '\n'; }
    } else if(kind == "fixed") {  // lines of 7 characters, 8 bytes per line
        for(u64 i = 0; i < n; i++) s += strf("%c%06lu\n", (char) ('a' + r.below(26)), i % 1000000);
    } else if(kind == "bytes") {
        for(u64 i = 0; i < n; i++) s += (char) r.below(256);
    } else if(kind == "prov") {  // digits of the position
        for(u64 i = 0; i < n; i++) s += (char) (i >> (8 * seed));
    } else if(kind == "word") {
        Stream st;
        st.kind = "word";
        for(u64 i = 0; i < n; i++) s += (char) st.at(i);
    } else if(kind == "a") {
        s.assign(n, 'a');
    } else if(kind == "comment") {
        while(s.size() < n) { s += "# "; u64 l = r.below(80); for(u64 i = 0; i < l; i++) s += (char) ('a' + r.below(26)); s += '\n'; }
    }
    return s;
}
WorldCfg WorldCfg::from(const Case &c) {
    WorldCfg w;
    for(auto &l : c.parse()) {
        const string &k = l[0];
        if(k == "heap") w.heap_seed = l.num(1);
        else if(k == "stack") w.stack_seed = l.num(1);
        else if(k == "shift") w.addr_shift = l.num(1);
        else if(k == "allocfail") w.alloc_fail.insert(l.num(1));
        else if(k == "allocfrom") w.alloc_fail_from = l.num(1);
        else if(k == "ent") w.ent = Stream::of(l, 1);
        else if(k == "entfault") w.ent_faults.push_back({l.num(1), l[2], l.num(3)});
        else if(k == "file") { FileSpec &f = w.files[l[1]]; f.type = l[2]; f.content = l[3]; }
        else if(k == "genfile") { FileSpec &f = w.files[l[1]]; f.type = l[2]; f.content = gen_content(l[3], l.num(4), l.num(5)) + l[6]; }
        else if(k == "dev") { FileSpec &f = w.files[l[1]]; f.type = "chr"; f.is_dev = true; f.dev = Stream::of(l, 2); }
        else if(k == "readplan") { if(w.files.count(l[1])) { FileSpec &f = w.files[l[1]]; f.chunk_seed = l.num(2); f.chunk_max = l.num(3); } }
        else if(k == "readfault") { if(w.files.count(l[1])) { FileSpec &f = w.files[l[1]]; f.fault_at = l.num(2); f.fault_errno = errno_of(l[3]); f.fault_once = l[4] == "once"; } }
        else if(k == "openfault") { w.files[l[1]].open_errno = errno_of(l[2]); }
        else if(k == "stdout") { w.out_type = l[1]; w.out_chunk = l.num(2); w.out_chunk_seed = l.num(3); }
        else if(k == "outfault") { w.out_fault_at = l.num(1); w.out_errno = errno_of(l[2]); w.out_fault_once = l[3] == "once"; }
        else if(k == "env") w.env[l[1]] = l[2];
        else if(k == "arg") w.args.push_back(l[1]);
        else if(k == "clock") w.clock = l.num(1);
        else if(k == "pid") w.pid = l.num(1);
        else if(k == "mlockfault") w.mlock_errno = errno_of(l[1]);
    }
    // training chains with large lists takes long
    size_t in = 0;
    for(auto &f : w.files) in += f.second.content.size();
    if(in > 50000) w.budget = 4000000000ul;
    return w;
}
