#include "model.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>

// ---------------------------------------------------------------- text
bool utf8_dec(const string &s, vector<u32> &out) {
    out.clear();
    for(size_t i = 0; i < s.size();) {
        u8 c = s[i];
        int n;
        u32 v, lo;
        if(c < 0x80) { out.push_back(c); i++; continue; }
        if(c >= 0xc2 && c <= 0xdf) { n = 1; v = c & 0x1f; lo = 0x80; }
        else if((c & 0xf0) == 0xe0) { n = 2; v = c & 0x0f; lo = 0x800; }
        else if(c >= 0xf0 && c <= 0xf4) { n = 3; v = c & 7; lo = 0x10000; }
        else return false;
        if(i + n >= s.size()) return false;
        for(int k = 1; k <= n; k++) {
            u8 d = s[i + k];
            if((d & 0xc0) != 0x80) return false;
            v = v << 6 | (d & 0x3f);
        }
        if(v < lo || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff)) return false;
        out.push_back(v);
        i += n + 1;
    }
    return true;
}
void utf8_put(string &s, u32 c) {
    if(c < 0x80) s += (char) c;
    else if(c < 0x800) { s += (char) (0xc0 | c >> 6); s += (char) (0x80 | (c & 63)); }
    else if(c < 0x10000) { s += (char) (0xe0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
    else { s += (char) (0xf0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
}
string utf8_enc(const vector<u32> &v) { string s; for(u32 c : v) utf8_put(s, c); return s; }
string show(const string &s, size_t max) {
    string r = esc(s.substr(0, max));
    if(s.size() > max) r += strf("...(%zu bytes)", s.size());
    return "'" + r + "'";
}

// ---------------------------------------------------------------- cryptography
static u32 rotl32(u32 v, int n) { return v << n | v >> (32 - n); }
static u64 rotr64(u64 v, int n) { return v >> n | v << (64 - n); }
static u32 ld32(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32) p[3] << 24; }
static u64 ld64(const u8 *p) { return ld32(p) | (u64) ld32(p + 4) << 32; }
static void st32(u8 *p, u32 v) { for(int i = 0; i < 4; i++) p[i] = v >> (8 * i); }
static void st64(u8 *p, u64 v) { for(int i = 0; i < 8; i++) p[i] = v >> (8 * i); }

void ref_chacha20(const u8 key[32], const u8 iv[8], u64 block, u8 out[64]) {
    u32 s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    for(int i = 0; i < 8; i++) s[4 + i] = ld32(key + 4 * i);
    s[12] = (u32) block;
    s[13] = block >> 32;
    s[14] = ld32(iv);
    s[15] = ld32(iv + 4);
    u32 x[16];
    memcpy(x, s, sizeof(s));
    auto qr = [&](int a, int b, int c, int d) {
        x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 16);
        x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 12);
        x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 8);
        x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 7);
    };
    for(int r = 0; r < 10; r++) {
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
    }
    for(int i = 0; i < 16; i++) st32(out + 4 * i, x[i] + s[i]);
}

static const u64 b2iv[8] = {0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
                            0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179};
static const u8 b2sigma[10][16] = {
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
    {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
    {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
    {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
    {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
void ref_blake2b(u8 *out, size_t outlen, const bytes &in) {
    u64 h[8];
    for(int i = 0; i < 8; i++) h[i] = b2iv[i];
    h[0] ^= 0x01010000 ^ outlen;
    size_t off = 0;
    do {
        u8 blk[128] = {0};
        size_t n = std::min<size_t>(128, in.size() - off);
        if(n) memcpy(blk, in.data() + off, n);
        off += n;
        bool last = off == in.size();
        u64 m[16], v[16];
        for(int i = 0; i < 16; i++) m[i] = ld64(blk + 8 * i);
        for(int i = 0; i < 8; i++) v[i] = h[i], v[8 + i] = b2iv[i];
        v[12] ^= off;
        if(last) v[14] = ~v[14];
        auto g = [&](int a, int b, int c, int d, u64 x, u64 y) {
            v[a] += v[b] + x; v[d] = rotr64(v[d] ^ v[a], 32);
            v[c] += v[d]; v[b] = rotr64(v[b] ^ v[c], 24);
            v[a] += v[b] + y; v[d] = rotr64(v[d] ^ v[a], 16);
            v[c] += v[d]; v[b] = rotr64(v[b] ^ v[c], 63);
        };
        for(int r = 0; r < 12; r++) {
            const u8 *s = b2sigma[r % 10];
            g(0, 4, 8, 12, m[s[0]], m[s[1]]); g(1, 5, 9, 13, m[s[2]], m[s[3]]); g(2, 6, 10, 14, m[s[4]], m[s[5]]); g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]); g(1, 6, 11, 12, m[s[10]], m[s[11]]); g(2, 7, 8, 13, m[s[12]], m[s[13]]); g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for(int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[8 + i];
    } while(off < in.size());
    u8 full[64];
    for(int i = 0; i < 8; i++) st64(full + 8 * i, h[i]);
    memcpy(out, full, outlen);
}

static void b_int(bytes &b, u32 v) { for(int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); }
static void b_str(bytes &b, const string &s) { b_int(b, s.size()); b.insert(b.end(), s.begin(), s.end()); }
static void argon_hash(u8 *out, u32 len, const bytes &in) {
    bytes x;
    b_int(x, len);
    x.insert(x.end(), in.begin(), in.end());
    if(len <= 64) { ref_blake2b(out, len, x); return; }
    u32 r = (len + 31) / 32 - 2;
    u8 v[64];
    ref_blake2b(v, 64, x);
    memcpy(out, v, 32);
    for(u32 i = 1; i < r; i++) {
        ref_blake2b(v, 64, bytes(v, v + 64));
        memcpy(out + 32 * i, v, 32);
    }
    ref_blake2b(out + 32 * r, len - 32 * r, bytes(v, v + 64));
}
typedef vector<u64> ABlock;
static void argon_p(u64 *a[16]) {
    auto f = [](u64 x, u64 y) { return x + y + 2 * (x & 0xffffffff) * (y & 0xffffffff); };
    auto g = [&](int i, int j, int k, int l) {
        u64 &x = *a[i], &y = *a[j], &z = *a[k], &w = *a[l];
        x = f(x, y); w = rotr64(w ^ x, 32);
        z = f(z, w); y = rotr64(y ^ z, 24);
        x = f(x, y); w = rotr64(w ^ x, 16);
        z = f(z, w); y = rotr64(y ^ z, 63);
    };
    g(0, 4, 8, 12); g(1, 5, 9, 13); g(2, 6, 10, 14); g(3, 7, 11, 15);
    g(0, 5, 10, 15); g(1, 6, 11, 12); g(2, 7, 8, 13); g(3, 4, 9, 14);
}
static ABlock argon_g(const ABlock &x, const ABlock &y) {
    ABlock r(128), z;
    for(int i = 0; i < 128; i++) r[i] = x[i] ^ y[i];
    z = r;
    for(int row = 0; row < 8; row++) {
        u64 *a[16];
        for(int i = 0; i < 16; i++) a[i] = &z[16 * row + i];
        argon_p(a);
    }
    for(int col = 0; col < 8; col++) {
        u64 *a[16];
        for(int i = 0; i < 8; i++) { a[2 * i] = &z[16 * i + 2 * col]; a[2 * i + 1] = &z[16 * i + 2 * col + 1]; }
        argon_p(a);
    }
    for(int i = 0; i < 128; i++) z[i] ^= r[i];
    return z;
}
void ref_argon2id(u8 out[32], const string &pass, const string &domain, const string &token) {
    const u32 m = 8, t = 8, p = 1;
    bytes in;
    b_int(in, p); b_int(in, 32); b_int(in, m); b_int(in, t); b_int(in, 0x13); b_int(in, 2);
    b_str(in, pass); b_str(in, "passgen"); b_str(in, domain); b_str(in, token);
    u8 h0[64];
    ref_blake2b(h0, 64, in);
    vector<ABlock> B(m, ABlock(128));
    for(u32 i = 0; i < 2; i++) {
        bytes x(h0, h0 + 64);
        b_int(x, i);
        b_int(x, 0);
        u8 blk[1024];
        argon_hash(blk, 1024, x);
        for(int k = 0; k < 128; k++) B[i][k] = ld64(blk + 8 * k);
    }
    const u32 seg = m / 4;
    for(u32 pass_no = 0; pass_no < t; pass_no++)
        for(u32 slice = 0; slice < 4; slice++) {
            bool indep = pass_no == 0 && slice < 2;
            ABlock addr;
            for(u32 idx = 0; idx < seg; idx++) {
                u32 cur = slice * seg + idx;
                if(pass_no == 0 && cur < 2) continue;
                u32 prev = cur == 0 ? m - 1 : cur - 1;
                u64 j;
                if(indep) {
                    if(addr.empty()) {
                        ABlock z(128, 0), inp(128, 0);
                        inp[0] = pass_no; inp[1] = 0; inp[2] = slice; inp[3] = m; inp[4] = t; inp[5] = 2; inp[6] = 1;
                        addr = argon_g(z, argon_g(z, inp));
                    }
                    j = addr[idx];
                } else j = B[prev][0];
                u64 j1 = j & 0xffffffff;
                // number of blocks that can be referenced
                u32 area = pass_no == 0 ? cur - 1 : m - seg + idx - 1;
                u64 x = j1 * j1 >> 32;
                u64 rel = area - 1 - ((u64) area * x >> 32);
                u32 start = pass_no == 0 ? 0 : (slice + 1) % 4 * seg;
                u32 ref = (start + rel) % m;
                ABlock nb = argon_g(B[prev], B[ref]);
                if(pass_no) for(int k = 0; k < 128; k++) nb[k] ^= B[cur][k];
                B[cur] = nb;
            }
        }
    bytes fin(1024);
    for(int k = 0; k < 128; k++) st64(&fin[8 * k], B[m - 1][k]);
    argon_hash(out, 32, fin);
}

// ---------------------------------------------------------------- randomness
u64 Draws::next(u64 max) {
    u64 mask = max;
    for(int s = 1; s < 64; s *= 2) mask |= mask >> s;
    ndraws++;
    if(choose) {
        u64 v = choose(max);
        for(int i = 0; i < 8; i++) script.push_back(v >> (8 * i));
        pos += 8;
        return v;
    }
    for(;;) {
        u64 v = 0;
        for(int i = 0; i < 8; i++) v |= (u64) src->at(pos + i) << (8 * i);
        pos += 8;
        v &= mask;
        if(v < max) return v;
        if(pos > 200000000) throw ShortSource();
    }
}
bool Draws::boolean() {
    ndraws++;
    if(choose) {
        u64 v = choose(2);
        script.push_back(v ? 0x00 : 0x80);
        pos++;
        return v;
    }
    return (src->at(pos++) & 128) == 0;
}
ByteSource chacha_source(const u8 key[32], const u8 iv[8]) {
    bytes k(key, key + 32), v(iv, iv + 8);
    ByteSource s;
    auto blk = std::make_shared<std::pair<u64, bytes>>(~0ull, bytes(64));
    s.f = [k, v, blk](u64 p) {
        if(blk->first != p / 64) { ref_chacha20(k.data(), v.data(), p / 64, blk->second.data()); blk->first = p / 64; }
        return blk->second[p % 64];
    };
    return s;
}
ByteSource argon_source(const string &pass, const string &domain, const string &token) {
    u8 key[32];
    ref_argon2id(key, pass, domain, token);
    return chacha_source(key, (const u8 *) "passgen");
}
ByteSource xorshift_source(u64 seed) {
    auto cache = std::make_shared<vector<u64>>();
    auto state = std::make_shared<u64>(seed);
    ByteSource s;
    s.f = [cache, state](u64 p) {
        while(cache->size() <= p / 8) {
            u64 x = *state;
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            *state = x;
            cache->push_back(x);
        }
        return (u8) ((*cache)[p / 8] >> (8 * (p % 8)));
    };
    return s;
}
ByteSource stream_source(const Stream &st) {
    ByteSource s;
    Stream c = st;
    s.f = [c](u64 p) { return c.at(p); };
    return s;
}
static bool starts(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
optional<ByteSource> source_of(const string &desc, const WorldCfg &w, bool &uses_system, string *path) {
    uses_system = false;
    ByteSource s;
    if(desc == "zero") { s.f = [](u64) { return (u8) 0; }; return s; }
    if(desc == "system") { uses_system = true; return stream_source(w.ent); }
    if(starts(desc, "file:")) {
        string p = desc.substr(5);
        if(path) *path = p;
        auto it = w.files.find(p);
        if(it == w.files.end() || it->second.open_errno) return {};
        const FileSpec &f = it->second;
        if(f.is_dev) { s = stream_source(f.dev); s.limit = f.fault_at; return s; }
        if(f.type == "dir") { s.limit = 0; return s; }
        string c = f.content;
        s.f = [c](u64 p) { return (u8) c[p]; };
        s.limit = std::min<u64>(c.size(), f.fault_at);
        return s;
    }
    if(starts(desc, "xorshift:")) {
        u64 v = strtoll(desc.c_str() + 9, nullptr, 10);
        if(!v) return {};
        return xorshift_source(v);
    }
    if(starts(desc, "chacha20:")) {
        string r = desc.substr(9);
        size_t c = r.find(':');
        string k = r.substr(0, c);
        if(k.size() > 32) return {};
        u8 key[32] = {0}, iv[8] = {'p', 'a', 's', 's', 'g', 'e', 'n', 0};
        memcpy(key, k.data(), k.size());
        if(c != string::npos) {
            string v = r.substr(c + 1, 8);
            memset(iv, 0, 8);
            memcpy(iv, v.data(), v.size());
        }
        return chacha_source(key, iv);
    }
    if(starts(desc, "chacha20-argon2:")) {
        vector<string> f = {""};
        for(char ch : desc.substr(16)) { if(ch == ':') f.push_back(""); else f.back() += ch; }
        f.resize(3);
        return argon_source(f[0], f[1], f[2]);
    }
    return {};
}

// ---------------------------------------------------------------- patterns
namespace {
struct Tok { u32 cp; bool esc; };
struct Parser {
    vector<Tok> t;
    size_t p = 0;
    [[noreturn]] void fail(const char *why) { throw Unsupported{why}; }
    [[noreturn]] void malformed(const char *why) { throw Malformed(why); }
    bool end() { return p >= t.size(); }
    bool is(u32 c) { return !end() && !t[p].esc && t[p].cp == c; }
    u64 number(bool &any) {
        u64 v = 0;
        any = false;
        while(!end() && !t[p].esc && t[p].cp >= '0' && t[p].cp <= '9') {
            v = v * 10 + t[p].cp - '0';
            if(v > 0xffffffffull) fail("number too large");
            any = true;
            p++;
        }
        return v;
    }
    PGroup group(bool top) {
        PGroup g;
        g.segs.push_back(PSeg());
        bool after_empty = false;  // a group without content was just removed
        bool modified = false;     // the last item has modifiers already
        for(;;) {
            PSeg &s = g.segs.back();
            if(end()) {
                if(!top) malformed("unclosed group");
                break;
            }
            if(is(')')) {
                if(top) malformed("unbalanced");
                p++;
                break;
            }
            if(is('|')) { p++; g.segs.push_back(PSeg()); after_empty = false; modified = false; continue; }
            if(is('?')) {
                if(after_empty || s.items.empty()) fail("nothing to modify");
                if(s.items.back().maybe) fail("two question marks");
                s.items.back().maybe = true;
                modified = true;
                p++;
                continue;
            }
            if(is('{')) {
                if(after_empty) fail("modifier after empty group");
                p++;
                bool any;
                u64 a = number(any);
                if(!any) fail("missing number");
                if(s.items.empty()) {
                    if(!is('}')) fail("multiplier");
                    p++;
                    if(modified) fail("two multipliers");
                    modified = true;
                    s.mult = a;
                    continue;
                }
                if(modified) fail("two modifiers");
                modified = true;
                u64 b = a;
                if(is(',')) {
                    p++;
                    b = number(any);
                    if(!any) fail("missing number");
                }
                if(!is('}')) malformed("repetition");
                p++;
                if(b < a) malformed("reversed");
                s.items.back().min = a;
                s.items.back().max = b;
                continue;
            }
            PItem it;
            after_empty = false;
            if(is('(')) {
                p++;
                it.kind = PItem::GROUP;
                it.group = std::make_shared<PGroup>(group(false));
                bool content = false;
                for(auto &x : it.group->segs) if(!x.items.empty()) content = true;
                if(!content) { after_empty = true; continue; }
                if(it.group->sum() == 0) fail("group without alternatives");
            } else if(is('[')) {
                p++;
                it.kind = PItem::SET;
                bool have = false;
                for(;;) {
                    if(end()) malformed("unclosed set");
                    if(is(']')) { p++; break; }
                    if(have && is('-')) {
                        p++;
                        if(end() || is(']')) fail("range without end");
                        if(t[p].esc && t[p].cp != '-') fail("escape in set");
                        if(t[p].cp < it.ranges.back().first) malformed("reversed range");
                        it.ranges.back().second = t[p].cp;
                        p++;
                        // a dash after a range would extend it again
                        if(is('-')) fail("dash after range");
                        continue;
                    }
                    if(t[p].esc && t[p].cp != '-') fail("escape in set");
                    it.ranges.push_back({t[p].cp, t[p].cp});
                    have = true;
                    p++;
                }
                for(auto &r : it.ranges) if(r.first <= 0xdfff && r.second >= 0xd800) fail("surrogates in range");
            } else if(t[p].esc) {
                u32 c = t[p].cp;
                if(c == 'w' || c == 'm') {
                    p++;
                    if(!is('{')) fail("name");
                    p++;
                    it.kind = c == 'w' ? PItem::WORD : PItem::MARKOV;
                    while(!is('}')) { if(end()) fail("name"); utf8_put(it.name, t[p].cp); p++; }
                    p++;
                } else if(c && c < 128 && strchr("|(){}[]", c)) { it.cp = c; p++; }
                else fail("escape");
            } else { it.cp = t[p].cp; p++; }
            s.items.push_back(it);
            modified = false;
        }
        // alternatives of weight zero are never taken
        vector<PSeg> keep;
        for(auto &s : g.segs) if(s.mult) keep.push_back(s);
        g.segs = keep;
        return g;
    }
};
}
PGroup parse_pattern(const string &utf8) {
    vector<u32> cps;
    if(!utf8_dec(utf8, cps)) throw Malformed("invalid text");
    Parser ps;
    for(size_t i = 0; i < cps.size(); i++) {
        if(cps[i] != '\\') { ps.t.push_back({cps[i], false}); continue; }
        if(++i >= cps.size()) throw Malformed("escape at the end");
        u32 c = cps[i];
        switch(c) {
            case 'a': ps.t.push_back({7, false}); break;
            case 'b': ps.t.push_back({8, false}); break;
            case 'e': ps.t.push_back({27, false}); break;
            case 'f': ps.t.push_back({12, false}); break;
            case 'n': ps.t.push_back({10, false}); break;
            case 'r': ps.t.push_back({13, false}); break;
            case 't': ps.t.push_back({9, false}); break;
            case 'v': ps.t.push_back({11, false}); break;
            case '\\': ps.t.push_back({'\\', false}); break;
            case 'u': {
                if(++i >= cps.size() || cps[i] != '{') throw Malformed("unicode escape");
                u32 v = 0;
                int n = 0;
                while(++i < cps.size() && cps[i] != '}') {
                    if(cps[i] > 127 || !isxdigit(cps[i]) || ++n > 6) throw Malformed("unicode escape");
                    v = v * 16 + (cps[i] <= '9' ? cps[i] - '0' : (cps[i] | 32) - 'a' + 10);
                }
                if(i >= cps.size()) throw Malformed("unicode escape");
                if(!n) throw Unsupported{"empty unicode escape"};
                if(v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff)) throw Unsupported{"no code point"};
                // escaped characters with a special meaning are not modelled
                if(v < 128 && strchr("()[]{}|?-,0123456789\\", v) && v) throw Unsupported{"escaped special"};
                ps.t.push_back({v, false});
                break;
            }
            default: ps.t.push_back({c, true});
        }
    }
    PGroup g = ps.group(true);
    if(g.sum() == 0) throw Unsupported{"no alternatives"};
    return g;
}

Words read_words(const string &content_) {
    Words w;
    string content = content_;
    while(!content.empty() && content.back() == 0) content.pop_back();
    if(content.find('\0') != string::npos) return w;
    size_t p = 0;
    while(p < content.size()) {
        size_t q = content.find('\n', p);
        if(q == string::npos) q = content.size();
        if(q > p) w.words.push_back(content.substr(p, q - p));
        p = q + 1;
    }
    w.usable = !w.words.empty();
    w.markov_usable = w.usable;
    vector<u32> tmp;
    for(auto &s : w.words) if(!utf8_dec(s, tmp)) w.markov_usable = false;
    return w;
}
map<vector<u32>, map<u32, u64>> Words::trans(size_t level) const {
    map<vector<u32>, map<u32, u64>> t;
    for(auto &s : words) {
        vector<u32> cp, ctx(level, 0);
        utf8_dec(s, cp);
        cp.push_back(0);
        for(u32 c : cp) {
            t[ctx][c]++;
            ctx.erase(ctx.begin());
            ctx.push_back(c);
        }
    }
    return t;
}

static void gen_group(const PGroup &g, const WordEnv &env, Draws &d, int depth, GenOut &o) {
    if(depth <= 0) throw GenFail{"nested too deeply"};
    u64 sum = g.sum();
    u64 c = d.next(sum);
    const PSeg *seg = nullptr;
    for(auto &s : g.segs) {
        if(c < s.mult) { seg = &s; break; }
        c -= s.mult;
    }
    o.bits += log2((double) sum / (double) seg->mult);
    for(auto &it : seg->items) {
        if(it.maybe) {
            o.bits += 1;
            if(!d.boolean()) continue;
        }
        u64 reps = it.min;
        if(it.max != it.min) {
            reps += d.next(it.max - it.min + 1);
            o.bits += log2((double) (it.max - it.min + 1));
        }
        for(u64 r = 0; r < reps; r++) {
            switch(it.kind) {
                case PItem::CHAR: o.out.push_back(it.cp); break;
                case PItem::SET: {
                    u64 n = 0;
                    for(auto &x : it.ranges) n += x.second - x.first + 1;
                    if(!n) break;
                    u64 k = d.next(n);
                    o.bits += log2((double) n);
                    for(auto &x : it.ranges) {
                        u64 len = x.second - x.first + 1;
                        if(k < len) { o.out.push_back(x.first + k); break; }
                        k -= len;
                    }
                    break;
                }
                case PItem::WORD: {
                    auto e = env.find(it.name);
                    if(e == env.end()) throw GenFail{"unknown wordlist"};
                    const Words &w = e->second.first;
                    if(!w.usable) throw GenFail{"unusable wordlist"};
                    u64 k = d.next(w.words.size());
                    o.bits += log2((double) w.words.size());
                    vector<u32> cp;
                    if(!utf8_dec(w.words[k], cp)) throw GenFail{"invalid word"};
                    o.out.insert(o.out.end(), cp.begin(), cp.end());
                    break;
                }
                case PItem::MARKOV: {
                    auto e = env.find(it.name);
                    if(e == env.end()) throw GenFail{"unknown wordlist"};
                    if(!e->second.first.markov_usable) throw GenFail{"unusable wordlist"};
                    throw MarkovUsed();
                }
                case PItem::GROUP: gen_group(*it.group, env, d, depth - 1, o); break;
            }
            if(o.out.size() > 8000000) throw GenFail{"output too large for the model"};
        }
    }
}
GenOut model_generate(const PGroup &g, const WordEnv &env, Draws &d, int depth) {
    GenOut o;
    gen_group(g, env, d, depth, o);
    return o;
}

typedef map<string, double> Dist;
static bool dist_cat(const Dist &a, const Dist &b, size_t max, Dist &o) {
    o.clear();
    if(a.size() * b.size() > max * 8) return false;
    for(auto &x : a) for(auto &y : b) { o[x.first + y.first] += x.second * y.second; }
    return o.size() <= max;
}
bool model_distribution(const PGroup &g, const WordEnv &env, size_t max, Dist &out) {
    out.clear();
    double sum = g.sum();
    for(auto &s : g.segs) {
        Dist cur = {{"", 1.0}};
        for(auto &it : s.items) {
            Dist one;
            switch(it.kind) {
                case PItem::CHAR: { string x; utf8_put(x, it.cp); one[x] = 1; break; }
                case PItem::SET: {
                    double n = 0;
                    for(auto &r : it.ranges) n += r.second - r.first + 1;
                    if(n > max) return false;
                    if(n == 0) one[""] = 1;
                    for(auto &r : it.ranges) for(u32 c = r.first; c <= r.second; c++) { string x; utf8_put(x, c); one[x] += 1 / n; }
                    break;
                }
                case PItem::WORD: {
                    auto e = env.find(it.name);
                    if(e == env.end() || !e->second.first.usable) return false;
                    auto &w = e->second.first.words;
                    if(w.size() > max * 4) return false;
                    for(auto &x : w) one[x] += 1.0 / w.size();
                    break;
                }
                case PItem::MARKOV: return false;
                case PItem::GROUP: if(!model_distribution(*it.group, env, max, one)) return false; break;
            }
            Dist reps, acc = {{"", 1.0}}, tmp;
            if(it.max > 4096) return false;
            for(u64 r = 0; r <= it.max; r++) {
                if(r >= it.min) for(auto &x : acc) reps[x.first] += x.second / (it.max - it.min + 1);
                if(reps.size() > max) return false;
                if(r < it.max) { if(!dist_cat(acc, one, max, tmp)) return false; acc = tmp; }
            }
            if(it.maybe) {
                for(auto &x : reps) x.second /= 2;
                reps[""] += 0.5;
            }
            if(!dist_cat(cur, reps, max, tmp)) return false;
            cur = tmp;
        }
        for(auto &x : cur) out[x.first] += x.second * s.mult / sum;
        if(out.size() > max) return false;
    }
    return true;
}

// ---------------------------------------------------------------- membership
typedef vector<bool> PosSet;
struct Matcher {
    const WordEnv &env;
    const vector<u32> &t;
    map<string, vector<vector<u32>>> words;
    map<string, map<vector<u32>, map<u32, u64>>> trans;
    bool any(const PosSet &s) { for(bool b : s) if(b) return true; return false; }
    PosSet once(const PItem &it, const PosSet &in) {
        PosSet o(t.size() + 1, false);
        switch(it.kind) {
            case PItem::CHAR: for(size_t i = 0; i < t.size(); i++) if(in[i] && t[i] == it.cp) o[i + 1] = true; break;
            case PItem::SET:
                if(it.ranges.empty()) return in;
                for(size_t i = 0; i < t.size(); i++) if(in[i]) for(auto &r : it.ranges) if(t[i] >= r.first && t[i] <= r.second) { o[i + 1] = true; break; }
                break;
            case PItem::WORD: {
                auto e = env.find(it.name);
                if(e == env.end() || !e->second.first.usable) break;
                if(!words.count(it.name)) for(auto &w : e->second.first.words) { vector<u32> c; if(utf8_dec(w, c)) words[it.name].push_back(c); }
                for(size_t i = 0; i <= t.size(); i++) if(in[i]) for(auto &w : words[it.name])
                    if(i + w.size() <= t.size() && std::equal(w.begin(), w.end(), t.begin() + i)) o[i + w.size()] = true;
                break;
            }
            case PItem::MARKOV: {
                auto e = env.find(it.name);
                if(e == env.end() || !e->second.first.markov_usable) break;
                size_t level = e->second.second;
                if(!trans.count(it.name)) trans[it.name] = e->second.first.trans(level);
                auto &tr = trans[it.name];
                for(size_t i = 0; i <= t.size(); i++) if(in[i]) {
                    vector<u32> ctx(level, 0);
                    for(size_t j = i;; j++) {
                        auto x = tr.find(ctx);
                        if(x == tr.end()) break;
                        if(x->second.count(0)) o[j] = true;
                        if(j >= t.size() || !x->second.count(t[j])) break;
                        ctx.erase(ctx.begin());
                        ctx.push_back(t[j]);
                    }
                }
                break;
            }
            case PItem::GROUP: return group(*it.group, in);
        }
        return o;
    }
    PosSet group(const PGroup &g, const PosSet &in) {
        PosSet o(t.size() + 1, false);
        for(auto &s : g.segs) {
            PosSet cur = in;
            for(auto &it : s.items) {
                PosSet res(t.size() + 1, false), acc = cur;
                for(u64 r = 0; r <= it.max && any(acc); r++) {
                    if(r >= it.min) for(size_t i = 0; i < acc.size(); i++) if(acc[i]) res[i] = true;
                    if(r == it.max) break;
                    PosSet nx = once(it, acc);
                    // nothing changes any more
                    if(nx == acc && r >= it.min) break;
                    acc = nx;
                }
                if(it.maybe) for(size_t i = 0; i < cur.size(); i++) if(cur[i]) res[i] = true;
                cur = res;
                if(!any(cur)) break;
            }
            for(size_t i = 0; i < cur.size(); i++) if(cur[i]) o[i] = true;
        }
        return o;
    }
};
bool model_member(const PGroup &g, const WordEnv &env, const vector<u32> &text) {
    Matcher m{env, text, {}, {}};
    PosSet in(text.size() + 1, false);
    in[0] = true;
    return m.group(g, in)[text.size()];
}
bool model_may_fail(const PGroup &g, const WordEnv &env) {
    for(auto &sg : g.segs)
        for(auto &it : sg.items) {
            if(it.kind == PItem::GROUP) { if(model_may_fail(*it.group, env)) return true; }
            else if(it.kind == PItem::WORD || it.kind == PItem::MARKOV) {
                auto e = env.find(it.name);
                // (a list of valid words only is usable for both)
                if(e == env.end() || !e->second.first.usable || !e->second.first.markov_usable) return true;
            }
        }
    return false;
}
void model_size(const PGroup &g, const WordEnv &env, double &chars, double &draws) {
    double bc = 0, bd = 0;
    for(auto &s : g.segs) {
        double c = 0, d = 1;
        for(auto &it : s.items) {
            double ic = 1, id = 1;
            if(it.kind == PItem::GROUP) model_size(*it.group, env, ic, id);
            if(it.kind == PItem::WORD || it.kind == PItem::MARKOV) {
                ic = 0;
                auto e = env.find(it.name);
                if(e != env.end()) for(auto &w : e->second.first.words) ic = std::max(ic, (double) w.size());
                if(it.kind == PItem::MARKOV) { ic *= 20; id = ic; }
            }
            c += ic * it.max;
            d += 2 + id * it.max;
        }
        bc = std::max(bc, c);
        bd = std::max(bd, d);
    }
    chars = bc;
    draws = bd;
}

// ---------------------------------------------------------------- JSON
const Json *Json::get(const char *name) const {
    for(auto &p : obj) if(utf8_enc(p.first) == name) return &p.second;
    return nullptr;
}
namespace {
struct JP {
    const vector<u32> &t;
    size_t p = 0;
    string err;
    bool fail(const char *e) { if(err.empty()) err = strf("%s at %zu", e, p); return false; }
    void ws() { while(p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) p++; }
    bool lit(const char *s) { for(; *s; s++, p++) if(p >= t.size() || t[p] != (u32) *s) return fail("literal"); return true; }
    bool hex4(u32 &v) {
        v = 0;
        for(int i = 0; i < 4; i++, p++) {
            if(p >= t.size() || t[p] > 127 || !isxdigit(t[p])) return fail("bad escape");
            v = v * 16 + (t[p] <= '9' ? t[p] - '0' : (t[p] | 32) - 'a' + 10);
        }
        return true;
    }
    bool str(vector<u32> &o) {
        if(p >= t.size() || t[p] != '"') return fail("string expected");
        p++;
        for(;;) {
            if(p >= t.size()) return fail("unterminated string");
            u32 c = t[p];
            if(c == '"') { p++; return true; }
            if(c < 0x20) return fail("control character in string");
            if(c != '\\') { o.push_back(c); p++; continue; }
            p++;
            if(p >= t.size()) return fail("bad escape");
            c = t[p++];
            switch(c) {
                case '"': case '\\': case '/': o.push_back(c); break;
                case 'b': o.push_back(8); break;
                case 'f': o.push_back(12); break;
                case 'n': o.push_back(10); break;
                case 'r': o.push_back(13); break;
                case 't': o.push_back(9); break;
                case 'u': {
                    u32 v;
                    if(!hex4(v)) return false;
                    if(v >= 0xd800 && v < 0xdc00) {
                        u32 lo;
                        if(p + 1 >= t.size() || t[p] != '\\' || t[p + 1] != 'u') return fail("lone surrogate");
                        p += 2;
                        if(!hex4(lo)) return false;
                        if(lo < 0xdc00 || lo > 0xdfff) return fail("lone surrogate");
                        v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
                    } else if(v >= 0xdc00 && v <= 0xdfff) return fail("lone surrogate");
                    o.push_back(v);
                    break;
                }
                default: return fail("bad escape");
            }
        }
    }
    bool num(Json &j) {
        string s;
        auto dig = [&]() { size_t n = 0; while(p < t.size() && t[p] >= '0' && t[p] <= '9') { s += (char) t[p++]; n++; } return n; };
        if(p < t.size() && t[p] == '-') { s += '-'; p++; }
        size_t st = p;
        if(!dig()) return fail("number");
        if(p - st > 1 && t[st] == '0') return fail("leading zero");
        if(p < t.size() && t[p] == '.') { s += '.'; p++; if(!dig()) return fail("number"); }
        if(p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
            s += 'e'; p++;
            if(p < t.size() && (t[p] == '+' || t[p] == '-')) s += (char) t[p++];
            if(!dig()) return fail("number");
        }
        j.kind = Json::NUM;
        j.num = strtod(s.c_str(), nullptr);
        return true;
    }
    bool value(Json &j, int depth) {
        ws();
        if(p >= t.size()) return fail("value expected");
        if(depth > 100) return fail("nested");
        u32 c = t[p];
        if(c == '"') { j.kind = Json::STR; return str(j.str); }
        if(c == '[') {
            j.kind = Json::ARR;
            p++;
            ws();
            if(p < t.size() && t[p] == ']') { p++; return true; }
            for(;;) {
                Json e;
                if(!value(e, depth + 1)) return false;
                j.arr.push_back(std::move(e));
                ws();
                if(p < t.size() && t[p] == ',') { p++; continue; }
                if(p < t.size() && t[p] == ']') { p++; return true; }
                return fail("array");
            }
        }
        if(c == '{') {
            j.kind = Json::OBJ;
            p++;
            ws();
            if(p < t.size() && t[p] == '}') { p++; return true; }
            for(;;) {
                ws();
                vector<u32> k;
                if(!str(k)) return false;
                ws();
                if(p >= t.size() || t[p] != ':') return fail("object");
                p++;
                Json e;
                if(!value(e, depth + 1)) return false;
                for(auto &o : j.obj) if(o.first == k) return fail("duplicate key");
                j.obj.push_back({k, std::move(e)});
                ws();
                if(p < t.size() && t[p] == ',') { p++; continue; }
                if(p < t.size() && t[p] == '}') { p++; return true; }
                return fail("object");
            }
        }
        if(c == 't') { j.kind = Json::BOOL; j.num = 1; return lit("true"); }
        if(c == 'f') { j.kind = Json::BOOL; return lit("false"); }
        if(c == 'n') { return lit("null"); }
        return num(j);
    }
};
}
optional<Json> parse_json(const string &s, string *why) {
    vector<u32> cps;
    if(!utf8_dec(s, cps)) { if(why) *why = "not valid UTF-8"; return {}; }
    JP jp{cps, 0, ""};
    Json j;
    if(!jp.value(j, 0)) { if(why) *why = jp.err; return {}; }
    jp.ws();
    if(jp.p != cps.size()) { if(why) *why = "text after the value"; return {}; }
    return j;
}
