// Reference models, written from the documentation and independent of the code under test.
#pragma once
#include "sim.h"

// ---------------------------------------------------------------- text
bool utf8_dec(const string &s, vector<u32> &out);
void utf8_put(string &s, u32 c);
string utf8_enc(const vector<u32> &v);
string show(const string &s, size_t max = 80);

// ---------------------------------------------------------------- cryptography
void ref_chacha20(const u8 key[32], const u8 iv[8], u64 block, u8 out[64]);
void ref_blake2b(u8 *out, size_t outlen, const bytes &in);
// Argon2id as documented: 8 blocks, 8 passes, 1 lane, salt "passgen", secret domain, associated data token
void ref_argon2id(u8 out[32], const string &pass, const string &domain, const string &token);

// ---------------------------------------------------------------- randomness
struct ShortSource {};
struct ByteSource {
    std::function<u8(u64)> f;
    u64 limit = ~0ull;
    u8 at(u64 p) const { if(p >= limit) throw ShortSource(); return f(p); }
};
struct Draws {
    const ByteSource *src;
    u64 pos = 0, ndraws = 0;
    // when set: pick the outcomes here and record the bytes that lead to them
    std::function<u64(u64 max)> choose;
    bytes script;
    u64 next(u64 max);
    bool boolean();
};
// source for a description, nullopt if the description is not valid
struct WorldCfg;
optional<ByteSource> source_of(const string &desc, const WorldCfg &w, bool &uses_system, string *path = nullptr);
ByteSource argon_source(const string &pass, const string &domain, const string &token);
ByteSource chacha_source(const u8 key[32], const u8 iv[8]);
ByteSource xorshift_source(u64 seed);
ByteSource stream_source(const Stream &s);

// ---------------------------------------------------------------- patterns
struct PGroup;
struct PItem {
    enum Kind { CHAR, SET, WORD, MARKOV, GROUP } kind = CHAR;
    u32 cp = 0;
    vector<std::pair<u32, u32>> ranges;
    string name;
    std::shared_ptr<PGroup> group;
    u64 min = 1, max = 1;
    bool maybe = false;
};
struct PSeg { u64 mult = 1; vector<PItem> items; };
struct PGroup { vector<PSeg> segs; u64 sum() const { u64 s = 0; for(auto &g : segs) s += g.mult; return s; } };
struct Unsupported { string why; };
// text that is certainly not a pattern: whatever else it contains, it is refused
struct Malformed : Unsupported { explicit Malformed(const char *w) : Unsupported{w} {} };
// throws Unsupported for everything outside of the modelled grammar
PGroup parse_pattern(const string &utf8);

struct Words {
    bool usable = false;       // can words be taken from it
    bool markov_usable = false;
    vector<string> words;
    // transitions: context of n characters, next character (0: end) and number of occurrences
    map<vector<u32>, map<u32, u64>> trans(size_t level) const;
};
Words read_words(const string &content);
typedef map<string, std::pair<Words, size_t>> WordEnv;  // with the length of the markov chain

struct GenFail { string why; };
struct MarkovUsed {};
struct GenOut { vector<u32> out; double bits = 0; };
// throws GenFail, ShortSource, MarkovUsed
GenOut model_generate(const PGroup &g, const WordEnv &env, Draws &d, int depth = 1024);
// exact distribution of the outputs, false if it has more than max members
bool model_distribution(const PGroup &g, const WordEnv &env, size_t max, map<string, double> &out);
// is this text a member of the language
bool model_member(const PGroup &g, const WordEnv &env, const vector<u32> &text);
// does it depend on the choices taken whether a sequence can be generated
bool model_may_fail(const PGroup &g, const WordEnv &env);
// largest number of characters and of random draws
void model_size(const PGroup &g, const WordEnv &env, double &chars, double &draws);

// ---------------------------------------------------------------- JSON
struct Json {
    enum Kind { NUL, BOOL, NUM, STR, ARR, OBJ } kind = NUL;
    double num = 0;
    vector<u32> str;
    vector<Json> arr;
    vector<std::pair<vector<u32>, Json>> obj;
    const Json *get(const char *name) const;
};
// strict
optional<Json> parse_json(const string &s, string *why = nullptr);

// ---------------------------------------------------------------- command line
struct CliModel {
    bool known = false;    // false: no expectation about the result
    bool help = false, version = false, list = false;
    int code = 0;          // expected exit status
    bool source_may_stop = false;  // the randomness source is too short
    bool json = false, null = false, entropy = false, markov = false;
    u64 amount = 1;
    string pattern;
    PGroup group;
    bool parsed = false;
    WordEnv words;
    vector<vector<u32>> outs;
    vector<double> bits;
    map<string, string> presets;
    string random_desc;    // description of the source in effect, "" for the system
    string expect_out;     // exact standard output
    bool expect_exact = false;
    vector<string> alternatives;  // further acceptable outputs
    string why;
};
CliModel model_cli(const WorldCfg &w);
