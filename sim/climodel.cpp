// Model of the command line tool: configuration, options, generation.
#include "model.h"
#include <cerrno>
#include <climits>
#include <cstdlib>

static bool starts(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

namespace {
struct Stop { int code; };
struct Unknown { string why; };
struct M {
    const WorldCfg &w;
    CliModel m;
    size_t level = 3;
    bool have_source = false, final_system = false;
    optional<ByteSource> source;
    u64 system_opens = 0, system_start = 0;
    string source_desc, source_path;

    void open_source(const string &desc) {
        bool sys;
        string path;
        optional<ByteSource> s;
        if(starts(desc, "file:")) {
            s = source_of(desc, w, sys, &path);
        } else s = source_of(desc, w, sys);
        if(!s) throw Stop{2};
        if(s->limit < 1024) m.source_may_stop = true;
        have_source = true;
        final_system = sys;
        system_start = system_opens * 1024;
        if(sys) system_opens++;
        source = s;
        source_desc = desc;
    }
    void wordlist(const string &arg, bool config) {
        size_t c = arg.find(':');
        if(c == string::npos) { if(config) return; throw Stop{1}; }
        string name = arg.substr(0, c), path = arg.substr(c + 1);
        auto it = w.files.find(path);
        bool ok = it != w.files.end() && !it->second.open_errno;
        Words wd;
        if(ok) {
            const FileSpec &f = it->second;
            if(f.is_dev) throw Unknown{"wordlist from a device"};
            // a directory can be opened, but not read
            if(f.type != "dir" && !(f.fault_at <= f.content.size() && f.fault_errno)) {
                string content = f.content;
                if(f.fault_at < content.size()) content.resize(f.fault_at);
                wd = read_words(content);
            }
        }
        m.words[name] = {wd, level};
        if(!ok && !config) throw Stop{1};
    }
    void preset(const string &arg) {
        size_t c = arg.find(':');
        if(c == string::npos) throw Stop{1};
        m.presets[arg.substr(0, c)] = arg.substr(c + 1);
    }
    void config(const string &path) {
        auto it = w.files.find(path);
        if(it == w.files.end() || it->second.open_errno) return;
        const FileSpec &f = it->second;
        if(f.is_dev) throw Unknown{"device as configuration"};
        if(f.type == "dir" || (f.fault_at <= f.content.size() && f.fault_errno)) throw Stop{1};
        string c = f.content;
        if(f.fault_at < c.size()) c.resize(f.fault_at);
        size_t nul = c.find('\0');
        if(nul != string::npos) c.resize(nul);
        for(size_t p = 0; p < c.size();) {
            size_t q = c.find('\n', p);
            if(q == string::npos) q = c.size();
            string l = c.substr(p, q - p);
            p = q + 1;
            if(l.empty() || l[0] == '#') continue;
            const char *kws[] = {"random", "wordlist", "preset"};
            int kw = -1;
            for(int i = 0; i < 3; i++) if(starts(l, kws[i])) kw = i;
            if(kw < 0) {
                // lines with anything else are ignored
                for(int i = 0; i < 3; i++) if(l.find(kws[i]) != string::npos) throw Unknown{"keyword inside of a line"};
                if(l.find('#') != string::npos) throw Unknown{"comment inside of a line"};
                continue;
            }
            size_t a = strlen(kws[kw]);
            if(a >= l.size() || (l[a] != ' ' && l[a] != '\t')) throw Unknown{"configuration line"};
            while(a < l.size() && (l[a] == ' ' || l[a] == '\t')) a++;
            string arg = l.substr(a);
            if(kw == 0) open_source(arg);
            else if(kw == 1) wordlist(arg, true);
            else preset(arg);
        }
    }
    static int to_int(const string &s) {
        errno = 0;
        long v = strtol(s.c_str(), nullptr, 10);
        if(errno || v < INT_MIN || v > INT_MAX) return 0;
        return v;
    }
    void run() {
        static const char *defaults[][2] = {
            {"apple1", "([a-zA-Z0-9]{3}-){3}[a-zA-Z0-9]{3}"},
            {"apple2", "([a-zA-Z0-9]{6}-){2}[a-zA-Z0-9]{6}"},
            {"uuid", "[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}"},
            {"edge", "[A-Za-f0-9:_\\-]{15}"},
            {"firefox", "[a-zA-Z0-9]{15}"}};
        for(auto &d : defaults) m.presets[d[0]] = d[1];
        for(int i = 1; i <= 8; i++)
            m.presets[strf("proquint%d", i * 16)] =
                strf("([bdfghjklmnprstvz][aiou]){2}[bdfghjklmnprstvz](-([bdfghjklmnprstvz][aiou]){2}[bdfghjklmnprstvz]){%d}", i - 1);
        config("/etc/passgen.conf");
        auto x = w.env.find("XDG_CONFIG_PATH"), h = w.env.find("HOME");
        if(x != w.env.end()) config(x->second + "/passgen.conf");
        else if(h != w.env.end()) config(h->second + "/.config/passgen.conf");

        static const map<string, char> longs = {
            {"amount", 'a'}, {"help", 'h'}, {"preset", 'p'}, {"depth", 'D'}, {"version", 'v'}, {"null", 'z'}, {"entropy", 'e'}, {"wordlist", 'w'},
            {"random", 'r'}, {"list", 'l'}, {"define-preset", 'P'}, {"json", 'j'}, {"markov-length", 'M'}, {"master", 'm'}, {"domain", 'd'}, {"token", 't'}};
        string opts_arg = "apPdwrmDMt", opts_flag = "ezhvjl";
        vector<string> operands;
        optional<string> master, domain, token, preset_name;
        bool random_option = false;
        auto option = [&](char o, const string &v) {
            switch(o) {
                case 'a': { int n = to_int(v); if(n < 1) throw Stop{5}; m.amount = n; break; }
                case 'M': { int n = to_int(v); if(n < 1 || n > 255) throw Stop{6}; level = n; break; }
                case 'h': m.help = true; throw Stop{0};
                case 'v': m.version = true; throw Stop{0};
                case 'l': m.list = true; throw Stop{0};
                case 'm': master = v; break;
                case 'd': domain = v; break;
                case 't': token = v; break;
                case 'p': preset_name = v; break;
                case 'z': m.null = true; break;
                case 'e': m.entropy = true; break;
                case 'j': m.json = true; break;
                case 'w': wordlist(v, false); break;
                case 'r': open_source(v); random_option = true; break;
                case 'P': preset(v); break;
                default: break;
            }
        };
        const auto &a = w.args;
        for(size_t i = 0; i < a.size(); i++) {
            const string &s = a[i];
            if(s.find('\0') != string::npos) throw Unknown{"zero byte in an argument"};
            if(s == "--") { for(i++; i < a.size(); i++) operands.push_back(a[i]); break; }
            if(s.size() < 2 || s[0] != '-') { operands.push_back(s); continue; }
            if(s[1] == '-') {
                size_t eq = s.find('=');
                string name = s.substr(2, eq == string::npos ? string::npos : eq - 2);
                auto it = longs.find(name);
                if(it == longs.end()) {
                    for(auto &l : longs) if(l.first.compare(0, name.size(), name) == 0) throw Unknown{"abbreviated option"};
                    throw Stop{7};
                }
                bool arg = opts_arg.find(it->second) != string::npos;
                if(!arg) { if(eq != string::npos) throw Stop{7}; option(it->second, ""); continue; }
                if(eq != string::npos) option(it->second, s.substr(eq + 1));
                else if(i + 1 < a.size()) option(it->second, a[++i]);
                else throw Stop{7};
                continue;
            }
            for(size_t k = 1; k < s.size(); k++) {
                if(opts_flag.find(s[k]) != string::npos) { option(s[k], ""); continue; }
                if(opts_arg.find(s[k]) == string::npos) throw Stop{7};
                if(k + 1 < s.size()) option(s[k], s.substr(k + 1));
                else if(i + 1 < a.size()) option(s[k], a[++i]);
                else throw Stop{7};
                break;
            }
        }
        optional<string> pattern;
        if(preset_name) {
            auto it = m.presets.find(*preset_name);
            if(it == m.presets.end()) throw Stop{8};
            pattern = it->second;
        }
        if(!operands.empty()) {
            if(pattern || operands.size() > 1) throw Stop{1};
            pattern = operands[0];
        }
        if(!pattern) { m.help = true; throw Stop{0}; }
        m.pattern = *pattern;
        if(!random_option && master) {
            source = argon_source(*master, domain.value_or(""), token.value_or(""));
            source_desc = "chacha20-argon2:" + *master + ":" + domain.value_or("") + ":" + token.value_or("");
            final_system = false;
            have_source = true;
        }
        if(!have_source) open_source("system");
        m.random_desc = source_desc;
        try {
            m.group = parse_pattern(m.pattern);
            m.parsed = true;
        } catch(Malformed &) { throw Stop{3}; }
        catch(Unsupported &u) { throw Unknown{"pattern: " + u.why}; }

        vector<u64> starts_at = {final_system ? system_start : 0};
        if(final_system && system_opens > 1) for(u64 k = 0; k + 1 < system_opens; k++) starts_at.push_back(k * 1024);
        m.expect_exact = true;
        double chars, draws;
        model_size(m.group, m.words, chars, draws);
        if(chars * m.amount > 2e7 || draws * m.amount > 5e6) throw Unknown{"too large"};
        for(size_t s = 0; s < starts_at.size(); s++) {
            Draws d;
            d.src = &*source;
            d.pos = starts_at[s];
            string text;
            int code = 0;
            vector<vector<u32>> outs;
            vector<double> bits;
            try {
                for(u64 i = 0; i < m.amount; i++) {
                    GenOut o = model_generate(m.group, m.words, d);
                    if(i) text += m.null ? '\0' : '\n';
                    text += utf8_enc(o.out);
                    outs.push_back(o.out);
                    bits.push_back(o.bits);
                    if(text.size() > 7000000) throw Unknown{"output too large"};
                }
            } catch(GenFail &f) { code = 9; m.why = f.why; }
            catch(ShortSource &) { m.source_may_stop = true; throw Unknown{"short source"}; }
            catch(MarkovUsed &) {
                // what follows depends on the words the chain makes
                m.markov = true;
                m.expect_exact = false;
                if(model_may_fail(m.group, m.words)) throw Unknown{"Markov chain and unusable lists"};
                if(source->limit != ~0ull) m.source_may_stop = true;
                // a chain can follow a circle for ever when the source repeats itself
                bool cycle = m.random_desc == "zero" || m.random_desc.compare(0, 8, "xorshift") == 0 || m.random_desc.compare(0, 5, "file:") == 0;
                if(cycle || ((m.random_desc.empty() || m.random_desc == "system") && w.ent.kind != "prng")) throw Unknown{"Markov chain and a repetitive source"};
            }
            text += "\n";
            // the randomness source is read in blocks
            if(source->limit != ~0ull && (d.pos / 1024 + 1) * 1024 > source->limit) m.source_may_stop = true;
            if(s == 0) { m.outs = outs; m.bits = bits; m.expect_out = text; m.code = code; }
            else m.alternatives.push_back(text);
        }
    }
};
}

CliModel model_cli(const WorldCfg &w) {
    M x{w};
    try {
        x.run();
        x.m.known = true;
    } catch(Stop &s) { x.m.code = s.code; x.m.known = true; }
    catch(Unknown &u) { x.m.known = false; x.m.why = u.why; }
    // anything can go wrong when memory is short
    if(!w.alloc_fail.empty() || w.alloc_fail_from != ~0ull) x.m.known = false;
    return x.m;
}
