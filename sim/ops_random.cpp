// Operations on randomness objects, driven by the lines of a case.
#include "props.h"
#include <cstdlib>

vector<Property *> &property_list() {
    static vector<Property *> l;
    return l;
}
void register_properties(vector<Property *> &v) {
    v = property_list();
}
bool is_random_op(const string &k) {
    static const std::set<string> s = {"open", "read", "draw", "max", "reload", "seek", "close"};
    return s.count(k);
}
static bytes hex(const string &s) {
    bytes b;
    for(size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(strtoul(s.substr(i, 2).c_str(), nullptr, 16));
    return b;
}
#define NOBJ 8
void exec_random_ops(const vector<Line> &ops) {
    static RandObj obj[NOBJ];
    for(u32 i = 0; i < ops.size(); i++) {
        const Line &l = ops[i];
        if(!is_random_op(l[0])) continue;
        RandObj &o = obj[l.num(1) % NOBJ];
        u64 before = entropy_delivered();
        string out;
        bool ok = true;
        if(l[0] == "open") {
            if(o.r) continue;
            o.heap = l[4] != "obj";
            passgen_random *at = nullptr;
            if(!o.heap) {
                o.store.assign(sizeof(passgen_random), 0xa7);
                at = (passgen_random *) o.store.data();
            }
            o.path = l[3];
            o.file = false;
            rec_num(0x4f50454e, 4);   // so that an open that never returns is visible
            rec_num(i, 4);
            rec_num(before, 8);
            if(l[2] == "system") o.r = passgen_random_system_open(at);
            else if(l[2] == "default") o.r = passgen_random_open(at, nullptr);
            else if(l[2] == "desc") { o.r = passgen_random_open(at, l[3].c_str()); }
            else if(l[2] == "path") { o.r = passgen_random_path_open(at, l[3].c_str()); o.file = true; }
            else if(l[2] == "file") { FILE *f = sim_file(l[3]); o.r = f ? passgen_random_file_open(at, f) : nullptr; o.file = true; }
            else if(l[2] == "xorshift") o.r = passgen_random_xorshift_open(at, l.num(3));
            else if(l[2] == "zero") o.r = passgen_random_zero_open(at);
            else if(l[2] == "chacha") { bytes k = hex(l[3]), v = hex(l[5]); k.resize(32); v.resize(8); o.r = passgen_random_chacha20_open(at, k.data(), v.data()); }
            else if(l[2] == "argon")
                o.r = passgen_random_chacha20_argon2_open(at, (const u8 *) l[3].c_str(), l[5] == "-" ? nullptr : (const u8 *) l[5].c_str(),
                                                          l[6] == "-" ? nullptr : (const u8 *) l[6].c_str(), nullptr);
            ok = o.r != nullptr;
        } else {
            if(!o.r) continue;
            if(l[0] == "read") {
                u64 n = l.num(2);
                if(n > 1 << 20) n = 1 << 20;
                u8 *b = (u8 *) malloc(n + 1);
                memset(b, 0x5c, n + 1);
                passgen_random_read(o.r, b, n);
                out.assign((char *) b, n);
                free(b);
            } else if(l[0] == "draw") {
                u64 v = 0;
                int w = l.num(2);
                if(w == 8) { v = passgen_random_u8(o.r); out.assign((char *) &v, 1); }
                else if(w == 16) { v = passgen_random_u16(o.r); out.assign((char *) &v, 2); }
                else if(w == 32) { v = passgen_random_u32(o.r); out.assign((char *) &v, 4); }
                else if(w == 64) { v = passgen_random_u64(o.r); out.assign((char *) &v, 8); }
                else if(w == 1) { v = passgen_random_bool(o.r); out.assign((char *) &v, 1); }
            } else if(l[0] == "max") {
                u64 v = 0, m = l.num(3), times = l.num(4) ? l.num(4) : 1;
                int w = l.num(2);
                if(!m || (w < 64 && m >> w)) continue;
                for(u64 k = 0; k < times; k++) {
                    v = w == 8 ? passgen_random_u8_max(o.r, m) : w == 16 ? passgen_random_u16_max(o.r, m) : w == 32 ? passgen_random_u32_max(o.r, m) : passgen_random_u64_max(o.r, m);
                    out.append((char *) &v, 8);
                }
            } else if(l[0] == "reload") passgen_random_reload(o.r);
            else if(l[0] == "seek") passgen_random_chacha20_seek(o.r, l.num(2));
            else if(l[0] == "close") {
                if(o.heap) passgen_random_free(o.r);
                else passgen_random_close(o.r);
                o.r = nullptr;
            }
        }
        rec_num(0x52454321, 4);
        rec_num(i, 4);
        rec_num(ok, 1);
        rec_num(before, 8);
        rec_num(entropy_delivered(), 8);
        blob_str(out);
    }
    rec_num(0x454e4421, 4);
}
vector<RandRec> read_random_recs(const string &blob) {
    vector<RandRec> v;
    Reader r(blob);
    while(r.more()) {
        u32 tag = r.num(4);
        if(tag == 0x4f50454e) { r.num(4); r.num(8); continue; }
        if(tag != 0x52454321) break;
        RandRec x;
        x.op = r.num(4);
        x.ok = r.num(1);
        x.ent0 = r.num(8);
        x.ent1 = r.num(8);
        x.data = r.str();
        v.push_back(x);
    }
    return v;
}
