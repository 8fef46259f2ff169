// Generators of patterns, wordlists, configurations and command lines.
#pragma once
#include "model.h"

struct PatOpts {
    int depth = 3;
    bool unicode = true, escapes = true, groups = true, sets = true, reps = true, maybe = true, weights = true;
    vector<string> words;    // names of wordlists for \w
    vector<string> markov;   // names for \m
    double budget = 300;     // characters of output
    bool small = false;      // few possible outputs
    bool controls = true;
    bool overlap = false;    // sets that name characters more than once
};
string gen_pattern(Rng &r, const PatOpts &o);
// more alternatives, items, ranges or levels than one piece of the parser's stacks holds
string gen_wide(Rng &r);
string gen_word(Rng &r, bool unicode);
string gen_broken_utf8(Rng &r);
// adds a file to the case, with contents around the interesting sizes
void gen_wordlist(Rng &r, Case &c, const string &path, bool big, bool unicode);

enum {
    G_WORDS = 1, G_MARKOV = 2, G_CONFIG = 4, G_DETERMINISTIC = 8, G_INVALID = 16, G_SPLIT = 32, G_JSON = 64, G_OUTFAULT = 128,
    G_READFAULT = 256, G_ENTFAULT = 512, G_BIG = 1024, G_ENTROPY = 2048, G_LIST = 4096, G_FILESOURCE = 8192, G_RAWBYTES = 16384
};
void gen_world(Rng &r, Case &c);
string boundary_name(Rng &r);
void gen_cli(Rng &r, Case &c, unsigned flags);
u32 gen_codepoint(Rng &r, bool unicode, bool controls);
string escape_literal(u32 c);
