// The public interface of the code under test.
#pragma once
extern "C" {
#include <passgen/random.h>
#include <passgen/generate.h>
#include <passgen/passgen.h>
#include <passgen/pattern/env.h>
#include <passgen/markov.h>
#include <passgen/wordlist.h>
#include <passgen/container/hashmap.h>
#include <passgen/util/utf8.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/container/stack.h>
#include <passgen/container/array.h>
#include <passgen/error.h>
}
