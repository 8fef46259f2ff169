From 5e265c60767e65ccaa10473be6728e8421840ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 01/36] fix: hand out unused bytes when a draw straddles the
 random buffer

When a draw did not fit in the rest of the buffer, the leftover bytes were
copied from the start of the buffer, which had already been handed out.
---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index b2f601d..b37bba9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -42,7 +42,7 @@ void passgen_random_read(passgen_random *random, void *data, size_t bytes) {
         } else {
             // if we don't have enough, copy over whatever we have and
             // reload.
-            memcpy(data, random->buffer, left);
+            memcpy(data, &random->buffer[random->pos], left);
             passgen_random_reload(random);
 
             // if there's more to be read, recurse.
-- 
2.43.0


From c4cbc927327525965caaa87bcae2c6501f83c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 02/36] fix: stop when a randomness source delivers too little
 in release builds

Release builds drop passgen_assert, so a short or failed read (EOF on a file,
EINTR or an error from getrandom) silently left stale or uninitialised bytes
in the buffer that were then used as randomness.
---
 src/random/random.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index b37bba9..a132a66 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -21,10 +21,18 @@ void passgen_random_reload(passgen_random *random) {
     // read random data.
     size_t bytes =
         random->read(random->context, &random->buffer, sizeof(random->buffer));
-    (void) bytes;
 
-    // make sure we've read enough.
-    passgen_assert(bytes == sizeof(random->buffer));
+    // make sure we've read enough, whatever the build type: handing out bytes
+    // that the source did not deliver would produce predictable output.
+    if(bytes != sizeof(random->buffer)) {
+        fprintf(
+            stderr,
+            "Error reading from randomness source: trying to read %zu "
+            "bytes but got %zu\n",
+            sizeof(random->buffer),
+            bytes);
+        abort();
+    }
 
     // reset position in ring buffer.
     random->pos = 0;
-- 
2.43.0


From 281538253ce4f6168a5ab7e06c7e6b7be5a5d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 03/36] fix: count optional items in the reported entropy

Deciding whether an optional item is emitted takes one bit of randomness, but
it was not accounted for: 'a?' was reported as zero bits.
---
 src/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index e6dacb6..7189f0c 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -456,6 +456,11 @@ static int passgen_generate_item(
     // if it is a maybe (has a question mark following it), decide first if we
     // want to emit it or not.
     if(item->maybe) {
+        // keep track of entropy: either outcome is one of two choices.
+        if(context->entropy) {
+            *context->entropy *= 2;
+        }
+
         if(!passgen_random_bool(context->env->random)) {
             return 0;
         }
-- 
2.43.0


From 44fbd65e5360e3ca37716ee16f76d1fc61c908ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 04/36] fix: compare whole code points when parsing patterns

The parser truncated code points to eight bits before looking for special
characters, so that for example U+015B was taken for '[' and U+017C for '|'.
---
 src/parser/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 715562f..02ff7a6 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -237,7 +237,7 @@ int passgen_parse_group(
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
             case '(':
             case ')':
@@ -262,7 +262,7 @@ int passgen_parse_group(
                 return -1;
         }
     } else {
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
-- 
2.43.0


From bee0d16b08c87986721a57173e0bf22be4ff9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:47 +0000
Subject: [PATCH 05/36] fix: handle an escaped character at the end of a set
 range

The escape marker bit was kept in the end of the range, so that '[ -\-]'
described a range of about 2^30 characters, most of them not code points.
---
 src/parser/parser.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 02ff7a6..cfa53f9 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -408,11 +408,20 @@ int passgen_parse_set_range(
         return -1;
     }
 
-    if(token->codepoint < state->data.set.range->start) {
+    uint32_t codepoint = token->codepoint;
+    if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
+        // just like at the start of a range, only a dash may be escaped.
+        codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
+        if(codepoint != '-') {
+            return -1;
+        }
+    }
+
+    if(codepoint < state->data.set.range->start) {
         return -1;
     }
 
-    state->data.set.range->end = token->codepoint;
+    state->data.set.range->end = codepoint;
     state->type = PASSGEN_PARSER_SET;
 
     return 0;
-- 
2.43.0


From cb42ca4973bd8f830ba5ea0aaaa063b1797a7d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 06/36] fix: reject reversed and overflowing numbers in
 repetitions

A reversed range such as 'a{5,2}' was accepted and its size wrapped around,
leading to practically endless output; large numbers wrapped silently.
---
 src/parser/parser.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index cfa53f9..09f21f5 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -427,6 +427,17 @@ int passgen_parse_set_range(
     return 0;
 }
 
+// append a decimal digit to a number, making sure that it stays small enough
+// that computations with it cannot overflow.
+static int append_digit(size_t *value, uint8_t digit) {
+    if(*value > (UINT32_MAX - digit) / 10) {
+        return -1;
+    }
+
+    *value = *value * 10 + digit;
+    return 0;
+}
+
 int passgen_parse_multiplier(
     passgen_parser *parser,
     passgen_token *token,
@@ -440,10 +451,7 @@ int passgen_parse_multiplier(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
-        *state->data.multiplier.value *= 10;
-        *state->data.multiplier.value += digit;
-
-        return 0;
+        return append_digit(state->data.multiplier.value, digit);
     }
 
     return -1;
@@ -469,10 +477,7 @@ int passgen_parse_repeat(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
-        state->data.repeat.repeat->min *= 10;
-        state->data.repeat.repeat->min += digit;
-
-        return 0;
+        return append_digit(&state->data.repeat.repeat->min, digit);
     }
 
     return -1;
@@ -483,6 +488,11 @@ int passgen_parse_repeat_range(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        // the range must not be reversed.
+        if(state->data.repeat.repeat->max < state->data.repeat.repeat->min) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
@@ -490,10 +500,7 @@ int passgen_parse_repeat_range(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
-        state->data.repeat.repeat->max *= 10;
-        state->data.repeat.repeat->max += digit;
-
-        return 0;
+        return append_digit(&state->data.repeat.repeat->max, digit);
     }
 
     return -1;
-- 
2.43.0


From 7578944f0cb67201ce7c2780225c8160b5692089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 07/36] fix: keep the sum of segment multipliers consistent

After a segment with a zero multiplier the following segment was not counted
and could never be chosen ('a|{0}b|c' never produced c), and a second
multiplier made the sum too large, reading past the last segment ('{3}{4}a').
---
 src/parser/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 09f21f5..0e56d86 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -273,6 +273,8 @@ int passgen_parse_group(
                     // if the previous segment had a zero multiplier, recycle it
                     passgen_pattern_segment_free(state->data.group.segment);
                     passgen_pattern_segment_init(state->data.group.segment);
+                    state->data.group.group->multiplier_sum +=
+                        state->data.group.segment->multiplier;
                 }
                 return 0;
             case ')':
@@ -308,8 +310,9 @@ int passgen_parse_group(
                     passgen_parser_state_push_repeat(parser, &item->repeat);
                     return 0;
                 } else {
+                    state->data.group.group->multiplier_sum -=
+                        state->data.group.segment->multiplier;
                     state->data.group.segment->multiplier = 0;
-                    state->data.group.group->multiplier_sum -= 1;
                     passgen_parser_state_push_multiplier(
                         parser,
                         &state->data.group.segment->multiplier,
-- 
2.43.0


From 31c7f535b4a974386e614970f6973bc18ac73270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:31 +0000
Subject: [PATCH 08/36] fix: refuse code points that cannot be encoded

Surrogates were emitted as invalid UTF-8, and a name containing a code point
beyond U+10FFFF made the parser move backwards in its buffer in release
builds.
---
 src/parser/parser.c | 6 ++++++
 src/util/utf8.c     | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 0e56d86..a2c16d2 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -189,6 +189,12 @@ int passgen_parse_token(passgen_parser *parser, passgen_token *token) {
         return -1;
     }
 
+    // only accept unicode scalar values, as nothing else can be encoded.
+    uint32_t codepoint = token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT;
+    if(codepoint > 0x10FFFF || (codepoint >= 0xD800 && codepoint <= 0xDFFF)) {
+        return -1;
+    }
+
     switch(state->type) {
         case PASSGEN_PARSER_GROUP:
             return passgen_parse_group(parser, token, state);
diff --git a/src/util/utf8.c b/src/util/utf8.c
index 7d7cac5..209dbdd 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -108,6 +108,11 @@ int passgen_utf8_encode_codepoint(uint8_t *out, uint32_t utf) {
         return 2;
     }
 
+    if(utf >= 0xD800 && utf <= 0xDFFF) {
+        // surrogates are not valid in UTF-8
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     if(utf <= 0xFFFF) {
         // 3-byte unicode
         out[0] = (uint8_t) (((utf >> 12) & 0x0F) | 0xE0);
-- 
2.43.0


From b93cb3cda7cb001680173ad6c3023f99a2c68c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 09/36] fix: reject UTF-8 that ends in the middle of a code
 point

A truncated sequence at the end of the input was silently dropped.
---
 src/util/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 209dbdd..f5f6693 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -75,6 +75,11 @@ int passgen_utf8_decode(
         input_offset += 1;
     }
 
+    // input must not end in the middle of a codepoint.
+    if(state != UTF8_ACCEPT) {
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     *output += output_offset;
     *input += input_offset;
 
-- 
2.43.0


From 12daa4649e3e60661d9f94c6f995999ac8b8e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:02 +0000
Subject: [PATCH 10/36] fix: escape all control characters in JSON output

JSON does not allow unescaped control characters in strings, but only some of
them were escaped, so that for example '\a' resulted in invalid JSON.
---
 src/generate.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index 7189f0c..7ade21a 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -17,6 +17,7 @@
 #include "passgen/wordlist.h"
 #include "try.h"
 
+#include <stdio.h>
 #include <string.h>
 
 typedef struct {
@@ -156,7 +157,7 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
         return -1;
     }
 
-    unsigned char buffer[4] = {'\\', 0};
+    unsigned char buffer[8] = {'\\', 0};
     size_t bytes = 2;
     switch(codepoint) {
         case '"':
@@ -181,6 +182,16 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
             buffer[1] = 't';
             break;
         default:
+            if(codepoint < 0x20) {
+                // other control characters have to be escaped as well.
+                bytes = snprintf(
+                    (char *) buffer,
+                    sizeof(buffer),
+                    "\\u%04x",
+                    (unsigned int) codepoint);
+                break;
+            }
+
             bytes = passgen_utf8_encode_codepoint(
                 (uint8_t *) &buffer[0],
                 codepoint);
-- 
2.43.0


From 894d0c8cc009640eb5fe9edb46dc4db7c89316c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 11/36] fix: report sequences that cannot be generated and
 print them completely

The command-line tool printed an empty line and exited successfully when a
sequence could not be generated, in particular whenever it was longer than
256 bytes, and cut sequences off at NUL characters. Write sequences into a
growing buffer, and exit with a non-zero status if generation fails.
---
 include/passgen/util/utf8.h |   5 ++
 man/passgen.1.in            |   2 +
 src/cli/passgen.c           | 126 +++++++++++++++++++++++++-----------
 src/cli/passgen.h           |   1 +
 src/generate.c              |  42 +-----------
 src/util/utf8.c             |  37 +++++++++++
 6 files changed, 134 insertions(+), 79 deletions(-)

diff --git a/include/passgen/util/utf8.h b/include/passgen/util/utf8.h
index 2d86e2a..92aa45e 100644
--- a/include/passgen/util/utf8.h
+++ b/include/passgen/util/utf8.h
@@ -61,5 +61,10 @@ int passgen_utf8_encode(
 /// Encode a single codepoint.
 int passgen_utf8_encode_codepoint(uint8_t *out, uint32_t codepoint);
 
+/// Encode a single codepoint, escaped such that it can be part of a JSON string.
+///
+/// @param out Output buffer, must have space for seven bytes.
+int passgen_utf8_encode_codepoint_json(uint8_t *out, uint32_t codepoint);
+
 /// Given an error (negative return value), returns a string describing it.
 const char *passgen_utf8_error(int retval);
diff --git a/man/passgen.1.in b/man/passgen.1.in
index cfa48e2..3d6b4c0 100644
--- a/man/passgen.1.in
+++ b/man/passgen.1.in
@@ -251,6 +251,8 @@ Unrecognized argument flag. Make sure that you are not using an incorrect flag.
 Preset not found. Make sure that the preset you have specified exists. When it doubt, use the
 .Fl -list
 command to see the full list of all presets that the tool knows about.
+.It Ar 9
+A sequence could not be generated, for example because the pattern refers to a wordlist that has not been loaded or cannot be read.
 .El
 .Sh SEE ALSO
 .Xr apg 1 ,
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 37d643b..f381d8c 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -61,16 +61,70 @@ int passgen_cli_run(passgen_cli_opts opts) {
     return ret;
 }
 
+// Growing buffer that a generated sequence is written to.
+struct output {
+    uint8_t *data;
+    size_t len;
+    size_t capacity;
+    bool json;
+    bool failed_alloc;
+};
+
+// Encode a codepoint and append it to the output buffer.
+static int output_codepoint(void *data, uint32_t codepoint) {
+    struct output *output = data;
+
+    // make sure there is space for any encoded codepoint
+    if(output->capacity - output->len < 8) {
+        size_t capacity = output->capacity ? 2 * output->capacity : 256;
+        uint8_t *new_data = realloc(output->data, capacity);
+        if(!new_data) {
+            output->failed_alloc = true;
+            return -1;
+        }
+        output->data = new_data;
+        output->capacity = capacity;
+    }
+
+    uint8_t *dest = &output->data[output->len];
+    int bytes = output->json
+                    ? passgen_utf8_encode_codepoint_json(dest, codepoint)
+                    : passgen_utf8_encode_codepoint(dest, codepoint);
+    if(bytes < 0) {
+        return -1;
+    }
+
+    output->len += bytes;
+    return 0;
+}
+
+// Generate a sequence into the output buffer, replacing its previous content.
+static int output_generate(
+    struct output *output,
+    passgen_cli_opts *opts,
+    passgen_pattern *pattern,
+    double *entropy) {
+    output->len = 0;
+    int ret = passgen_generate(
+        pattern,
+        &opts->env,
+        opts->entropy ? entropy : NULL,
+        output,
+        output_codepoint);
+    if(ret != 0) {
+        return passgen_cli_bail(
+            output->failed_alloc ? PASSGEN_ERROR_ALLOC : PASSGEN_ERROR_GENERATE,
+            NULL);
+    }
+
+    return 0;
+}
+
 int passgen_cli_generate_normal(
     passgen_cli_opts opts,
     passgen_pattern *pattern) {
-    // allocate some space for pass.
-    // size_t pass_len = pattern_maxlen(pattern);
-    size_t pass_len = 256;
-    uint8_t *pass = malloc(pass_len + 1);
-    if(!pass) {
-        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
-    }
+    struct output output = {.json = false};
+    int ret = 0;
 
     char sep = '\n';
     if(opts.null) {
@@ -78,54 +132,43 @@ int passgen_cli_generate_normal(
     }
 
     for(size_t i = 0; i < opts.amount; ++i) {
-        // get a NULL-terminated, random pass.
         double entropy;
-        size_t written = passgen_generate_fill_utf8(
-            pattern,
-            &opts.env,
-            opts.entropy ? &entropy : NULL,
-            pass,
-            pass_len);
-        pass[written] = '\0';
+        ret = output_generate(&output, &opts, pattern, &entropy);
+        if(ret != 0) {
+            break;
+        }
 
         if(opts.entropy) {
             fprintf(stderr, "entropy: %.2lf bits\n", log(entropy) / log(2));
         }
 
-        if(i == 0) {
-            printf("%s", pass);
-        } else {
-            printf("%c%s", sep, pass);
+        if(i != 0) {
+            printf("%c", sep);
         }
+        fwrite(output.data, 1, output.len, stdout);
     }
 
     printf("\n");
-    free(pass);
+    free(output.data);
 
-    return 0;
+    return ret;
 }
 
 int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
-    // allocate some space for pass.
-    // size_t pass_len = pattern_maxlen(pattern);
-    size_t pass_len = 256;
-    uint8_t *pass = malloc(pass_len + 1);
-    if(!pass) {
-        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
-    }
+    struct output output = {.json = true};
+    int ret = 0;
 
     printf("[");
     for(size_t i = 0; i < opts.amount; ++i) {
         double entropy;
-        // get a NULL-terminated, random pass.
-        size_t written = passgen_generate_fill_json_utf8(
-            pattern,
-            &opts.env,
-            opts.entropy ? &entropy : NULL,
-            pass,
-            pass_len);
-        pass[written] = '\0';
-        printf("%s{\"output\":\"%s\"", (i == 0) ? "" : ",", pass);
+        ret = output_generate(&output, &opts, pattern, &entropy);
+        if(ret != 0) {
+            break;
+        }
+
+        printf("%s{\"output\":\"", (i == 0) ? "" : ",");
+        fwrite(output.data, 1, output.len, stdout);
+        printf("\"");
 
         if(opts.entropy) {
             printf(",\"entropy\":%lf", log(entropy) / log(2));
@@ -135,8 +178,8 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
     }
     printf("]\n");
 
-    free(pass);
-    return 0;
+    free(output.data);
+    return ret;
 }
 
 int passgen_cli_generate(passgen_cli_opts opts, passgen_pattern *pattern) {
@@ -507,6 +550,11 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "\033[1;31merror\033[0m: preset `%s` not found\n",
                 (const char *) data);
             break;
+        case PASSGEN_ERROR_GENERATE:
+            fprintf(
+                stderr,
+                "\033[1;31merror\033[0m: couldn't generate a sequence\n");
+            break;
         default:
             printf("error: unknown error.\n");
             break;
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index b3c1bad..be0e67a 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -26,6 +26,7 @@ typedef enum {
     PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
     PASSGEN_ERROR_UNRECOGNIZED,
     PASSGEN_ERROR_PRESET_NOT_FOUND,
+    PASSGEN_ERROR_GENERATE,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
diff --git a/src/generate.c b/src/generate.c
index 7ade21a..eff974c 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -17,7 +17,6 @@
 #include "passgen/wordlist.h"
 #include "try.h"
 
-#include <stdio.h>
 #include <string.h>
 
 typedef struct {
@@ -157,45 +156,8 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
         return -1;
     }
 
-    unsigned char buffer[8] = {'\\', 0};
-    size_t bytes = 2;
-    switch(codepoint) {
-        case '"':
-            buffer[1] = '"';
-            break;
-        case '\\':
-            buffer[1] = '\\';
-            break;
-        case '\b':
-            buffer[1] = 'b';
-            break;
-        case '\f':
-            buffer[1] = 'f';
-            break;
-        case '\r':
-            buffer[1] = 'r';
-            break;
-        case '\n':
-            buffer[1] = 'n';
-            break;
-        case '\t':
-            buffer[1] = 't';
-            break;
-        default:
-            if(codepoint < 0x20) {
-                // other control characters have to be escaped as well.
-                bytes = snprintf(
-                    (char *) buffer,
-                    sizeof(buffer),
-                    "\\u%04x",
-                    (unsigned int) codepoint);
-                break;
-            }
-
-            bytes = passgen_utf8_encode_codepoint(
-                (uint8_t *) &buffer[0],
-                codepoint);
-    }
+    uint8_t buffer[8];
+    size_t bytes = passgen_utf8_encode_codepoint_json(&buffer[0], codepoint);
 
     // check that no error happened.
     if(!bytes) {
diff --git a/src/util/utf8.c b/src/util/utf8.c
index f5f6693..babcca6 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -1,4 +1,5 @@
 #include "passgen/util/utf8.h"
+#include <stdio.h>
 
 // Copyright (c) 2008-2009 Bjoern Hoehrmann <bjoern@hoehrmann.de>
 // See http://bjoern.hoehrmann.de/utf-8/decoder/dfa/ for details.
@@ -139,6 +140,42 @@ int passgen_utf8_encode_codepoint(uint8_t *out, uint32_t utf) {
     return PASSGEN_UTF8_INVALID_CHAR;
 }
 
+int passgen_utf8_encode_codepoint_json(uint8_t *out, uint32_t codepoint) {
+    out[0] = '\\';
+    switch(codepoint) {
+        case '"':
+            out[1] = '"';
+            return 2;
+        case '\\':
+            out[1] = '\\';
+            return 2;
+        case '\b':
+            out[1] = 'b';
+            return 2;
+        case '\f':
+            out[1] = 'f';
+            return 2;
+        case '\r':
+            out[1] = 'r';
+            return 2;
+        case '\n':
+            out[1] = 'n';
+            return 2;
+        case '\t':
+            out[1] = 't';
+            return 2;
+        default:
+            break;
+    }
+
+    // other control characters have to be escaped as well.
+    if(codepoint < 0x20) {
+        return snprintf((char *) out, 7, "\\u%04x", (unsigned int) codepoint);
+    }
+
+    return passgen_utf8_encode_codepoint(out, codepoint);
+}
+
 int passgen_utf8_encode(
     uint8_t *out,
     size_t out_len,
-- 
2.43.0


From 730efb3aecca29d1617749e76f29ffd5c4e60248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 12/36] fix: exit with an error when output cannot be written

Errors writing to standard output were ignored, so that a truncated or missing
output was reported as success.
---
 man/passgen.1.in  |  2 ++
 src/cli/passgen.c | 18 +++++++++++++++---
 src/cli/passgen.h |  1 +
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/man/passgen.1.in b/man/passgen.1.in
index 3d6b4c0..124cfbe 100644
--- a/man/passgen.1.in
+++ b/man/passgen.1.in
@@ -253,6 +253,8 @@ Preset not found. Make sure that the preset you have specified exists. When it d
 command to see the full list of all presets that the tool knows about.
 .It Ar 9
 A sequence could not be generated, for example because the pattern refers to a wordlist that has not been loaded or cannot be read.
+.It Ar 10
+The output could not be written completely.
 .El
 .Sh SEE ALSO
 .Xr apg 1 ,
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index f381d8c..9cf7978 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -120,6 +120,15 @@ static int output_generate(
     return 0;
 }
 
+// Make sure that everything printed so far really was written to stdout.
+static int output_finish(void) {
+    if(fflush(stdout) != 0 || ferror(stdout)) {
+        return passgen_cli_bail(PASSGEN_ERROR_OUTPUT, NULL);
+    }
+
+    return 0;
+}
+
 int passgen_cli_generate_normal(
     passgen_cli_opts opts,
     passgen_pattern *pattern) {
@@ -151,7 +160,7 @@ int passgen_cli_generate_normal(
     printf("\n");
     free(output.data);
 
-    return ret;
+    return ret != 0 ? ret : output_finish();
 }
 
 int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
@@ -179,7 +188,7 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
     printf("]\n");
 
     free(output.data);
-    return ret;
+    return ret != 0 ? ret : output_finish();
 }
 
 int passgen_cli_generate(passgen_cli_opts opts, passgen_pattern *pattern) {
@@ -378,7 +387,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 return PASSGEN_SHOW_VERSION;
             case 'l':
                 passgen_cli_presets_list(opts);
-                exit(0);
+                exit(output_finish());
             case 'w':
                 try(passgen_cli_opts_wordlist(opts, optarg));
                 break;
@@ -555,6 +564,9 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 stderr,
                 "\033[1;31merror\033[0m: couldn't generate a sequence\n");
             break;
+        case PASSGEN_ERROR_OUTPUT:
+            fprintf(stderr, "\033[1;31merror\033[0m: couldn't write output\n");
+            break;
         default:
             printf("error: unknown error.\n");
             break;
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index be0e67a..d93d02b 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -27,6 +27,7 @@ typedef enum {
     PASSGEN_ERROR_UNRECOGNIZED,
     PASSGEN_ERROR_PRESET_NOT_FOUND,
     PASSGEN_ERROR_GENERATE,
+    PASSGEN_ERROR_OUTPUT,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
-- 
2.43.0


From f48b25cd0dcab0ffc88ce87c8a1dcd9508538afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 13/36] fix: allow checking for terminals in the sandbox

The C library issues a TCGETS ioctl when it first uses a character device, so
that sandboxed builds were killed when writing to /dev/null or a terminal
that is not a pseudo terminal, or when reading randomness from a device.
---
 src/cli/passgen.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 9cf7978..ef297fc 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -788,6 +788,15 @@ void passgen_cli_seccomp_init() {
         SCMP_CMP(0, SCMP_CMP_EQ, 1),
         SCMP_CMP(1, SCMP_CMP_EQ, TIOCGWINSZ));
 
+    // allow checking if a file is a terminal, the C library does this for any
+    // character device that is being read from or written to.
+    seccomp_rule_add(
+        ctx,
+        SCMP_ACT_ALLOW,
+        SCMP_SYS(ioctl),
+        1,
+        SCMP_CMP(1, SCMP_CMP_EQ, TCGETS));
+
     // apply rules
     seccomp_load(ctx);
     seccomp_release(ctx);
-- 
2.43.0


From 1a3cd06c2d19a12c3c00980e31c5f37f0a732d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 14/36] fix: read configuration files of any size without
 memory errors

Files larger than 10240 bytes were cut off, with the terminating NUL written
past the end of the buffer, and a last line without a newline made the parser
continue behind the terminator. Read errors are reported rather than
treated as the end of the file.
---
 src/cli/passgen.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index ef297fc..997fd17 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -27,7 +27,7 @@
 #include "passgen/wordlist.h"
 
 #define UNUSED(x)              (void) x
-#define strprefix(prefix, str) memcmp(prefix, str, strlen(prefix))
+#define strprefix(prefix, str) strncmp(prefix, str, strlen(prefix))
 
 int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
     if(opts->env.random) {
@@ -582,9 +582,31 @@ void passgen_cli_opts_free(passgen_cli_opts *opts) {
 
 int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     // TODO: use something like passgen_buffer to do this
-    char *config = malloc(10240);
-    size_t read = fread(config, 1, 10240, file);
-    config[read] = 0;
+    char *config = NULL;
+    size_t capacity = 0;
+    size_t length = 0;
+
+    // read the entire file, always leaving space for a NUL-terminator.
+    do {
+        if(capacity - length < 2) {
+            capacity = capacity ? 2 * capacity : 10240;
+            char *new_config = realloc(config, capacity);
+            if(!new_config) {
+                free(config);
+                return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+            }
+            config = new_config;
+        }
+        length += fread(&config[length], 1, capacity - length - 1, file);
+    } while(!feof(file) && !ferror(file));
+
+    if(ferror(file)) {
+        fprintf(stderr, "error: cannot read configuration file\n");
+        free(config);
+        return 1;
+    }
+
+    config[length] = 0;
     int ret = passgen_cli_opts_config_parse(opts, config);
     free(config);
     return ret;
@@ -596,6 +618,7 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
         if(data[pos] == '#') {
             // skip this line, it's a comment
             while(data[pos] && data[pos] != '\n') pos++;
+            if(!data[pos]) break;
             continue;
         }
         if(data[pos] == '\n') {
@@ -607,8 +630,10 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
             size_t length = 0;
             while(data[pos + length] && data[pos + length] != '\n') length++;
+            bool last = !data[pos + length];
             data[pos + length] = 0;
             passgen_cli_opts_random(opts, &data[pos]);
+            if(last) break;
             pos += length;
             continue;
         }
@@ -617,8 +642,10 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
             size_t length = 0;
             while(data[pos + length] && data[pos + length] != '\n') length++;
+            bool last = !data[pos + length];
             data[pos + length] = 0;
             passgen_cli_opts_wordlist(opts, &data[pos]);
+            if(last) break;
             pos += length;
             continue;
         }
@@ -627,8 +654,10 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
             size_t length = 0;
             while(data[pos + length] && data[pos + length] != '\n') length++;
+            bool last = !data[pos + length];
             data[pos + length] = 0;
             passgen_cli_opts_preset(opts, &data[pos]);
+            if(last) break;
             pos += length;
             continue;
         }
-- 
2.43.0


From 1190dac938bb1796e712ae2a4c3d66db00d500ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 15/36] fix: support user configuration paths of any length

A long home directory or configuration path overflowed a fixed-size buffer.
---
 src/cli/passgen.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 997fd17..17099d2 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -683,19 +683,24 @@ int passgen_cli_opts_config_system(passgen_cli_opts *opts) {
 }
 
 int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
-    char config_path[256];
-    const char *xdg_config_path = getenv("XDG_CONFIG_PATH");
-    if(xdg_config_path) {
-        sprintf(config_path, "%s/passgen.conf", xdg_config_path);
-    } else {
-        const char *home = getenv("HOME");
-        if(!home) {
+    const char *suffix = "/passgen.conf";
+    const char *base = getenv("XDG_CONFIG_PATH");
+    if(!base) {
+        suffix = "/.config/passgen.conf";
+        base = getenv("HOME");
+        if(!base) {
             fprintf(stderr, "warning: cannot locate home directory\n");
             return 0;
         }
-        sprintf(config_path, "%s/.config/passgen.conf", home);
     }
+    char *config_path = malloc(strlen(base) + strlen(suffix) + 1);
+    if(!config_path) {
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+    }
+    strcpy(config_path, base);
+    strcat(config_path, suffix);
     FILE *file = fopen(config_path, "r");
+    free(config_path);
     if(file) {
         int ret = passgen_cli_opts_config_load(opts, file);
         fclose(file);
-- 
2.43.0


From 7258b4a2bd690d994f2cea8dcdc624bc87fd5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 16/36] fix: generate markov words of any length

Words were collected in a fixed-size buffer on the stack without checking for
its end, which long words or chain lengths overflowed.
---
 src/generate.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index eff974c..0944a97 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -343,23 +343,28 @@ static int passgen_generate_special_markov(
         passgen_wordlist_parse_markov(wordlist);
     }
     passgen_markov *markov = &wordlist->markov;
-    uint32_t word[128];
-    size_t pos = markov->level;
-    memset(word, 0, pos * sizeof(uint32_t));
-    double *entropy = context->entropy ? &*context->entropy : NULL;
-    do {
-        word[pos] = passgen_markov_generate(
+    // window of the most recent codepoints, as many as the markov chain takes
+    // into account (at most UINT8_MAX).
+    uint32_t window[UINT8_MAX];
+    memset(window, 0, sizeof(window));
+    while(true) {
+        uint32_t codepoint = passgen_markov_generate(
             markov,
-            &word[pos - markov->level],
+            &window[0],
             context->env->random,
-            entropy);
-        pos++;
-    } while(word[pos - 1]);
-
-    pos = markov->level;
-    while(word[pos]) {
-        try(emit(context, word[pos]));
-        pos++;
+            context->entropy);
+
+        // end of the word
+        if(!codepoint) {
+            break;
+        }
+
+        try(emit(context, codepoint));
+        memmove(
+            &window[0],
+            &window[1],
+            (markov->level - 1) * sizeof(window[0]));
+        window[markov->level - 1] = codepoint;
     }
 
     return 0;
-- 
2.43.0


From e3218be4f19646cf9e72387723dc1ece8c3fb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 17/36] fix: refuse markov chain lengths that are not supported

The length is stored in eight bits, so that 256 became an (unusable) length of
zero and larger values were silently reduced.
---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 17099d2..7e22674 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -393,7 +393,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 break;
             case 'M':
                 opt = atoi(optarg);
-                if(opt < 1) {
+                if(opt < 1 || opt > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
                         &opt);
-- 
2.43.0


From 972474f5cb422d2e5af76ab12023c6fdfe76ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:54 +0000
Subject: [PATCH 18/36] fix: refuse amounts that are out of range

An amount such as 4294967297 was truncated, here to a single sequence.
---
 src/cli/passgen.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 7e22674..fd09f52 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -1,7 +1,9 @@
 #include "passgen.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdio.h>
@@ -321,6 +323,17 @@ void passgen_cli_presets_list(const passgen_cli_opts *opts) {
         passgen_cli_preset_show);
 }
 
+// Parse an integer option, numbers that are out of range result in zero.
+static int parse_int(const char *string) {
+    errno = 0;
+    long value = strtol(string, NULL, 10);
+    if(errno != 0 || value < INT_MIN || value > INT_MAX) {
+        return 0;
+    }
+
+    return value;
+}
+
 int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
     const char *short_opts = "a:p:P:d:w:r:m:D:M:t:ezhvjl";
     const char *preset = NULL;
@@ -355,7 +368,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
             case 'h':
                 return PASSGEN_SHOW_HELP;
             case 'a':
-                opt = atoi(optarg);
+                opt = parse_int(optarg);
                 if(opt < 1) {
                     return passgen_cli_bail(PASSGEN_ERROR_ILLEGAL_AMOUNT, &opt);
                 }
@@ -374,7 +387,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 preset = optarg;
                 break;
             case 'D':
-                opt = atoi(optarg);
+                opt = parse_int(optarg);
                 opts->depth = opt;
                 break;
             case 'z':
@@ -392,7 +405,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 try(passgen_cli_opts_wordlist(opts, optarg));
                 break;
             case 'M':
-                opt = atoi(optarg);
+                opt = parse_int(optarg);
                 if(opt < 1 || opt > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
-- 
2.43.0


From dfe20f8cca46d1a4bfc694930a911858f4fdbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 19/36] fix: read wordlists completely or refuse to use them

---
 include/passgen/wordlist.h |  10 ++-
 src/generate.c             |  42 +++++++----
 src/wordlist.c             | 139 ++++++++++++++++++++++++++-----------
 3 files changed, 133 insertions(+), 58 deletions(-)

diff --git a/include/passgen/wordlist.h b/include/passgen/wordlist.h
index 7683e21..55da21b 100644
--- a/include/passgen/wordlist.h
+++ b/include/passgen/wordlist.h
@@ -48,16 +48,21 @@ void passgen_wordlist_init(passgen_wordlist *wordlist, FILE *file, size_t markov
 
 /// Load words from wordlist. After running this, the file object can be closed.
 ///
+/// @return Zero on success, nonzero if the file cannot be read completely. In that
+/// case, the wordlist cannot be used.
 /// @memberof passgen_wordlist
 int passgen_wordlist_parse(passgen_wordlist *wordlist);
 
 /// Generate markov chain from wordlist.
 ///
+/// @return Zero on success, nonzero if the wordlist is empty or contains text that
+/// is not valid UTF-8.
 /// @memberof passgen_wordlist
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
 
 /// Generate random word from this wordlist.
 ///
+/// @return A word, or NULL if the wordlist is not parsed or does not contain any.
 /// @memberof passgen_wordlist
 const char *
 passgen_wordlist_random(passgen_wordlist *wordlist, passgen_random *random);
@@ -69,8 +74,9 @@ int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file);
 
 /// Scan a read wordlist for words.
 ///
+/// @return Zero on success.
 /// @memberof passgen_wordlist
-void passgen_wordlist_scan(passgen_wordlist *wordlist);
+int passgen_wordlist_scan(passgen_wordlist *wordlist);
 
 /// Release memory for wordlist.
 ///
diff --git a/src/generate.c b/src/generate.c
index 0944a97..57fea7b 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -337,10 +337,10 @@ static int passgen_generate_special_markov(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
     if(!wordlist->parsed_markov) {
-        passgen_wordlist_parse_markov(wordlist);
+        try(passgen_wordlist_parse_markov(wordlist));
     }
     passgen_markov *markov = &wordlist->markov;
     // window of the most recent codepoints, as many as the markov chain takes
@@ -380,21 +380,35 @@ static int passgen_generate_special_wordlist(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
 
     // pick word at random
-    const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
-
-    // UTF8-decode word and write codepoints
-    // TODO: handle longer words
-    size_t word_len = strlen(word);
-    const char *word_pos = &word;
-    uint32_t codepoints[128];
-    uint32_t *codepoints_pos = &codepoints[0];
-    try(passgen_utf8_decode(&codepoints_pos, 128, NULL, word_pos, word_len));
-    for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
-        try(emit(context, codepoints[i]));
+    const uint8_t *word = (const uint8_t *) passgen_wordlist_random(
+        wordlist,
+        context->env->random);
+    if(!word) {
+        return -1;
+    }
+
+    // UTF8-decode word and write codepoints, piece by piece
+    const uint8_t *word_end = word + strlen((const char *) word);
+    while(word != word_end) {
+        uint32_t codepoints[128];
+        uint32_t *codepoints_pos = &codepoints[0];
+        int ret = passgen_utf8_decode(
+            &codepoints_pos,
+            128,
+            NULL,
+            &word,
+            word_end - word);
+        if(ret != PASSGEN_UTF8_SUCCESS && ret != PASSGEN_UTF8_OUTPUT_SIZE) {
+            return ret;
+        }
+
+        for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
+            try(emit(context, codepoints[i]));
+        }
     }
 
     if(context->entropy) {
diff --git a/src/wordlist.c b/src/wordlist.c
index cefec06..52f0372 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -8,13 +8,13 @@
 
 #define ALLOC_INITIAL  256
 #define ALLOC_INCREASE 2
+#define BUFFER_INITIAL 4096
 
 void passgen_wordlist_init(
     passgen_wordlist *wordlist,
     FILE *file,
     size_t markov_length) {
-    wordlist->parsed = false;
-    wordlist->parsed_markov = false;
+    memset(wordlist, 0, sizeof(*wordlist));
     wordlist->file = file;
     wordlist->should_close_file = true;
     passgen_markov_init(&wordlist->markov, markov_length);
@@ -22,19 +22,43 @@ void passgen_wordlist_init(
 
 int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed);
-    wordlist->parsed = true;
-    try(passgen_wordlist_read(wordlist, wordlist->file));
+
+    // the file can only be read once: if reading it failed before, then what is
+    // left in it is not the whole wordlist.
+    FILE *file = wordlist->file;
+    if(!file) {
+        return 1;
+    }
     wordlist->file = NULL;
-    passgen_wordlist_scan(wordlist);
+
+    try(passgen_wordlist_read(wordlist, file));
+    try(passgen_wordlist_scan(wordlist));
+    wordlist->parsed = true;
     return 0;
 }
 
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed_markov);
-    wordlist->parsed_markov = true;
 
-    size_t unicode_buffer_len = 256;
-    uint32_t unicode_buffer[unicode_buffer_len];
+    // there is nothing to learn from an empty wordlist.
+    if(wordlist->count == 0) {
+        return 1;
+    }
+
+    // allocate buffer that fits the longest word
+    size_t unicode_buffer_len = 0;
+    for(size_t i = 0; i < wordlist->count; i++) {
+        size_t word_length = strlen(wordlist->words[i]);
+        if(word_length > unicode_buffer_len) {
+            unicode_buffer_len = word_length;
+        }
+    }
+
+    uint32_t *unicode_buffer = malloc(unicode_buffer_len * sizeof(uint32_t));
+    if(!unicode_buffer) {
+        return 1;
+    }
+
     for(size_t i = 0; i < wordlist->count; i++) {
         uint32_t *unicode_buffer_pos = &unicode_buffer[0];
         const uint8_t *word = (const uint8_t *) wordlist->words[i];
@@ -48,8 +72,15 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             &word,
             word_length);
 
-        // make sure the conversion worked
-        passgen_assert(ret == PASSGEN_UTF8_SUCCESS);
+        // make sure the conversion worked, otherwise forget the words that have
+        // been added so far.
+        if(ret != PASSGEN_UTF8_SUCCESS) {
+            size_t level = wordlist->markov.level;
+            passgen_markov_free(&wordlist->markov);
+            passgen_markov_init(&wordlist->markov, level);
+            free(unicode_buffer);
+            return 1;
+        }
 
         // add word to markov chain
         passgen_markov_add(
@@ -58,6 +89,10 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             unicode_buffer_pos - &unicode_buffer[0],
             1);
     }
+
+    free(unicode_buffer);
+    wordlist->parsed_markov = true;
+    return 0;
 }
 
 void passgen_wordlist_load(
@@ -65,50 +100,74 @@ void passgen_wordlist_load(
     FILE *file,
     size_t markov_length) {
     passgen_wordlist_init(wordlist, file, markov_length);
-    passgen_wordlist_parse(wordlist);
-    passgen_wordlist_parse_markov(wordlist);
+    if(0 == passgen_wordlist_parse(wordlist)) {
+        passgen_wordlist_parse_markov(wordlist);
+    }
 }
 
 int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
-    // get size of file
-    fseek(file, 0, SEEK_END);
-    wordlist->size = ftell(file);
-    fseek(file, 0, SEEK_SET);
-
-    // allocate buffer to hold entire file and read in (plus zero termination)
-    wordlist->data = malloc(wordlist->size + 1);
-    passgen_assert(wordlist->data);
-
-    // read in entire wordlist
-    size_t read = fread(wordlist->data, 1, wordlist->size, file);
-    if(read != wordlist->size) {
-        return 1;
-    }
+    char *data = NULL;
+    size_t capacity = 0;
+    size_t size = 0;
+    bool success = true;
+
+    // read in the entire file, whatever kind of file it is. always leave space
+    // for the zero termination.
+    do {
+        if((capacity - size) < 2) {
+            capacity = capacity ? 2 * capacity : BUFFER_INITIAL;
+            char *new_data = realloc(data, capacity);
+            if(!new_data) {
+                success = false;
+                break;
+            }
+            data = new_data;
+        }
+        size += fread(&data[size], 1, capacity - size - 1, file);
+    } while(!feof(file) && !ferror(file));
 
-    // null-terminate wordlist
-    wordlist->data[wordlist->size] = 0;
+    // ignore zero termination, other than that there cannot be any zero bytes.
+    while(size && !data[size - 1]) size--;
+    if(ferror(file) || (success && memchr(data, 0, size))) {
+        success = false;
+    }
 
     if(wordlist->should_close_file) {
         fclose(file);
     }
 
+    if(!success) {
+        free(data);
+        return 1;
+    }
+
+    // null-terminate wordlist
+    data[size] = 0;
+    wordlist->data = data;
+    wordlist->size = size;
+
     return 0;
 }
 
-void passgen_wordlist_scan(passgen_wordlist *wordlist) {
+int passgen_wordlist_scan(passgen_wordlist *wordlist) {
     char *state = NULL, *token;
 
-    size_t capacity = ALLOC_INITIAL;
-    wordlist->words = malloc(sizeof(char *) * capacity);
+    size_t capacity = 0;
+    wordlist->words = NULL;
     wordlist->count = 0;
 
     token = strtok_r(wordlist->data, "\n", &state);
     while(token) {
         // expand array if needed
         if(capacity == wordlist->count) {
-            capacity *= ALLOC_INCREASE;
-            wordlist->words =
+            capacity = capacity ? ALLOC_INCREASE * capacity : ALLOC_INITIAL;
+            char **words =
                 realloc(wordlist->words, sizeof(char *) * capacity);
+            if(!words) {
+                wordlist->count = 0;
+                return 1;
+            }
+            wordlist->words = words;
         }
 
         // save word
@@ -119,14 +178,12 @@ void passgen_wordlist_scan(passgen_wordlist *wordlist) {
         token = strtok_r(NULL, "\n", &state);
     }
 
-    // resize array finally (shrink it down to what is really needed)
-    wordlist->words =
-        realloc(wordlist->words, sizeof(char *) * wordlist->count);
+    return 0;
 }
 
 const char *
 passgen_wordlist_random(passgen_wordlist *wordlist, passgen_random *random) {
-    if(!wordlist->parsed) {
+    if(!wordlist->parsed || wordlist->count == 0) {
         return NULL;
     }
     size_t index = passgen_random_u64_max(random, wordlist->count);
@@ -136,10 +193,8 @@ passgen_wordlist_random(passgen_wordlist *wordlist, passgen_random *random) {
 void passgen_wordlist_free(passgen_wordlist *wordlist) {
     passgen_markov_free(&wordlist->markov);
 
-    if(wordlist->parsed) {
-        free(wordlist->words);
-        free(wordlist->data);
-    }
+    free(wordlist->words);
+    free(wordlist->data);
 
     if(wordlist->should_close_file && wordlist->file) {
         fclose(wordlist->file);
-- 
2.43.0


From 96e9b04db8373d8de6c4095c89e6019e11f11153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 20/36] fix: replace existing keys in the hashmap wherever they
 are stored

---
 src/container/hashmap.c | 48 ++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index a468123..8df47f7 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -125,6 +125,15 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         passgen_hashmap_realloc(map, hashmap_sizes[0]);
     }
 
+    // if the key exists already, in either of the possible locations, replace it.
+    passgen_hashmap_entry *existing = passgen_hashmap_lookup(map, key);
+    if(existing) {
+        passgen_hashmap_entry entry = *existing;
+        existing->key = key;
+        existing->value = value;
+        return entry;
+    }
+
     size_t hash;
 
     hash = passgen_hashmap_position(map, key, true);
@@ -133,18 +142,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         map->data[hash].value = value;
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
-    } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            map->len += 1;
-            return (passgen_hashmap_entry){NULL, NULL};
-        }
+    } else if(passgen_hashmap_move(map, hash)) {
+        map->data[hash].key = key;
+        map->data[hash].value = value;
+        map->len += 1;
+        return (passgen_hashmap_entry){NULL, NULL};
     }
 
     hash = passgen_hashmap_position(map, key, false);
@@ -153,18 +155,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         map->data[hash].value = value;
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
-    } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            map->len += 1;
-            return (passgen_hashmap_entry){NULL, NULL};
-        }
+    } else if(passgen_hashmap_move(map, hash)) {
+        map->data[hash].key = key;
+        map->data[hash].value = value;
+        map->len += 1;
+        return (passgen_hashmap_entry){NULL, NULL};
     }
 
     passgen_hashmap_realloc(map, next_capacity(map));
@@ -173,6 +168,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
 passgen_hashmap_entry
 passgen_hashmap_remove(passgen_hashmap *map, const void *key) {
+    // make sure the hashmap is not empty
+    if(!map->data) {
+        return (passgen_hashmap_entry){NULL, NULL};
+    }
+
     size_t hash;
 
     // if this key exists
-- 
2.43.0


From 147e5bd61a9ab3ddda7ae70af71fa9027eb13fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 21/36] fix: accept keys and passphrases of any length in
 randomness descriptions

---
 src/random/random.c | 51 ++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index a132a66..7f95e83 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -112,6 +112,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             key_end = key_ptr + strlen(key_ptr);
         }
         char key[32] = {0};
+        if((size_t) (key_end - key_ptr) > sizeof(key)) {
+            return NULL;
+        }
         memcpy(key, key_ptr, key_end - key_ptr);
 
         char iv[] = "passgen";
@@ -129,29 +132,35 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
 
     // use chacha20 with raw key and IV
     if(_strprefix("chacha20-argon2:", desc)) {
-        char master_pass[128] = {0};
-        char domain[128] = {0};
-        char token[128] = {0};
-
-        const char *start = &desc[16];
-        const char *end = &desc[16];
-
-#define PARSE_STRING(name) \
-        if(*end == ':') end++; \
-        if(*end) { \
-            start = end; \
-            end = strchr(start, ':'); \
-            if(!end) { \
-                end = start + strlen(start); \
-            } \
-            memcpy(name, start, end - start); \
+        const char *fields = &desc[16];
+        size_t fields_size = strlen(fields) + 1;
+        char *master_pass = malloc(fields_size);
+        if(!master_pass) {
+            return NULL;
+        }
+        memcpy(master_pass, fields, fields_size);
+
+        // split into fields, of which the domain and token are optional.
+        char *domain = strchr(master_pass, ':');
+        char *token = NULL;
+        if(domain) {
+            *domain++ = 0;
+            token = strchr(domain, ':');
+        }
+        if(token) {
+            *token++ = 0;
+            token[strcspn(token, ":")] = 0;
         }
 
-        PARSE_STRING(master_pass)
-        PARSE_STRING(domain)
-        PARSE_STRING(token)
-
-        return passgen_random_chacha20_argon2_open(random, master_pass, domain, token, NULL);
+        random = passgen_random_chacha20_argon2_open(
+            random,
+            master_pass,
+            domain,
+            token,
+            NULL);
+        passgen_wipe(master_pass, fields_size);
+        free(master_pass);
+        return random;
     }
 #endif
 
-- 
2.43.0


From d7956c28ae5788543737e3e58ef359eb088882ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 22/36] fix: erase the state of the xorshift generator when it
 is closed

---
 src/random/xorshift.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index 5e501f9..5c8980f 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -1,3 +1,4 @@
+#include "passgen/config.h"
 #include "passgen/random.h"
 #include "passgen/util/endian.h"
 #include <stdlib.h>
@@ -34,7 +35,9 @@ passgen_random_xorshift_read(void *context, void *dest, size_t size) {
 }
 
 static void passgen_random_xorshift_close(void *context) {
-    free(context);
+    uint64_t *state = context;
+    PASSGEN_CLEAR(state);
+    free(state);
 }
 
 passgen_random *
-- 
2.43.0


From fa5099dfb10f3de3ffbe3de0d08c04075d82d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:38 +0000
Subject: [PATCH 23/36] fix: release everything when a randomness source cannot
 be opened

---
 src/random/deterministic.c | 16 +++++++++++-----
 src/random/system.c        |  8 ++------
 src/random/xorshift.c      | 13 ++++++++-----
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/random/deterministic.c b/src/random/deterministic.c
index 273e30a..3a3b5cb 100644
--- a/src/random/deterministic.c
+++ b/src/random/deterministic.c
@@ -69,17 +69,20 @@ passgen_random *passgen_random_chacha20_open(
     passgen_random *random,
     const uint8_t key[CHACHA20_KEY_SIZE],
     const uint8_t iv[8]) {
-    if(!random) {
-        random = malloc(sizeof(passgen_random));
-        if(!random) return NULL;
-    }
-
     passgen_random_chacha20_context *data =
         malloc(sizeof(passgen_random_chacha20_context));
     if(!data) {
         return NULL;
     }
 
+    if(!random) {
+        random = malloc(sizeof(passgen_random));
+        if(!random) {
+            free(data);
+            return NULL;
+        }
+    }
+
     memset(data, 0, sizeof(*data));
     memcpy(data->key, key, CHACHA20_KEY_SIZE);
     memcpy(data->iv, iv, 8);
@@ -143,6 +146,9 @@ passgen_random *passgen_random_chacha20_argon2_open(
     size_t hash_size = CHACHA20_KEY_SIZE;
     uint8_t hash[hash_size];
     void *work_area = malloc(1024 * config.nb_blocks);
+    if(!work_area) {
+        return NULL;
+    }
     passgen_argon2(&hash[0], hash_size, work_area, config, inputs, extras);
     free(work_area);
 
diff --git a/src/random/system.c b/src/random/system.c
index e58c038..8847423 100644
--- a/src/random/system.c
+++ b/src/random/system.c
@@ -72,15 +72,11 @@ passgen_random_path_open(passgen_random *random, const char *path) {
         return NULL;
     }
 
+    random = passgen_random_file_open(random, device);
     if(!random) {
-        random = malloc(sizeof(passgen_random));
-        if(!random) return NULL;
+        fclose(device);
     }
 
-    return passgen_random_file_open(random, device);
-
-    passgen_random_reload(random);
-
     return random;
 }
 
diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index 5c8980f..55feb76 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -42,15 +42,18 @@ static void passgen_random_xorshift_close(void *context) {
 
 passgen_random *
 passgen_random_xorshift_open(passgen_random *random, uint64_t seed) {
-    if(!random) {
-        random = malloc(sizeof(passgen_random));
-        if(!random) return NULL;
-    }
-
     // create state
     uint64_t *state = malloc(sizeof(uint64_t));
     if(!state) return NULL;
 
+    if(!random) {
+        random = malloc(sizeof(passgen_random));
+        if(!random) {
+            free(state);
+            return NULL;
+        }
+    }
+
     // initialise state
     *state = seed;
 
-- 
2.43.0


From 92e6dac13b7d6e29b04a23d5a8b77a770c1d8ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 24/36] fix: release wordlists that are redefined and never use
 them afterwards

---
 include/passgen/pattern/env.h |  6 +++++-
 src/cli/passgen.c             | 23 +++++++++++++++++++----
 src/env.c                     | 12 +++++++++++-
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/include/passgen/pattern/env.h b/include/passgen/pattern/env.h
index f62b574..e8a6a49 100644
--- a/include/passgen/pattern/env.h
+++ b/include/passgen/pattern/env.h
@@ -30,8 +30,12 @@ typedef struct passgen_env {
 /// @memberof passgen_env
 void passgen_env_init(passgen_env *env, passgen_random *random);
 
-/// Loads the given wordlist.
+/// Loads the given wordlist, replacing any existing wordlist with the same name.
 ///
+/// On success, this takes ownership of the name (which must be allocated with malloc)
+/// and of the file. If the file is NULL, generating words from the wordlist fails.
+///
+/// @return Zero on success.
 /// @memberof passgen_env
 int passgen_env_wordlist_add(passgen_env *env, char *name, FILE *file, size_t markov_length);
 
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index fd09f52..213c3e7 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -209,15 +209,26 @@ int passgen_cli_opts_wordlist(passgen_cli_opts *opt, const char *input) {
     size_t offset = colon - input;
 
     char *name = malloc(offset + 1);
+    if(!name) {
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+    }
     memcpy(name, input, offset);
     name[offset] = 0;
 
+    // if the file cannot be opened, the wordlist still has to be defined, such
+    // that any previous definition is not used in place of this one.
     FILE *file = fopen(colon + 1, "r");
-    if(!file) {
-        return 1;
+    int ret =
+        passgen_env_wordlist_add(&opt->env, name, file, opt->markov_length);
+    if(ret != 0) {
+        free(name);
+        if(file) {
+            fclose(file);
+        }
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
     }
 
-    return passgen_env_wordlist_add(&opt->env, name, file, opt->markov_length);
+    return file ? 0 : 1;
 }
 
 int passgen_cli_opts_preset(passgen_cli_opts *opts, const char *arg) {
@@ -657,7 +668,11 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos + length] && data[pos + length] != '\n') length++;
             bool last = !data[pos + length];
             data[pos + length] = 0;
-            passgen_cli_opts_wordlist(opts, &data[pos]);
+            // wordlists that do not exist are not an error until they are used.
+            int ret = passgen_cli_opts_wordlist(opts, &data[pos]);
+            if(ret == PASSGEN_ERROR_ALLOC) {
+                return ret;
+            }
             if(last) break;
             pos += length;
             continue;
diff --git a/src/env.c b/src/env.c
index 756ab4f..b2fceac 100644
--- a/src/env.c
+++ b/src/env.c
@@ -38,8 +38,18 @@ int passgen_env_wordlist_add(
     FILE *file,
     size_t markov_length) {
     passgen_wordlist *wordlist = malloc(sizeof(passgen_wordlist));
-    passgen_hashmap_insert(&env->wordlists, name, wordlist);
+    if(!wordlist) {
+        return 1;
+    }
+
     passgen_wordlist_init(wordlist, file, markov_length);
+    passgen_hashmap_entry previous =
+        passgen_hashmap_insert(&env->wordlists, name, wordlist);
+
+    // release the wordlist that is replaced by this one
+    if(previous.key) {
+        wordlist_entry_free(NULL, &previous);
+    }
 
     return 0;
 }
-- 
2.43.0


From 41c8f8117efb2081d026efc847275e6f76b61eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 25/36] fix: release the arguments of preset definitions

---
 src/cli/passgen.c | 18 +++++++++++++++++-
 src/cli/passgen.h |  8 ++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 213c3e7..b8230dd 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -233,7 +233,17 @@ int passgen_cli_opts_wordlist(passgen_cli_opts *opt, const char *input) {
 
 int passgen_cli_opts_preset(passgen_cli_opts *opts, const char *arg) {
     size_t arg_len = strlen(arg);
-    char *arg_copy = malloc(arg_len + 1);
+    passgen_cli_preset_arg *preset_arg =
+        malloc(sizeof(passgen_cli_preset_arg) + arg_len + 1);
+    if(!preset_arg) {
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+    }
+
+    // keep track of it, to be able to release it
+    preset_arg->next = opts->preset_args;
+    opts->preset_args = preset_arg;
+
+    char *arg_copy = preset_arg->data;
     memcpy(arg_copy, arg, arg_len + 1);
     char *colon = strstr(arg_copy, ":");
     if(!colon) {
@@ -258,6 +268,7 @@ void passgen_cli_opts_init(passgen_cli_opts *opts) {
     opts->master_passphrase = NULL;
     opts->master_domain = NULL;
     opts->master_token = NULL;
+    opts->preset_args = NULL;
     passgen_hashmap_init(&opts->presets, &passgen_hashmap_context_utf8);
     passgen_env_init(&opts->env, NULL);
 
@@ -601,6 +612,11 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
 
 void passgen_cli_opts_free(passgen_cli_opts *opts) {
     passgen_hashmap_free(&opts->presets);
+    while(opts->preset_args) {
+        passgen_cli_preset_arg *next = opts->preset_args->next;
+        free(opts->preset_args);
+        opts->preset_args = next;
+    }
     passgen_env_free(&opts->env);
 }
 
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index d93d02b..240e15f 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -33,6 +33,12 @@ typedef enum {
     PASSGEN_SHOW_VERSION,
 } passgen_cli_error;
 
+/// Copy of the argument of a preset definition, which the presets point into.
+typedef struct passgen_cli_preset_arg {
+    struct passgen_cli_preset_arg *next;
+    char data[];
+} passgen_cli_preset_arg;
+
 /// Options parsed from the command line.
 typedef struct {
     /// How many passwords to generate.
@@ -61,6 +67,8 @@ typedef struct {
 
     /// Presets to choose from.
     passgen_hashmap presets;
+    /// Arguments of preset definitions.
+    passgen_cli_preset_arg *preset_args;
     /// Environment for passgen
     passgen_env env;
 } passgen_cli_opts;
-- 
2.43.0


From 1c8c65c0c32a1a1ca7981b2108e86c72d8115acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 26/36] fix: never use a different source of randomness than
 the requested one

---
 src/cli/passgen.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index b8230dd..879288b 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -43,7 +43,7 @@ int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
         printf(
             "\033[1;31merror\033[0m: invalid randomness source '%s'\n",
             random);
-        return 1;
+        return PASSGEN_ERROR_RANDOM_ALLOC;
     }
 
     return 0;
@@ -359,6 +359,7 @@ static int parse_int(const char *string) {
 int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
     const char *short_opts = "a:p:P:d:w:r:m:D:M:t:ezhvjl";
     const char *preset = NULL;
+    bool random_option = false;
 
     static struct option long_opts[] = {
         {"amount", required_argument, NULL, 'a'},
@@ -437,6 +438,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 break;
             case 'r':
                 try(passgen_cli_opts_random(opts, optarg));
+                random_option = true;
                 break;
             case 'P':
                 try(passgen_cli_opts_preset(opts, optarg));
@@ -485,14 +487,24 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
 
     // fallback to system randomness if nothing else is defined
 #ifdef PASSGEN_MONOCYPHER
-    if(!opts->env.random && opts->master_passphrase) {
+    if(!random_option && opts->master_passphrase) {
+        // this overrides the source of randomness from the configuration
+        if(opts->env.random) {
+            passgen_random_free(opts->env.random);
+        }
+
         opts->env.random = passgen_random_chacha20_argon2_open(NULL, opts->master_passphrase, opts->master_domain, opts->master_token, NULL);
+        if(!opts->env.random) {
+            return passgen_cli_bail(PASSGEN_ERROR_RANDOM_ALLOC, NULL);
+        }
     }
 #endif
 
     if(!opts->env.random) {
         opts->env.random = passgen_random_open(NULL, NULL);
-        assert(opts->env.random);
+        if(!opts->env.random) {
+            return passgen_cli_bail(PASSGEN_ERROR_RANDOM_ALLOC, NULL);
+        }
     }
 
     return 0;
@@ -672,7 +684,7 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos + length] && data[pos + length] != '\n') length++;
             bool last = !data[pos + length];
             data[pos + length] = 0;
-            passgen_cli_opts_random(opts, &data[pos]);
+            try(passgen_cli_opts_random(opts, &data[pos]));
             if(last) break;
             pos += length;
             continue;
-- 
2.43.0


From 01318e1537d61e901e8edc488a4b3f82e3f12cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:45 +0000
Subject: [PATCH 27/36] fix: refuse configuration files with malformed presets

---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 879288b..8efa306 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -712,7 +712,7 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos + length] && data[pos + length] != '\n') length++;
             bool last = !data[pos + length];
             data[pos + length] = 0;
-            passgen_cli_opts_preset(opts, &data[pos]);
+            try(passgen_cli_opts_preset(opts, &data[pos]));
             if(last) break;
             pos += length;
             continue;
-- 
2.43.0


From 8a9e3e3fd481b3bb77364154a2e1d67b72f23786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 28/36] fix: print valid JSON if the entropy cannot be
 represented

---
 src/cli/passgen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 8efa306..1b53680 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -182,7 +182,14 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
         printf("\"");
 
         if(opts.entropy) {
-            printf(",\"entropy\":%lf", log(entropy) / log(2));
+            // JSON cannot represent numbers that are not finite
+            double bits = log(entropy) / log(2);
+            printf(",\"entropy\":");
+            if(isfinite(bits)) {
+                printf("%lf", bits);
+            } else {
+                printf("null");
+            }
         }
 
         printf("}");
-- 
2.43.0


From 924ae8e400b94daf406c174460f1f1ef35e165a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 29/36] fix: refuse patterns that are nested too deeply to be
 released

---
 src/passgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/passgen.c b/src/passgen.c
index d20c4b6..2e927be 100644
--- a/src/passgen.c
+++ b/src/passgen.c
@@ -7,6 +7,8 @@
 #include <passgen/passgen.h>
 #include <string.h>
 
+#define PARSER_LIMIT 4096
+
 int passgen_parse(
     passgen_pattern *output,
     passgen_error *error,
@@ -16,6 +18,9 @@ int passgen_parse(
     passgen_token token = {0};
     passgen_parser_init(&parser, output);
 
+    // nested patterns are released recursively, so there has to be a limit.
+    parser.limit = PARSER_LIMIT;
+
     const uint8_t *pattern_raw = (const uint8_t *) string;
     size_t pattern_len = 256;
     uint32_t pattern[pattern_len];
-- 
2.43.0


From 5ecd67d2a8d4b2b7c32f14304e8e696c33432c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 30/36] fix: look up wordlists with an empty name

---
 src/generate.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 57fea7b..f7d8cc7 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -327,11 +327,18 @@ static int passgen_generate_literal(
     return 0;
 }
 
+// Look up the wordlist that is named in the pattern, the name can be empty.
+static passgen_hashmap_entry *lookup_wordlist(
+    passgen_generate_context *context,
+    const passgen_pattern_special *special) {
+    const char *name = special->parameters ? special->parameters : "";
+    return passgen_hashmap_lookup(&context->env->wordlists, name);
+}
+
 static int passgen_generate_special_markov(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
-    passgen_hashmap_entry *entry =
-        passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
+    passgen_hashmap_entry *entry = lookup_wordlist(context, special);
     if(!entry) {
         return -1;
     }
@@ -373,8 +380,7 @@ static int passgen_generate_special_markov(
 static int passgen_generate_special_wordlist(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
-    passgen_hashmap_entry *entry =
-        passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
+    passgen_hashmap_entry *entry = lookup_wordlist(context, special);
     if(!entry) {
         return -1;
     }
-- 
2.43.0


From 42b23119cda4fb078c1cea98f14b6f17dedff64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:04 +0000
Subject: [PATCH 31/36] fix: release the options after listing presets

---
 src/cli/passgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 1b53680..fd3226a 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -430,6 +430,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 return PASSGEN_SHOW_VERSION;
             case 'l':
                 passgen_cli_presets_list(opts);
+                passgen_cli_opts_free(opts);
                 exit(output_finish());
             case 'w':
                 try(passgen_cli_opts_wordlist(opts, optarg));
-- 
2.43.0


From a417ca51f56f9486bc121898c25fd6a604f47fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 32/36] fix: encode into buffers of less than four bytes
 without overrunning them

---
 src/util/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index babcca6..d1df7ce 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -183,7 +183,7 @@ int passgen_utf8_encode(
     const uint32_t *in,
     size_t in_len,
     size_t *in_pos) {
-    while((*in_pos < in_len) && (*out_pos < (out_len - 4))) {
+    while((*in_pos < in_len) && ((*out_pos + 4) < out_len)) {
         int ret = passgen_utf8_encode_codepoint(&out[*out_pos], in[*in_pos]);
         if(ret < 0) {
             return ret;
-- 
2.43.0


From b6f5170434afac3c55589f3d08da624f85a347d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 33/36] fix: recode codepoints that are split over reads, and
 refuse invalid text

---
 src/tools/utf8-recode.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/tools/utf8-recode.c b/src/tools/utf8-recode.c
index 3db7104..f8f6d9e 100644
--- a/src/tools/utf8-recode.c
+++ b/src/tools/utf8-recode.c
@@ -2,15 +2,27 @@
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
-#include "passgen/assert.h"
 #include "passgen/util/utf8.h"
 
+// Count the bytes of a codepoint that is not complete at the end of the input.
+static size_t incomplete_bytes(const uint8_t *input, size_t input_len) {
+    for(size_t bytes = 1; bytes <= 3 && bytes <= input_len; bytes++) {
+        uint8_t byte = input[input_len - bytes];
+        if((byte & 0xC0) != 0x80) {
+            size_t width = byte < 0xC0 ? 1 : byte < 0xE0 ? 2 : byte < 0xF0 ? 3 : 4;
+            return bytes < width ? bytes : 0;
+        }
+    }
+
+    return 0;
+}
+
 int main(int argc, char *argv[]) {
     size_t input_len = 128;
     uint8_t input[input_len];
 
-    size_t input_start = 0;
     size_t input_end = 0;
 
     size_t decoded_len = 128;
@@ -43,6 +55,12 @@ int main(int argc, char *argv[]) {
 
         printf("read %zu bytes\n", input_end);
 
+        // the rest of the last codepoint may not have been read yet.
+        size_t incomplete = 0;
+        if(!feof(stdin)) {
+            incomplete = incomplete_bytes(input, input_end);
+        }
+
         uint32_t *decoded_pos = &decoded[0];
         const uint8_t *input_pos = &input[0];
 
@@ -51,18 +69,20 @@ int main(int argc, char *argv[]) {
             decoded_len,
             NULL,
             &input_pos,
-            input_end);
+            input_end - incomplete);
 
         decoded_total += decoded_pos - &decoded[0];
-        passgen_assert(ret == PASSGEN_UTF8_SUCCESS);
+        if(ret != PASSGEN_UTF8_SUCCESS) {
+            goto error;
+        }
 
         printf("ret is %i\n", ret);
 
         printf("read %zu codepoints\n", decoded_total);
 
-        decoded_pos = 0;
-        input_start = 0;
-        input_end = 0;
+        // keep it until then.
+        memmove(&input[0], &input[input_end - incomplete], incomplete);
+        input_end = incomplete;
     }
 
     return EXIT_SUCCESS;
-- 
2.43.0


From 1d1e710ed0898afce76f0e4eb04bfba942f09c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 34/36] fix: close wordlists only once in the wordlist tool

---
 src/tools/wordlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/wordlist.c b/src/tools/wordlist.c
index 5dbc494..799dae1 100644
--- a/src/tools/wordlist.c
+++ b/src/tools/wordlist.c
@@ -8,12 +8,12 @@ void help(const char **args, size_t args_len) {
     (void) args_len;
 }
 
+// Load a wordlist, which takes care of closing the file.
 void load(passgen_wordlist *wordlist, const char *filename) {
     FILE *file = fopen(filename, "r");
     passgen_assert(file);
 
     passgen_wordlist_load(wordlist, file, 3);
-    fclose(file);
 }
 
 void dump(const char **args, size_t args_len) {
-- 
2.43.0


From 8d1fab204517fb63cdf0949872a65608d8ad7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 35/36] fix: report wordlists that cannot be read in the
 wordlist tool

---
 src/tools/wordlist.c | 47 +++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/tools/wordlist.c b/src/tools/wordlist.c
index 799dae1..01f18cc 100644
--- a/src/tools/wordlist.c
+++ b/src/tools/wordlist.c
@@ -11,17 +11,31 @@ void help(const char **args, size_t args_len) {
 // Load a wordlist, which takes care of closing the file.
 void load(passgen_wordlist *wordlist, const char *filename) {
     FILE *file = fopen(filename, "r");
-    passgen_assert(file);
+    if(!file) {
+        fprintf(stderr, "Error: cannot open '%s'.\n", filename);
+        exit(EXIT_FAILURE);
+    }
 
     passgen_wordlist_load(wordlist, file, 3);
+    if(!wordlist->parsed) {
+        fprintf(stderr, "Error: cannot read '%s'.\n", filename);
+        passgen_wordlist_free(wordlist);
+        exit(EXIT_FAILURE);
+    }
 }
 
-void dump(const char **args, size_t args_len) {
-    (void) args_len;
+// Get the only argument of a subcommand.
+const char *filename_argument(const char **args, size_t args_len) {
+    if(args_len != 3) {
+        fprintf(stderr, "Usage: %s %s FILE\n", args[0], args[1]);
+        exit(EXIT_FAILURE);
+    }
 
-    passgen_assert(args_len == 3);
-    const char *filename = args[2];
-    passgen_assert(filename);
+    return args[2];
+}
+
+void dump(const char **args, size_t args_len) {
+    const char *filename = filename_argument(args, args_len);
 
     passgen_wordlist wordlist;
     load(&wordlist, filename);
@@ -37,22 +51,27 @@ void dump(const char **args, size_t args_len) {
 }
 
 void random_word(const char **args, size_t args_len) {
-    (void) args_len;
+    const char *filename = filename_argument(args, args_len);
 
-    passgen_assert(args_len == 3);
-    const char *filename = args[2];
-    passgen_assert(filename);
-
-    passgen_random random;
-    passgen_random_open(&random, NULL);
     passgen_wordlist wordlist;
     load(&wordlist, filename);
+    passgen_random random;
+    passgen_random_open(&random, NULL);
 
     const char *word = passgen_wordlist_random(&wordlist, &random);
-    printf("%s\n", word);
+    bool empty = !word;
+    if(empty) {
+        fprintf(stderr, "Error: there are no words in '%s'.\n", filename);
+    } else {
+        printf("%s\n", word);
+    }
 
     passgen_random_close(&random);
     passgen_wordlist_free(&wordlist);
+
+    if(empty) {
+        exit(EXIT_FAILURE);
+    }
 }
 
 typedef void subcommand(const char **args, size_t args_len);
-- 
2.43.0


From e6d8c85aad9d8440a89c0f0d0092b054fa11e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 36/36] fix: do not leave random bytes in the buffer of a
 device

---
 src/random/system.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/random/system.c b/src/random/system.c
index 8847423..73278e8 100644
--- a/src/random/system.c
+++ b/src/random/system.c
@@ -72,6 +72,10 @@ passgen_random_path_open(passgen_random *random, const char *path) {
         return NULL;
     }
 
+    // read only what is needed, such that no random bytes are left in a buffer
+    // which cannot be erased when closing the device.
+    setvbuf(device, NULL, _IONBF, 0);
+
     random = passgen_random_file_open(random, device);
     if(!random) {
         fclose(device);
-- 
2.43.0

