From c57af79b38486f655e7417d4b11f957a43f2e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:33 +0000
Subject: [PATCH 01/12] fix: report a failed write of the output file

The stream never had its exceptions enabled, so a full disk or an I/O error
was ignored and the tool exited with 0 after writing a truncated file.
Enable them, and close explicitly: the destructor swallows errors.
---
 src/command_line.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 7444c78..ad3e5ee 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -57,7 +57,9 @@ int main(int argc, char** argv)
         if (!outfp.is_open()) {
             fatal_error("%s: failed to open", output_file);
         }
+        outfp.exceptions(std::ios::badbit | std::ios::failbit);
         outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
+        outfp.close();
     } catch (const std::ios_base::failure& e) {
         fatal_error("failed to write output file: %s", e.what());
     }
-- 
2.43.0


From 09888880ee88800897af3af28368b16ca59127c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:33 +0000
Subject: [PATCH 02/12] fix: print why the input file could not be opened

The null pointer was taken as the format string, so nothing was printed.
---
 src/command_line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index ad3e5ee..1ae6b5f 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -11,7 +11,7 @@ static std::string read_file(const char* filename)
 {
     std::ifstream file(filename, std::ios::binary);
     if (!file.is_open()) {
-        fatal_error(nullptr, "%s: failed to open", filename);
+        fatal_error("%s: failed to open", filename);
     }
     file.seekg(0, std::ios::end);
     std::string text(file.tellg(), ' ');
-- 
2.43.0


From 273e1bc31c1472ba10e1b794c62df4a1203000db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:33 +0000
Subject: [PATCH 03/12] fix: detect errors while reading the input file

A read error left the unread part of the text filled with spaces, and the
truncated program was assembled with exit status 0. Directories and inputs
that cannot seek (pipes) threw std::length_error or std::bad_alloc instead.
---
 src/command_line.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 1ae6b5f..0abb29c 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -13,11 +13,14 @@ static std::string read_file(const char* filename)
     if (!file.is_open()) {
         fatal_error("%s: failed to open", filename);
     }
-    file.seekg(0, std::ios::end);
-    std::string text(file.tellg(), ' ');
-
-    file.seekg(0, std::ios::beg);
-    file.read(std::data(text), std::size(text));
+    std::string text;
+    char buffer[4096];
+    while (file.read(buffer, sizeof(buffer)) || file.gcount() > 0) {
+        text.append(buffer, static_cast<size_t>(file.gcount()));
+    }
+    if (file.bad()) {
+        fatal_error("%s: failed to read", filename);
+    }
     return text;
 }
 
-- 
2.43.0


From 6e8de03990f174cb0902590473c3977769450393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:33 +0000
Subject: [PATCH 04/12] fix: reject null characters in the source

Everything after a null character (e.g. a zero filled block) was silently
dropped by the command line tool, and tripped an assert in the library.
---
 src/command_line.cpp | 2 +-
 src/nxas.cpp         | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 0abb29c..82add94 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -54,7 +54,7 @@ int main(int argc, char** argv)
         fatal_error("no output file");
     }
     const std::string input_text = read_file(input_file);
-    const std::vector<uint64_t> binary = nxas::assemble(input_text.c_str(), input_file);
+    const std::vector<uint64_t> binary = nxas::assemble(input_text, input_file);
     try {
         std::ofstream outfp(output_file, std::ios::binary);
         if (!outfp.is_open()) {
diff --git a/src/nxas.cpp b/src/nxas.cpp
index 6d19636..a483fda 100644
--- a/src/nxas.cpp
+++ b/src/nxas.cpp
@@ -24,6 +24,9 @@ static uint64_t generate_sched(std::span<const opcode> opcodes, size_t index,
 
 std::vector<uint64_t> assemble(const std::string& code, const char* filename)
 {
+    if (code.find('\0') != std::string::npos) {
+        fatal_error("%s: unexpected null character", filename);
+    }
     // Prepare our context
     context ctx(filename, code.c_str());
 
-- 
2.43.0


From fef811e4487be2f737a38bb2f6277b1692a72570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:33 +0000
Subject: [PATCH 05/12] fix: do not tokenize past a separator after a lone P

With "P" or "!P" followed by a separator the text was already advanced, and
the separator was made part of the identifier. At the end of the source that
separator is the null terminator, and what follows it was read.
---
 src/context.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index dc82453..41d5c51 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -210,10 +210,12 @@ token context::tokenize()
             return token;
         }
     }
-    do {
+    if (text == contents) {
         next();
-    } while (!is_separator(*text));
-
+    }
+    while (!is_separator(*text)) {
+        next();
+    }
     if (text[-1] == ':') {
         // ignore labels
         return tokenize();
-- 
2.43.0


From 1ae263798165a0354b80500145eab140497e1974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:33 +0000
Subject: [PATCH 06/12] fix: terminate string tables with a null pointer

Looking up an identifier that is not in these tables read past their end.
---
 src/operand.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index ecc6dda..f560b20 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -686,7 +686,7 @@ namespace stg
     DEFINE_OPERAND(size)
     {
         static const char* table[] = {
-            "U8", "S8", "U16", "S16", "32", "64", "128",
+            "U8", "S8", "U16", "S16", "32", "64", "128", nullptr,
         };
         std::optional<uint64_t> size = find_in_table(token, table, ".");
         if (size) {
@@ -1207,7 +1207,7 @@ namespace ldg
 {
     DEFINE_OPERAND(size)
     {
-        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U"};
+        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U", nullptr};
         static const char* msg = "expected .U8, .S8, .U16, .S16, .32, .64, .128 or .U.128";
 
         const std::optional result = find_in_table(token, table, ".");
@@ -1496,7 +1496,7 @@ template <int address>
 DEFINE_OPERAND(tex_type)
 {
     static const char* types[]{
-        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE",
+        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE", nullptr,
     };
     const std::optional<uint64_t> result = find_in_table(token, types, "");
     if (!result) {
-- 
2.43.0


From deb4d1c30052c4f312df39987a2150f49660b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:32 +0000
Subject: [PATCH 07/12] fix: do not scan labels past the end of the source

---
 src/context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 41d5c51..d6b7c09 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -294,7 +294,9 @@ void context::generate_labels()
             label.append(potential_label, static_cast<size_t>(text - potential_label));
             labels.insert({std::move(label), pc});
         }
-        next_line();
+        if (*text) {
+            next_line();
+        }
     }
 
     reset();
-- 
2.43.0


From c72740c9425cdb3305e06cb4c5bfe75f110040af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:21 +0000
Subject: [PATCH 08/12] fix: reject conflicting modifiers instead of failing an
 assertion

---
 src/opcode.h  | 3 ++-
 src/parse.cpp | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opcode.h b/src/opcode.h
index 8c28991..bf919d0 100644
--- a/src/opcode.h
+++ b/src/opcode.h
@@ -24,6 +24,7 @@ struct opcode
 {
     uint64_t value = 0;
     uint32_t reuse = 0;
+    bool conflict = false; // set when two operands write to the same bits
 
     union
     {
@@ -46,7 +47,7 @@ struct opcode
 
 inline void opcode::add_bits(uint64_t bits)
 {
-    assert((value & bits) == 0);
+    conflict |= (value & bits) != 0;
     value |= bits;
 }
 
diff --git a/src/parse.cpp b/src/parse.cpp
index 72567ed..d117683 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -118,6 +118,9 @@ static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& in
         }
         ++score;
     }
+    if (op.conflict) {
+        return {fail(token, "%s has conflicting modifiers or operands", insn.mnemonic), score};
+    }
     score += 1000; // A number high enough to have better score than any number of operands
 
     if (error message = assemble_sched(ctx, token, op); message) {
-- 
2.43.0


From a4ae4e7805fa6c0e08995035c2212eae461bc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:44 +0000
Subject: [PATCH 09/12] fix: parse floating point literals independently of the
 locale

---
 src/context.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index d6b7c09..03259e9 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,13 +1,16 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <charconv>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <string_view>
+#include <system_error>
 
 #include "context.h"
 #include "error.h"
@@ -69,6 +72,24 @@ static token_type get_operator_type(int character) noexcept
     }
 }
 
+// Converts a decimal literal without looking at the locale, unlike std::strtof
+static float parse_float(const char* begin, const char* end, const char*& conversion_end) noexcept
+{
+    float value = 0.0f;
+    const char* const digits = begin + (*begin == '+' || *begin == '-' ? 1 : 0);
+    const auto [ptr, ec] = std::from_chars(digits, end, value, std::chars_format::fixed);
+    conversion_end = ptr;
+    if (ec == std::errc::invalid_argument) {
+        conversion_end = begin;
+    } else if (ec == std::errc::result_out_of_range) {
+        // There is no exponent, a literal that is too large has an integer part
+        const bool is_large = std::any_of(digits, std::find(digits, end, '.'),
+                                          [](char digit) { return digit != '0'; });
+        value = is_large ? std::numeric_limits<float>::infinity() : 0.0f;
+    }
+    return *begin == '-' ? -value : value;
+}
+
 context::context(const char* filename_, const char* text_)
     : filename{filename_}, text_begin{text_}, text{text_}
 {
@@ -154,14 +175,15 @@ token context::tokenize()
         if (!is_separator(*text)) {
             fatal_error(token, "no separator after immediate");
         }
-        // TODO: use charconv here once gcc 11 ships
-        char* conversion_end = nullptr;
+        const char* conversion_end = nullptr;
         if (is_floating_point) {
             token.type = token_type::float_immediate;
-            token.data.float_immediate = std::strtof(contents, &conversion_end);
+            token.data.float_immediate = parse_float(contents, text, conversion_end);
         } else {
             token.type = token_type::immediate;
-            token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
+            char* integer_end = nullptr;
+            token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &integer_end, 0));
+            conversion_end = integer_end;
         }
         if (conversion_end != text) {
             fatal_error(token, "failed to parse literal \33[1;31m%.*s\33[0m",
-- 
2.43.0


From 162bc6baccf4ad8cd518c9bddf0283b7d906c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:32 +0000
Subject: [PATCH 10/12] fix: do not recurse once per label while tokenizing

---
 src/context.cpp | 11 ++++++++++-
 src/context.h   |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 03259e9..e9bdd23 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -99,6 +99,15 @@ context::context(const char* filename_, const char* text_)
 context::~context() = default;
 
 token context::tokenize()
+{
+    std::optional<token> result;
+    do {
+        result = tokenize_or_skip_label();
+    } while (!result);
+    return *result;
+}
+
+std::optional<token> context::tokenize_or_skip_label()
 {
     while (is_contained(" \t\r\n", *text)) {
         next();
@@ -240,7 +249,7 @@ token context::tokenize()
     }
     if (text[-1] == ':') {
         // ignore labels
-        return tokenize();
+        return {};
     }
     token.type = token_type::identifier;
     token.data.string = std::string_view(contents, static_cast<size_t>(text - contents));
diff --git a/src/context.h b/src/context.h
index 1869be5..244d5aa 100644
--- a/src/context.h
+++ b/src/context.h
@@ -39,6 +39,8 @@ class context
         compute = 5,
     };
 
+    std::optional<token> tokenize_or_skip_label();
+
     void next() noexcept;
 
     void reset();
-- 
2.43.0


From cc996ab5c8bfca498ad9351f396e87757c6cbb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:35 +0000
Subject: [PATCH 11/12] fix: require an immediate after .num_gprs

---
 src/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 63805a6..7208d9f 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -42,7 +42,7 @@ void context::parse_option(token& token)
         parse_type();
     } else if (equal(token, ".num_gprs")) {
         token = tokenize();
-        if (token.type == token_type::immediate) {
+        if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
         num_gprs = static_cast<int>(token.data.immediate);
-- 
2.43.0


From 764fc680b9bb541c1e464ebcf39b93ce6382e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:52 +0000
Subject: [PATCH 12/12] fix: do not destroy the instruction table while other
 threads use it

---
 src/parse.cpp | 3 +++
 src/table.h   | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index d117683..86a572c 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -113,6 +113,9 @@ static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& in
     }
     int score = 1;
     for (const operand& operand : insn.operands) {
+        if (!operand) {
+            break;
+        }
         if (error message = operand(ctx, token, op); message) {
             return {std::move(message), score};
         }
diff --git a/src/table.h b/src/table.h
index cb6eff2..8f7c4bb 100644
--- a/src/table.h
+++ b/src/table.h
@@ -2,7 +2,6 @@
 
 #include <array>
 #include <cstdint>
-#include <vector>
 
 #include "operand.h"
 
@@ -24,11 +23,12 @@ struct insn
     uint64_t opcode;
     char mnemonic[12];
     unsigned flags;
-    std::vector<operand> operands;
+    // Null terminated. The table has to stay usable while the process exits, don't allocate memory
+    std::array<operand, 32> operands;
 };
 
 // clang-format off
-const insn table[]{
+constexpr insn table[]{
     INSN(0xEFA0000000000000ULL, 0, "AL2P", al2p::o, amem::size, pred<44>, comma, dgpr<0>, comma, sgpr<8>, comma, sinteger<11, 20>),
     INSN(0xEFA0700000000000ULL, 0, "AL2P", al2p::o, amem::size,                  dgpr<0>, comma, sgpr<8>, comma, sinteger<11, 20>),
     INSN(0xEFA000000000FF00ULL, 0, "AL2P", al2p::o, amem::size, pred<44>, comma, dgpr<0>,                 comma, sinteger<11, 20>),
-- 
2.43.0

