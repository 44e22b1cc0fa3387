From 3c81493575c0e62bfa2fa0a606cdfc31728b0a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 01/50] fix: give the .remote directive its name when converted
 to text

---
 nsasm/mnemonic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/mnemonic.cc b/nsasm/mnemonic.cc
index 6a066ef..a78e74f 100644
--- a/nsasm/mnemonic.cc
+++ b/nsasm/mnemonic.cc
@@ -44,7 +44,7 @@ std::string_view ToString(Suffix m) {
 }
 
 std::string_view ToString(DirectiveName d) {
-  if (d < D_begin || d > D_org) {
+  if (d < D_begin || d > D_remote) {
     return "";
   }
   return directive_names[d];
-- 
2.43.0


From c5ee4637604934ded98bb9dcf5fc0aba27d96ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 02/50] fix: map ExHiROM banks $80-$ff to the first 4 MiB of
 the cartridge

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 4cf8731..7891440 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -26,7 +26,7 @@ ErrorOr<size_t> SnesToROMAddress(nsasm::Address snes_address, Mapping mapping) {
   } else if (mapping == kExHiRom) {
     int result = bank_address | ((bank & 0x3f) << 16);
     // address bit 23 is inverted and used as bit 22 of the CART address
-    if ((result & 0x800000) == 0) {
+    if ((bank & 0x80) == 0) {
       result |= 0x400000;
     }
     return result;
-- 
2.43.0


From 7429130e8cce5f2a6a1be42a6ad7d3aa4180b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 03/50] fix: return every byte of a ROM read longer than a bank

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 7891440..6c529b3 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -47,7 +47,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
       SnesToROMAddress(address.AddWrapped(length - 1), mapping_mode_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(first_address, path_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(last_address, path_);
-  if (*last_address > *first_address) {
+  if (*last_address - *first_address == static_cast<size_t>(length - 1)) {
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-- 
2.43.0


From 68dca7a284c1f9edfc4061fd5ddeb2883c13840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 04/50] fix: report reads past the end of a ROM at their SNES
 address

---
 nsasm/rom.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 6c529b3..53f6644 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -51,8 +51,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-      return Error("Address past end of ROM")
-          .SetLocation(path_, *first_address);
+      return Error("Address past end of ROM").SetLocation(path_, address);
     }
     return std::vector<uint8_t>(data_.begin() + *first_address,
                                 data_.begin() + *last_address + 1);
-- 
2.43.0


From 7fbba5870b6e18a8d2c39e9b8d1bd8ef1c8631ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 05/50] fix: close a ROM file whose copier header cannot be
 read

---
 nsasm/rom.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 53f6644..1ac2884 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -116,6 +116,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     header.resize(0x200);
     int bytes_read = fread(&header[0], 1, 0x200, f);
     if (bytes_read != 0x200) {
+      fclose(f);
       return Error("Failed to read file").SetLocation(path);
     }
     file_size -= 0x200;
-- 
2.43.0


From 21343769803cd0be3c62678716609fbebb8b33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 06/50] fix: do not index an empty payload when a file is only
 a copier header

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 1ac2884..13bc3e5 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -123,7 +123,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
   }
   std::vector<uint8_t> data;
   data.resize(file_size);
-  int bytes_read = fread(&data[0], 1, file_size, f);
+  int bytes_read = fread(data.data(), 1, file_size, f);
   fclose(f);
   if (bytes_read != file_size || file_size < 0x10000) {
     return Error("Failed to read file e").SetLocation(path);
-- 
2.43.0


From 249b992b46fe621b60ee8dd8d50a1678dcba6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 07/50] fix: do not read a moved-from ROM when creating an
 overwriter

---
 nsasm/rom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.h b/nsasm/rom.h
index 9245a70..b0ac4a4 100644
--- a/nsasm/rom.h
+++ b/nsasm/rom.h
@@ -75,7 +75,7 @@ class RomIdentityTest : public OutputSink {
 class RomOverwriter : public OutputSink {
  public:
   RomOverwriter(std::unique_ptr<Rom> rom)
-      : rom_(std::move(rom)), data_(rom->data_) {}
+      : rom_(std::move(rom)), data_(rom_->data_) {}
 
   ErrorOr<void> Write(nsasm::Address address,
                       absl::Span<const std::uint8_t> data) override;
-- 
2.43.0


From 6fd1143bd93e777f06bbfdfcc1121f148c5016fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 08/50] fix: refuse an overwrite one byte past the end of the
 ROM

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 13bc3e5..134cfc2 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -175,7 +175,7 @@ ErrorOr<void> RomOverwriter::Write(Address address,
     auto rom_index =
         SnesToROMAddress(address.AddWrapped(i), rom_->mapping_mode_);
     NSASM_RETURN_IF_ERROR(rom_index);
-    if (*rom_index > data_.size()) {
+    if (*rom_index >= data_.size()) {
       return Error("Attempt to write at %s, past end of file",
                    address.AddWrapped(i).ToString());
     }
-- 
2.43.0


From 0605d9c1c995907f162497d3cd92d284144c79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 09/50] fix: close the output file when writing it fails

---
 nsasm/rom.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 134cfc2..d3084ac 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -193,11 +193,13 @@ ErrorOr<void> RomOverwriter::CreateFile(const std::string& path) const {
   if (!rom_->header_.empty()) {
     size_t written = fwrite(&rom_->header_[0], 1, 0x200, f);
     if (written != 0x200) {
+      fclose(f);
       return Error("Failed to write header").SetLocation(path);
     }
   }
   size_t written = fwrite(&data_[0], 1, data_.size(), f);
   if (written != data_.size()) {
+    fclose(f);
     return Error("Failed to write payload").SetLocation(path);
   }
   if (fclose(f) != 0) {
-- 
2.43.0


From be2d108a7515448cc492ee83601255d4242d1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 10/50] fix: report the failing read in quick_dump, not a
 missing load error

---
 util/quick_dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 097ef5f..305fe49 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
         break;
     }
     if (!value.ok()) {
-      absl::PrintF("%s\n", rom.error().ToString());
+      absl::PrintF("%s\n", value.error().ToString());
       return 1;
     }
     switch (stride) {
-- 
2.43.0


From 000746de2bd78505f8427297b964ace4e514ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 11/50] fix: reject empty and out-of-range arguments in
 quick_dump

---
 util/quick_dump.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 305fe49..9d35ee8 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -28,19 +28,19 @@ int main(int argc, char** argv) {
   int count;
   int stride = 1;
   int per_line = 8;
-  if (!sscanf(argv[2], "%x", &start)) {
+  if (sscanf(argv[2], "%x", &start) != 1 || start > 0xffffff) {
     usage(argv[0]);
     return 1;
   }
-  if (!sscanf(argv[3], "%d", &count)) {
+  if (sscanf(argv[3], "%d", &count) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 4 && !sscanf(argv[4], "%d", &stride)) {
+  if (argc > 4 && sscanf(argv[4], "%d", &stride) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 5 && !sscanf(argv[5], "%d", &per_line)) {
+  if (argc > 5 && sscanf(argv[5], "%d", &per_line) != 1) {
     usage(argv[0]);
     return 1;
   }
-- 
2.43.0


From bbc598549f861ffba242ff08c259acbf59c5370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 12/50] fix: evaluate expressions in wrapping 32-bit arithmetic
 instead of overflowing

Sums, differences, products, negations and INT_MIN/-1 that left the range
of int were undefined behaviour (INT_MIN/-1 traps on x86).
---
 nsasm/expression.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/nsasm/expression.h b/nsasm/expression.h
index 1f9bddb..1d8675b 100644
--- a/nsasm/expression.h
+++ b/nsasm/expression.h
@@ -1,6 +1,7 @@
 #ifndef NSASM_EXPRESSION_H_
 #define NSASM_EXPRESSION_H_
 
+#include <cstdint>
 #include <set>
 
 #include "absl/memory/memory.h"
@@ -23,16 +24,26 @@ struct BinaryOp {
   char symbol = 0;
 };
 
+// Expressions are evaluated in 32-bit two's complement arithmetic, which wraps
+// around on overflow.
+inline int WrapToInt(std::int64_t value) { return static_cast<int>(value); }
+
 inline BinaryOp MakePlusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a + b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return WrapToInt(std::int64_t{a} + b);
+  };
   return BinaryOp(op, '+');
 }
 inline BinaryOp MakeMinusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a - b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return WrapToInt(std::int64_t{a} - b);
+  };
   return BinaryOp(op, '-');
 }
 inline BinaryOp MakeMultiplyOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a * b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return WrapToInt(std::int64_t{a} * b);
+  };
   return BinaryOp(op, '*');
 }
 inline BinaryOp MakeDivideOp() {
@@ -40,7 +51,7 @@ inline BinaryOp MakeDivideOp() {
     if (b == 0) {
       return Error("division by zero");
     }
-    return a / b;
+    return WrapToInt(std::int64_t{a} / b);
   };
   return BinaryOp(op, '/');
 }
@@ -59,7 +70,9 @@ struct UnaryOp {
 };
 
 inline UnaryOp MakeNegateOp() {
-  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> { return -a; };
+  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> {
+    return WrapToInt(-std::int64_t{a});
+  };
   UnaryOp::TypeFnPtr tfn = [](NumericType t) { return Signed(t); };
   return UnaryOp(fn, tfn, '-');
 }
-- 
2.43.0


From 61db60cbbb6e42f55b91f9635c67af44e09c9b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 13/50] fix: reject numeric literals too large to represent

Hexadecimal and binary literals of more than 24 bits and decimal literals
beyond the range of int were silently reduced to an unrelated value.
---
 nsasm/token.cc | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/nsasm/token.cc b/nsasm/token.cc
index 471a377..174ef63 100644
--- a/nsasm/token.cc
+++ b/nsasm/token.cc
@@ -1,5 +1,8 @@
 #include "nsasm/token.h"
 
+#include <cstdlib>
+#include <limits>
+
 #include "absl/strings/ascii.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
@@ -26,6 +29,20 @@ bool IsIdentifierChar(char ch) {
   return IsDecimalDigit(ch) || IsIdentifierFirstChar(ch);
 }
 
+// Returns the value of the given digits, or an error if it exceeds `max_value`.
+ErrorOr<int> LiteralValue(const std::string& digits, int base, int max_value) {
+  // Note that on overflow, strtoul() returns its largest value.
+  unsigned long value = strtoul(digits.c_str(), nullptr, base);
+  if (value > static_cast<unsigned long>(max_value)) {
+    return Error("Literal value '%s' is too large", digits);
+  }
+  return static_cast<int>(value);
+}
+
+// Hexadecimal and binary literals can't be larger than 24 bits.
+constexpr int kMaxTypedLiteral = 0xffffff;
+constexpr int kMaxUntypedLiteral = std::numeric_limits<int>::max();
+
 }  // namespace
 
 std::string Token::ToString() const {
@@ -135,7 +152,8 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         hex_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(hex_digits.c_str(), nullptr, 16);
+      auto value = LiteralValue(hex_digits, 16, kMaxTypedLiteral);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(value, loc);
       // For hex constants, deduce the type from the number of characters.
       // ("$00" is a byte and "$0000" is a word, for example.)
       NumericType type = T_long;
@@ -144,7 +162,7 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
       } else if (hex_digits.size() <= 4) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(*value, loc, type);
       continue;
     }
 
@@ -156,14 +174,15 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         binary_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(binary_digits.c_str(), nullptr, 2);
+      auto value = LiteralValue(binary_digits, 2, kMaxTypedLiteral);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(value, loc);
       NumericType type = T_long;
       if (binary_digits.size() <= 8) {
         type = T_byte;
       } else if (binary_digits.size() <= 16) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(*value, loc, type);
       continue;
     }
 
@@ -174,8 +193,9 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         decimal_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(decimal_digits.c_str(), nullptr, 10);
-      result.emplace_back(value, loc);
+      auto value = LiteralValue(decimal_digits, 10, kMaxUntypedLiteral);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(value, loc);
+      result.emplace_back(*value, loc);
       continue;
     }
 
-- 
2.43.0


From be4fa81a5b1017a82e18465238e00530751bf06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 14/50] fix: limit how complicated one expression can get

Deeply nested or very long expressions overflowed the stack of the
recursive parser and evaluator.
---
 nsasm/parse.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index c2431f6..98d4629 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -29,6 +29,26 @@ bool AtEndOrSuffix(const TokenSpan* pos) {
 
 Location Loc(const TokenSpan* pos) { return pos->front().Location(); }
 
+// Expressions are parsed and evaluated recursively, so bound how complicated a
+// single one can get.
+constexpr int kMaxExpressionOperators = 500;
+
+ErrorOr<void> CheckExpressionComplexity(TokenSpan tokens) {
+  int operators = 0;
+  for (const Token& token : tokens) {
+    if (token == ',' || token == ':') {
+      operators = 0;
+    } else if (token == '+' || token == '-' || token == '*' || token == '/' ||
+               token == '<' || token == '>' || token == '^' || token == '(') {
+      if (++operators > kMaxExpressionOperators) {
+        return Error("Expression is too complex")
+            .SetLocation(token.Location());
+      }
+    }
+  }
+  return {};
+}
+
 bool IsRegister(const Token& tok) {
   return tok == 'A' || tok == 'S' || tok == 'X' || tok == 'Y';
 }
@@ -517,6 +537,8 @@ ErrorOr<std::vector<absl::variant<Statement, ParsedLabel>>> Parse(
     absl::Span<const Token> tokens) {
   std::vector<absl::variant<Statement, ParsedLabel>> result_vector;
 
+  NSASM_RETURN_IF_ERROR(CheckExpressionComplexity(tokens));
+
   while (!tokens.empty()) {
     // An unexpected token at the beginning of the line is a label.
     // But don't allow multiples without a colon.
@@ -595,6 +617,7 @@ ErrorOr<ExpressionOrNull> ParseExpression(std::string_view s) {
   auto tokens = Tokenize(s, Location());
   NSASM_RETURN_IF_ERROR(tokens);
   TokenSpan pos = *tokens;
+  NSASM_RETURN_IF_ERROR(CheckExpressionComplexity(pos));
   auto expr = Expr(&pos);
   NSASM_RETURN_IF_ERROR(expr);
   NSASM_RETURN_IF_ERROR(ConfirmAtEnd(&pos, "after A operand"));
-- 
2.43.0


From ab6cfa256ddcbd5223469bcea4831391607d7c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 15/50] fix: don't read past the tracked stack when pulling a
 register

Pulling a register of original size with nothing pushed read the back of an
empty vector.
---
 nsasm/execution_state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bc7fc73..79be25b 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -391,7 +391,8 @@ class Stack {
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
-    if (abandoned_) {
+    if (abandoned_ || stack_.empty()) {
+      Abandon();
       return StackValue();
     }
     StackValue result = stack_.back();
-- 
2.43.0


From 3e692df760e6015ab3a29be03c8897967466a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 16/50] fix: don't assert when pulling a register pushed in its
 original size

PHA followed by PLA (or PHX/PLX, PHY/PLY) asserted when the register width
is the one in force on entry.
---
 nsasm/execution_state.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 79be25b..537abad 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -298,6 +298,9 @@ struct StackValue {
     assert(type_ == T_flags);
     return flags_;
   }
+  // Returns true if this holds a register's original value, in its original
+  // size.
+  bool HoldsOriginalVarSize() const { return IsVarSize() && value_ == 1; }
   bool IsVarSize() const {
     return type_ == T_a_varsize || type_ == T_x_varsize || type_ == T_y_varsize;
   }
@@ -431,7 +434,7 @@ class Stack {
     } else if (bit == B_original) {
       StackValue result = PullVarsize();
       if (result.type() == var_byte_type) {
-        if (result.value() == 1) {
+        if (result.HoldsOriginalVarSize()) {
           // holds original value
           return RegisterValue(RegisterValue::T_original);
         } else {
-- 
2.43.0


From 3e34b590039d6f3102e8ba74670cf537f5d0ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 17/50] fix: track the stack through PHB, PHK, PHD, PLB, PLD,
 TCS and TXS

---
 nsasm/instruction.cc | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 6ac13fb..2f7af4a 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -356,6 +356,36 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  // Instructions that push or pull registers whose contents we don't track, but
+  // which still move the values below or above them on the stack.
+  if (m == M_phb || m == M_phk) {
+    es->GetStack().PushUnknownByte();
+    return {};
+  }
+
+  if (m == M_phd) {
+    es->GetStack().PushUnknownWord();
+    return {};
+  }
+
+  if (m == M_plb) {
+    es->GetStack().PullByte();
+    es->DataBankRegister() = RegisterValue();
+    return {};
+  }
+
+  if (m == M_pld) {
+    es->GetStack().PullByte();
+    es->GetStack().PullByte();
+    return {};
+  }
+
+  // Instructions that move the stack pointer elsewhere.
+  if (m == M_tcs || m == M_txs) {
+    es->GetStack().Abandon();
+    return {};
+  }
+
   // Instructions that push or pull the status bits onto the stack.
   if (m == M_php) {
     es->PushFlags();
-- 
2.43.0


From c74e9a813c9154756686f09c6f9aa3b0efdf0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 18/50] fix: report values outside the address space instead of
 asserting

---
 nsasm/address.h      |  8 ++++++++
 nsasm/instruction.cc | 13 ++++++++-----
 nsasm/module.cc      | 17 ++++++++++++-----
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/nsasm/address.h b/nsasm/address.h
index 90a2a3b..2041b1e 100644
--- a/nsasm/address.h
+++ b/nsasm/address.h
@@ -24,6 +24,14 @@ class Address {
   explicit Address(uint8_t bank, uint16_t bank_address)
       : value_((bank << 16) | bank_address) {}
 
+  // Returns the address with the given value, or an error if there is none.
+  static ErrorOr<Address> FromInt(int value) {
+    if (value < 0 || value > 0xffffff) {
+      return Error("Value %d is not an address", value);
+    }
+    return Address(value);
+  }
+
   constexpr int Bank() const { return value_ >> 16; }
   constexpr uint16_t BankAddress() const { return value_ & 0xffffu; }
 
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 2f7af4a..9d850eb 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -511,9 +511,10 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel8) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
-    nsasm::Address target(*val1);
+    auto target = nsasm::Address::FromInt(*val1);
+    NSASM_RETURN_IF_ERROR(target);
     nsasm::Address branch_base = address.AddWrapped(2);
-    auto offset = target.SubtractWrapped(branch_base);
+    auto offset = target->SubtractWrapped(branch_base);
     NSASM_RETURN_IF_ERROR(offset);
     if (*offset > 127 || *offset < -128) {
       return Error("Relative branch too far");
@@ -525,9 +526,10 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel16) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
-    nsasm::Address target(*val1);
+    auto target = nsasm::Address::FromInt(*val1);
+    NSASM_RETURN_IF_ERROR(target);
     nsasm::Address branch_base = address.AddWrapped(3);
-    auto offset = target.SubtractWrapped(branch_base);
+    auto offset = target->SubtractWrapped(branch_base);
     NSASM_RETURN_IF_ERROR(offset);
     int wrapped_offset = *offset & 0xffff;
     *(output++) = wrapped_offset & 0xff;
@@ -542,7 +544,8 @@ absl::optional<nsasm::Address> Instruction::FarBranchTarget(
   if (addressing_mode == A_dir_l && (mnemonic == M_jmp || mnemonic == M_jsl)) {
     auto target = arg1.Evaluate(NullLookupContext());
     if (target.ok()) {
-      return nsasm::Address(*target);
+      // Only the low 24 bits are encoded.
+      return nsasm::Address(*target & 0xffffff);
     }
     return absl::nullopt;
   }
diff --git a/nsasm/module.cc b/nsasm/module.cc
index a5a2985..7599468 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -257,7 +257,9 @@ ErrorOr<void> Module::RunFirstPass() {
     if (dir && dir->name == D_org) {
       auto v = dir->argument.Evaluate(NullLookupContext());
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, dir->location);
-      pc = nsasm::Address(*v);
+      auto origin = nsasm::Address::FromInt(*v);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(origin, dir->location);
+      pc = *origin;
     }
     int statement_size = line.statement.SerializedSize();
     if (statement_size > 0 && !pc.has_value()) {
@@ -358,7 +360,9 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     } else if (directive && directive->name == D_remote) {
       auto arg_val = directive->argument.Evaluate(context);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(arg_val, directive->location);
-      Address address(*arg_val);
+      auto remote_address = Address::FromInt(*arg_val);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(remote_address, directive->location);
+      Address address = *remote_address;
       auto it = unnamed_targets_.find(address);
       if (it == unnamed_targets_.end()) {
         unnamed_targets_[address] = directive->flag_state_argument;
@@ -391,9 +395,12 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       return Error("Label missing a value")
           .SetLocation(line.statement.Location());
     }
-    nsasm::Address address = line.value->ToAddress();
-    if (!address_to_global_.contains(address)) {
-      address_to_global_[address] = node.first;
+    auto address = nsasm::Address::FromInt(line.value->ToInt());
+    if (!address.ok()) {
+      continue;  // a .equ value that doesn't name an address
+    }
+    if (!address_to_global_.contains(*address)) {
+      address_to_global_[*address] = node.first;
     }
   }
   return {};
-- 
2.43.0


From e37682685220e44b2a16be0d0db5629095099f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 19/50] fix: don't take the incoming carry for the original
 emulation bit after XCE

---
 nsasm/execution_state.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 537abad..40bee3b 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -85,12 +85,13 @@ class StatusFlags {
   void SetCBit(BitState state) { c_bit_ = state; }
 
   // Modify this flag state to represent an "incoming" state to a subroutine.
-  // All "unknown" bits become "original".
+  // The "unknown" `e`, `m` and `x` bits become "original".  The `c` bit does not:
+  // after XCE, an "original" `e` bit would mean the carry the subroutine was
+  // entered with, and `m` and `x` might not keep their original values under it.
   void SetIncoming() {
     if (e_bit_ == B_unknown) e_bit_ = B_original;
     if (m_bit_ == B_unknown) m_bit_ = B_original;
     if (x_bit_ == B_unknown) x_bit_ = B_original;
-    if (c_bit_ == B_unknown) c_bit_ = B_original;
   }
 
   void ExchangeCE() {
-- 
2.43.0


From 0160ca6d222babe8ad4b1ebd010059e6f2bca4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 20/50] fix: merge the states a line is reached with instead of
 keeping the last

---
 nsasm/module.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 7599468..58b655e 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -201,7 +201,11 @@ ErrorOr<void> Module::RunFirstPass() {
       return Error("Execution continues past end of file");
     }
     Line& line = lines_[node.first];
-    const ExecutionState& current_state = node.second;
+    // A line can be reached under several conditions; consider all of them.
+    ExecutionState current_state = node.second;
+    if (line.reached) {
+      current_state |= line.incoming_state;
+    }
     if (line.reached && line.incoming_state == current_state) {
       // we've been here before under these conditions; nothing more to do
       decode_stack.erase(decode_stack.begin());
-- 
2.43.0


From 236bb1cf014f9c86b90ec2040d4270636dace3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 21/50] fix: refuse a branch to a .equ name

---
 nsasm/module.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 58b655e..1d1aac6 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -233,6 +233,11 @@ ErrorOr<void> Module::RunFirstPass() {
                      nsasm::ToString(ins.mnemonic), *target)
             .SetLocation(ins.location);
       }
+      if (lines_[*target_index].statement == D_equ) {
+        return Error("Target for `%s %s` is not a location in this module",
+                     nsasm::ToString(ins.mnemonic), *target)
+            .SetLocation(ins.location);
+      }
       next_state = current_state;
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(ins.ExecuteBranch(&next_state),
                                           line.statement.Location());
-- 
2.43.0


From 19a4475dccb173a71f05dcbaef5657ad86595b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 22/50] fix: disassemble short instructions at the end of
 readable memory

---
 nsasm/disassemble.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 51e3d2f..fe86fe9 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -9,6 +9,23 @@
 #include "nsasm/opcode_map.h"
 
 namespace nsasm {
+namespace {
+
+// Reads the bytes of the instruction at `pc`.  Instructions are up to four
+// bytes long, but fewer are enough if that is all there is to read.
+ErrorOr<std::vector<uint8_t>> ReadInstruction(const InputSource& src,
+                                              nsasm::Address pc) {
+  auto data = src.Read(pc, 4);
+  for (int length = 3; !data.ok() && length > 0; --length) {
+    auto shorter = src.Read(pc, length);
+    if (shorter.ok()) {
+      return shorter;
+    }
+  }
+  return data;
+}
+
+}  // namespace
 
 ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     nsasm::Address starting_address, const StatusFlags& initial_status_flags) {
@@ -96,7 +113,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     if (!existing_instruction) {
       // This is the first time we've seen this address.  Try to disassemble
       // it.
-      auto instruction_data = src_->Read(pc, 4);
+      auto instruction_data = ReadInstruction(*src_, pc);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(instruction_data, src_->Path(), pc);
       auto instruction =
           Decode(*instruction_data, current_execution_state.Flags());
@@ -160,7 +177,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // Check that the instruction still decodes with the new flag state.
         // (We can throw the answer away if so, since we've already disassembled
         // this instruction before.)
-        auto instruction_data = src_->Read(pc, 4);
+        auto instruction_data = ReadInstruction(*src_, pc);
         NSASM_RETURN_IF_ERROR_WITH_LOCATION(
             Decode(*instruction_data, combined_execution_state.Flags()),
             src_->Path(), pc);
-- 
2.43.0


From 7d9ba0d2c7338fcc8bc2b2a9599ce7d89ab83519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 23/50] fix: report far targets with the state before the call
 on revisits

---
 nsasm/disassemble.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index fe86fe9..99e0413 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -200,7 +200,10 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // ... the far branch target ...
         auto far_branch_address = di.instruction.FarBranchTarget(pc);
         if (far_branch_address.has_value()) {
-          add_far_branch(*far_branch_address, next_execution_state);
+          // (which is entered before the state the call yields takes effect)
+          ExecutionState far_branch_state = combined_execution_state;
+          far_branch_state.WipeCarry();
+          add_far_branch(*far_branch_address, far_branch_state);
         }
         // ... and the local branch target.
         if (di.instruction.IsLocalBranch()) {
-- 
2.43.0


From 69b06fab9ba5d580e12f47a05be188da4b96d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 24/50] fix: drop an instruction's suffix when its width
 becomes unknown

---
 nsasm/disassemble.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 99e0413..6c6735c 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -221,9 +221,11 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
 
   // If we got here, disassembly was a success.
 
-  // Add a suffix to each new disassembly instruction that supports one.
+  // Add a suffix to each new disassembly instruction that supports one.  (An
+  // instruction seen before may have to lose the one it has.)
   for (auto& node : new_disassembly) {
     Instruction& ins = node.second.instruction;
+    ins.suffix = S_none;
     const StatusFlags& flags = node.second.current_execution_state.Flags();
     StatusFlagUsed flag_used = FlagControllingInstructionSize(ins.mnemonic);
     if (flag_used == kUsesMFlag) {
-- 
2.43.0


From dc448ebef5eb704d2204e2c3d62e6c8a315315ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 25/50] fix: do not mark an entry point that could not be
 disassembled

---
 nsasm/disassemble.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 6c6735c..84c7ede 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -97,8 +97,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   ExecutionState initial_execution_state(initial_status_flags);
 
   add_to_decode_stack(starting_address, initial_execution_state);
-  // ensure entry point is marked, and has a label
-  entry_points_.insert(starting_address);
+  // ensure entry point has a label
   get_label(starting_address);
 
   while (!decode_stack.empty()) {
@@ -220,6 +219,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   }
 
   // If we got here, disassembly was a success.
+  entry_points_.insert(starting_address);
 
   // Add a suffix to each new disassembly instruction that supports one.  (An
   // instruction seen before may have to lose the one it has.)
-- 
2.43.0


From e5e11a668f6bd78632b1797db18e56f201338f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 26/50] fix: fold a carry instruction only into the one right
 after it

---
 nsasm/disassemble.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 84c7ede..12058d5 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -308,8 +308,10 @@ ErrorOr<void> Disassembler::Cleanup() {
     if (next_iter == disassembly_.end()) {
       break;
     }
+    // (the second instruction has to follow the first in memory)
+    bool adjacent = next_iter->first == iter->first.AddWrapped(1);
     if (iter->second.instruction.mnemonic == M_clc &&
-        next_iter->second.instruction.mnemonic == M_adc &&
+        next_iter->second.instruction.mnemonic == M_adc && adjacent &&
         next_iter->second.label.empty()) {
       iter->second.instruction = std::move(next_iter->second.instruction);
       iter->second.instruction.mnemonic = PM_add;
@@ -319,7 +321,7 @@ ErrorOr<void> Disassembler::Cleanup() {
       continue;
     }
     if (iter->second.instruction.mnemonic == M_sec &&
-        next_iter->second.instruction.mnemonic == M_sbc &&
+        next_iter->second.instruction.mnemonic == M_sbc && adjacent &&
         next_iter->second.label.empty()) {
       iter->second.instruction = std::move(next_iter->second.instruction);
       iter->second.instruction.mnemonic = PM_sub;
-- 
2.43.0


From 8f012422eb939009931f3d9629e2ec1fa80cb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 27/50] fix: show PER with the address it refers to, and accept
 one

---
 nsasm/addressing_mode.cc | 6 +++++-
 nsasm/disassemble.cc     | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/nsasm/addressing_mode.cc b/nsasm/addressing_mode.cc
index d02e065..b0af99c 100644
--- a/nsasm/addressing_mode.cc
+++ b/nsasm/addressing_mode.cc
@@ -205,7 +205,11 @@ ErrorOr<AddressingMode> DeduceMode(Mnemonic m, SyntacticAddressingMode smode,
   if (m == M_bcc || m == M_bcs || m == M_beq || m == M_bmi || m == M_bne ||
       m == M_bpl || m == M_bra || m == M_brl || m == M_bvc || m == M_bvs ||
       m == M_per) {
-    if (smode != SA_dir || !arg1.SimpleIdentifier()) {
+    // PER takes the address of data as often as not, so that it may be given as
+    // a number, too.
+    const bool named_target =
+        arg1.SimpleIdentifier() || (m == M_per && arg1.Type() == T_long);
+    if (smode != SA_dir || !named_target) {
       return Error("Branch instruction %s requires a named branch target.",
                    ToString(m));
     }
diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 12058d5..5304235 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -152,6 +152,15 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         add_to_decode_stack(target, branch_execution_state);
       }
 
+      // PER is relatively addressed as well, but refers to data.  Show it as the
+      // address referred to.
+      if (instruction->mnemonic == M_per) {
+        int value = *instruction->arg1.Evaluate(NullLookupContext());
+        nsasm::Address target = next_pc.AddWrapped(value);
+        instruction->arg1 = absl::make_unique<Literal>(
+            target.Bank() * 0x10000 + target.BankAddress(), T_long);
+      }
+
       // We've decoded an instruction!  Store it.
       DisassembledInstruction di;
       di.instruction = std::move(*instruction);
-- 
2.43.0


From ba437bd7c0029ab3069efcf211fae2b7f3ac5c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 28/50] Revert "fix: show PER with the address it refers to,
 and accept one"

This reverts commit 8f012422eb939009931f3d9629e2ec1fa80cb5c4.
---
 nsasm/addressing_mode.cc | 6 +-----
 nsasm/disassemble.cc     | 9 ---------
 2 files changed, 1 insertion(+), 14 deletions(-)

diff --git a/nsasm/addressing_mode.cc b/nsasm/addressing_mode.cc
index b0af99c..d02e065 100644
--- a/nsasm/addressing_mode.cc
+++ b/nsasm/addressing_mode.cc
@@ -205,11 +205,7 @@ ErrorOr<AddressingMode> DeduceMode(Mnemonic m, SyntacticAddressingMode smode,
   if (m == M_bcc || m == M_bcs || m == M_beq || m == M_bmi || m == M_bne ||
       m == M_bpl || m == M_bra || m == M_brl || m == M_bvc || m == M_bvs ||
       m == M_per) {
-    // PER takes the address of data as often as not, so that it may be given as
-    // a number, too.
-    const bool named_target =
-        arg1.SimpleIdentifier() || (m == M_per && arg1.Type() == T_long);
-    if (smode != SA_dir || !named_target) {
+    if (smode != SA_dir || !arg1.SimpleIdentifier()) {
       return Error("Branch instruction %s requires a named branch target.",
                    ToString(m));
     }
diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 5304235..12058d5 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -152,15 +152,6 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         add_to_decode_stack(target, branch_execution_state);
       }
 
-      // PER is relatively addressed as well, but refers to data.  Show it as the
-      // address referred to.
-      if (instruction->mnemonic == M_per) {
-        int value = *instruction->arg1.Evaluate(NullLookupContext());
-        nsasm::Address target = next_pc.AddWrapped(value);
-        instruction->arg1 = absl::make_unique<Literal>(
-            target.Bank() * 0x10000 + target.BankAddress(), T_long);
-      }
-
       // We've decoded an instruction!  Store it.
       DisassembledInstruction di;
       di.instruction = std::move(*instruction);
-- 
2.43.0


From 7c4ef4e6b9c5ebcb7809f0082e833e310704664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 29/50] fix: Say where an instruction has an unsupported return
 convention

---
 nsasm/parse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index 98d4629..2c1e417 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -444,8 +444,9 @@ ErrorOr<Instruction> ParseInstruction(TokenSpan* pos) {
   if (!return_convention->IsDefault() && result->mnemonic != M_jsl &&
       result->mnemonic != M_jsr) {
     return nsasm::Error(
-        "return calling convention not supported on instruction %s",
-        nsasm::ToString(result->mnemonic));
+               "return calling convention not supported on instruction %s",
+               nsasm::ToString(result->mnemonic))
+        .SetLocation(Loc(pos));
   }
   result->return_convention = *return_convention;
   return result;
-- 
2.43.0


From da0f6c8a062224f22ccbb27a5ad743182b8a3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 30/50] fix: Say which file execution runs off the end of

---
 nsasm/module.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 1d1aac6..8914a61 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -198,7 +198,8 @@ ErrorOr<void> Module::RunFirstPass() {
     // Consider the earliest statement that needs processing.
     auto& node = *decode_stack.begin();
     if (node.first == lines_.size()) {
-      return Error("Execution continues past end of file");
+      return Error("Execution continues past end of file")
+          .SetLocation(lines_.back().statement.Location());
     }
     Line& line = lines_[node.first];
     // A line can be reached under several conditions; consider all of them.
-- 
2.43.0


From c085dc06b93aa1bb54505d95befe30e66e760e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 31/50] fix: Report the lines of duplicate definitions in two
 files

---
 nsasm/module.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 8914a61..1cf8432 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -331,8 +331,7 @@ const std::map<FullIdentifier, Location> Module::ExportedNames() const {
   std::map<FullIdentifier, Location> result;
   for (const auto& node : global_to_line_) {
     FullIdentifier id(module_name_, node.first);
-    Location loc(path_, node.second);
-    result[std::move(id)] = std::move(loc);
+    result[std::move(id)] = lines_[node.second].statement.Location();
   }
   return result;
 }
-- 
2.43.0


From 7d4d8d6bf3baf81c4438f09d3172c4650ea91764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 32/50] fix: Name the .equ at fault when no assembly order
 exists

---
 nsasm/assembler.cc | 51 +++++++++++++++++++++++++++++++++++++++++-----
 nsasm/assembler.h  |  7 +++++++
 nsasm/module.cc    |  4 +++-
 nsasm/module.h     | 12 ++++++-----
 4 files changed, 63 insertions(+), 11 deletions(-)

diff --git a/nsasm/assembler.cc b/nsasm/assembler.cc
index f769bc3..691c0e2 100644
--- a/nsasm/assembler.cc
+++ b/nsasm/assembler.cc
@@ -1,6 +1,5 @@
 #include "nsasm/assembler.h"
 
-#include "absl/container/flat_hash_set.h"
 #include "absl/strings/str_format.h"
 
 namespace nsasm {
@@ -29,8 +28,8 @@ nsasm::ErrorOr<std::vector<Module*>> Assembler::FindAssemblyOrder() {
         continue;
       }
       bool all_dependencies_met = true;
-      for (const FullIdentifier& dependency : module.Dependencies()) {
-        if (!exported_names.contains(dependency)) {
+      for (const auto& dependency : module.Dependencies()) {
+        if (!exported_names.contains(dependency.first)) {
           all_dependencies_met = false;
           break;
         }
@@ -53,13 +52,55 @@ nsasm::ErrorOr<std::vector<Module*>> Assembler::FindAssemblyOrder() {
       }
     }
     if (!more_found) {
-      // TODO: Return an error message explaining the cyclic dependency
-      return Error("Cyclic dependency in .equ definitions");
+      return UnmetDependencyError(already_inserted, exported_names);
     }
   }
   return order;
 }
 
+Error Assembler::UnmetDependencyError(
+    const absl::flat_hash_set<Module*>& placed,
+    const absl::flat_hash_map<FullIdentifier, Location>& defined) {
+  std::map<FullIdentifier, Module*> exporters;
+  Module* module = nullptr;
+  for (Module& candidate : modules_) {
+    if (placed.contains(&candidate)) {
+      continue;
+    }
+    if (!module) {
+      module = &candidate;
+    }
+    for (const auto& node : candidate.ExportedNames()) {
+      exporters.emplace(node.first, &candidate);
+    }
+  }
+
+  // Follow unmet dependencies until one turns out to be undefined, or until
+  // they lead back to a module already seen.
+  absl::flat_hash_set<Module*> visited;
+  while (true) {
+    visited.insert(module);
+    for (const auto& dependency : module->Dependencies()) {
+      if (defined.contains(dependency.first)) {
+        continue;
+      }
+      auto exporter = exporters.find(dependency.first);
+      if (exporter == exporters.end()) {
+        return Error("No definition for '%s' found",
+                     dependency.first.ToString())
+            .SetLocation(dependency.second);
+      }
+      if (visited.contains(exporter->second)) {
+        return Error("Cyclic dependency in .equ definitions (on '%s')",
+                     dependency.first.ToString())
+            .SetLocation(dependency.second);
+      }
+      module = exporter->second;
+      break;
+    }
+  }
+}
+
 class AssemblerLookupContext : public LookupContext {
  public:
   AssemblerLookupContext(const Assembler* assembler) : assembler_(assembler) {}
diff --git a/nsasm/assembler.h b/nsasm/assembler.h
index 8d168cc..48b2f5f 100644
--- a/nsasm/assembler.h
+++ b/nsasm/assembler.h
@@ -2,6 +2,7 @@
 #define NSASM_ASSEMBLER_H
 
 #include "absl/container/flat_hash_map.h"
+#include "absl/container/flat_hash_set.h"
 #include "nsasm/calling_convention.h"
 #include "nsasm/error.h"
 #include "nsasm/module.h"
@@ -54,6 +55,12 @@ class Assembler {
   // evaluated before any are accessed.
   ErrorOr<std::vector<Module*>> FindAssemblyOrder();
 
+  // Describes why none of the modules absent from `placed` can be assembled
+  // next, given that `defined` are the names known so far.
+  Error UnmetDependencyError(
+      const absl::flat_hash_set<Module*>& placed,
+      const absl::flat_hash_map<FullIdentifier, Location>& defined);
+
   friend class AssemblerLookupContext;
 
   std::deque<Module> modules_;
diff --git a/nsasm/module.cc b/nsasm/module.cc
index 1cf8432..58b935b 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -167,7 +167,9 @@ ErrorOr<Module> Module::LoadAsmFile(const File& file) {
     if (directive && directive->name == D_equ) {
       ModuleIsLocalContext context(&m, line.active_scopes);
       auto dependencies = directive->argument.ExternalNamesReferenced(context);
-      m.dependencies_.insert(dependencies.begin(), dependencies.end());
+      for (const FullIdentifier& dependency : dependencies) {
+        m.dependencies_.emplace(dependency, directive->location);
+      }
     }
   }
   return m;
diff --git a/nsasm/module.h b/nsasm/module.h
index 7ac41da..68290d4 100644
--- a/nsasm/module.h
+++ b/nsasm/module.h
@@ -35,10 +35,12 @@ class Module {
   // for use in error message generation.)
   const std::map<FullIdentifier, Location> ExportedNames() const;
 
-  // Returns the set of qualified identifiers that this module depends on. (This
-  // is not every reference, but only for references that require early
-  // evaluation, i.e., .EQU arguments.)
-  const std::set<FullIdentifier> Dependencies() const { return dependencies_; }
+  // Returns the qualified identifiers that this module depends on, and where
+  // they are referenced. (This is not every reference, but only for references
+  // that require early evaluation, i.e., .EQU arguments.)
+  const std::map<FullIdentifier, Location>& Dependencies() const {
+    return dependencies_;
+  }
 
   // Run the first pass of this module.  This determines the size of each
   // instruction and assigns an address to each non-.equ label, but will not
@@ -113,7 +115,7 @@ class Module {
   std::string path_;
   std::string module_name_;
   std::vector<Line> lines_;
-  std::set<FullIdentifier> dependencies_;
+  std::map<FullIdentifier, Location> dependencies_;
   absl::flat_hash_map<std::string, int> global_to_line_;
 
   DataRange owned_bytes_;
-- 
2.43.0


From 0051ce39536c94f0837cc9a9b12e6b9cf3075ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 33/50] fix: Say which statement writes to memory another file
 claimed

---
 nsasm/assembler.cc |  4 +++-
 nsasm/module.cc    | 13 +++++++++++++
 nsasm/module.h     |  6 ++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/nsasm/assembler.cc b/nsasm/assembler.cc
index 691c0e2..15c9efa 100644
--- a/nsasm/assembler.cc
+++ b/nsasm/assembler.cc
@@ -145,7 +145,9 @@ nsasm::ErrorOr<void> Assembler::Assemble(OutputSink* sink) {
     if (!memory_module_map_.Insert(module->OwnedBytes(), module)) {
       // TODO: this could convey a lot more info...
       return nsasm::Error("Module `%s` writing to previously claimed memory",
-                          module->Name());
+                          module->Name())
+          .SetLocation(module->FirstLocationIn(
+              [this](nsasm::Address address) { return Contains(address); }));
     }
   }
 
diff --git a/nsasm/module.cc b/nsasm/module.cc
index 58b935b..1eceaf7 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -417,6 +417,19 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
   return {};
 }
 
+Location Module::FirstLocationIn(
+    const std::function<bool(nsasm::Address)>& contains) const {
+  for (const Line& line : lines_) {
+    const int size = line.statement.SerializedSize();
+    for (int i = 0; i < size; ++i) {
+      if (contains(line.value->ToAddress().AddWrapped(i))) {
+        return line.statement.Location();
+      }
+    }
+  }
+  return Location(path_);
+}
+
 void Module::DebugPrint() const {
   for (const auto& line : lines_) {
     for (const std::string& label : line.identifier_labels) {
diff --git a/nsasm/module.h b/nsasm/module.h
index 68290d4..bad677d 100644
--- a/nsasm/module.h
+++ b/nsasm/module.h
@@ -1,6 +1,7 @@
 #ifndef NSASM_MODULE_H
 #define NSASM_MODULE_H
 
+#include <functional>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -78,6 +79,11 @@ class Module {
 
   const DataRange& OwnedBytes() const { return owned_bytes_; }
 
+  // Returns the location of the first statement in this module with a byte at
+  // an address for which `contains` returns true.
+  Location FirstLocationIn(
+      const std::function<bool(nsasm::Address)>& contains) const;
+
   // Output this module's contents to stdout
   void DebugPrint() const;
 
-- 
2.43.0


From eb1e4ea69f7778330f70948f30534f2e70f741b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 34/50] fix: Do not ignore the rest of a line after an empty
 statement

---
 nsasm/parse.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index 2c1e417..006ad71 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -567,10 +567,16 @@ ErrorOr<std::vector<absl::variant<Statement, ParsedLabel>>> Parse(
       }
     }
 
-    if (AtEnd(&tokens)) {
+    if (tokens.front().EndOfLine()) {
       return result_vector;
     }
 
+    // an empty statement
+    if (tokens.front() == ':') {
+      tokens.remove_prefix(1);
+      continue;
+    }
+
     // pseudo scope operators
     if (tokens.front() == '{' || tokens.front() == '}') {
       Directive directive;
-- 
2.43.0


From f33c5dd08cb9e6b6ef70bbcda8e8c4a32d9291a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 35/50] fix: Keep labels at the end of a file

---
 nsasm/module.cc | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 1eceaf7..6cef2b9 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -81,6 +81,7 @@ ErrorOr<Module> Module::LoadAsmFile(const File& file) {
   Location loc(file.path());
 
   std::vector<ParsedLabel> pending_labels;
+  Location pending_label_loc;
   std::vector<int> active_scopes;
 
   auto add_label = [&m, &active_scopes](
@@ -102,6 +103,23 @@ ErrorOr<Module> Module::LoadAsmFile(const File& file) {
     return {};
   };
 
+  auto add_line = [&](Statement statement,
+                      const Location& loc) -> nsasm::ErrorOr<void> {
+    m.lines_.emplace_back(std::move(statement));
+    for (const ParsedLabel& pending_label : pending_labels) {
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(
+          add_label(pending_label, m.lines_.size() - 1), loc);
+      if (pending_label.IsPlusOrMinus()) {
+        m.lines_.back().plus_minus_labels.insert(pending_label.PlusOrMinus());
+      } else {
+        m.lines_.back().identifier_labels.push_back(pending_label.Identifier());
+      }
+    }
+    m.lines_.back().active_scopes = active_scopes;
+    pending_labels.clear();
+    return {};
+  };
+
   int line_number = 0;
   for (const std::string& line : file) {
     ++line_number;
@@ -114,21 +132,9 @@ ErrorOr<Module> Module::LoadAsmFile(const File& file) {
     for (auto& entity : *entities) {
       if (auto* label = absl::get_if<ParsedLabel>(&entity)) {
         pending_labels.push_back(std::move(*label));
+        pending_label_loc = loc;
       } else if (auto* statement = absl::get_if<Statement>(&entity)) {
-        m.lines_.emplace_back(std::move(*statement));
-        for (const ParsedLabel& pending_label : pending_labels) {
-          NSASM_RETURN_IF_ERROR_WITH_LOCATION(
-              add_label(pending_label, m.lines_.size() - 1), loc);
-          if (pending_label.IsPlusOrMinus()) {
-            m.lines_.back().plus_minus_labels.insert(
-                pending_label.PlusOrMinus());
-          } else {
-            m.lines_.back().identifier_labels.push_back(
-                pending_label.Identifier());
-          }
-        }
-        m.lines_.back().active_scopes = active_scopes;
-        pending_labels.clear();
+        NSASM_RETURN_IF_ERROR(add_line(std::move(*statement), loc));
         const Directive* directive = m.lines_.back().statement.Directive();
         if (directive) {
           if (directive->name == D_module) {
@@ -158,6 +164,14 @@ ErrorOr<Module> Module::LoadAsmFile(const File& file) {
       }
     }
   }
+  if (!pending_labels.empty()) {
+    // No statement follows these labels.  Attach them to an empty one.
+    Directive empty;
+    empty.name = D_db;
+    empty.location = pending_label_loc;
+    NSASM_RETURN_IF_ERROR(
+        add_line(Statement(std::move(empty)), pending_label_loc));
+  }
   if (!active_scopes.empty()) {
     return Error("Scope open without matching close")
         .SetLocation(m.lines_[active_scopes.back()].statement.Location());
-- 
2.43.0


From 499e0eb6e635b4d24aeab3a9d4b332a324a6b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 36/50] fix: Print the return convention of .remote directives

---
 nsasm/directive.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/directive.cc b/nsasm/directive.cc
index 3a85fdc..7774475 100644
--- a/nsasm/directive.cc
+++ b/nsasm/directive.cc
@@ -48,7 +48,8 @@ std::string Directive::ToString() const {
                         }));
     case DT_remote_arg:
       return absl::StrCat(nsasm::ToString(name), " ", argument.ToString(), " ",
-                          flag_state_argument.ToName());
+                          flag_state_argument.ToName(),
+                          return_convention_argument.ToSuffixString());
   }
   return "???";
 }
-- 
2.43.0


From c53d9432f0b55e4c5b7333c8f447115eb2bd3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 37/50] fix: Fail when quick_assemble cannot write its output

---
 util/quick_assemble.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/quick_assemble.cc b/util/quick_assemble.cc
index 35edc55..d350f7c 100644
--- a/util/quick_assemble.cc
+++ b/util/quick_assemble.cc
@@ -67,6 +67,7 @@ int main(int argc, char** argv) {
     auto write_status = overwriter.CreateFile(output_path);
     if (!write_status.ok()) {
       absl::PrintF("Error writing file: %s\n", write_status.error().ToString());
+      return 1;
     }
   }
   // assembler.DebugPrint();
-- 
2.43.0


From 3c08de8516d02510e2bfbfd76b80765493688cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 38/50] fix: Give the disassembler of disassemble_more a ROM to
 read

---
 util/disassemble_more.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 1346a4f..1ca65d9 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -37,6 +37,12 @@ int main(int argc, char** argv) {
     return 1;
   }
   nsasm::RomIdentityTest rom_identity_sink(std::move(*rom));
+  // The sink now owns that copy, and the disassembler needs one of its own.
+  rom = nsasm::LoadRomFile(argv[1]);
+  if (!rom.ok()) {
+    absl::PrintF("Error loading ROM: %s\n", rom.error().ToString());
+    return 1;
+  }
 
   std::vector<nsasm::File> asm_files;
   for (int arg_index = 2; arg_index < argc; ++arg_index) {
-- 
2.43.0


From 7d8e38fd7fc8345948723e8e5b0c5b07a720a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 39/50] fix: Reject addresses that are not in quick_disassemble

---
 util/quick_disassemble.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 09a3fc4..10268b2 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -55,7 +55,7 @@ int main(int argc, char** argv) {
     const char* address = argv[idx];
     bool indirect = (address[0] == '@');
     if (indirect) ++address;
-    if (!sscanf(address, "%x", &rd_address)) {
+    if (sscanf(address, "%x", &rd_address) != 1 || rd_address > 0xffffff) {
       usage(argv[0]);
       return 1;
     }
-- 
2.43.0


From e15ca3533e214c6608902c2c66702f01b68ad26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 40/50] fix: Use every mode an address is given with in
 quick_disassemble

---
 util/quick_disassemble.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 10268b2..681aadc 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -67,7 +67,7 @@ int main(int argc, char** argv) {
       }
       rd_address = *indirect_address;
     }
-    seeds.emplace(nsasm::Address(rd_address), *parsed_flag);
+    CombineStates(&seeds, {{nsasm::Address(rd_address), *parsed_flag}});
   }
 
   nsasm::Disassembler disassembler(std::move(*rom));
-- 
2.43.0


From cacc8727789d99b25bc358b9792430697836ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 41/50] fix: Reject addresses that are not in dumb_disassemble

---
 util/dumb_disassemble.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index ab0ac17..4a2c8c3 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -28,8 +28,8 @@ int main(int argc, char** argv) {
   }
 
   unsigned hex_address;
-  if (!sscanf(argv[2], "%x", &hex_address)) {
-    usage(argv[2]);
+  if (sscanf(argv[2], "%x", &hex_address) != 1 || hex_address > 0xffffff) {
+    usage(argv[0]);
     return 1;
   }
 
-- 
2.43.0


From 11ba9e8b60d96fce7cced04486cc19df6da7cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 42/50] fix: Show short instructions at the end of a ROM in
 dumb_disassemble

---
 util/dumb_disassemble.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 4a2c8c3..bc502fc 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -44,6 +44,13 @@ int main(int argc, char** argv) {
   std::map<nsasm::Address, nsasm::ExecutionState> local_jumps;
   while (true) {
     auto instruction_data = (*rom)->Read(address, 4);
+    // Fewer bytes are enough for most instructions at the end of the ROM.
+    for (int length = 3; !instruction_data.ok() && length > 0; --length) {
+      auto shorter = (*rom)->Read(address, length);
+      if (shorter.ok()) {
+        instruction_data = std::move(shorter);
+      }
+    }
     if (!instruction_data.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
                    instruction_data.error().ToString());
-- 
2.43.0


From 27f7e6524c3968883fc5838dc4b79d7f2063a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 43/50] fix: Stop dumb_disassemble after one bank

---
 util/dumb_disassemble.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index bc502fc..004692e 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -42,6 +42,7 @@ int main(int argc, char** argv) {
   nsasm::Address address(hex_address);
   nsasm::ExecutionState execution_state(*parsed_flag);
   std::map<nsasm::Address, nsasm::ExecutionState> local_jumps;
+  int bytes_read = 0;
   while (true) {
     auto instruction_data = (*rom)->Read(address, 4);
     // Fewer bytes are enough for most instructions at the end of the ROM.
@@ -104,6 +105,11 @@ int main(int argc, char** argv) {
       execution_state = next_instruction_it->second;
     }
     address = next_pc;
+    bytes_read += instruction_bytes;
+    if (bytes_read >= 0x10000) {
+      absl::PrintF("Reached the whole bank.\n");
+      break;
+    }
   }
   if (!local_jumps.empty()) {
     absl::PrintF("Earliest branch target %s (%s).\n",
-- 
2.43.0


From b24f58621237b94fda62e7942d60390f715dccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 44/50] fix: print only the mode name in .entry lines of
 disassembly listings

.entry takes a mode name; with a known carry flag the line read
".entry m16x16, c=0", which does not assemble.
---
 util/disassemble_more.cc  | 2 +-
 util/quick_disassemble.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 1ca65d9..b2bbaf6 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -111,7 +111,7 @@ int main(int argc, char** argv) {
       }
       if (value.second.is_entry) {
         absl::PrintF("%-8s .entry %s\n", label,
-                     value.second.current_execution_state.Flags().ToString());
+                     value.second.current_execution_state.Flags().ToName());
         label.clear();
       }
       std::string text =
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 681aadc..ce84ecf 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -112,7 +112,7 @@ int main(int argc, char** argv) {
       }
       if (value.second.is_entry) {
         absl::PrintF("%-8s .entry %s\n", label,
-                     value.second.current_execution_state.Flags().ToString());
+                     value.second.current_execution_state.Flags().ToName());
         label.clear();
       }
       std::string text =
-- 
2.43.0


From c0730f8b66ec91551cd066eba98ce9d9a11c5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 45/50] fix: make the name given to an address independent of
 hash order

Several exported labels can share an address; which of them
NameForAddress returned depended on the iteration order of a
flat_hash_map, which differs from run to run.
---
 nsasm/module.cc |  4 ++--
 nsasm/module.h  | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 6cef2b9..7469195 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -90,7 +90,7 @@ ErrorOr<Module> Module::LoadAsmFile(const File& file) {
     if (label.IsPlusOrMinus()) {
       return {};  // +/- labels don't participate in scoping and exporting
     }
-    absl::flat_hash_map<std::string, int>* scope;
+    LabelMap* scope;
     if (active_scopes.empty() || label.IsExported()) {
       scope = &m.global_to_line_;
     } else {
@@ -305,7 +305,7 @@ ErrorOr<void> Module::RunFirstPass() {
 
 ErrorOr<int> Module::LocalIndex(std::string_view sv,
                                 const std::vector<int>& active_scopes) const {
-  std::vector<const absl::flat_hash_map<std::string, int>*> scopes;
+  std::vector<const LabelMap*> scopes;
   for (auto it = active_scopes.rbegin(); it != active_scopes.rend(); ++it) {
     scopes.push_back(&lines_[*it].scoped_locals);
   }
diff --git a/nsasm/module.h b/nsasm/module.h
index bad677d..31b883f 100644
--- a/nsasm/module.h
+++ b/nsasm/module.h
@@ -2,6 +2,8 @@
 #define NSASM_MODULE_H
 
 #include <functional>
+#include <map>
+#include <string>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -104,6 +106,10 @@ class Module {
   friend class nsasm::ModuleLookupContext;
   friend class nsasm::ModuleIsLocalContext;
 
+  // The labels of a scope, and the index into lines_ of each.  Ordered, because
+  // the names chosen for addresses depend on the order of iteration.
+  using LabelMap = std::map<std::string, int, std::less<>>;
+
   // A line of code (an instruction or directive) inside an .asm module.
   struct Line {
     Line(Statement statement)
@@ -115,14 +121,14 @@ class Module {
     ExecutionState incoming_state;
     absl::optional<LabelValue> value;
     std::vector<int> active_scopes;
-    absl::flat_hash_map<std::string, int> scoped_locals;
+    LabelMap scoped_locals;
   };
 
   std::string path_;
   std::string module_name_;
   std::vector<Line> lines_;
   std::map<FullIdentifier, Location> dependencies_;
-  absl::flat_hash_map<std::string, int> global_to_line_;
+  LabelMap global_to_line_;
 
   DataRange owned_bytes_;
   absl::flat_hash_map<nsasm::Address, std::string> address_to_global_;
-- 
2.43.0


From 6ee397b01e20d3bf3ab018c396159fa99156622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 46/50] fix: loads from memory and transfers change the
 register they load

---
 nsasm/instruction.cc | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 9d850eb..f66e19d 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -266,26 +266,45 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
   }
 
   if (m == M_lda || m == M_ldx || m == M_ldy) {
+    RegisterValue* reg;
+    if (m == M_lda) {
+      reg = &es->Accumulator();
+    } else if (m == M_ldx) {
+      reg = &es->XRegister();
+    } else {
+      reg = &es->YRegister();
+    }
     if (addressing_mode == A_imm_b || addressing_mode == A_imm_fx ||
         addressing_mode == A_imm_fm || addressing_mode == A_imm_w) {
-      RegisterValue* reg;
-      if (m == M_lda) {
-        reg = &es->Accumulator();
-      } else if (m == M_ldx) {
-        reg = &es->XRegister();
-      } else {
-        reg = &es->YRegister();
-      }
       auto arg = maybe_arg1();
       if (!arg.has_value()) {
         *reg = RegisterValue();
       } else {
         *reg = *arg;
       }
+    } else {
+      // Loads from memory could leave any value.
+      *reg = RegisterValue();
     }
     return {};
   }
 
+  // Transfers into a register.
+  if (m == M_txa || m == M_tya || m == M_tdc || m == M_tsc || m == M_xba) {
+    es->WipeAccumulator();
+    return {};
+  }
+
+  if (m == M_tax || m == M_tsx || m == M_tyx) {
+    es->XRegister() = RegisterValue();
+    return {};
+  }
+
+  if (m == M_tay || m == M_txy) {
+    es->YRegister() = RegisterValue();
+    return {};
+  }
+
   if (m == M_mvn || m == M_mvp) {
     auto initial_a = maybe_arg1();
     if (es->Flags().MBit() == B_on) {
-- 
2.43.0


From cfa702b2c37aae6824097022eb8a98131b34881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 47/50] fix: a pulled word has its bytes in the order they were
 pushed

---
 nsasm/execution_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 40bee3b..0dd4250 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -464,7 +464,7 @@ class Stack {
         return RegisterValue(RegisterValue::T_original);
       } else if (lo_byte.type() == StackValue::T_byte &&
                  hi_byte.type() == StackValue::T_byte) {
-        return RegisterValue((lo_byte.value() << 8) + hi_byte.value());
+        return RegisterValue((hi_byte.value() << 8) + lo_byte.value());
       } else {
         return RegisterValue();
       }
-- 
2.43.0


From 77cfd1740466185910da57ced74039e97b962ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 48/50] fix: block moves count by the accumulator, not by the
 source bank

---
 nsasm/instruction.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index f66e19d..e03464b 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -306,7 +306,11 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
   }
 
   if (m == M_mvn || m == M_mvp) {
-    auto initial_a = maybe_arg1();
+    // The whole of the accumulator is the count, whatever the `m` flag says.
+    RegisterValue initial_a;
+    if (es->Flags().MBit() == B_off) {
+      initial_a = es->Accumulator();
+    }
     if (es->Flags().MBit() == B_on) {
       es->Accumulator() = 0xff;
     } else if (es->Flags().MBit() == B_off) {
@@ -314,7 +318,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     } else {
       es->WipeAccumulator();
     }
-    if (!initial_a.has_value()) {
+    if (!initial_a.HasValue()) {
       es->XRegister() = RegisterValue();
       es->YRegister() = RegisterValue();
     } else {
-- 
2.43.0


From 6e1676a4b9b11b7f86f3fb89a3b138e1b528d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 49/50] fix: a register made wider no longer has a known value

---
 nsasm/directive.cc      |  2 +-
 nsasm/execution_state.h | 22 ++++++++++++++++++++--
 nsasm/instruction.cc    |  8 +++++---
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/nsasm/directive.cc b/nsasm/directive.cc
index 7774475..de2a6db 100644
--- a/nsasm/directive.cc
+++ b/nsasm/directive.cc
@@ -63,7 +63,7 @@ ErrorOr<void> Directive::Execute(ExecutionState* state) const {
   if (name == D_mode) {
     // The .mode directive forces static analysis to change its state to its
     // argument
-    state->Flags() = flag_state_argument;
+    state->SetFlags(flag_state_argument);
   }
   // Other directives are no-ops in analysis
   return {};
diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 0dd4250..39e2755 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -559,6 +559,19 @@ class ExecutionState {
   StatusFlags& Flags() { return flags_; }
   const StatusFlags& Flags() const { return flags_; }
 
+  // Replaces the flag state.  Registers made wider have unknown contents: of
+  // their high bytes, nothing was known.
+  void SetFlags(const StatusFlags& flags) {
+    if (Widens(flags_.MBit(), flags.MBit())) {
+      a_reg_ = RegisterValue();
+    }
+    if (Widens(flags_.XBit(), flags.XBit())) {
+      x_reg_ = RegisterValue();
+      y_reg_ = RegisterValue();
+    }
+    flags_ = flags;
+  }
+
   /// Stack operations
 
   void PushFlags() { stack_.PushFlags(flags_); }
@@ -580,8 +593,8 @@ class ExecutionState {
       // The `e` bit isn't pushed on the stack, so we retain that, but update
       // all the others.
       StatusFlags new_flags = value.flags();
-      flags_ = StatusFlags(flags_.EBit(), new_flags.MBit(), new_flags.XBit(),
-                           new_flags.CBit());
+      SetFlags(StatusFlags(flags_.EBit(), new_flags.MBit(), new_flags.XBit(),
+                           new_flags.CBit()));
     }
   }
 
@@ -627,6 +640,11 @@ class ExecutionState {
   bool operator!=(const ExecutionState& rhs) const { return !(*this == rhs); }
 
  private:
+  // Returns true if registers may be wider when this `m` or `x` bit changes.
+  static bool Widens(BitState from, BitState to) {
+    return from != to && (to == B_off || to == B_original);
+  }
+
   RegisterValue a_reg_;
   RegisterValue x_reg_;
   RegisterValue y_reg_;
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index e03464b..694f602 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -203,15 +203,17 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     }
 
     // If the argument is known, we can set the affected bits.
+    StatusFlags flags = es->Flags();
     if (*arg & 0x01) {
-      es->Flags().SetCBit(target);
+      flags.SetCBit(target);
     }
     if (*arg & 0x10) {
-      es->Flags().SetXBit(target);
+      flags.SetXBit(target);
     }
     if (*arg & 0x20) {
-      es->Flags().SetMBit(target);
+      flags.SetMBit(target);
     }
+    es->SetFlags(flags);
     return {};
   }
 
-- 
2.43.0


From b566cf1ae9b1887854e2baab291c83984b8c393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 50/50] fix: a call may change the registers

---
 nsasm/instruction.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 694f602..ae7e947 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -437,6 +437,11 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
       es->Flags() = *yield_flags;
     }
     es->Flags().SetCBit(B_unknown);
+    // The called code may leave any value in the registers.
+    es->WipeAccumulator();
+    es->XRegister() = RegisterValue();
+    es->YRegister() = RegisterValue();
+    es->DataBankRegister() = RegisterValue();
     return {};
   }
 
-- 
2.43.0

