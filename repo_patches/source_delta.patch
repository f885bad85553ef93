From 1d5ab460062a25ea68efed68505cc8a377d93beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 01/20] fix: keep non-ASCII bytes intact in json_encode

Plain char is signed on most platforms, so bytes from 0x80 on compared below
0x1f and were emitted as malformed escapes such as \u-03D.
---
 src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 57eb5a1..eab3723 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -54,10 +54,10 @@ std::string url_encode(const std::string &str) {
  */
 std::string json_encode(const std::string &str) {
     auto ret = std::string{};
-    std::for_each(str.begin(), str.end(), [&ret](char c) {
+    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
         ret += (c == '"' || c == '\\' || c <= '\x1f')
-            ? fmt::format("\\u{:04X}", static_cast<int>(c))
-            : std::string{ c };
+            ? fmt::format("\\u{:04X}", static_cast<unsigned int>(c))
+            : std::string{ static_cast<char>(c) };
     });
     return ret;
 }
-- 
2.43.0


From 76f70bce658e7d8d4a2a1dc7202966de7621c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 02/20] fix: move the parameter types in the noexcept moves of
 Overload

They were copied, so running out of memory while a table of overloads grows
terminated the process.
---
 include/libqasm/overload.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/overload.hpp b/include/libqasm/overload.hpp
index bb5319b..4abdd9e 100644
--- a/include/libqasm/overload.hpp
+++ b/include/libqasm/overload.hpp
@@ -42,7 +42,7 @@ public:
     , param_types{ other.param_types } {}
     Overload(Overload&& other) noexcept
     : tag{ std::move(other.tag) }
-    , param_types{ other.param_types } {}
+    , param_types{ std::move(other.param_types) } {}
     Overload& operator=(const Overload& other) {
         tag = other.tag;
         param_types = other.param_types;
@@ -50,7 +50,7 @@ public:
     }
     Overload& operator=(Overload&& other) noexcept {
         tag = std::move(other.tag);
-        param_types = other.param_types;
+        param_types = std::move(other.param_types);
         return *this;
     }
 
-- 
2.43.0


From ddd737468f961f000b790413e4a56b8d1e496f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:22 +0000
Subject: [PATCH 03/20] fix: build the text of an Error when it changes, not in
 what()

Error::what() is const and noexcept, but formatted its text into a mutable
member on every call: concurrent readers of one error raced, text obtained
earlier was overwritten, and running out of memory terminated the process.
---
 include/libqasm/error.hpp |  2 +-
 src/error.cpp             | 22 ++++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/libqasm/error.hpp b/include/libqasm/error.hpp
index f7b575d..9c8ecc8 100644
--- a/include/libqasm/error.hpp
+++ b/include/libqasm/error.hpp
@@ -40,7 +40,7 @@ class Error : public std::runtime_error {
      * The error message, decorated with a header and location information.
      * This is the string returned by the what() method.
      */
-    mutable std::string what_message_;
+    std::string what_message_;
 
     /**
      * Attached location in the source file, if any.
diff --git a/src/error.cpp b/src/error.cpp
index 9274c03..9116b0a 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -10,13 +10,21 @@
 
 namespace cqasm::error {
 
+/**
+ * Decorates an error message with a header and, if known, location information.
+ */
+static std::string get_what_message(const std::string& message, const annotations::SourceLocation* location) {
+    return fmt::format("Error{}: {}", location ? fmt::format(" at {}", *location) : std::string{}, message);
+}
+
 /**
  * Constructs a new error.
  * If node is a non-null annotatable with a location node, its location information is attached.
  */
 Error::Error(const std::string& message, const tree::Annotatable* node)
 : std::runtime_error{ !message.empty() ? message : unknown_error_message }
-, message_{ !message.empty() ? message : unknown_error_message } {
+, message_{ !message.empty() ? message : unknown_error_message }
+, what_message_{ get_what_message(message_, nullptr) } {
     if (node) {
         context(*node);
     }
@@ -28,6 +36,7 @@ Error::Error(const std::string& message, const tree::Annotatable* node)
 Error::Error(const std::string& message, std::shared_ptr<annotations::SourceLocation> location)
 : std::runtime_error{ !message.empty() ? message : unknown_error_message }
 , message_{ !message.empty() ? message : unknown_error_message }
+, what_message_{ get_what_message(message_, location.get()) }
 , location_{ std::move(location) } {}
 
 /**
@@ -37,7 +46,9 @@ Error::Error(const std::string& message, const std::optional<std::string>& file_
     const annotations::SourceLocation::Range& range)
 : std::runtime_error{ !message.empty() ? message.c_str() : unknown_error_message }
 , message_{ !message.empty() ? message : unknown_error_message }
-, location_{ std::make_shared<annotations::SourceLocation>(file_name, range) } {}
+, location_{ std::make_shared<annotations::SourceLocation>(file_name, range) } {
+    what_message_ = get_what_message(message_, location_.get());
+}
 
 /**
  * Sets the context of this error to the SourceLocation annotation of the given node,
@@ -47,7 +58,9 @@ Error::Error(const std::string& message, const std::optional<std::string>& file_
 void Error::context(const tree::Annotatable& node) {
     if (!location_) {
         if (auto loc = node.get_annotation_ptr<annotations::SourceLocation>()) {
-            location_ = std::make_shared<annotations::SourceLocation>(*loc);
+            auto location = std::make_shared<annotations::SourceLocation>(*loc);
+            what_message_ = get_what_message(message_, location.get());
+            location_ = std::move(location);
         }
     }
 }
@@ -56,9 +69,6 @@ void Error::context(const tree::Annotatable& node) {
  * Returns the exception-style message.
  */
 const char* Error::what() const noexcept {
-    what_message_ = fmt::format("Error{}: {}",
-        location_ ? fmt::format(" at {}", *location_) : std::string{},
-        !message_.empty() ? message_ : unknown_error_message);
     return what_message_.c_str();
 }
 
-- 
2.43.0


From 51d7093bd7d3cea1d16cc80828aa39ee6bc3b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:45 +0000
Subject: [PATCH 04/20] fix: render source locations independently of stream
 flags and locale

Lines and columns were inserted as numbers, so a host program's std::hex,
showpos or a locale with digit grouping changed the text of locations and,
through it, of every error.
---
 src/annotations.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/annotations.cpp b/src/annotations.cpp
index 73f4817..8094888 100644
--- a/src/annotations.cpp
+++ b/src/annotations.cpp
@@ -4,8 +4,11 @@
 
 #include "libqasm/annotations.hpp"
 
+#include <fmt/format.h>
+
 #include <algorithm>  // min, max
 #include <iostream>
+#include <string>
 
 #include "libqasm/annotations_constants.hpp"
 
@@ -41,39 +44,39 @@ void SourceLocation::expand_to_include(const Index& index) {
  */
 std::ostream& operator<<(std::ostream& os, const SourceLocation& object) {
     // Print file name.
-    os << object.file_name.value_or(unknown_file_name);
+    auto text = object.file_name.value_or(unknown_file_name);
 
     // Special case for when only the source file name is known.
     if (!object.range.first.line) {
-        return os;
+        return os << text;
     }
 
     // Print line number.
-    os << ":" << object.range.first.line;
+    text += fmt::format(":{}", object.range.first.line);
 
     // Special case for when only line numbers are known.
     if (!object.range.first.column) {
         // Print last line too, if greater.
         if (object.range.last.line > object.range.first.line) {
-            os << ".." << object.range.last.line;
+            text += fmt::format("..{}", object.range.last.line);
         }
-        return os;
+        return os << text;
     }
 
     // Print column.
-    os << ":" << object.range.first.column;
+    text += fmt::format(":{}", object.range.first.column);
 
     if (object.range.last.line == object.range.first.line) {
         // Range is on a single line. Only repeat the column number.
         if (object.range.last.column > object.range.first.column) {
-            os << ".." << object.range.last.column;
+            text += fmt::format("..{}", object.range.last.column);
         }
     } else if (object.range.last.line > object.range.first.line) {
         // Range is on multiple lines. Repeat both line and column number.
-        os << ".." << object.range.last.line << ":" << object.range.last.column;
+        text += fmt::format("..{}:{}", object.range.last.line, object.range.last.column);
     }
 
-    return os;
+    return os << text;
 }
 
 }  // namespace cqasm::annotations
-- 
2.43.0


From 781ec928c2b7b26cb24e83f71a3a9652bd1f498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:45 +0000
Subject: [PATCH 05/20] fix: make case mapping and URL encoding independent of
 the locale

In an 8-bit locale set by the host program, url_encode passed non-ASCII
letters through unescaped and the case functions mapped them.
---
 src/utils.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index eab3723..96cf1cc 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -8,7 +8,6 @@
 
 #include <algorithm>  // for_each
 #include <cassert>  // assert
-#include <cctype>  // isalnum, tolower, toupper
 #include <range/v3/algorithm/equal.hpp>
 #include <range/v3/range/conversion.hpp>  // to
 #include <range/v3/view/transform.hpp>
@@ -16,6 +15,19 @@
 
 namespace cqasm::utils {
 
+namespace {
+
+// The functions in <cctype> depend on the locale set by the host program
+constexpr bool is_alnum(unsigned char c) {
+    return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
+}
+
+constexpr unsigned char to_lower(unsigned char c) {
+    return (c >= 'A' && c <= 'Z') ? static_cast<unsigned char>(c - 'A' + 'a') : c;
+}
+
+}  // namespace
+
 // clang-format off
 
 /**
@@ -23,7 +35,7 @@ namespace cqasm::utils {
 */
 std::string to_lowercase(const std::string &name) {
     return name
-        | ranges::views::transform([](unsigned char c) { return std::tolower(c); })
+        | ranges::views::transform([](unsigned char c) { return static_cast<char>(to_lower(c)); })
         | ranges::to<std::string>();
 }
 
@@ -32,7 +44,7 @@ std::string to_lowercase(const std::string &name) {
  */
 bool equal_case_insensitive(const std::string &lhs, const std::string &rhs) {
     return ranges::equal(lhs, rhs, [](unsigned char l, unsigned char r) {
-        return std::tolower(l) == std::tolower(r);
+        return to_lower(l) == to_lower(r);
     });
 }
 
@@ -42,7 +54,7 @@ bool equal_case_insensitive(const std::string &lhs, const std::string &rhs) {
 std::string url_encode(const std::string &str) {
     auto ret = std::string{};
     std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
-        ret += (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
+        ret += (is_alnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
             ? std::string{ static_cast<char>(c) }
             : fmt::format("%{:02X}", static_cast<unsigned int>(c));
     });
-- 
2.43.0


From f8314a0f10ba97e8a8f0d788e83b0d4e7646bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:53 +0000
Subject: [PATCH 06/20] fix: never leave or use an incomplete ANTLR jar file

An interrupted download (crash, full disk, lost connection) left a partial file under the final
name, which every later run took for a complete one; a run starting meanwhile did so too. Write to
a file of the process, check that the archive is whole, and rename it once it is complete.
---
 scripts/generate_antlr_parser.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/scripts/generate_antlr_parser.py b/scripts/generate_antlr_parser.py
index 63fb8b9..76c9e3a 100644
--- a/scripts/generate_antlr_parser.py
+++ b/scripts/generate_antlr_parser.py
@@ -9,6 +9,7 @@ import shutil
 import subprocess
 import sys
 import tempfile
+import zipfile
 
 
 def print_usage():
@@ -37,15 +38,27 @@ class AntlrJarFileDownloader:
     @classmethod
     def download_antlr_jar_file(cls):
         url = "https://repo1.maven.org/maven2/org/antlr/antlr4/{}/{}".format(cls.file_version, cls.file_name)
+        part_file_path = "{}.{}.part".format(cls.file_path, os.getpid())
         try:
             logging.info("Downloading ANTLR jar file from '{}'".format(url))
             with urlopen(url) as response:
                 logging.info("Writing ANTLR jar file to '{}'".format(cls.file_path))
-                with open(cls.file_path, "wb") as f:
+                # Write to a file of this process, and give it its final name once it is complete:
+                # an interrupted download must not be taken for a complete one by another run
+                with open(part_file_path, "wb") as f:
                     f.write(response.read())
+                    f.flush()
+                    os.fsync(f.fileno())
+            if not zipfile.is_zipfile(part_file_path):
+                logging.error("Error downloading ANTLR jar file: incomplete file")
+                exit(3)
+            os.replace(part_file_path, cls.file_path)
         except error.URLError as err:
             logging.error("Error downloading ANTLR jar file: {}".format(err.strerror))
             exit(3)
+        finally:
+            if os.path.exists(part_file_path):
+                os.remove(part_file_path)
 
     @classmethod
     def get_antlr_jar_file_path(cls):
-- 
2.43.0


From 80b41d7749cdec76a948dd1f86174aa72224d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 07/20] fix: report input that is not valid UTF-8 as a parse
 error

ANTLR exceptions do not derive from std::runtime_error, so they escaped ParseHelper::parse.
---
 src/v3x/parse_helper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v3x/parse_helper.cpp b/src/v3x/parse_helper.cpp
index 016d6c3..6a1cee9 100644
--- a/src/v3x/parse_helper.cpp
+++ b/src/v3x/parse_helper.cpp
@@ -4,6 +4,8 @@
 
 #include "libqasm/v3x/parse_helper.hpp"
 
+#include <antlr4-runtime.h>
+
 #include "libqasm/annotations_constants.hpp"
 #include "libqasm/v3x/antlr_custom_error_listener.hpp"
 #include "libqasm/v3x/antlr_scanner.hpp"
@@ -56,6 +58,9 @@ ParseResult ParseHelper::parse() {
         result.errors.push_back(std::move(err));
     } catch (const std::runtime_error& err) {
         result.errors.emplace_back(err.what());
+    } catch (const antlr4::RuntimeException& err) {
+        // For example, when the input is not valid UTF-8
+        result.errors.emplace_back(err.what());
     }
 
     if (result.errors.empty() && !result.root.is_well_formed()) {
-- 
2.43.0


From 537e9455949cedbc81024948ad609c5e933f86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 08/20] fix: report an index applied to a constant as an error

Indexing a constant such as pi dereferenced a null pointer.
---
 src/v3x/semantic_analyzer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 5645992..bd2d0a5 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -578,6 +578,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
         auto variable_ref_ptr = expression->as_variable_ref();
+        if (!variable_ref_ptr) {
+            throw error::AnalysisError{ fmt::format(
+                "indexation is not supported for value of type '{}'", values::type_of(expression)) };
+        }
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
-- 
2.43.0


From 4e472f760ea1af095cbf76debdb520086f781f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:00 +0000
Subject: [PATCH 09/20] fix: check index ranges against the array size before
 expanding them

---
 include/libqasm/v3x/semantic_analyzer.hpp |  5 +++++
 src/v3x/semantic_analyzer.cpp             | 23 +++++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/v3x/semantic_analyzer.hpp b/include/libqasm/v3x/semantic_analyzer.hpp
index 0260b4c..cbb38a6 100644
--- a/include/libqasm/v3x/semantic_analyzer.hpp
+++ b/include/libqasm/v3x/semantic_analyzer.hpp
@@ -150,6 +150,11 @@ private:
      * Shorthand for parsing an expression to a constant integer
      */
     primitives::Int visit_const_int(syntactic::Expression& expression);
+
+    /**
+     * Check out of range accesses from any range in an input list to an array of a given size
+     */
+    void check_ranges_out_of_range(syntactic::IndexList& index_list_ast, primitives::Int size);
 };
 
 }  // namespace cqasm::v3x::analyzer
diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index bd2d0a5..be1ee1d 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -1,6 +1,6 @@
 #include "libqasm/v3x/semantic_analyzer.hpp"
 
-#include <algorithm>  // any_of, for_each, transform
+#include <algorithm>  // any_of, for_each, max, transform
 #include <any>
 #include <iterator>  // back_inserter
 
@@ -574,6 +574,23 @@ void check_out_of_range(const IndexListT& indices, primitives::Int size) {
     }
 }
 
+/**
+ * Check out of range accesses from any range in an input list to an array of a given size.
+ * This is done before the ranges are expanded, because a range out of bounds can be arbitrarily long.
+ */
+void SemanticAnalyzer::check_ranges_out_of_range(syntactic::IndexList& index_list_ast, primitives::Int size) {
+    for (const auto& index_entry : index_list_ast.items) {
+        if (auto index_range = index_entry->as_index_range()) {
+            const auto first = visit_const_int(*index_range->first);
+            const auto last = visit_const_int(*index_range->last);
+            if (first <= last && (first < 0 || last >= size)) {
+                const auto index = first < 0 ? first : std::max(first, size);
+                throw error::AnalysisError{ fmt::format("index {} out of range (size {})", index, size) };
+            }
+        }
+    }
+}
+
 std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
@@ -585,8 +602,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
+            const auto size = types::size_of(variable_type);
+            check_ranges_out_of_range(*node.indices, size);
             auto indices = std::any_cast<IndexListT>(visit_index_list(*node.indices));
-            check_out_of_range(indices, types::size_of(variable_type));
+            check_out_of_range(indices, size);
             auto ret = tree::make<values::IndexRef>(variable_link, indices);
             return values::Value{ ret };
         } else {
-- 
2.43.0


From b95d2e4abb4c89fdc9d21a5238f4ba377b36e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 10/20] fix: keep the outcome of an analysis out of the
 analyzer's configuration

---
 src/v3x/analyzer.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index 74a1371..ab9f4bd 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -9,6 +9,7 @@
 #include <memory>  // make_unique
 #include <numbers>
 #include <stdexcept>  // runtime_error
+#include <utility>  // swap
 
 #include "libqasm/error.hpp"
 #include "libqasm/v3x/core_function.hpp"
@@ -81,10 +82,42 @@ void Analyzer::register_default_instructions() {
     instruction::register_instructions(this);
 }
 
+namespace {
+
+/**
+ * Keeps whatever an analysis adds to a scope out of that scope once the analysis is over,
+ * so that the result of an analysis does not depend on previous ones.
+ */
+class AnalysisGuard {
+    Scope& scope_;
+    resolver::VariableTable variable_table_;
+    tree::One<semantic::Block> block_;
+    tree::Any<semantic::Variable> variables_;
+
+public:
+    explicit AnalysisGuard(Scope& scope)
+    : scope_{ scope }
+    , variable_table_{ scope.variable_table }
+    , block_{ scope.block }
+    , variables_{ scope.variables } {
+        scope_.block = block_.clone();
+    }
+    AnalysisGuard(const AnalysisGuard&) = delete;
+    AnalysisGuard& operator=(const AnalysisGuard&) = delete;
+    ~AnalysisGuard() {
+        std::swap(scope_.variable_table, variable_table_);
+        std::swap(scope_.block, block_);
+        std::swap(scope_.variables, variables_);
+    }
+};
+
+}  // namespace
+
 /**
  * Analyzes the given AST.
  */
 AnalysisResult Analyzer::analyze(syntactic::Program& ast) {
+    const AnalysisGuard guard{ current_scope() };
     auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(*this);
     auto result = std::any_cast<AnalysisResult>(analyze_visitor_up->visit_program(ast));
     if (result.errors.empty()) {
-- 
2.43.0


From ce6f8d824cdff0cc70d047160ccecae482c06b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 11/20] fix: report integer division by zero and overflow as
 errors

---
 .../v3x/register_consteval_core_functions.hpp | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 9845d22..fa50cef 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -2,8 +2,10 @@
 
 #include <cmath>
 #include <functional>
+#include <limits>
 #include <numeric>
 
+#include "libqasm/error.hpp"
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/primitives.hpp"
 
@@ -83,8 +85,28 @@ constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
 constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
-constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, std::divides{}>{};
-constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, std::modulus{}>{};
+
+/**
+ * Checks that the quotient of two integers exists and can be represented as an integer.
+ */
+inline void check_int_division(primitives::Int dividend, primitives::Int divisor) {
+    if (divisor == 0) {
+        throw error::AnalysisError{ "integer division by zero" };
+    }
+    if (divisor == -1 && dividend == std::numeric_limits<primitives::Int>::min()) {
+        throw error::AnalysisError{ "integer division overflow" };
+    }
+}
+inline constexpr auto div_i = [](primitives::Int dividend, primitives::Int divisor) {
+    check_int_division(dividend, divisor);
+    return dividend / divisor;
+};
+constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, div_i>{};
+inline constexpr auto mod_i = [](primitives::Int dividend, primitives::Int divisor) {
+    check_int_division(dividend, divisor);
+    return dividend % divisor;
+};
+constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, mod_i>{};
 
 inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };
 constexpr auto op_pow_ff = bf_cp<values::ConstFloat, values::ConstFloat, pow>{};
-- 
2.43.0


From 10c9c58c9418ca4da8f3b146bdaf9829285497b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 12/20] fix: report a file that cannot be opened instead of
 parsing it as empty

---
 src/v3x/antlr_scanner.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/v3x/antlr_scanner.cpp b/src/v3x/antlr_scanner.cpp
index ab860ad..84f3d03 100644
--- a/src/v3x/antlr_scanner.cpp
+++ b/src/v3x/antlr_scanner.cpp
@@ -4,6 +4,8 @@
 #include <fmt/format.h>
 
 #include <filesystem>
+#include <fstream>
+#include <system_error>
 
 #include "libqasm/v3x/CqasmLexer.h"
 #include "libqasm/v3x/CqasmParser.h"
@@ -48,7 +50,8 @@ FileAntlrScanner::FileAntlrScanner(std::unique_ptr<BaseSyntacticAnalyzer> build_
     std::unique_ptr<AntlrCustomErrorListener> error_listener_up, std::string file_path)
 : AntlrScanner{ std::move(build_visitor_up), std::move(error_listener_up) }
 , file_path_{ std::move(file_path) } {
-    if (!fs::exists(file_path_) || !fs::is_regular_file(file_path_)) {
+    std::error_code ec{};
+    if (!fs::is_regular_file(file_path_, ec)) {
         throw cqasm::error::ParseError{ fmt::format("FileAntlrScanner couldn't access file '{}'.", file_path_) };
     }
 }
@@ -56,9 +59,12 @@ FileAntlrScanner::FileAntlrScanner(std::unique_ptr<BaseSyntacticAnalyzer> build_
 FileAntlrScanner::~FileAntlrScanner() = default;
 
 cqasm::v3x::parser::ParseResult FileAntlrScanner::parse() {
-    antlr4::ANTLRFileStream ifs{};
-    ifs.loadFromFile(file_path_);
-    return parse_(ifs);
+    std::ifstream ifs{ file_path_, std::ios::binary };
+    if (!ifs) {
+        throw cqasm::error::ParseError{ fmt::format("FileAntlrScanner couldn't open file '{}'.", file_path_) };
+    }
+    antlr4::ANTLRInputStream is{ ifs };
+    return parse_(is);
 }
 
 StringAntlrScanner::StringAntlrScanner(std::unique_ptr<BaseSyntacticAnalyzer> build_visitor_up,
-- 
2.43.0


From ac72141fd03048752bff65c1f2c2dfc80db12f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:33 +0000
Subject: [PATCH 13/20] fix: keep source locations of multi-line and non-ASCII
 tokens inside the text

---
 .../v3x/antlr_custom_error_listener.hpp       | 10 +++++
 src/v3x/antlr_custom_error_listener.cpp       | 40 ++++++++++++-------
 src/v3x/syntactic_analyzer.cpp                | 20 ++++------
 3 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/include/libqasm/v3x/antlr_custom_error_listener.hpp b/include/libqasm/v3x/antlr_custom_error_listener.hpp
index 95e8793..3715d6a 100644
--- a/include/libqasm/v3x/antlr_custom_error_listener.hpp
+++ b/include/libqasm/v3x/antlr_custom_error_listener.hpp
@@ -6,8 +6,18 @@
 #include <optional>
 #include <string>
 
+#include "libqasm/annotations.hpp"
+
 namespace cqasm::v3x::parser {
 
+/**
+ * Returns the source location range of a token, given its one-based start index.
+ * ANTLR columns count characters, and not the bytes of their UTF-8 encoding.
+ * A token may span more than one line.
+ */
+annotations::SourceLocation::Range get_token_range(
+    const annotations::SourceLocation::Index& start, antlr4::Token* token);
+
 class AntlrCustomErrorListener : public antlr4::BaseErrorListener {
     /**
      * Name of the file being parsed.
diff --git a/src/v3x/antlr_custom_error_listener.cpp b/src/v3x/antlr_custom_error_listener.cpp
index c3e6de7..1d768f3 100644
--- a/src/v3x/antlr_custom_error_listener.cpp
+++ b/src/v3x/antlr_custom_error_listener.cpp
@@ -8,6 +8,28 @@
 
 namespace cqasm::v3x::parser {
 
+annotations::SourceLocation::Range get_token_range(
+    const annotations::SourceLocation::Index& start, antlr4::Token* token) {
+    auto end = start;
+    // Special case for EOF token
+    // EOF token has a "<EOF>" text, so we avoid calculating the size of EOF from its text
+    // Instead, we just return a zero size
+    if (token && token->getType() != antlr4::Token::EOF) {
+        auto is_new_line = false;
+        for (const auto c : token->getText()) {
+            if (is_new_line) {
+                end = { end.line + 1, 1 };
+            }
+            is_new_line = (c == '\n');
+            // Only count the first byte of a UTF-8 sequence
+            if ((static_cast<unsigned char>(c) & 0xC0) != 0x80) {
+                end.column++;
+            }
+        }
+    }
+    return { start, end };
+}
+
 AntlrCustomErrorListener::AntlrCustomErrorListener(const std::optional<std::string>& file_name)
 : file_name_{ file_name } {
     if (file_name_.has_value() && file_name_.value().empty()) {
@@ -20,22 +42,10 @@ void AntlrCustomErrorListener::syntaxError(antlr4::Recognizer* /* recognizer */,
     // ANTLR provides a zero-based character position in line
     // We change it here to a one-based index, which is the more human-readable,
     // and the common option in text editors
-    auto start_column = char_position_in_line + 1;
+    const annotations::SourceLocation::Index start{ static_cast<std::uint32_t>(line),
+        static_cast<std::uint32_t>(char_position_in_line + 1) };
 
-    // Special case for EOF token
-    // EOF token has a "<EOF>" text, so we avoid calculating the size of EOF from its text
-    // Instead, we just return a zero size
-    size_t token_size = (offending_symbol && offending_symbol->getType() != antlr4::Token::EOF)
-        ? offending_symbol->getText().size()
-        : 0;
-    auto end_column = start_column + token_size;
-
-    throw error::ParseError{
-        msg,
-        file_name_,
-        { { static_cast<std::uint32_t>(line), static_cast<std::uint32_t>(start_column) },
-          { static_cast<std::uint32_t>(line), static_cast<std::uint32_t>(end_column) } }
-    };
+    throw error::ParseError{ msg, file_name_, get_token_range(start, offending_symbol) };
 }
 
 void AntlrCustomErrorListener::syntaxError(size_t line, size_t char_position_in_line, const std::string& msg) {
diff --git a/src/v3x/syntactic_analyzer.cpp b/src/v3x/syntactic_analyzer.cpp
index b781aa1..85cd226 100644
--- a/src/v3x/syntactic_analyzer.cpp
+++ b/src/v3x/syntactic_analyzer.cpp
@@ -43,23 +43,19 @@ void SyntacticAnalyzer::syntaxError(size_t line, size_t char_position_in_line, c
  * ANTLR provides a zero-based character position in line
  * We change it here to a one-based index, which is the more human-readable, and the common option in text editors
  */
+static annotations::SourceLocation::Range get_range(antlr4::Token* token) {
+    return get_token_range({ static_cast<std::uint32_t>(token->getLine()),
+                               static_cast<std::uint32_t>(token->getCharPositionInLine() + 1) },
+        token);
+}
+
 void SyntacticAnalyzer::setNodeAnnotation(const syntactic::One<syntactic::Node>& node, antlr4::Token* token) const {
-    auto token_size = token->getStopIndex() - token->getStartIndex() + 1;
-    node->set_annotation(annotations::SourceLocation{
-        file_name_,
-        { { static_cast<std::uint32_t>(token->getLine()),
-              static_cast<std::uint32_t>(token->getCharPositionInLine() + 1) },
-          { static_cast<std::uint32_t>(token->getLine()),
-                static_cast<std::uint32_t>(token->getCharPositionInLine() + 1 + token_size) } }
-    });
+    node->set_annotation(annotations::SourceLocation{ file_name_, get_range(token) });
 }
 
 void SyntacticAnalyzer::expandNodeAnnotation(const One<Node>& node, antlr4::Token* token) const {
-    auto token_size = token->getStopIndex() - token->getStartIndex() + 1;
     if (auto source_location = node->get_annotation_ptr<annotations::SourceLocation>()) {
-        source_location->expand_to_include(
-            annotations::SourceLocation::Index{ static_cast<std::uint32_t>(token->getLine()),
-                static_cast<std::uint32_t>(token->getCharPositionInLine() + 1 + token_size) });
+        source_location->expand_to_include(get_range(token).last);
     }
 }
 
-- 
2.43.0


From 79a008cde2faaf43fba69f30ecea337b6311abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 14/20] fix: do not return a truncated JSON when memory runs
 out

---
 include/libqasm/result.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libqasm/result.hpp b/include/libqasm/result.hpp
index dfa58cc..888b848 100644
--- a/include/libqasm/result.hpp
+++ b/include/libqasm/result.hpp
@@ -6,6 +6,7 @@
 #include <algorithm>  // transform
 #include <numeric>  // accumulate
 #include <range/v3/view/transform.hpp>
+#include <sstream>  // ostringstream
 #include <string>
 #include <vector>
 
@@ -42,6 +43,8 @@ std::string errors_to_json(const Errors& errors) {
 template <typename Root>
 std::string root_to_json(const Root& root) {
     std::ostringstream oss{};
+    // Do not let a failure to write, such as running out of memory, result in a truncated JSON
+    oss.exceptions(std::ios_base::badbit);
     root->dump_json(oss);
     return oss.str();
 }
-- 
2.43.0


From dd7884378626c538a24c5d10ec36751a1e435c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 15/20] fix: read float literals independently of the locale

---
 src/v3x/syntactic_analyzer.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/v3x/syntactic_analyzer.cpp b/src/v3x/syntactic_analyzer.cpp
index 85cd226..a4b87c9 100644
--- a/src/v3x/syntactic_analyzer.cpp
+++ b/src/v3x/syntactic_analyzer.cpp
@@ -5,9 +5,12 @@
 #include <algorithm>  // for_each
 #include <cassert>  // assert
 #include <cstdint>  // uint32_t
+#include <limits>
+#include <locale>
 #include <regex>
+#include <sstream>  // istringstream
 #include <stdexcept>  // runtime_error
-#include <string>  // stod, stoll
+#include <string>  // stoll
 
 #include "libqasm/annotations.hpp"
 #include "libqasm/tree.hpp"
@@ -75,12 +78,17 @@ std::int64_t SyntacticAnalyzer::get_int_value(
 }
 
 double SyntacticAnalyzer::get_float_value(size_t line, size_t char_position_in_line, const std::string& text) const {
-    try {
-        return std::stod(text);
-    } catch (std::out_of_range&) {
+    // Notice std::stod would use the decimal point of the locale set by the host program
+    std::istringstream iss{ text };
+    iss.imbue(std::locale::classic());
+    iss.exceptions(std::ios_base::badbit);
+    double ret{};
+    iss >> ret;
+    const auto is_zero = text.substr(0, text.find_first_of("eE")).find_first_not_of("0.") == std::string::npos;
+    if (iss.fail() || (ret < std::numeric_limits<double>::min() && !is_zero)) {
         syntaxError(line, char_position_in_line, fmt::format("value '{}' is out of the FLOAT_LITERAL range", text));
     }
-    return {};
+    return ret;
 }
 
 bool SyntacticAnalyzer::get_bool_value(antlr4::tree::TerminalNode* node) const {
-- 
2.43.0


From bcda01e40898be8aa94d5228aa8b876766e4bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 16/20] fix: split version numbers without a regular expression

---
 src/v3x/syntactic_analyzer.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/v3x/syntactic_analyzer.cpp b/src/v3x/syntactic_analyzer.cpp
index a4b87c9..f3ba562 100644
--- a/src/v3x/syntactic_analyzer.cpp
+++ b/src/v3x/syntactic_analyzer.cpp
@@ -7,7 +7,6 @@
 #include <cstdint>  // uint32_t
 #include <limits>
 #include <locale>
-#include <regex>
 #include <sstream>  // istringstream
 #include <stdexcept>  // runtime_error
 #include <string>  // stoll
@@ -143,13 +142,11 @@ std::any SyntacticAnalyzer::visitVersion(CqasmParser::VersionContext* context) {
     auto ret = tree::make<Version>();
     const auto token = context->VERSION_NUMBER()->getSymbol();
     const auto& text = context->VERSION_NUMBER()->getText();
-    const std::regex pattern{ "([0-9]+)(?:\\.([0-9]+))?" };
-    std::smatch matches{};
-    std::regex_match(text, matches, pattern);
-    ret->items.push_back(get_int_value(token->getLine(), token->getCharPositionInLine(), matches[1]));
-    if (matches[2].matched) {
+    const auto dot = text.find('.');
+    ret->items.push_back(get_int_value(token->getLine(), token->getCharPositionInLine(), text.substr(0, dot)));
+    if (dot != std::string::npos) {
         ret->items.push_back(
-            get_int_value(token->getLine(), token->getCharPositionInLine() + matches.position(2), matches[2]));
+            get_int_value(token->getLine(), token->getCharPositionInLine() + dot + 1, text.substr(dot + 1)));
     }
     setNodeAnnotation(ret, token);
     return ret;
-- 
2.43.0


From 154f79949948389f79751620c9a0083653b443a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 17/20] fix: an error built from a shared location keeps a
 location of its own

---
 include/libqasm/error.hpp | 2 +-
 src/error.cpp             | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libqasm/error.hpp b/include/libqasm/error.hpp
index 9c8ecc8..f09d064 100644
--- a/include/libqasm/error.hpp
+++ b/include/libqasm/error.hpp
@@ -57,7 +57,7 @@ public:
     /**
      * Constructs a new error from a message and a source location.
      */
-    Error(const std::string& message, std::shared_ptr<annotations::SourceLocation> location);
+    Error(const std::string& message, const std::shared_ptr<annotations::SourceLocation>& location);
 
     /**
      * Constructs a new error from a message and all the fields of a source location.
diff --git a/src/error.cpp b/src/error.cpp
index 9116b0a..a39ba8c 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -33,11 +33,12 @@ Error::Error(const std::string& message, const tree::Annotatable* node)
 /**
  * Constructs a new error from a message and a source location.
  */
-Error::Error(const std::string& message, std::shared_ptr<annotations::SourceLocation> location)
+Error::Error(const std::string& message, const std::shared_ptr<annotations::SourceLocation>& location)
 : std::runtime_error{ !message.empty() ? message : unknown_error_message }
 , message_{ !message.empty() ? message : unknown_error_message }
 , what_message_{ get_what_message(message_, location.get()) }
-, location_{ std::move(location) } {}
+// The error keeps a location of its own, so that it says the same thing whatever the caller does with theirs
+, location_{ location ? std::make_shared<annotations::SourceLocation>(*location) : nullptr } {}
 
 /**
  * Constructs a new error from a message and all the fields of a source location.
-- 
2.43.0


From afa248eb3a53a37d01c98f64150e9b3692886d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:01 +0000
Subject: [PATCH 18/20] fix: running out of memory while an error was being
 built was reported as a parse error

---
 src/error.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/error.cpp b/src/error.cpp
index a39ba8c..84427b0 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -6,6 +6,8 @@
 
 #include <fmt/format.h>
 
+#include <sstream>  // ostringstream
+
 #include "libqasm/utils.hpp"  // url_encode
 
 namespace cqasm::error {
@@ -14,7 +16,15 @@ namespace cqasm::error {
  * Decorates an error message with a header and, if known, location information.
  */
 static std::string get_what_message(const std::string& message, const annotations::SourceLocation* location) {
-    return fmt::format("Error{}: {}", location ? fmt::format(" at {}", *location) : std::string{}, message);
+    std::ostringstream oss{};
+    // Running out of memory has to be reported as such, and not as a stream error
+    oss.exceptions(std::ios_base::badbit);
+    oss << "Error";
+    if (location) {
+        oss << " at " << *location;
+    }
+    oss << ": " << message;
+    return oss.str();
 }
 
 /**
-- 
2.43.0


From 667b0ba2eb99e12b51bbf4337b9b561115e15830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:52 +0000
Subject: [PATCH 19/20] fix: a scope whose block could not be allocated stayed
 pushed

---
 src/v3x/analyzer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index ab9f4bd..aed8731 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -9,7 +9,7 @@
 #include <memory>  // make_unique
 #include <numbers>
 #include <stdexcept>  // runtime_error
-#include <utility>  // swap
+#include <utility>  // move, swap
 
 #include "libqasm/error.hpp"
 #include "libqasm/v3x/core_function.hpp"
@@ -164,8 +164,10 @@ AnalysisResult Analyzer::analyze_string(const std::string& data, const std::opti
  * Pushes a new empty scope to the top of the scope stack.
  */
 void Analyzer::push_scope() {
+    // Build the block first, so that a failure to allocate it does not leave behind a scope without a block
+    auto block = tree::make<semantic::Block>();
     scope_stack_.emplace_front();
-    current_scope().block = tree::make<semantic::Block>();
+    current_scope().block = std::move(block);
 }
 
 /**
-- 
2.43.0


From 7b219bd899d002113be72285793b372aca8a8e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 20/20] fix: an assignment of an error that ran out of memory
 left parts of two errors

---
 include/libqasm/error.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/libqasm/error.hpp b/include/libqasm/error.hpp
index f09d064..5ab3e4a 100644
--- a/include/libqasm/error.hpp
+++ b/include/libqasm/error.hpp
@@ -8,6 +8,7 @@
 
 #include <optional>
 #include <string>
+#include <utility>  // move
 #include <vector>
 
 #include "libqasm/annotations.hpp"
@@ -65,6 +66,20 @@ public:
     Error(const std::string& message, const std::optional<std::string>& file_name,
         const annotations::SourceLocation::Range& range);
 
+    Error(const Error& other) = default;
+    Error(Error&& other) = default;
+    ~Error() override = default;
+
+    /**
+     * Copies before it changes anything,
+     * so that running out of memory does not leave behind an error with parts of two errors.
+     */
+    Error& operator=(const Error& other) {
+        auto copy = other;
+        return *this = std::move(copy);
+    }
+    Error& operator=(Error&& other) = default;
+
     /**
      * Sets the context of this error to the SourceLocation annotation of the given node,
      * if the error doesn't already have such a context.
-- 
2.43.0

