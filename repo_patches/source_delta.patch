From 95b104d52275d56307b430b8f12fc33fe18726f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 01/29] fix: drop the pending start of the next log event when
 the log parser is reset

---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b98e712..5ed7c94 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -158,6 +158,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 auto LogParser::reset() -> void {
     m_input_buffer.reset();
     m_lexer.reset();
+    m_has_start_of_log = false;
     m_lexer.prepend_start_of_file_char(m_input_buffer);
 }
 
-- 
2.43.0


From 9328727ecf8192cf5390b9cdb2d445d3c286a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 02/29] fix: keep a match that ends at the read position when
 the input buffer grows

---
 src/log_surgeon/Lexer.tpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 8a8aeb3..d912e48 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -19,19 +19,19 @@
 namespace log_surgeon {
 template <typename NFAStateType, typename DFAStateType>
 void Lexer<NFAStateType, DFAStateType>::flip_states(uint32_t old_storage_size) {
-    if (m_match_pos >= old_storage_size / 2) {
+    // A position equal to old_storage_size / 2 is the position of the next character to be read, which
+    // becomes old_storage_size.
+    if (m_match_pos > old_storage_size / 2) {
         m_match_pos -= old_storage_size / 2;
     } else {
         m_match_pos += old_storage_size / 2;
     }
-    // TODO when m_start_pos == old_storage_size / 2, theres two possible cases
-    // currently so both options are potentially wrong
     if (m_start_pos > old_storage_size / 2) {
         m_start_pos -= old_storage_size / 2;
     } else {
         m_start_pos += old_storage_size / 2;
     }
-    if (m_last_match_pos >= old_storage_size / 2) {
+    if (m_last_match_pos > old_storage_size / 2) {
         m_last_match_pos -= old_storage_size / 2;
     } else {
         m_last_match_pos += old_storage_size / 2;
@@ -309,6 +309,10 @@ auto Lexer<NFAStateType, DFAStateType>::increase_buffer_capacity(ParserInputBuff
         if (flipped_static_buffer) {
             flip_states(old_storage_size);
         }
+        // If the buffer was not flipped, position 0 is the position of the next character to be read
+        if (0 == m_match_pos) {
+            m_match_pos = old_storage_size;
+        }
         if (0 == m_last_match_pos) {
             m_last_match_pos = old_storage_size;
             m_start_pos = old_storage_size;
-- 
2.43.0


From 97789137f737bfb45a14bc25bedd8f98970e200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 03/29] fix: allow reading when the next unconsumed character
 is at the start of the input buffer

---
 src/log_surgeon/ParserInputBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 15fde34..b39056e 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -25,7 +25,7 @@ auto ParserInputBuffer::read_is_safe() -> bool {
     // Check if the last log message ends in the buffer half last read.
     // This means the other half of the buffer has already been fully used.
     if ((!m_last_read_first_half && m_consumed_pos > m_storage.size() / 2)
-        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2 && m_consumed_pos > 0))
+        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2))
     {
         return true;
     }
-- 
2.43.0


From 2df5ce938daa629ed2bf30fbf476d61d2034b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 04/29] fix: make the empty regex AST node match the empty
 string

Without a transition to the end state, the zero-repetition case of R*, R{0,N} never matched.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index beeb588..18be1aa 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -177,11 +177,8 @@ public:
         // Do nothing as an empty node contains no delimiters.
     }
 
-    auto add_to_nfa(
-            [[maybe_unused]] RegexNFA<NFAStateType>* nfa,
-            [[maybe_unused]] NFAStateType* end_state
-    ) const -> void override {
-        // Do nothing as adding an empty node to the NFA is a null operation.
+    auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override {
+        nfa->get_root()->add_epsilon_transition(end_state);
     }
 
     [[nodiscard]] auto serialize() const -> std::u32string override;
-- 
2.43.0


From 3eddc3b277ebcc055aa7581444eb1ab5e9d3c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 05/29] fix: do not let a repetition that ends an alternative
 loop on the shared end state

In x|(y+) the loop on y was added to the end state of both alternatives, so xy matched too.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 26 ++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 18be1aa..b6bfc74 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -77,6 +77,12 @@ public:
      */
     virtual auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void = 0;
 
+    /**
+     * @return Whether `add_to_nfa` may add transitions leaving the end state, i.e., whether this AST
+     * can end with an unbounded repetition. Such an end state must not be shared with other ASTs.
+     */
+    [[nodiscard]] virtual auto may_loop_on_end_state() const -> bool { return false; }
+
     /**
      * Serializes the AST with this node as the root.
      * @return A string representing the serialized AST.
@@ -536,6 +542,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto may_loop_on_end_state() const -> bool override {
+        return m_right->may_loop_on_end_state();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto get_left() const -> RegexAST<NFAStateType> const* { return m_left.get(); }
@@ -600,6 +610,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto may_loop_on_end_state() const -> bool override {
+        return is_infinite() || m_operand->may_loop_on_end_state();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto is_infinite() const -> bool { return this->m_max == 0; }
@@ -780,8 +794,16 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 template <typename NFAStateType>
 void RegexASTOr<NFAStateType>::add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
         const {
-    m_left->add_to_nfa_with_negative_tags(nfa, end_state);
-    m_right->add_to_nfa_with_negative_tags(nfa, end_state);
+    auto add_alternative = [&](RegexAST<NFAStateType> const& alternative) {
+        auto* alternative_end_state = end_state;
+        if (alternative.may_loop_on_end_state()) {
+            alternative_end_state = nfa->new_state();
+            alternative_end_state->add_epsilon_transition(end_state);
+        }
+        alternative.add_to_nfa_with_negative_tags(nfa, alternative_end_state);
+    };
+    add_alternative(*m_left);
+    add_alternative(*m_right);
 }
 
 template <typename NFAStateType>
-- 
2.43.0


From 2849ec627d93bee56e253cbe7a4a0e4e2a4fede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 06/29] fix: treat R{0} and R{0,0} as the empty string and
 reject R{N,M} with M < N

---
 src/log_surgeon/SchemaParser.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5676026..77e4db2 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -224,6 +224,10 @@ static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     for (uint32_t i = 0; i < r3_size; i++) {
         reps += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
     }
+    if (0 == reps) {
+        // RegexASTMultiplication treats a maximum of 0 as unbounded
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     return unique_ptr<ParserAST>(new ParserValueRegex(
             unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), reps, reps))
@@ -245,6 +249,16 @@ static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     for (uint32_t i = 0; i < r5_size; i++) {
         max += r5_ptr->get_digit(i) * (uint32_t)pow(10, r5_size - i - 1);
     }
+    if (max < min) {
+        throw std::runtime_error(
+                "Repetition {" + std::to_string(min) + "," + std::to_string(max)
+                + "} has a maximum smaller than its minimum."
+        );
+    }
+    if (0 == max) {
+        // RegexASTMultiplication treats a maximum of 0 as unbounded
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
 
     if (0 == min) {
-- 
2.43.0


From fb97f132fc51da9e18dacc94f4df9aee7c364e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 07/29] fix: report the start of an unfinished event without a
 timestamp from its first token

---
 src/log_surgeon/BufferParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 292029e..594208a 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -33,8 +33,11 @@ auto BufferParser::parse_next_event(
     ErrorCode error_code = m_log_parser.parse_and_generate_metadata(parsing_action);
     if (ErrorCode::Success != error_code) {
         if (0 != m_log_parser.get_log_event_view().m_log_output_buffer->pos()) {
+            // Without a timestamp the first token of the log event is stored at index 1
+            bool const has_timestamp
+                    = m_log_parser.get_log_event_view().m_log_output_buffer->has_timestamp();
             offset = m_log_parser.get_log_event_view()
-                             .m_log_output_buffer->get_token(0)
+                             .m_log_output_buffer->get_token(has_timestamp ? 0 : 1)
                              .m_start_pos;
         }
         reset();
-- 
2.43.0


From 5ca3e90bd9587b6108656b9d425b46927070f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 08/29] fix: keep the first token and the line numbers when
 deep copying a log event

Events without a timestamp store their first token at index 1; the copy stored it at index 0, where it
was never read.
---
 src/log_surgeon/LogEvent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 709e62c..1f9bfad 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -83,6 +83,8 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         throw std::runtime_error("token buffer_size <= 0");
     }
     m_buffer.resize(buffer_size);
+    // Without a timestamp the first token is stored at index 1 (see LogEventView)
+    m_log_output_buffer->set_pos(start);
     uint32_t curr_pos = 0;
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
         Token& token = src.get_log_output_buffer()->get_mutable_token(i);
@@ -96,13 +98,13 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
                 curr_pos,
                 m_buffer.data(),
                 buffer_size,
-                0,
+                token.m_line,
                 token.m_type_ids_ptr
         };
         m_log_output_buffer->set_curr_token(copied_token);
         m_log_output_buffer->advance_to_next_token();
     }
-    for (uint32_t i = 0; i < get_log_output_buffer()->pos(); i++) {
+    for (uint32_t i = start; i < get_log_output_buffer()->pos(); i++) {
         Token& token = get_log_output_buffer()->get_mutable_token(i);
         auto const& token_types = *token.m_type_ids_ptr;
         add_token(token_types[0], &token);
-- 
2.43.0


From bffb95eeea4c677ceff71b7339c901da44e56620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 09/29] fix: reject an inverted bracket range in a schema
 instead of asserting

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index b6bfc74..d39947b 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1022,7 +1022,11 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(
         );
     }
     m_negate = false;
-    assert(right->get_character() > left->get_character());
+    if (right->get_character() < left->get_character()) {
+        throw std::runtime_error(
+                "RegexASTGroup3: A range in a bracket expression in the schema ends before it starts."
+        );
+    }
     m_ranges.emplace_back(left->get_character(), right->get_character());
 }
 
-- 
2.43.0


From 20497cfd452e9e2a6a7f098a8e43b8a8e90e56f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 10/29] fix: continue reading a schema string where the
 previous read stopped

---
 src/log_surgeon/SchemaParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 77e4db2..5b101c3 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -84,8 +84,8 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
 }
 
 auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_ptr<SchemaAST> {
+    size_t unparsed_string_pos = 0;
     Reader reader{[&](char* dst_buf, size_t count, size_t& read_to) -> ErrorCode {
-        uint32_t unparsed_string_pos = 0;
         std::span<char> const buf{dst_buf, count};
         if (unparsed_string_pos + count > schema_string.length()) {
             count = schema_string.length() - unparsed_string_pos;
-- 
2.43.0


From d65c78a0710e2d2cd5c82b05333992a786e2e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 11/29] fix: do not treat a read error in a schema file as its
 end

---
 src/log_surgeon/SchemaParser.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5b101c3..13e9c81 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -72,11 +72,7 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
     }
     SchemaParser sp;
     Reader reader{[&](char* buf, size_t count, size_t& read_to) -> ErrorCode {
-        schema_reader.read(buf, count, read_to);
-        if (read_to == 0) {
-            return ErrorCode::EndOfFile;
-        }
-        return ErrorCode::Success;
+        return schema_reader.read(buf, count, read_to);
     }};
     unique_ptr<SchemaAST> schema_ast = sp.generate_schema_ast(reader);
     schema_reader.close();
-- 
2.43.0


From fccab59e11b8b11b43a58a3a658739e62be7170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 12/29] fix: record the schema file path so that schema errors
 can show the offending line

---
 src/log_surgeon/SchemaParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 13e9c81..6fd5cd1 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -76,6 +76,7 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
     }};
     unique_ptr<SchemaAST> schema_ast = sp.generate_schema_ast(reader);
     schema_reader.close();
+    schema_ast->m_file_path = schema_file_path;
     return schema_ast;
 }
 
-- 
2.43.0


From 21bbae6731590b9981324a30d4b192135954be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 13/29] fix: reuse the children of previous parses when a parse
 starts

---
 src/log_surgeon/LALR1Parser.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2edfa29..2211ee2 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -661,6 +661,8 @@ void LALR1Parser<NFAStateType, DFAStateType>::reset() {
     }
     m_input_buffer.reset();
     this->m_lexer.reset();
+    // No non-terminal of a previous parse is in use anymore
+    NonTerminal::m_next_children_start = 0;
 }
 
 template <typename NFAStateType, typename DFAStateType>
-- 
2.43.0


From 5092945b7b95a3abac54276a777ef6f9e132a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 14/29] fix: report a failed getdelim instead of using its
 result as a length

---
 src/log_surgeon/FileReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/FileReader.cpp b/src/log_surgeon/FileReader.cpp
index edaa2b3..31521ba 100644
--- a/src/log_surgeon/FileReader.cpp
+++ b/src/log_surgeon/FileReader.cpp
@@ -72,6 +72,7 @@ auto FileReader::try_read_to_delimiter(char delim, bool keep_delimiter, bool app
         if (0 != feof(m_file)) {
             return ErrorCode::EndOfFile;
         }
+        return ErrorCode::Errno;
     }
     if (false == keep_delimiter && delim == m_get_delim_buf[num_bytes_read - 1]) {
         --num_bytes_read;
-- 
2.43.0


From 36a8efa546341897b5339312a31ba6d1786d80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 15/29] fix: let a cloned regex AST refer to its own tags

The tags of a clone pointed into the AST it was cloned from, and dangled once that was destroyed.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 38 +++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index d39947b..094656a 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -437,10 +437,12 @@ public:
             std::unique_ptr<RegexAST<NFAStateType>> right
     );
 
+    // The tags must be those of the cloned children, so they aren't copied from rhs
     RegexASTOr(RegexASTOr const& rhs)
-            : RegexAST<NFAStateType>(rhs),
-              m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+            : RegexASTOr(
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone()),
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())
+              ) {}
 
     /**
      * Used for cloning a unique_pointer of type RegexASTOr
@@ -500,10 +502,12 @@ public:
             std::unique_ptr<RegexAST<NFAStateType>> right
     );
 
+    // The tags must be those of the cloned children, so they aren't copied from rhs
     RegexASTCat(RegexASTCat const& rhs)
-            : RegexAST<NFAStateType>(rhs),
-              m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+            : RegexASTCat(
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone()),
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())
+              ) {}
 
     /**
      * Used for cloning a unique_pointer of type RegexASTCat
@@ -568,11 +572,13 @@ public:
             uint32_t max
     );
 
+    // The tags must be those of the cloned operand, so they aren't copied from rhs
     RegexASTMultiplication(RegexASTMultiplication const& rhs)
-            : RegexAST<NFAStateType>(rhs),
-              m_operand(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_operand->clone())),
-              m_min(rhs.m_min),
-              m_max(rhs.m_max) {}
+            : RegexASTMultiplication(
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_operand->clone()),
+                      rhs.m_min,
+                      rhs.m_max
+              ) {}
 
     /**
      * Used for cloning a unique_pointer of type RegexASTMultiplication
@@ -666,14 +672,12 @@ public:
         RegexAST<NFAStateType>::add_subtree_positive_tags({m_tag.get()});
     }
 
+    // The tags must be those of the cloned group, so they aren't copied from rhs
     RegexASTCapture(RegexASTCapture const& rhs)
-            : RegexAST<NFAStateType>{rhs},
-              m_group_regex_ast{
-                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_group_regex_ast->clone())
-              },
-              m_tag{std::make_unique<Tag>(*rhs.m_tag)} {
-        RegexAST<NFAStateType>::set_subtree_positive_tags(rhs.get_subtree_positive_tags());
-    }
+            : RegexASTCapture(
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_group_regex_ast->clone()),
+                      std::make_unique<Tag>(*rhs.m_tag)
+              ) {}
 
     /**
      * Used for cloning a `unique_pointer` of type `RegexASTCapture`.
-- 
2.43.0


From 274f5ce785034c26152c0705f15be8dde50b7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 16/29] fix: keep skipping to the next token start when a read
 interrupts it

---
 src/log_surgeon/Lexer.tpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index d912e48..379e7c2 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -72,16 +72,17 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_prev_state = state;
             return err;
         }
+        // A null state means that skipping to the start of the next token was interrupted
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
-            && state->is_accepting())
+            && nullptr != state && state->is_accepting())
         {
             m_match = true;
             m_type_ids = &(state->get_matching_variable_ids());
             m_match_pos = prev_byte_buf_pos;
             m_match_line = m_line;
         }
-        DFAStateType* next = state->next(next_char);
-        if (next_char == '\n') {
+        DFAStateType* next = nullptr != state ? state->next(next_char) : nullptr;
+        if (next_char == '\n' && nullptr != state) {
             m_line++;
             if (m_has_delimiters && !m_match) {
                 next = m_dfa->get_root()->next(next_char);
@@ -152,7 +153,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                     ErrorCode::Success != err)
                 {
                     m_asked_for_more_data = true;
-                    m_prev_state = state;
+                    m_prev_state = nullptr;
                     return err;
                 }
             }
-- 
2.43.0


From 423dca8f6638105ede2994dad3ab47d06be5dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 17/29] fix: complement of a group ends at the last character

RegexASTGroup::complement only closed the complement with the characters up to
cUnicodeMax when some range was excluded, so [^] accepted nothing, and emitted an
inverted interval when the last excluded range ended at cUnicodeMax.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 094656a..2318b5a 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1080,7 +1080,7 @@ auto RegexASTGroup<NFAStateType>::complement(std::vector<Range> const& ranges
         }
         low = end + 1;
     }
-    if (low > 0) {
+    if (low <= cUnicodeMax) {
         complemented.emplace_back(low, cUnicodeMax);
     }
     return complemented;
-- 
2.43.0


From 0347f422848c40acd375bde8e4fd157d7fece0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 18/29] fix: reject delimiters that are not single characters
 instead of crashing

---
 src/log_surgeon/SchemaParser.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 6fd5cd1..a269d00 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -412,19 +412,25 @@ static auto regex_white_space_rule(NonTerminal* /* m */) -> unique_ptr<ParserAST
     );
 }
 
+static auto get_delimiter(unique_ptr<RegexASTByte> const& regex) -> uint32_t {
+    auto const* literal = dynamic_cast<RegexASTLiteralByte const*>(regex.get());
+    if (nullptr == literal) {
+        throw std::runtime_error("A delimiter in the schema isn't a single character.");
+    }
+    return literal->get_character();
+}
+
 static auto existing_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     auto& r2 = m->non_terminal_cast(1)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r1_ptr = dynamic_cast<DelimiterStringAST*>(r1.get());
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r2.get())->get_character();
-    r1_ptr->add_delimiter(character);
+    r1_ptr->add_delimiter(get_delimiter(r2));
     return std::move(r1);
 }
 
 static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r1.get())->get_character();
-    return make_unique<DelimiterStringAST>(character);
+    return make_unique<DelimiterStringAST>(get_delimiter(r1));
 }
 
 void SchemaParser::add_lexical_rules() {
-- 
2.43.0


From 42b39311fa9879978d767c28dc655daeac461f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 19/29] fix: accept \s in bracket expressions

---
 src/log_surgeon/SchemaParser.cpp             |  4 ++--
 src/log_surgeon/finite_automata/RegexAST.hpp | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index a269d00..a7534d9 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -589,12 +589,12 @@ void SchemaParser::add_productions() {
     add_production(
             "IncompleteGroup",
             {"IncompleteGroup", "WhiteSpace"},
-            regex_add_literal_existing_group_rule
+            regex_add_range_existing_group_rule
     );
     add_production("IncompleteGroup", {"Lbracket", "LiteralRange"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Digit"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Literal"}, regex_add_literal_new_group_rule);
-    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_literal_new_group_rule);
+    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Hat"}, regex_complement_incomplete_group_rule);
     add_production("LiteralRange", {"Literal", "Dash", "Literal"}, regex_range_rule);
     add_production("Literal", {"Backslash", "t"}, regex_tab_rule);
diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 2318b5a..71466ee 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -992,8 +992,7 @@ template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* left, RegexASTGroup const* right)
         : m_negate(left->m_negate),
           m_ranges(left->m_ranges) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
+    m_ranges.insert(m_ranges.end(), right->m_ranges.cbegin(), right->m_ranges.cend());
 }
 
 template <typename NFAStateType>
@@ -1008,10 +1007,9 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTLiteral<NFAStateType> const*
 }
 
 template <typename NFAStateType>
-RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right) : m_negate(false) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
-}
+RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right)
+        : m_negate(false),
+          m_ranges(right->m_ranges) {}
 
 template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(
-- 
2.43.0


From 3d5237898d52462010ee8ed68b055f9a32ab43bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 20/29] fix: never store children of schema symbols behind the
 end of their pool

---
 src/log_surgeon/LALR1Parser.cpp  |  7 +++++++
 src/log_surgeon/SchemaParser.cpp | 16 +++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index 5268091..e0487f4 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -1,5 +1,9 @@
 #include "LALR1Parser.hpp"
 
+#include <stdexcept>
+
+#include <log_surgeon/Constants.hpp>
+
 namespace log_surgeon {
 MatchedSymbol NonTerminal::m_all_children[cSizeOfAllChildren];
 
@@ -11,6 +15,9 @@ NonTerminal::NonTerminal(Production* p)
         : m_children_start(NonTerminal::m_next_children_start),
           m_production(p),
           m_ast(nullptr) {
+    if (NonTerminal::m_next_children_start + p->m_body.size() > cSizeOfAllChildren) {
+        throw std::runtime_error("A line of the schema is too long to be parsed.");
+    }
     NonTerminal::m_next_children_start += p->m_body.size();
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index a7534d9..8b3afd0 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -139,11 +139,22 @@ static auto new_schema_rule_with_delimiters(NonTerminal* m) -> unique_ptr<Schema
     return schema_ast;
 }
 
+/**
+ * Reuses the space of the non-terminals' children once half of it is used. To be called by rules
+ * which finish a line of the schema, since no earlier children are needed from then on.
+ */
+static auto rewind_children() -> void {
+    if (NonTerminal::m_next_children_start > cSizeOfAllChildren / 2) {
+        NonTerminal::m_next_children_start = 0;
+    }
+}
+
 static auto existing_schema_rule_with_delimiter(NonTerminal* m) -> unique_ptr<SchemaAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     std::unique_ptr<SchemaAST> schema_ast(dynamic_cast<SchemaAST*>(r1.release()));
     unique_ptr<ParserAST>& r5 = m->non_terminal_cast(4)->get_parser_ast();
     schema_ast->add_delimiters(std::move(r5));
+    rewind_children();
     return schema_ast;
 }
 
@@ -153,9 +164,7 @@ auto SchemaParser::existing_schema_rule(NonTerminal* m) -> unique_ptr<SchemaAST>
     unique_ptr<ParserAST>& r2 = m->non_terminal_cast(2)->get_parser_ast();
     schema_ast->add_schema_var(std::move(r2));
     // Can reset the buffers at this point and allow reading
-    if (NonTerminal::m_next_children_start > cSizeOfAllChildren / 2) {
-        NonTerminal::m_next_children_start = 0;
-    }
+    rewind_children();
     return schema_ast;
 }
 
@@ -171,6 +180,7 @@ static auto regex_capture_rule(NonTerminal const* m) -> std::unique_ptr<ParserAS
 static auto identity_rule_ParserASTSchema(NonTerminal* m) -> unique_ptr<SchemaAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     std::unique_ptr<SchemaAST> schema_ast(dynamic_cast<SchemaAST*>(r1.release()));
+    rewind_children();
     return schema_ast;
 }
 
-- 
2.43.0


From 25b1be39756ffbd8c0c739f8eab70e971aa2bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 21/29] fix: list matching variables in schema order instead of
 by state address

---
 src/log_surgeon/finite_automata/RegexDFA.tpp      | 15 ++++++++++++++-
 src/log_surgeon/finite_automata/RegexNFA.hpp      |  4 +++-
 src/log_surgeon/finite_automata/RegexNFAState.hpp |  9 +++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexDFA.tpp b/src/log_surgeon/finite_automata/RegexDFA.tpp
index 458a556..700aba0 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.tpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.tpp
@@ -44,11 +44,24 @@ auto RegexDFA<DFAStateType>::new_state(std::set<NFAStateType*> const& nfa_state_
 ) -> DFAStateType* {
     m_states.emplace_back(std::make_unique<DFAStateType>());
     auto* dfa_state = m_states.back().get();
+    std::vector<NFAStateType const*> accepting_states;
     for (auto const* nfa_state : nfa_state_set) {
         if (nfa_state->is_accepting()) {
-            dfa_state->add_matching_variable_id(nfa_state->get_matching_variable_id());
+            accepting_states.push_back(nfa_state);
         }
     }
+    // The set is ordered by the states' addresses, but the matching variables must be in the order
+    // in which their rules were added to the NFA.
+    std::sort(
+            accepting_states.begin(),
+            accepting_states.end(),
+            [](NFAStateType const* lhs, NFAStateType const* rhs) {
+                return lhs->get_index() < rhs->get_index();
+            }
+    );
+    for (auto const* nfa_state : accepting_states) {
+        dfa_state->add_matching_variable_id(nfa_state->get_matching_variable_id());
+    }
     return dfa_state;
 }
 
diff --git a/src/log_surgeon/finite_automata/RegexNFA.hpp b/src/log_surgeon/finite_automata/RegexNFA.hpp
index ba9791b..19e114c 100644
--- a/src/log_surgeon/finite_automata/RegexNFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFA.hpp
@@ -110,7 +110,9 @@ RegexNFA<NFAStateType>::RegexNFA(std::vector<LexicalRule<NFAStateType>> rules)
 template <typename NFAStateType>
 auto RegexNFA<NFAStateType>::new_state() -> NFAStateType* {
     m_states.emplace_back(std::make_unique<NFAStateType>());
-    return m_states.back().get();
+    auto* state = m_states.back().get();
+    state->set_index(m_states.size() - 1);
+    return state;
 }
 
 template <typename NFAStateType>
diff --git a/src/log_surgeon/finite_automata/RegexNFAState.hpp b/src/log_surgeon/finite_automata/RegexNFAState.hpp
index 8fce8cf..a9b22af 100644
--- a/src/log_surgeon/finite_automata/RegexNFAState.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFAState.hpp
@@ -2,6 +2,7 @@
 #define LOG_SURGEON_FINITE_AUTOMATA_REGEX_NFA_STATE
 
 #include <array>
+#include <cstddef>
 #include <cstdint>
 #include <memory>
 #include <optional>
@@ -41,6 +42,13 @@ public:
 
     [[nodiscard]] auto is_accepting() const -> bool const& { return m_accepting; }
 
+    /**
+     * @param index The position of this state among its NFA's states in the order they were added.
+     */
+    auto set_index(size_t const index) -> void { m_index = index; }
+
+    [[nodiscard]] auto get_index() const -> size_t { return m_index; }
+
     auto set_matching_variable_id(uint32_t const variable_id) -> void {
         m_matching_variable_id = variable_id;
     }
@@ -108,6 +116,7 @@ public:
     ) const -> std::optional<std::string>;
 
 private:
+    size_t m_index{0};
     bool m_accepting{false};
     uint32_t m_matching_variable_id{0};
     std::vector<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_start_transitions;
-- 
2.43.0


From 7020d6ca775611cb89e99d52f859e081e9f08ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 22/29] fix: refuse schema variable texts without a variable
 and positions out of range

---
 src/log_surgeon/Schema.cpp       | 4 ++++
 src/log_surgeon/Schema.hpp       | 2 ++
 src/log_surgeon/SchemaParser.hpp | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/src/log_surgeon/Schema.cpp b/src/log_surgeon/Schema.cpp
index e2008b1..c140bcc 100644
--- a/src/log_surgeon/Schema.cpp
+++ b/src/log_surgeon/Schema.cpp
@@ -1,5 +1,6 @@
 #include "Schema.hpp"
 
+#include <stdexcept>
 #include <string>
 
 namespace log_surgeon {
@@ -12,6 +13,9 @@ Schema::Schema(std::string const& schema_file_path)
 
 auto Schema::add_variable(std::string_view const var_schema, int const priority) const -> void {
     std::unique_ptr<SchemaAST> const schema_ast = SchemaParser::try_schema_string(var_schema);
+    if (schema_ast->m_schema_vars.empty()) {
+        throw std::invalid_argument("The given schema does not contain a variable");
+    }
     m_schema_ast->add_schema_var(std::move(schema_ast->m_schema_vars[0]), priority);
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/Schema.hpp b/src/log_surgeon/Schema.hpp
index 572d903..7c4a393 100644
--- a/src/log_surgeon/Schema.hpp
+++ b/src/log_surgeon/Schema.hpp
@@ -25,6 +25,8 @@ public:
      * to set to lowest).
      * @param var_schema
      * @param priority
+     * @throw std::invalid_argument if `var_schema` does not contain a variable.
+     * @throw std::out_of_range if `priority` is neither -1 nor a position in `m_schema_vars`.
      */
     auto add_variable(std::string_view var_schema, int priority) const -> void;
 
diff --git a/src/log_surgeon/SchemaParser.hpp b/src/log_surgeon/SchemaParser.hpp
index c508128..156ac3c 100644
--- a/src/log_surgeon/SchemaParser.hpp
+++ b/src/log_surgeon/SchemaParser.hpp
@@ -1,6 +1,8 @@
 #ifndef LOG_SURGEON_SCHEMA_PARSER_HPP
 #define LOG_SURGEON_SCHEMA_PARSER_HPP
 
+#include <cstddef>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <utility>
@@ -21,6 +23,8 @@ public:
     auto add_schema_var(std::unique_ptr<ParserAST> schema_var, int32_t pos = -1) -> void {
         if (pos == -1) {
             m_schema_vars.push_back(std::move(schema_var));
+        } else if (pos < 0 || static_cast<size_t>(pos) > m_schema_vars.size()) {
+            throw std::out_of_range("Position of the schema variable is out of range");
         } else {
             m_schema_vars.insert(m_schema_vars.begin() + pos, std::move(schema_var));
         }
-- 
2.43.0


From 993508872e0b313b547f76664a9f9bda13afeb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 23/29] fix: start a newly constructed parser at the start of a
 log

A parser that was never reset skipped the start-of-file symbol, so the first
timestamp of its input was not recognised although it is after reset().
---
 src/log_surgeon/LogParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 5ed7c94..fdf70d1 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -34,6 +34,8 @@ LogParser::LogParser(std::unique_ptr<SchemaAST> schema_ast) {
     add_rules(std::move(schema_ast));
     m_lexer.generate();
     m_log_event_view = make_unique<LogEventView>(*this);
+    // A new parser starts at the start of a log, like one that was reset
+    reset();
 }
 
 auto LogParser::add_delimiters(unique_ptr<ParserAST> const& delimiters) -> void {
-- 
2.43.0


From 00f1917dcc6ec9ea3c381cf4763c02eb2746e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:26 +0000
Subject: [PATCH 24/29] fix: give every thread its own pool of parse tree
 children

The children of the non-terminals of every schema being parsed lived in one
process-wide array, so that two threads building a schema at the same time
overwrote each other's parse trees.
---
 src/log_surgeon/LALR1Parser.cpp | 4 ++--
 src/log_surgeon/LALR1Parser.hpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index e0487f4..c9f3259 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -5,11 +5,11 @@
 #include <log_surgeon/Constants.hpp>
 
 namespace log_surgeon {
-MatchedSymbol NonTerminal::m_all_children[cSizeOfAllChildren];
+thread_local std::vector<MatchedSymbol> NonTerminal::m_all_children(cSizeOfAllChildren);
 
 ParserAST::~ParserAST() = default;
 
-uint32_t NonTerminal::m_next_children_start = 0;
+thread_local uint32_t NonTerminal::m_next_children_start = 0;
 
 NonTerminal::NonTerminal(Production* p)
         : m_children_start(NonTerminal::m_next_children_start),
diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index c31e78e..dfb9bd3 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -99,8 +99,9 @@ public:
      */
     auto get_parser_ast() -> std::unique_ptr<ParserAST>& { return m_ast; }
 
-    static MatchedSymbol m_all_children[];
-    static uint32_t m_next_children_start;
+    // One pool per thread, so that parsers on different threads do not share it
+    static thread_local std::vector<MatchedSymbol> m_all_children;
+    static thread_local uint32_t m_next_children_start;
     uint32_t m_children_start;
     Production* m_production;
     std::unique_ptr<ParserAST> m_ast;
-- 
2.43.0


From 46eb108df096b689f3dbaaa112d3ee54d7653caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:59 +0000
Subject: [PATCH 25/29] fix: initialise the table of special regex characters
 statically

The first schema parser filled the table without synchronisation, racing with
parsers on other threads that read it, and get_special_regex_characters()
returned an empty table before any schema had been parsed.
---
 src/log_surgeon/SchemaParser.cpp | 18 ------------------
 src/log_surgeon/SchemaParser.hpp | 19 ++++++++++++++++++-
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 8b3afd0..de47a77 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -444,24 +444,6 @@ static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
 }
 
 void SchemaParser::add_lexical_rules() {
-    if (m_special_regex_characters.empty()) {
-        m_special_regex_characters.emplace('(', "Lparen");
-        m_special_regex_characters.emplace(')', "Rparen");
-        m_special_regex_characters.emplace('*', "Star");
-        m_special_regex_characters.emplace('+', "Plus");
-        m_special_regex_characters.emplace('-', "Dash");
-        m_special_regex_characters.emplace('.', "Dot");
-        m_special_regex_characters.emplace('[', "Lbracket");
-        m_special_regex_characters.emplace(']', "Rbracket");
-        m_special_regex_characters.emplace('\\', "Backslash");
-        m_special_regex_characters.emplace('^', "Hat");
-        m_special_regex_characters.emplace('{', "Lbrace");
-        m_special_regex_characters.emplace('}', "Rbrace");
-        m_special_regex_characters.emplace('|', "Vbar");
-        m_special_regex_characters.emplace('<', "Langle");
-        m_special_regex_characters.emplace('>', "Rangle");
-        m_special_regex_characters.emplace('?', "QuestionMark");
-    }
     for (auto const& [special_regex_char, special_regex_name] : m_special_regex_characters) {
         add_token(special_regex_name, special_regex_char);
     }
diff --git a/src/log_surgeon/SchemaParser.hpp b/src/log_surgeon/SchemaParser.hpp
index 156ac3c..1d870a3 100644
--- a/src/log_surgeon/SchemaParser.hpp
+++ b/src/log_surgeon/SchemaParser.hpp
@@ -131,7 +131,24 @@ private:
      */
     auto generate_schema_ast(Reader& reader) -> std::unique_ptr<SchemaAST>;
 
-    static inline std::unordered_map<char, std::string> m_special_regex_characters;
+    static inline std::unordered_map<char, std::string> const m_special_regex_characters{
+            {'(', "Lparen"},
+            {')', "Rparen"},
+            {'*', "Star"},
+            {'+', "Plus"},
+            {'-', "Dash"},
+            {'.', "Dot"},
+            {'[', "Lbracket"},
+            {']', "Rbracket"},
+            {'\\', "Backslash"},
+            {'^', "Hat"},
+            {'{', "Lbrace"},
+            {'}', "Rbrace"},
+            {'|', "Vbar"},
+            {'<', "Langle"},
+            {'>', "Rangle"},
+            {'?', "QuestionMark"}
+    };
 };
 }  // namespace log_surgeon
 
-- 
2.43.0


From 2bbf6c7bfbf8320364bc701a512ec1458b1c13b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 26/29] fix: a '?' wildcard followed transitions to nowhere

The states of the automaton have no transition for most characters, so that
asking the next state whether it accepts dereferenced a null pointer.
---
 src/log_surgeon/Lexer.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 379e7c2..e6a33d0 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -241,7 +241,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
                 if (wildcard == '?') {
                     for (uint32_t byte = 0; byte < cSizeOfByte; byte++) {
                         DFAStateType* next_state = state->next(byte);
-                        if (next_state->is_accepting() == false) {
+                        if (next_state == nullptr || next_state->is_accepting() == false) {
                             token
                                     = Token{m_last_match_pos,
                                             input_buffer.storage().pos(),
-- 
2.43.0


From 957e6bc03032f4ef0c00b79a8cf8869a7d3dc49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:27 +0000
Subject: [PATCH 27/29] fix: copying or moving a buffer left the copy pointing
 into the original

A buffer's active storage is usually its own static storage, so the implicit
copy and move operations of Buffer - and with it of the input and output buffers
and of the parsers - made the new object read and write the old one's storage.
---
 src/log_surgeon/Buffer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log_surgeon/Buffer.hpp b/src/log_surgeon/Buffer.hpp
index 2a35195..b45430c 100644
--- a/src/log_surgeon/Buffer.hpp
+++ b/src/log_surgeon/Buffer.hpp
@@ -24,6 +24,12 @@ namespace log_surgeon {
 template <typename Item>
 class Buffer {
 public:
+    Buffer() = default;
+
+    // The active storage may be the buffer's own static storage
+    Buffer(Buffer const&) = delete;
+    auto operator=(Buffer const&) -> Buffer& = delete;
+
     auto set_curr_value(Item const& value) -> void { m_active_storage[m_pos] = value; }
 
     [[nodiscard]] auto get_curr_value() const -> Item const& { return m_active_storage[m_pos]; }
-- 
2.43.0


From 3b4f26a9de4c36c4479db300bf2da5e94da1770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:28 +0000
Subject: [PATCH 28/29] fix: a copied FileReader closed the original's file

Both destructors closed the same FILE and freed the same delimiter buffer.
---
 src/log_surgeon/FileReader.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log_surgeon/FileReader.hpp b/src/log_surgeon/FileReader.hpp
index 1af906d..cabaf76 100644
--- a/src/log_surgeon/FileReader.hpp
+++ b/src/log_surgeon/FileReader.hpp
@@ -10,7 +10,14 @@
 namespace log_surgeon {
 class FileReader : public Reader {
 public:
+    FileReader() = default;
+
+    // The file and the delimiter buffer are released by the destructor
+    FileReader(FileReader const&) = delete;
+    auto operator=(FileReader const&) -> FileReader& = delete;
+
     ~FileReader();
+
     /**
      * Tries to read up to a given number of bytes from the file
      * @param buf
-- 
2.43.0


From 308fe4d6bb2369ec897b711ad34cd02685a4958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:49 +0000
Subject: [PATCH 29/29] fix: lookaheads of an item were shared between item
 sets, so LALR(1) grammars were refused

---
 src/log_surgeon/LALR1Parser.hpp |  6 ++++--
 src/log_surgeon/LALR1Parser.tpp | 32 ++++++++++++++++++--------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index dfb9bd3..b59dc5e 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -402,8 +402,10 @@ private:
     std::map<std::set<Item>, std::unique_ptr<ItemSet>> m_lr0_item_sets;
     std::map<std::set<Item>, std::unique_ptr<ItemSet>> m_lr1_item_sets;
     std::unordered_map<uint32_t, std::set<uint32_t>> m_firsts;
-    std::unordered_map<Production*, std::set<uint32_t>> m_spontaneous_map;
-    std::map<Item, std::set<Item>> m_propagate_map;
+    // An item's lookaheads depend on the item set it is in
+    using SetItem = std::pair<ItemSet*, Item>;
+    std::map<SetItem, std::set<uint32_t>> m_spontaneous_map;
+    std::map<SetItem, std::set<SetItem>> m_propagate_map;
     std::unordered_map<uint32_t, std::map<uint32_t, uint32_t>> m_go_to_table;
 };
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2211ee2..13cfbad 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -307,36 +307,40 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lr1_item_sets() {
             temp_item_set.m_kernel.insert(l0_item);
             generate_lr1_closure(&temp_item_set);
             for (Item const& l1_item : temp_item_set.m_closure) {
+                if (l1_item.has_dot_at_end()) {
+                    continue;
+                }
+                ItemSet* next_item_set = kv.second->m_next.at(l1_item.next_symbol());
+                Item temp_item(l1_item.m_production, l1_item.m_dot + 1, cNullSymbol);
+                SetItem next_item(next_item_set, temp_item);
                 if (l1_item.m_lookahead != cNullSymbol) {
-                    m_spontaneous_map[l1_item.m_production].insert(l1_item.m_lookahead);
+                    m_spontaneous_map[next_item].insert(l1_item.m_lookahead);
                 } else {
-                    if (l1_item.m_dot < l1_item.m_production->m_body.size()) {
-                        Item temp_item(l1_item.m_production, l1_item.m_dot + 1, cNullSymbol);
-                        m_propagate_map[l0_item].insert(temp_item);
-                    }
+                    m_propagate_map[SetItem(kv.second.get(), l0_item)].insert(next_item);
                 }
             }
         }
     }
-    std::map<Item, std::set<int>> lookaheads;
+    std::map<SetItem, std::set<int>> lookaheads;
     for (std::map<std::set<Item>, std::unique_ptr<ItemSet>>::value_type const& kv : m_lr0_item_sets)
     {
         for (Item const& l0_item : kv.second->m_kernel) {
-            lookaheads[l0_item].insert(
-                    m_spontaneous_map[l0_item.m_production].begin(),
-                    m_spontaneous_map[l0_item.m_production].end()
+            SetItem const item(kv.second.get(), l0_item);
+            lookaheads[item].insert(
+                    m_spontaneous_map[item].begin(),
+                    m_spontaneous_map[item].end()
             );
             if (l0_item.m_production == m_productions[m_root_production_id].get()) {
-                lookaheads[l0_item].insert((uint32_t)SymbolId::TokenEnd);
+                lookaheads[item].insert((uint32_t)SymbolId::TokenEnd);
             }
         }
     }
     bool changed = true;
     while (changed) {
         changed = false;
-        for (std::map<Item, std::set<Item>>::value_type& kv : m_propagate_map) {
-            Item item_from = kv.first;
-            for (Item const& item_to : kv.second) {
+        for (typename std::map<SetItem, std::set<SetItem>>::value_type& kv : m_propagate_map) {
+            SetItem item_from = kv.first;
+            for (SetItem const& item_to : kv.second) {
                 size_t size_before = lookaheads[item_to].size();
                 lookaheads[item_to].insert(
                         lookaheads[item_from].begin(),
@@ -351,7 +355,7 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lr1_item_sets() {
     {
         std::unique_ptr<ItemSet> lr1_item_set_ptr = std::make_unique<ItemSet>();
         for (Item const& l0_item : kv.second->m_kernel) {
-            for (int const& lookahead : lookaheads[l0_item]) {
+            for (int const& lookahead : lookaheads[SetItem(kv.second.get(), l0_item)]) {
                 Item lr1_item(l0_item.m_production, l0_item.m_dot, lookahead);
                 lr1_item_set_ptr->m_kernel.insert(lr1_item);
             }
-- 
2.43.0

