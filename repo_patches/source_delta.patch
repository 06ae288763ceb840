From 4c349ece37a80bbf8ead6c6d4104e884acd94d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 01/46] fix: add 0x10000 when decoding UTF-16 surrogate pairs

---
 include/lexy/_detail/code_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index 88e7aa0..e0c581c 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -296,7 +296,7 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             auto result = char32_t(first & payload1);
             result <<= 10;
             result |= char32_t(second & payload2);
-            result |= 0x10000;
+            result += 0x10000;
             return {result, cp_error::success, reader.current()};
         }
         else if ((first & ~payload2) == pattern2)
-- 
2.43.0


From d1a8fe729a645c7ababe7f70e6eb7eb530296e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 02/46] fix: don't treat the UTF-8 code units F8 to FE as EOF

---
 include/lexy/_detail/code_point.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index e0c581c..ccc0235 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -264,10 +264,14 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             else
                 return {cp, cp_error::success, reader.current()};
         }
-        else // FE or FF
+        else if (reader.peek() == Reader::encoding::eof())
         {
             return {{}, cp_error::eof, reader.current()};
         }
+        else // F8 - FE, which can never begin a code point
+        {
+            return {{}, cp_error::leads_with_trailing, reader.current()};
+        }
     }
     else if constexpr (std::is_same_v<typename Reader::encoding, lexy::utf16_encoding>)
     {
-- 
2.43.0


From 783a94c068499d2b28783a7194ac712c0738375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 03/46] fix: reserve_suffix misses suffix overlapping an
 earlier match

---
 include/lexy/dsl/identifier.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/identifier.hpp b/include/lexy/dsl/identifier.hpp
index 906e132..ba3aa71 100644
--- a/include/lexy/dsl/identifier.hpp
+++ b/include/lexy/dsl/identifier.hpp
@@ -125,8 +125,10 @@ struct _idsp // reserve suffix predicate
         auto reader = input.reader();
         while (true)
         {
-            if (lexy::try_match_token(Set{}, reader)
-                && reader.peek() == decltype(reader)::encoding::eof())
+            // Match on a copy: a suffix can begin inside an earlier match that is not at the end.
+            auto suffix = reader;
+            if (lexy::try_match_token(Set{}, suffix)
+                && suffix.peek() == decltype(reader)::encoding::eof())
                 return true;
             else if (reader.peek() == decltype(reader)::encoding::eof())
                 return false;
-- 
2.43.0


From e7e577b612f87ff1e10bbe7addb17980daf11000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 04/46] fix: restore whitespace skipping when no_whitespace()
 fails

---
 include/lexy/dsl/whitespace.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/whitespace.hpp b/include/lexy/dsl/whitespace.hpp
index 171df52..5a9ea45 100644
--- a/include/lexy/dsl/whitespace.hpp
+++ b/include/lexy/dsl/whitespace.hpp
@@ -274,8 +274,14 @@ struct _wsn : _copy_base<Rule>
         LEXY_PARSER_FUNC auto finish(Context& context, Reader& reader, Args&&... args)
         {
             // Finish the rule with whitespace skipping disabled.
+            auto old = context.control_block->enable_whitespace_skipping;
             context.control_block->enable_whitespace_skipping = false;
-            return rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+            if (rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...))
+                return true;
+
+            // The rule might have failed before enabling it again; someone could still recover.
+            context.control_block->enable_whitespace_skipping = old;
+            return false;
         }
     };
 
@@ -296,9 +302,15 @@ struct _wsn : _copy_base<Rule>
             else
             {
                 // Parse the rule with whitespace skipping disabled.
+                auto old = context.control_block->enable_whitespace_skipping;
                 context.control_block->enable_whitespace_skipping = false;
                 using parser = lexy::parser_for<Rule, _pc<NextParser>>;
-                return parser::parse(context, reader, LEXY_FWD(args)...);
+                if (parser::parse(context, reader, LEXY_FWD(args)...))
+                    return true;
+
+                // The rule might have failed before enabling it again; someone could still recover.
+                context.control_block->enable_whitespace_skipping = old;
+                return false;
             }
         }
     };
-- 
2.43.0


From 05a5dc1b3adda5c08961ad4bfd525cab649e811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 05/46] fix: restore recursion depth when a recursive
 production fails

---
 include/lexy/dsl/production.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/production.hpp b/include/lexy/dsl/production.hpp
index 8e4b19f..a11e7da 100644
--- a/include/lexy/dsl/production.hpp
+++ b/include/lexy/dsl/production.hpp
@@ -200,9 +200,15 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto old_depth = context.control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
-            return _impl.template finish<depth>(context, reader, LEXY_FWD(args)...);
+            if (_impl.template finish<depth>(context, reader, LEXY_FWD(args)...))
+                return true;
+
+            // We might have failed inside the recursive call; someone could still recover.
+            context.control_block->cur_depth = old_depth;
+            return false;
         }
     };
 
@@ -213,11 +219,17 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto old_depth = context.control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
 
-            return lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
-                                                                    LEXY_FWD(args)...);
+            using parser = lexy::parser_for<_prd<Production>, depth>;
+            if (parser::parse(context, reader, LEXY_FWD(args)...))
+                return true;
+
+            // We might have failed inside the recursive call; someone could still recover.
+            context.control_block->cur_depth = old_depth;
+            return false;
         }
     };
 
-- 
2.43.0


From 2d03222b30b84c8c205cdd0a1499e96dc6275750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 06/46] fix: comparing a token kind with a production kind
 dereferences nullptr

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 20f3fe9..4e3f08e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -793,8 +793,10 @@ public:
     {
         if (lhs.is_token() && rhs.is_token())
             return lhs._ptr->as_token()->kind == rhs._ptr->as_token()->kind;
-        else
+        else if (lhs.is_production() && rhs.is_production())
             return lhs._ptr->as_production()->id == rhs._ptr->as_production()->id;
+        else
+            return false;
     }
     friend bool operator!=(_pt_node_kind lhs, _pt_node_kind rhs)
     {
-- 
2.43.0


From f275fd58b8b9e8379dfa1b05069ca72f79db2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 07/46] fix: parse_tree::traverse() of empty tree compares
 uninitialized event

---
 include/lexy/parse_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 4e3f08e..186b48f 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1169,7 +1169,7 @@ public:
 
     private:
         _detail::pt_node<Reader>* _cur = nullptr;
-        traverse_event            _ev;
+        traverse_event            _ev  = traverse_event::enter;
 
         friend traverse_range;
     };
-- 
2.43.0


From 10a4852ab538ef4e78575e403f71d76651c2267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 08/46] fix: parse_tree leaks blocks when it is re-used

---
 include/lexy/parse_tree.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 186b48f..a820bfd 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -267,10 +267,11 @@ public:
     {
         if (remaining_capacity() < size)
         {
-            auto next        = block::allocate(_resource);
-            _cur_block->next = next;
-            _cur_block       = next;
-            _cur_pos         = &_cur_block->memory[0];
+            // After a reset(), we might still have a block from the previous tree.
+            if (_cur_block->next == nullptr)
+                _cur_block->next = block::allocate(_resource);
+            _cur_block = _cur_block->next;
+            _cur_pos   = &_cur_block->memory[0];
         }
     }
 
-- 
2.43.0


From cd5030321fa071c1e212f08b1007fe3732899bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 09/46] fix: parse_tree::clear() does not reset the size

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index a820bfd..250e447 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -368,7 +368,9 @@ public:
     void clear() noexcept
     {
         _buffer.reset();
-        _root = nullptr;
+        _root  = nullptr;
+        _size  = 0;
+        _depth = 0;
     }
 
     //=== node access ===//
-- 
2.43.0


From 7dee5a192d384c94569a14cbdb456d3cfa297822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 10/46] fix: siblings() of the root node dereferences nullptr

---
 include/lexy/parse_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 250e447..4ae4eae 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -995,6 +995,10 @@ public:
 
         iterator begin() const noexcept
         {
+            // The root node doesn't have siblings, its next node is the remaining input.
+            if (_pt_node(_node).kind().is_root())
+                return end();
+
             // We begin with the next node after ours.
             // If we don't have siblings, this is our node itself.
             return ++iterator(_node);
-- 
2.43.0


From 21c90a61a7d507b285b0c6dff7e2aff9a176b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 11/46] fix: subgrammar reports grammar events, which breaks
 parse_as_tree

---
 include/lexy/action/base.hpp    | 23 ++++++++++++++++-------
 include/lexy/dsl/subgrammar.hpp |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/lexy/action/base.hpp b/include/lexy/action/base.hpp
index 3e57a6f..6bca89c 100644
--- a/include/lexy/action/base.hpp
+++ b/include/lexy/action/base.hpp
@@ -198,10 +198,11 @@ namespace lexy
 {
 constexpr void* no_parse_state = nullptr;
 
+// Parses the production as if it was the entry production of a grammar, but without reporting the
+// start/finish of a grammar.
 template <typename Handler, typename State, typename Production, typename Reader>
-constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& reader)
+constexpr bool _do_production(_pc<Handler, State, Production>& context, Reader& reader)
 {
-    context.on(parse_events::grammar_start{}, reader.position());
     context.on(parse_events::production_start{}, reader.position());
 
     // We parse whitespace, theen the rule, then finish.
@@ -211,15 +212,23 @@ constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& read
     auto rule_result = parser::parse(context, reader);
 
     if (rule_result)
-    {
         context.on(parse_events::production_finish{}, reader.position());
-        context.on(parse_events::grammar_finish{}, reader);
-    }
     else
-    {
         context.on(parse_events::production_cancel{}, reader.position());
+
+    return rule_result;
+}
+
+template <typename Handler, typename State, typename Production, typename Reader>
+constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& reader)
+{
+    context.on(parse_events::grammar_start{}, reader.position());
+    auto rule_result = _do_production(context, reader);
+
+    if (rule_result)
+        context.on(parse_events::grammar_finish{}, reader);
+    else
         context.on(parse_events::grammar_cancel{}, reader);
-    }
 
     return rule_result;
 }
diff --git a/include/lexy/dsl/subgrammar.hpp b/include/lexy/dsl/subgrammar.hpp
index 6a291df..926848c 100644
--- a/include/lexy/dsl/subgrammar.hpp
+++ b/include/lexy/dsl/subgrammar.hpp
@@ -42,7 +42,7 @@ using _subgrammar_for = _subgrammar<Production, typename Action::handler, typena
               Reader&                                                       reader)                \
     {                                                                                              \
         lexy::_pc<Handler, State, Production> context(control_block);                              \
-        auto                                  success = ::lexy::_do_action(context, reader);       \
+        auto                                  success = ::lexy::_do_production(context, reader);   \
         value                                         = LEXY_MOV(context.value);                   \
         return success;                                                                            \
     }
-- 
2.43.0


From 37e949cc8fa9356708da5f1f3d3aef4aad1ae67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 12/46] fix: literal SWAR mismatch uses wrong character size

---
 include/lexy/dsl/literal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index d57c189..11e6e6d 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -42,7 +42,8 @@ constexpr auto match_literal(Reader& reader)
         }
         else
         {
-            auto partial = swar_find_difference<CharT>(reader.peek_swar() & pack.mask, pack.value);
+            auto partial
+                = swar_find_difference<char_type>(reader.peek_swar() & pack.mask, pack.value);
             reader.bump_swar(partial);
             return false;
         }
-- 
2.43.0


From 90be35cd33342cbfc62b822e26cb908cc524863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 13/46] fix: delimited() ignores the limit if the reader
 supports SWAR

---
 include/lexy/dsl/delimited.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/delimited.hpp b/include/lexy/dsl/delimited.hpp
index 82677b4..a0eae05 100644
--- a/include/lexy/dsl/delimited.hpp
+++ b/include/lexy/dsl/delimited.hpp
@@ -216,7 +216,9 @@ struct _del : rule_base
         {
             // Parse as many content chars as possible.
             // If it returns, we need to look closer at the next char.
-            cur_chars.parse_swar(reader, Close{}, Escapes{}...);
+            // We need to check every char if we have a limit.
+            if constexpr (std::is_void_v<Limit>)
+                cur_chars.parse_swar(reader, Close{}, Escapes{}...);
 
             // Check for closing delimiter.
             if (close.try_parse(context.control_block, reader))
-- 
2.43.0


From a42eb4aab13918503edff20ea2d887014f438145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 14/46] fix: delimited() skips over case folded delimiter and
 escapes using SWAR

---
 include/lexy/dsl/delimited.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/delimited.hpp b/include/lexy/dsl/delimited.hpp
index a0eae05..dcf6082 100644
--- a/include/lexy/dsl/delimited.hpp
+++ b/include/lexy/dsl/delimited.hpp
@@ -26,6 +26,17 @@ struct missing_delimiter
 
 namespace lexyd
 {
+// Whether a rule always begins with its `lit_first_char()`, so we can look for that using SWAR.
+// If the literal is case folded, it can also begin with a different character.
+template <typename Rule>
+constexpr bool _del_swar_literal()
+{
+    if constexpr (lexy::is_literal_rule<Rule>)
+        return std::is_void_v<typename Rule::lit_case_folding>;
+    else
+        return false;
+}
+
 template <typename CharClass, typename Reader>
 struct _del_chars
 {
@@ -58,7 +69,7 @@ struct _del_chars
         // we can munch as much content as possible in a fast loop.
         // We also need to efficiently check for the CharClass for it to make sense.
         if constexpr (lexy::_detail::is_swar_reader<Reader> //
-                      && (lexy::is_literal_rule<Close> && ... && Escs::esc_is_literal)
+                      && (_del_swar_literal<Close>() && ... && Escs::esc_is_literal)
                       && !std::is_same_v<
                           decltype(CharClass::template char_class_match_swar<encoding>({})),
                           std::false_type>)
@@ -369,7 +380,7 @@ namespace lexyd
 template <typename Escape, typename... Branches>
 struct _escape : _escape_base
 {
-    static constexpr bool esc_is_literal = lexy::is_literal_rule<Escape>;
+    static constexpr bool esc_is_literal = _del_swar_literal<Escape>();
     template <typename Encoding>
     static constexpr auto esc_first_char() -> typename Encoding::char_type
     {
-- 
2.43.0


From f0cf03b0ed5b9fe0481f6157c94fcf42ba6cb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 15/46] fix: literal sets with Unicode case folding match the
 wrong range

---
 include/lexy/dsl/case_folding.hpp | 1 +
 include/lexy/dsl/literal.hpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c01f50b..c144366 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -261,6 +261,7 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
     constexpr void reset(marker m) noexcept
     {
         _impl.reset(m);
+        _fill();
     }
 };
 
diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index 11e6e6d..0905e85 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -256,7 +256,9 @@ struct lit_trie_matcher<Trie, CurNode>
             return false;
 
         reader.bump();
-        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::try_match(reader);
+        // Call the implementation directly: the reader already does the case folding.
+        using next = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>;
+        result     = next::template _impl<>::try_match(reader);
         return true;
     }
 
-- 
2.43.0


From 05281789826ae01137e09ace7fbc2e0fa3ce31fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 16/46] fix: size() counts nodes of cancelled productions

---
 include/lexy/parse_tree.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 4ae4eae..30691ee 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -425,7 +425,7 @@ public:
     class marker
     {
     public:
-        marker() : marker(nullptr, 0) {}
+        marker() : marker(nullptr, 0, 0) {}
 
     private:
         // Where to unwind when done.
@@ -445,10 +445,14 @@ public:
         // The maximum local depth seen in the subtree beginning at the marker.
         std::size_t local_max_depth;
 
-        explicit marker(void* unwind_pos, std::size_t cur_depth,
+        // The size of the tree when the production or container was started.
+        std::size_t start_size;
+
+        explicit marker(void* unwind_pos, std::size_t cur_depth, std::size_t start_size,
                         _detail::pt_node_production<Reader>* prod = nullptr)
         : unwind_pos(unwind_pos), prod(prod), child_count(0), first_child(nullptr),
-          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth)
+          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth),
+          start_size(start_size)
         {}
 
         void clear()
@@ -552,7 +556,7 @@ public:
         _result._depth = 0;
 
         // Begin construction at the root.
-        _cur = marker(_result._buffer.top(), 0, _result._root);
+        _cur = marker(_result._buffer.top(), 0, _result._size, _result._root);
     }
     explicit builder(production_info production) : builder(parse_tree(), production) {}
 
@@ -601,7 +605,7 @@ public:
 
         // Subsequent insertions are to the new node, so update marker and return old one.
         auto old = LEXY_MOV(_cur);
-        _cur     = marker(node, old.cur_depth + 1, node);
+        _cur     = marker(node, old.cur_depth + 1, _result._size, node);
         return old;
     }
 
@@ -628,6 +632,8 @@ public:
             return;
 
         _result._buffer.unwind(_cur.unwind_pos);
+        // Everything finished since then is no longer part of the tree.
+        _result._size = _cur.start_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
@@ -648,7 +654,7 @@ public:
 
         // Create a new container marker and activate it.
         auto old = LEXY_MOV(_cur);
-        _cur     = marker(unwind_pos, old.cur_depth);
+        _cur     = marker(unwind_pos, old.cur_depth, _result._size);
         return old;
     }
 
@@ -670,7 +676,7 @@ public:
 
         // Create a new container that will contain the production as its only child.
         // As such, it logically starts at the same position and depth as the current container.
-        auto new_container = marker(_cur.unwind_pos, _cur.cur_depth);
+        auto new_container = marker(_cur.unwind_pos, _cur.cur_depth, _cur.start_size);
         new_container.insert(node);
 
         // The production contains all the children.
@@ -712,6 +718,8 @@ public:
 
         // Deallocate everything we've inserted.
         _result._buffer.unwind(_cur.unwind_pos);
+        // Everything finished since then is no longer part of the tree.
+        _result._size = _cur.start_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
-- 
2.43.0


From d9e81aa3ce0d90cd117047e82ccd3066523540d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 17/46] fix: cancelling a transparent production keeps its
 tokens

---
 include/lexy/parse_tree.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 30691ee..d40b126 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -447,12 +447,14 @@ public:
 
         // The size of the tree when the production or container was started.
         std::size_t start_size;
+        // The size of the tree when a transparent production was started.
+        std::size_t transparent_size;
 
         explicit marker(void* unwind_pos, std::size_t cur_depth, std::size_t start_size,
                         _detail::pt_node_production<Reader>* prod = nullptr)
         : unwind_pos(unwind_pos), prod(prod), child_count(0), first_child(nullptr),
           last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth),
-          start_size(start_size)
+          start_size(start_size), transparent_size(start_size)
         {}
 
         void clear()
@@ -590,8 +592,12 @@ public:
     auto start_production(production_info production)
     {
         if (production.is_transparent)
+        {
             // Don't need to add a new node for a transparent production.
-            return _cur;
+            auto result             = _cur;
+            result.transparent_size = _result._size;
+            return result;
+        }
 
         // Allocate a node for the production and append it to the current child list.
         // We reserve enough memory to allow for a trailing pointer.
@@ -628,8 +634,13 @@ public:
     {
         LEXY_PRECONDITION(_cur.prod || m.prod == _cur.prod);
         if (_cur.prod == m.prod)
-            // We're backtracking a transparent production, do nothing.
+        {
+            // We're backtracking a transparent production.
+            // There is no node to remove, but we need to remove all children it has added.
+            _result._size = m.transparent_size;
+            _cur          = LEXY_MOV(m);
             return;
+        }
 
         _result._buffer.unwind(_cur.unwind_pos);
         // Everything finished since then is no longer part of the tree.
-- 
2.43.0


From 2e7375cbfc9310fb63488d08c42af65c66397e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 18/46] fix: check all bytes of the UTF-32 big endian BOM

---
 include/lexy/input/buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 4380528..ee6d452 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -440,7 +440,8 @@ struct _make_buffer<utf32_encoding, encoding_endianness::bom>
         {
             if (memory[0] == 0xFF && memory[1] == 0xFE && memory[2] == 0x00 && memory[3] == 0x00)
                 return utf32_little(memory + 4, size - 4, resource);
-            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE && memory[3])
+            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE
+                     && memory[3] == 0xFF)
                 return utf32_big(memory + 4, size - 4, resource);
         }
 
-- 
2.43.0


From dc81f7ac4f9300bee49a4e0c721253c3df91c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 19/46] fix: buffer_builder::grow() does not copy the entire
 read area

---
 include/lexy/_detail/buffer_builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/buffer_builder.hpp b/include/lexy/_detail/buffer_builder.hpp
index f0f5b17..9fc10a2 100644
--- a/include/lexy/_detail/buffer_builder.hpp
+++ b/include/lexy/_detail/buffer_builder.hpp
@@ -91,7 +91,7 @@ public:
         // Allocate new memory.
         auto memory = static_cast<T*>(::operator new(new_cap * sizeof(T)));
         // Copy the read area into the new memory.
-        std::memcpy(memory, _data, _read_size);
+        std::memcpy(memory, _data, _read_size * sizeof(T));
 
         // Release the old memory, if there was any.
         if (_data != _stack_buffer)
-- 
2.43.0


From 13a7797305d55400f49a90c7398a8859e89f3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 20/46] fix: write_color() discards the output iterator

---
 include/lexy/visualize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index f553087..f334821 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -155,7 +155,7 @@ constexpr OutIt write_color(OutIt out, visualization_options opts)
         return out;
     };
     out = write_code(out, int(CodeHead));
-    ((*out++ = ';', write_code(out, int(CodeTail))), ...);
+    ((*out++ = ';', out = write_code(out, int(CodeTail))), ...);
 
     *out++ = 'm';
     return out;
-- 
2.43.0


From 17b5578fb4d5b3a2a3c4eff6cc00d605be113c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 21/46] fix: parse_tree with custom memory resource does not
 compile

---
 include/lexy/parse_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index d40b126..2df538e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1113,7 +1113,8 @@ private:
 
     _detail::pt_node<Reader>* _ptr;
 
-    friend parse_tree<Reader, TokenKind>;
+    template <typename, typename, typename>
+    friend class parse_tree;
     friend parse_tree_input_traits<_pt_node<Reader, TokenKind>>;
 };
 
-- 
2.43.0


From 9408e418f6f22a69d7238ce44d2e27e49866258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 22/46] fix: reading an empty buffer dereferences nullptr

---
 include/lexy/input/buffer.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index ee6d452..0bc4cb0 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -265,12 +265,30 @@ public:
     auto reader() const& noexcept
     {
         if constexpr (_has_sentinel)
-            return _buffer_reader<encoding>(_data);
+            // A default constructed or moved-from buffer doesn't have memory for the sentinel.
+            return _buffer_reader<encoding>(_data ? _data : _empty_data());
         else
             return _range_reader<encoding>(_data, _data + _size);
     }
 
 private:
+    // The contents of an allocated buffer of size zero.
+    static const char_type* _empty_data() noexcept
+    {
+        struct sentinel
+        {
+            alignas(_detail::swar_int) char_type data[_detail::round_size_for_swar(1)];
+
+            constexpr sentinel() : data{}
+            {
+                for (auto& c : data)
+                    c = encoding::eof();
+            }
+        };
+        static constexpr sentinel result;
+        return result.data;
+    }
+
     char_type* allocate(std::size_t size) const
     {
         if constexpr (_has_sentinel)
-- 
2.43.0


From 85a0682449218cee492e10621cebc634e64198ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:02 +0000
Subject: [PATCH 23/46] fix: shell returns characters that have not been read
 at the end of input

---
 include/lexy_ext/shell.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 0e192c6..f280eac 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -373,6 +373,7 @@ private:
         if (_buffer.write_size() < min_capacity)
             _buffer.grow();
 
+        auto did_read = false;
         for (auto reader = _prompt.read_line(); true;)
         {
             const auto buffer_size = _buffer.write_size();
@@ -381,17 +382,19 @@ private:
             // commiting what we've just read.
             const auto read = reader(_buffer.write_data(), buffer_size);
             _buffer.commit(read);
+            did_read |= read > 0;
 
             // Check whether we've read the entire line.
-            if (_buffer.write_data()[-1] == '\n')
+            if (read > 0 && _buffer.write_data()[-1] == '\n')
             {
                 LEXY_MOV(reader).done();
                 return true;
             }
             else if (read < buffer_size)
             {
+                // We might have read a final line without a newline.
                 LEXY_ASSERT(!_prompt.is_open(), "read error but prompt still open?!");
-                return false;
+                return did_read;
             }
 
             // We've filled the entire buffer and need more space.
-- 
2.43.0


From 05627fed433891ca28d22c2ae467180435beeaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:02 +0000
Subject: [PATCH 24/46] fix: default_prompt does not support lines longer than
 the buffer

---
 include/lexy_ext/shell.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index f280eac..53cb56a 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -101,13 +101,20 @@ struct default_prompt
     {
         std::size_t operator()(char_type* buffer, std::size_t size)
         {
-            LEXY_PRECONDITION(size > 1);
+            // Note: std::fgets() reads one character less (for the null terminator),
+            // and doesn't tell us how much it has read if the line contains null characters.
+            auto count = std::size_t(0);
+            while (count < size)
+            {
+                const auto c = std::getc(stdin);
+                if (c == EOF)
+                    break;
 
-            auto memory = reinterpret_cast<char*>(buffer);
-            if (auto str = std::fgets(memory, int(size), stdin))
-                return std::strlen(str);
-            else
-                return 0;
+                buffer[count++] = static_cast<char_type>(c);
+                if (c == '\n')
+                    break;
+            }
+            return count;
         }
 
         void done() && {}
-- 
2.43.0


From 80e01379d627917a76d36059fe61eee7bde537b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:41 +0000
Subject: [PATCH 25/46] fix: rule_scanner::recursion_depth() does not compile

---
 include/lexy/dsl/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 652342c..20eab30 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -429,7 +429,7 @@ public:
 
     constexpr std::size_t recursion_depth() const noexcept
     {
-        auto& cb = _context->control_block();
+        auto& cb = *_context->control_block;
         return static_cast<std::size_t>(cb.cur_depth);
     }
 
-- 
2.43.0


From db130e32808ea81121aa196e95187743053255c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:41 +0000
Subject: [PATCH 26/46] fix: scan_result constructor moves from lvalues

---
 include/lexy/dsl/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 20eab30..1a89582 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -52,7 +52,7 @@ public:
     template <typename U = T, typename = std::enable_if_t<std::is_constructible_v<T, U>>>
     constexpr scan_result(U&& value)
     {
-        _value.emplace(LEXY_MOV(value));
+        _value.emplace(LEXY_FWD(value));
     }
 
     constexpr explicit operator bool() const noexcept
-- 
2.43.0


From 7ab852eb1b0b9e173b9177ef9ef3ffb52d5696ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:41 +0000
Subject: [PATCH 27/46] fix: operator tag constructed with state and position
 does not compile

---
 include/lexy/dsl/operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/operator.hpp b/include/lexy/dsl/operator.hpp
index a783c01..fc2f49b 100644
--- a/include/lexy/dsl/operator.hpp
+++ b/include/lexy/dsl/operator.hpp
@@ -122,7 +122,8 @@ struct _op : branch_base
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor_with_state, op_tag_type,
                                                       Reader, Context>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
-                                       op_tag_type(*context.control_block->parse_state, op.pos));
+                                       op_tag_type(*context.control_block->parse_state,
+                                                   op.cur.position()));
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor, op_tag_type, Reader>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
                                        op_tag_type(op.cur.position()));
-- 
2.43.0


From 0b386872edc0755a60532c88119a4c74d058c094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:41 +0000
Subject: [PATCH 28/46] fix: branches report the wrong token kind for derived
 token rules

---
 include/lexy/dsl/capture.hpp | 2 +-
 include/lexy/dsl/integer.hpp | 2 +-
 include/lexy/dsl/symbol.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/capture.hpp b/include/lexy/dsl/capture.hpp
index 82e0d10..bb92159 100644
--- a/include/lexy/dsl/capture.hpp
+++ b/include/lexy/dsl/capture.hpp
@@ -35,7 +35,7 @@ struct _cap : _copy_base<Token>
         {
             auto begin = reader.position();
 
-            context.on(_ev::token{}, Token{}, begin, end.position());
+            context.on(_ev::token{}, typename Token::token_type{}, begin, end.position());
             reader.reset(end);
 
             using continuation = lexy::whitespace_parser<Context, NextParser>;
diff --git a/include/lexy/dsl/integer.hpp b/include/lexy/dsl/integer.hpp
index efa34d1..5c6ac1c 100644
--- a/include/lexy/dsl/integer.hpp
+++ b/include/lexy/dsl/integer.hpp
@@ -432,7 +432,7 @@ struct _int : _copy_base<Token>
         LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
             auto begin = reader.position();
-            context.on(_ev::token{}, Token{}, begin, end.position());
+            context.on(_ev::token{}, typename Token::token_type{}, begin, end.position());
             reader.reset(end);
 
             return _pc<NextParser>::parse(context, reader, begin, end.position(),
diff --git a/include/lexy/dsl/symbol.hpp b/include/lexy/dsl/symbol.hpp
index 2a36c86..ef5144f 100644
--- a/include/lexy/dsl/symbol.hpp
+++ b/include/lexy/dsl/symbol.hpp
@@ -302,7 +302,7 @@ struct _sym : branch_base
         LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
             // We need to consume and report the token.
-            context.on(_ev::token{}, Token{}, reader.position(), end.position());
+            context.on(_ev::token{}, typename Token::token_type{}, reader.position(), end.position());
             reader.reset(end);
 
             // And continue parsing with the symbol value after whitespace skipping.
-- 
2.43.0


From 6baed61eaeee0d2a611cd0e90a7bf170aaeb6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:25 +0000
Subject: [PATCH 29/46] fix: context_counter/flag.value() produces a reference
 to the variable

---
 include/lexy/dsl/context_counter.hpp | 2 +-
 include/lexy/dsl/context_flag.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/context_counter.hpp b/include/lexy/dsl/context_counter.hpp
index 1616871..6ae4c51 100644
--- a/include/lexy/dsl/context_counter.hpp
+++ b/include/lexy/dsl/context_counter.hpp
@@ -153,7 +153,7 @@ struct _ctx_cvalue : rule_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             return NextParser::parse(context, reader, LEXY_FWD(args)...,
-                                     _ctx_counter<Id>::get(context.control_block));
+                                     int(_ctx_counter<Id>::get(context.control_block)));
         }
     };
 };
diff --git a/include/lexy/dsl/context_flag.hpp b/include/lexy/dsl/context_flag.hpp
index b7b9151..7c57466 100644
--- a/include/lexy/dsl/context_flag.hpp
+++ b/include/lexy/dsl/context_flag.hpp
@@ -98,7 +98,7 @@ struct _ctx_fvalue : rule_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             return NextParser::parse(context, reader, LEXY_FWD(args)...,
-                                     _ctx_flag<Id>::get(context.control_block));
+                                     bool(_ctx_flag<Id>::get(context.control_block)));
         }
     };
 };
-- 
2.43.0


From 61d99915dbf26d5a2b2256311d166bb0d6189bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:52 +0000
Subject: [PATCH 30/46] fix: ascii::print/graph SWAR matches EOF of UTF-16/32
 and reads past the buffer

---
 include/lexy/dsl/ascii.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/lexy/dsl/ascii.hpp b/include/lexy/dsl/ascii.hpp
index 5076328..07e45df 100644
--- a/include/lexy/dsl/ascii.hpp
+++ b/include/lexy/dsl/ascii.hpp
@@ -383,13 +383,10 @@ struct _graph : char_class_base<_graph>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
-        // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        // The above check also included the maximal code unit where it overflowed (e.g. 0xFF),
+        // which is the EOF of most encodings, so do a separate check for that.
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0, or space.
         // If we subtract one we turn 0x21-0x01 into column 0 and 0x00 to a value definitely not in
@@ -428,13 +425,10 @@ struct _print : char_class_base<_print>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
-        // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        // The above check also included the maximal code unit where it overflowed (e.g. 0xFF),
+        // which is the EOF of most encodings, so do a separate check for that.
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0.
         constexpr auto mask = lexy::_detail::swar_fill_compl(char_type(0b11111));
-- 
2.43.0


From cabf4dc0b079b8b1bf1cecbbef68f99bda13a413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:54 +0000
Subject: [PATCH 31/46] fix: digits with separator stop at a separator
 following digits skipped using SWAR

---
 include/lexy/dsl/digit.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/lexy/dsl/digit.hpp b/include/lexy/dsl/digit.hpp
index 7a21a9f..b479f45 100644
--- a/include/lexy/dsl/digit.hpp
+++ b/include/lexy/dsl/digit.hpp
@@ -325,6 +325,14 @@ constexpr bool _match_digits_sep(Reader& reader)
     // Might have following digits.
     while (true)
     {
+        // Attempt to consume as many digits as possible.
+        if constexpr (lexy::_detail::is_swar_reader<Reader>)
+        {
+            using char_type = typename Reader::encoding::char_type;
+            while (Base::template swar_matches<char_type>(reader.peek_swar()))
+                reader.bump_swar();
+        }
+
         if (lexy::try_match_token(Sep{}, reader))
         {
             // Need a digit after a separator.
@@ -333,14 +341,6 @@ constexpr bool _match_digits_sep(Reader& reader)
         }
         else
         {
-            // Attempt to consume as many digits as possible.
-            if constexpr (lexy::_detail::is_swar_reader<Reader>)
-            {
-                using char_type = typename Reader::encoding::char_type;
-                while (Base::template swar_matches<char_type>(reader.peek_swar()))
-                    reader.bump_swar();
-            }
-
             if (!lexy::try_match_token(digit<Base>, reader))
                 // If we're not having a digit, we're done.
                 break;
-- 
2.43.0


From c98c3e987d09e84de44b776b1cf507a7355cb41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:24 +0000
Subject: [PATCH 32/46] fix: reserve memory for the child pointer in
 parse_tree::builder::start_container()

A second container started in a production that still has no children allocates
beyond the memory reserved by start_production().
---
 include/lexy/parse_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 2df538e..854b77e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -660,6 +660,10 @@ public:
             //
             // If our parent is another container, its start_container() function took care of it.
             // If our parent already has a child, the first_child pointer is taken care of.
+            //
+            // Note that a previous container without children might have used up the memory
+            // reserved for it already.
+            _result._buffer.reserve(sizeof(_detail::pt_node<Reader>*));
             _result._buffer.template allocate<_detail::pt_node<Reader>*>(nullptr);
         }
 
-- 
2.43.0


From 59dc0d673307793b339400a7ecebddc2d654f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:08 +0000
Subject: [PATCH 33/46] fix: unwinding a parse_tree::builder to the end of a
 full block does not destroy the block

pt_buffer::unwind() treated a position at the end of the current block as one in
a previous block, so cancel_container() made live nodes available for reuse.
---
 include/lexy/parse_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 854b77e..2fde249 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -301,7 +301,8 @@ public:
         // Note: this is not guaranteed to work by the standard;
         // We'd have to go through std::less instead.
         // However, on all implementations I care about, std::less just does < anyway.
-        if (_cur_block->memory <= pos && pos < _cur_block->end())
+        // The position can be the end of the block if it was completely full.
+        if (_cur_block->memory <= pos && pos <= _cur_block->end())
             // We're still in the same block, just reset position.
             _cur_pos = pos;
         else
-- 
2.43.0


From ddf1157e4d8c151ab266716c2f3b5877e3839d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:03 +0000
Subject: [PATCH 34/46] fix: cancelling a transparent production restores a
 preceding error token it has extended

---
 include/lexy/parse_tree.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 2fde249..f8ff406 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -450,12 +450,14 @@ public:
         std::size_t start_size;
         // The size of the tree when a transparent production was started.
         std::size_t transparent_size;
+        // If the last child was an error token when a transparent production was started, its end.
+        typename Reader::iterator transparent_error_end;
 
         explicit marker(void* unwind_pos, std::size_t cur_depth, std::size_t start_size,
                         _detail::pt_node_production<Reader>* prod = nullptr)
         : unwind_pos(unwind_pos), prod(prod), child_count(0), first_child(nullptr),
           last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth),
-          start_size(start_size), transparent_size(start_size)
+          start_size(start_size), transparent_size(start_size), transparent_error_end()
         {}
 
         void clear()
@@ -465,6 +467,12 @@ public:
             child_count = 0;
         }
 
+        auto last_error_token() const
+        {
+            auto token = last_child ? last_child->as_token() : nullptr;
+            return token && token->kind == lexy::error_token_kind ? token : nullptr;
+        }
+
         void insert(_detail::pt_node<Reader>* child)
         {
             if (first_child == nullptr)
@@ -597,6 +605,8 @@ public:
             // Don't need to add a new node for a transparent production.
             auto result             = _cur;
             result.transparent_size = _result._size;
+            if (auto token = result.last_error_token())
+                result.transparent_error_end = token->end();
             return result;
         }
 
@@ -640,6 +650,9 @@ public:
             // There is no node to remove, but we need to remove all children it has added.
             _result._size = m.transparent_size;
             _cur          = LEXY_MOV(m);
+            // It might also have extended a preceding error token.
+            if (auto token = _cur.last_error_token())
+                token->update_end(_cur.transparent_error_end);
             return;
         }
 
@@ -750,11 +763,10 @@ public:
         auto kind = token_kind<TokenKind>::to_raw(_kind);
 
         // We merge error tokens.
-        if (kind == lexy::error_token_kind && _cur.last_child && _cur.last_child->as_token()
-            && _cur.last_child->as_token()->kind == lexy::error_token_kind)
+        if (auto last = _cur.last_error_token(); kind == lexy::error_token_kind && last)
         {
             // No need to allocate a new node, just extend the previous node.
-            _cur.last_child->as_token()->update_end(end);
+            last->update_end(end);
         }
         else
         {
-- 
2.43.0


From 3aae289b83dd70e1ebb13345286e989d7fca3a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:37 +0000
Subject: [PATCH 35/46] fix: simple Unicode case folding does not stop at
 malformed code units

---
 include/lexy/dsl/case_folding.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c144366..165983f 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -215,9 +215,13 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
         }
         else
         {
-            // Fill the buffer with the partial code point.
+            // Fill the buffer with the partial code point,
+            // which is at least one code unit unless we've reached EOF.
+            auto end = _impl;
+            lexy::_detail::recover_code_point(end, result);
+
             _buffer_cur = _buffer_size = 0;
-            while (_impl.position() != result.end.position())
+            while (_impl.position() != end.position())
             {
                 _buffer[_buffer_size] = static_cast<typename encoding::char_type>(_impl.peek());
                 ++_buffer_size;
-- 
2.43.0


From d8d2ebdbd4fb4b9d2a6030d217a3432a125c3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:04 +0000
Subject: [PATCH 36/46] fix: integer does not report overflow because of
 non-digits after the last digit

Trailing code units that are not digits, like the separator in the recovered
input 255_ or the suffix matched by a user-defined token, were counted as an
additional digit once the maximal digit count was reached.
---
 include/lexy/dsl/integer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexy/dsl/integer.hpp b/include/lexy/dsl/integer.hpp
index 5c6ac1c..2a9b597 100644
--- a/include/lexy/dsl/integer.hpp
+++ b/include/lexy/dsl/integer.hpp
@@ -338,6 +338,12 @@ struct _bounded_integer_parser
 
         // If we've reached this point, we've parsed the maximal number of digits allowed.
         // Now we can only overflow if there are still digits left.
+        if constexpr (!AssumeOnlyDigits)
+        {
+            // Skip everything that isn't a digit.
+            while (cur != end && Base::digit_value(*cur) >= Base::digit_radix)
+                ++cur;
+        }
         return {value, cur != end};
     }
 };
-- 
2.43.0


From 2754a1a9faa5358de10bc17231bc5b4690343fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:51 +0000
Subject: [PATCH 37/46] fix: integer of an unbounded type accepts n_digits

It asked for the maximal digit count, which only bounded types have.
---
 include/lexy/dsl/integer.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/lexy/dsl/integer.hpp b/include/lexy/dsl/integer.hpp
index 2a9b597..e950b20 100644
--- a/include/lexy/dsl/integer.hpp
+++ b/include/lexy/dsl/integer.hpp
@@ -227,11 +227,18 @@ constexpr bool _is_bounded = lexy::integer_traits<T>::is_bounded;
 template <typename T, std::size_t N, int Radix>
 constexpr bool _ndigits_can_overflow()
 {
-    using traits         = lexy::integer_traits<T>;
-    auto max_digit_count = traits::template max_digit_count<Radix>;
-    // We don't know whether the maximal value is a power of Radix,
-    // so we have to be conservative and don't rule out overflow on the same count.
-    return N >= max_digit_count;
+    using traits = lexy::integer_traits<T>;
+    if constexpr (traits::is_bounded)
+    {
+        auto max_digit_count = traits::template max_digit_count<Radix>;
+        // We don't know whether the maximal value is a power of Radix,
+        // so we have to be conservative and don't rule out overflow on the same count.
+        return N >= max_digit_count;
+    }
+    else
+    {
+        return false;
+    }
 }
 
 // Parses T in the Base without checking for overflow.
-- 
2.43.0


From 3bef0e49b366d183de3b2bece31bf2d9b3506873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:53 +0000
Subject: [PATCH 38/46] fix: infix_op_list calls the sink without arguments for
 the first operator without a tag

---
 include/lexy/dsl/expression.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/expression.hpp b/include/lexy/dsl/expression.hpp
index 75bf05c..b1e1188 100644
--- a/include/lexy/dsl/expression.hpp
+++ b/include/lexy/dsl/expression.hpp
@@ -287,8 +287,9 @@ struct _expr : rule_base
                         sink(*LEXY_MOV(context.value));
                     context.value = {};
 
-                    // As well as the operator we've already got.
-                    sink(LEXY_FWD(op_args)...);
+                    // As well as the operator we've already got, if it produces any values.
+                    if constexpr (sizeof...(Args) > 0)
+                        sink(LEXY_FWD(op_args)...);
 
                     auto result = true;
                     while (true)
-- 
2.43.0


From 0e421c60cee8094263eab2da13bb2eebced36288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:58 +0000
Subject: [PATCH 39/46] fix: make_buffer_from_raw does not access memory that
 isn't aligned for the character type

---
 include/lexy/input/buffer.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 0bc4cb0..f05566a 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -349,10 +349,12 @@ struct _make_buffer
         if constexpr (sizeof(char_type) == 1 || Endian == native_endianness)
         {
             // No need to deal with endianness at all.
-            // The reinterpret_cast is technically UB, as we didn't create objects in memory,
-            // but until std::start_lifetime_as is added, there is nothing we can do.
-            return buffer<Encoding, MemoryResource>(reinterpret_cast<const char_type*>(memory),
-                                                    size / sizeof(char_type), resource);
+            // Note that memory isn't necessarily aligned for char_type, so copy the bytes.
+            typename buffer<Encoding, MemoryResource>::builder builder(size / sizeof(char_type),
+                                                                       resource);
+            if (builder.size() > 0)
+                std::memcpy(builder.data(), memory, builder.size() * sizeof(char_type));
+            return LEXY_MOV(builder).finish();
         }
         else
         {
-- 
2.43.0


From e9042ff5e33525108bed80d58de497c4f596ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:58 +0000
Subject: [PATCH 40/46] fix: default_prompt does not truncate messages at null
 characters

---
 include/lexy_ext/shell.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 53cb56a..947fc30 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -130,7 +130,7 @@ struct default_prompt
 
         void operator()(const char_type* buffer, std::size_t size)
         {
-            std::fprintf(stdout, "%.*s", int(size), reinterpret_cast<const char*>(buffer));
+            std::fwrite(buffer, sizeof(char_type), size, stdout);
             if (size > 0)
                 _last_was_newline = buffer[size - 1] == '\n';
         }
-- 
2.43.0


From c576497aefaa906160913615c0541de1474c5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:58 +0000
Subject: [PATCH 41/46] fix: shell::writer writes lexemes

lexeme::size() does not compile as the iterator isn't random access,
and an empty lexeme might be at the end of the input, where the iterator must not be dereferenced.
---
 include/lexy_ext/shell.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 947fc30..91a23ae 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -338,9 +338,13 @@ public:
 
         writer& operator()(lexy::lexeme_for<input> lexeme)
         {
+            // An empty lexeme might be at the end of the input, so don't dereference it.
+            if (lexeme.empty())
+                return *this;
+
             // We know that the iterator is contiguous.
             auto data = &*lexeme.begin();
-            _writer(data, lexeme.size());
+            _writer(data, lexy::_detail::range_size(lexeme.begin(), lexeme.end()));
             return *this;
         }
 
-- 
2.43.0


From 778d8380bb36fd9daccacd214f7bf973d54b25da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 42/46] fix: list recovery cancels an item only if its branch
 wasn't taken

Otherwise, a choice cancels the branch already finished and branches it hasn't tried.
---
 include/lexy/dsl/list.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/lexy/dsl/list.hpp b/include/lexy/dsl/list.hpp
index f2f6885..ee8e098 100644
--- a/include/lexy/dsl/list.hpp
+++ b/include/lexy/dsl/list.hpp
@@ -223,8 +223,14 @@ struct _lstt : rule_base
                         if constexpr (lexy::is_branch_rule<Item>)
                         {
                             lexy::branch_parser_for<Item, Reader> item{};
-                            if (item.try_parse(context.control_block, reader)
-                                && item.template finish<lexy::sink_parser>(context, reader, sink))
+                            if (!item.try_parse(context.control_block, reader))
+                            {
+                                // Not an item, recover.
+                                item.cancel(context);
+                                state = _state::recovery;
+                                break;
+                            }
+                            else if (item.template finish<lexy::sink_parser>(context, reader, sink))
                             {
                                 // Continue after an item has been parsed.
                                 state = _state::terminator;
@@ -232,8 +238,7 @@ struct _lstt : rule_base
                             }
                             else
                             {
-                                // Not an item, recover.
-                                item.cancel(context);
+                                // Need to recover from this.
                                 state = _state::recovery;
                                 break;
                             }
-- 
2.43.0


From 72c301a026bd770bb389537e54515311f4ef0551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:49 +0000
Subject: [PATCH 43/46] fix: lexy::callback(sink) returned a dangling reference

The adapter's call operator used the exact type of the sink's finish(), which is
an rvalue reference into the local sink for the container, string and aggregate
sinks.
---
 include/lexy/callback/adapter.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexy/callback/adapter.hpp b/include/lexy/callback/adapter.hpp
index 803b6db..60b2457 100644
--- a/include/lexy/callback/adapter.hpp
+++ b/include/lexy/callback/adapter.hpp
@@ -84,8 +84,9 @@ struct _cb_from_sink
     using return_type = typename _cb::return_type;
 
     template <typename... Args>
-    constexpr auto operator()(Args&&... args) const -> decltype((LEXY_DECLVAL(_cb&)(LEXY_FWD(args)),
-                                                                 ..., LEXY_DECLVAL(_cb&&).finish()))
+    constexpr auto operator()(Args&&... args) const
+        -> LEXY_DECAY_DECLTYPE((LEXY_DECLVAL(_cb&)(LEXY_FWD(args)), ...,
+                                LEXY_DECLVAL(_cb&&).finish()))
     {
         auto cb = _sink.sink();
         (cb(LEXY_FWD(args)), ...);
-- 
2.43.0


From 677172fcab110f0037f832980cfb0c748de56b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:58 +0000
Subject: [PATCH 44/46] fix: show non-ASCII bytes when visualizing an ASCII
 lexeme

They were dropped from the output.
---
 include/lexy/visualize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index f334821..c6573ce 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -396,7 +396,8 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
                 {
                     if constexpr (std::is_same_v<encoding,
                                                  lexy::utf8_encoding> //
-                                  || std::is_same_v<encoding, lexy::utf8_char_encoding>)
+                                  || std::is_same_v<encoding, lexy::utf8_char_encoding>
+                                  || std::is_same_v<encoding, lexy::ascii_encoding>)
                     {
                         out = write_escaped_byte(out, static_cast<unsigned char>(*cur & 0xFF));
                     }
-- 
2.43.0


From 8c3fbf5d20e109d2cdaee5a58dc13d1afbad5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:58 +0000
Subject: [PATCH 45/46] fix: make the buffer for the location in a trace big
 enough

Line and column together can have more than 15 digits' worth of characters.
---
 include/lexy/action/trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 540f72d..ba9675d 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -266,7 +266,7 @@ private:
             *_out++ = '\n';
 
         _out = _detail::write_color<_detail::color::faint>(_out, _opts);
-        _out = _detail::write_format(_out, "%2u:%3u", loc.line_nr(), loc.column_nr());
+        _out = _detail::write_format<32>(_out, "%2u:%3u", loc.line_nr(), loc.column_nr());
         _out = _detail::write_str(_out, ": ");
         _out = _detail::write_color<_detail::color::reset>(_out, _opts);
 
-- 
2.43.0


From 9036b2d8722ba8eb589859c369cf0d191e551ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:13 +0000
Subject: [PATCH 46/46] fix: use the names of the token kinds in a trace

The trace action ignored its TokenKind, and showed all tokens of that kind as 'token'.
---
 include/lexy/action/trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index ba9675d..aacbb95 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -441,7 +441,7 @@ struct trace_action
     visualization_options _opts;
     State*                _state = nullptr;
 
-    using handler = _th<OutputIt, Input>;
+    using handler = _th<OutputIt, Input, TokenKind>;
     using state   = State;
     using input   = Input;
 
-- 
2.43.0

