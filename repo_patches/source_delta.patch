From 23412e2149e514527758f87ff4e4d02696514589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 01/24] fix: keep merged ranges in the union of two character
 classes

---
 src/core/CharClass.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index d42fa14..5745375 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -137,13 +137,13 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
     {
         if (ri < rj)
         {
-            new_class.m_ranges.push_back(ri);
+            new_class.append(ri);
             if (++i != m_ranges.cend())
                 ri = *i;
         }
         else if (ri > rj)
         {
-            new_class.m_ranges.push_back(rj);
+            new_class.append(rj);
             if (++j != cc.m_ranges.cend())
                 rj = *j;
         }
@@ -164,8 +164,19 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
         }
     }
 
-    new_class.m_ranges.insert(new_class.m_ranges.end(), i, m_ranges.cend());
-    new_class.m_ranges.insert(new_class.m_ranges.end(), j, cc.m_ranges.cend());
+    //ri and rj may have been extended by merging
+    while (i != m_ranges.cend())
+    {
+        new_class.append(ri);
+        if (++i != m_ranges.cend())
+            ri = *i;
+    }
+    while (j != cc.m_ranges.cend())
+    {
+        new_class.append(rj);
+        if (++j != cc.m_ranges.cend())
+            rj = *j;
+    }
 
     return new_class;
 }
-- 
2.43.0


From 45a72b503f580fc0f1e6dd1056119e0f7176232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 02/24] fix: complement of a character class that contains NUL

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index b7bccd8..4648bbd 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -171,7 +171,7 @@ public:
 
 		if (i != m_ranges.cend())
 		{
-			if (i->start() == 1)
+			if (i->start() <= 1)
 			{
 				last_end = i->end();
 				i++;
-- 
2.43.0


From 3dfc6786ff911729b5c211372d96dba5e0695afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 03/24] fix: keep ranges sorted and merged when adding a range
 to a character class

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 4648bbd..fbf1f7e 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -195,7 +195,7 @@ public:
 
         auto i = m_ranges.cbegin();
 
-        for (; i != m_ranges.cend() && !i->overlaps(r); i++)
+        for (; i != m_ranges.cend() && i->end() < r.start(); i++)
             ;
         
         cc.m_ranges.insert(cc.m_ranges.end(), m_ranges.cbegin(), i);
-- 
2.43.0


From 2d8ef01792b49d41d155cc0fb0d5b13755e011aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 04/24] fix: deliver CRLF as one line feed so line comments end
 at CRLF

---
 src/core/Stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 36450ad..9d3f913 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -97,6 +97,7 @@ public:
                     m_newline_flag = true;
                     m_pos++;
                     m_cur++;
+                    return L'\n';
                 }
             }
             else if (ch == L'\n' || ch == L'\u0085' || ch == L'\u2028' || ch == L'\u2029')
-- 
2.43.0


From 8affaa30739df141a606f962f270378ee92858bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 05/24] fix: an optional group ending in a loop must not let
 the skip re-enter the loop

---
 src/core/NFA.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 3f801bb..8d6f7d8 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -567,15 +567,21 @@ public:
             {
             case L'?':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             case L'*':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             default:
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
-- 
2.43.0


From 502f54552372fa4dfb427a26de61d8cd67e3f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 06/24] fix: the any-character class must not match the NUL
 terminator

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index fbf1f7e..5d6e4f0 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -156,7 +156,7 @@ public:
     }
     static CharClass<TCHAR> make_star()
     {
-        return CharClass<TCHAR>(0, std::numeric_limits<TCHAR>::max());
+        return CharClass<TCHAR>(1, std::numeric_limits<TCHAR>::max());
     }
     bool is_epsilon() const
     {
-- 
2.43.0


From ca3b778791ad7af498bd3a3717a150dceb8cc5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 07/24] fix: terminate on epsilon cycles when closing or
 running an automaton

---
 src/core/NFA.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 8d6f7d8..1ea086d 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -635,7 +635,7 @@ public:
     bool epsilon_closure_sub(std::set<int>& closure, int index) const
     {
         //Always include myself
-        closure.insert(index);
+        if (!closure.insert(index).second) return false;
 
         bool long_flag = false;
         IndexVector et = m_states[index].epsilon_transitions(long_flag);
@@ -673,27 +673,25 @@ public:
      */
     bool run(const std::basic_string<TCHAR>& seq, int index = 0, int input_pos = 0) const
     {
-        if (index == m_states.size() - 1 && seq.size() == input_pos)
-        {
-            return true;
-        }
-        else
+        bool long_flag = false;
+        std::set<int> current = epsilon_closure(index, long_flag);
+
+        for (size_t pos = input_pos; pos < seq.size(); pos++)
         {
-            for (const auto& tr : get_transitions(index))
+            std::set<int> departed;
+            for (int i : current)
             {
-                if (tr.is_epsilon())
-                {
-                    if (run(seq, tr.dest(), input_pos))
-                        return true;
-                }
-                else if (tr.label().includes(seq[input_pos]))
+                for (const auto& tr : get_transitions(i))
                 {
-                    if (run(seq, tr.dest(), input_pos + 1))
-                        return true;
+                    if (!tr.is_epsilon() && tr.label().includes(seq[pos]))
+                    {
+                        departed.insert(tr.dest());
+                    }
                 }
             }
-            return false;
+            current = epsilon_closure(departed, long_flag);
         }
+        return current.count(m_states.size() - 1) > 0;
     }
     /*!
     * @brief Add a transition to a new state from the final state.
-- 
2.43.0


From 8e896ab5784d564018cd7b9cc7e7a0b68eafe81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 08/24] fix: never merge accepting and non-accepting states
 when minimising

---
 src/core/DFA.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index 1124e3b..0112deb 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -18,7 +18,6 @@ public:
 	using NFABaseState<TCHAR, IndexVector>::get_transitions;
 	using NFABaseState<TCHAR, IndexVector>::m_transitions;
     using NFABaseState<TCHAR, IndexVector>::hash;
-    using NFABaseState<TCHAR, IndexVector>::operator==;
     using NFABaseState<TCHAR, IndexVector>::sort;
 	DFAState(const IndexVector& label, bool long_flag = false)
 		: NFABaseState<TCHAR, IndexVector>(label), m_long(long_flag), m_accept(false) {}
@@ -53,6 +52,10 @@ public:
 	{
 		return m_accept;
 	}
+    bool operator==(const DFAState<TCHAR>& s) const
+    {
+        return m_accept == s.m_accept && NFABaseState<TCHAR, IndexVector>::operator==(s);
+    }
 };
 
 template<typename TCHAR> class DFA : public NFABase<DFAState<TCHAR> >
-- 
2.43.0


From e10d35ae04eab04b12fdf383601557c2adec311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 09/24] fix: keep the ranks of ordered alternatives when
 optimising a rule network

---
 src/core/ATN.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index b614473..c91488e 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -209,6 +209,28 @@ public:
     {
         return m_type == ATNNodeType::Nonterminal;
     }
+    /*!
+     * @brief Tests if the outbound transitions differ in priority
+     */
+    bool is_ranked() const
+    {
+        for (const auto& t : m_transitions)
+        {
+            if (t.tag() != m_transitions.front().tag()) return true;
+        }
+        return false;
+    }
+    /*!
+     * @brief Get the tag of the transition to the specified node
+     */
+    int find_tag(int dest) const
+    {
+        for (const auto& t : m_transitions)
+        {
+            if (t.dest() == dest) return t.tag();
+        }
+        return 0;
+    }
     bool is_blank() const
     {
         return m_type == ATNNodeType::Blank;
@@ -372,13 +394,15 @@ public:
                 int where = -1;
                 int count = count_incoming_edges(i, where);
 
-                if (count == 1)
+                //A node that ranks its alternatives is a decision point of its own
+                if (count == 1 && !node.is_ranked())
                 {
                     assert(where >= 0);
                     ATNNode<TCHAR>& origin = m_nodes.at(where);
+                    int tag = origin.find_tag(i);
                     for (const auto& t : node.get_transitions())
                     {
-                        origin.add_transition(t);
+                        origin.add_transition(t.dest(), tag);
                     }
                     mask[i] = false;
                 }
-- 
2.43.0


From 7cb8e9c5b62ce9e2f1007d9efee5161958d776f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 10/24] fix: do not look at the top of an empty tag or value
 stack when a rule is reduced

---
 src/core/Stage2RunnerNonRecursive.hpp | 4 ++--
 src/core/Stage3RunnerNonRecursive.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index c40bcf5..abd68c1 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -55,7 +55,7 @@ protected:
   static void push_value(const semantic_value_type val, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
     if (val == 0) return;
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + 1);
     } else {
       tags.emplace_back(detail::StackEntryTag::VALUE);
@@ -80,7 +80,7 @@ protected:
 #if PYCENTAURUS
     auto new_val = m_listener(&sym, values.data(), value_count, m_listener_context);
 #else
-    auto new_val = m_listener(&sym, &values[values.size() - value_count], value_count, m_listener_context);
+    auto new_val = m_listener(&sym, values.data() + (values.size() - value_count), value_count, m_listener_context);
     values.resize(values.size() - value_count);
 #endif
     if (reduction_counter != nullptr) {
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index dbfb854..956fe0f 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -118,7 +118,7 @@ private:
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + n);
     } else {
       tags.emplace_back(static_cast<detail::StackEntryTag>(n));
-- 
2.43.0


From be6a33b00872da5deee64869d2adbaefb8b0bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 11/24] fix: give the banks of the Python binding room for
 their reduced form

---
 src/core/BaseRunner.hpp               | 13 ++++++++++++-
 src/core/Stage1Runner.hpp             |  4 ++--
 src/core/Stage2Runner.hpp             |  2 +-
 src/core/Stage2RunnerNonRecursive.hpp |  4 ++--
 src/core/Stage3Runner.hpp             |  2 +-
 src/core/Stage3RunnerNonRecursive.hpp |  2 +-
 6 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 27b5f31..18a96b4 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -165,9 +165,20 @@ public:
 #endif
 	}
 public:
+	// Distance between two banks in the main window.
+	// Stage 2 of the Python binding serializes the reduced bank back in place; this takes one word per
+	// unmatched marker and half a word per tag, so it may need more room than the trace did.
+	size_t get_bank_stride() const
+	{
+#if PYCENTAURUS
+		return 2 * m_bank_size + 64;
+#else
+		return m_bank_size;
+#endif
+	}
 	size_t get_main_window_size() const
 	{
-		return ALIGN_NEXT(m_bank_size, IPC_PAGESIZE) * m_bank_num;
+		return ALIGN_NEXT(get_bank_stride(), IPC_PAGESIZE) * m_bank_num;
 	}
 	size_t get_sub_window_size() const
 	{
diff --git a/src/core/Stage1Runner.hpp b/src/core/Stage1Runner.hpp
index d092600..b298243 100644
--- a/src/core/Stage1Runner.hpp
+++ b/src/core/Stage1Runner.hpp
@@ -39,7 +39,7 @@ private:
         WindowBankState old_state = WindowBankState::Free;
         if (banks[i].state.compare_exchange_weak(old_state, WindowBankState::Stage1_Locked)) {
           m_current_bank = i;
-          return (char *)m_main_window + m_bank_size * i;
+          return (char *)m_main_window + get_bank_stride() * i;
         }
       }
     }
@@ -49,7 +49,7 @@ private:
     if (m_current_bank != -1) {
       if (is_result_captured) {
         auto chunk_ptr = new char[m_bank_size];
-        std::memcpy(chunk_ptr, static_cast<char*>(m_main_window) + m_bank_size * m_current_bank, m_bank_size);
+        std::memcpy(chunk_ptr, static_cast<char*>(m_main_window) + get_bank_stride() * m_current_bank, m_bank_size);
         result_chunks_.emplace_back(reinterpret_cast<CSTMarker*>(chunk_ptr), m_bank_size / 8);
       }
       WindowBankEntry *banks = (WindowBankEntry *)m_sub_window;
diff --git a/src/core/Stage2Runner.hpp b/src/core/Stage2Runner.hpp
index 68fcc7f..6aeb859 100644
--- a/src/core/Stage2Runner.hpp
+++ b/src/core/Stage2Runner.hpp
@@ -101,7 +101,7 @@ private:
           if (m_xferlistener != nullptr)
             m_xferlistener(-1, banks[i].number, m_listener_context);
           m_current_bank = i;
-          return (char *)m_main_window + m_bank_size * i;
+          return (char *)m_main_window + get_bank_stride() * i;
         } else {
           if (old_state == WindowBankState::YouAreDone) {
             return NULL;
diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index abd68c1..c7fd321 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -170,7 +170,7 @@ private:
     it += values.size();
     *it++ = tags.size();
     std::memcpy(it, tags.data(), tags.size()*sizeof(detail::StackEntryTag));
-    assert(reinterpret_cast<uint64_t*>(reinterpret_cast<detail::StackEntryTag*>(it) + tags.size()) < src + m_bank_size / 8);
+    assert(reinterpret_cast<uint64_t*>(reinterpret_cast<detail::StackEntryTag*>(it) + tags.size()) <= src + get_bank_stride() / 8);
 #else
     *src = reinterpret_cast<uint64_t>(ptr);
 #endif
@@ -186,7 +186,7 @@ private:
         if (banks[i].state.compare_exchange_weak(old_state, WindowBankState::Stage2_Locked)) {
           invoke_transfer_listener(-1, banks[i].number);
           m_current_bank = i;
-          return (char *)m_main_window + m_bank_size * i;
+          return (char *)m_main_window + get_bank_stride() * i;
         } else {
           if (old_state == WindowBankState::YouAreDone) {
             return NULL;
diff --git a/src/core/Stage3Runner.hpp b/src/core/Stage3Runner.hpp
index 3e70758..c8dcea3 100644
--- a/src/core/Stage3Runner.hpp
+++ b/src/core/Stage3Runner.hpp
@@ -94,7 +94,7 @@ private:
 
             m_current_bank = i;
             m_counter++;
-            return (char *)m_main_window + m_bank_size * i;
+            return (char *)m_main_window + get_bank_stride() * i;
           }
         } else if (banks[i].state == WindowBankState::YouAreDone) {
           return NULL;
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index 956fe0f..6c3d55d 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -144,7 +144,7 @@ private:
             //std::cout << "Bank " << banks[i].number << " reached Stage3" << std::endl;
             m_current_bank = i;
             m_counter++;
-            return (char *)m_main_window + m_bank_size * i;
+            return (char *)m_main_window + get_bank_stride() * i;
           }
         } else if (banks[i].state == WindowBankState::YouAreDone) {
           return NULL;
-- 
2.43.0


From 4c0f44b9d2b5ce4f0a340da046e98f0374f55e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 12/24] fix: initialise the local id of parsed ATN nodes

---
 src/core/ATN.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index c91488e..f486b94 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -101,6 +101,7 @@ public:
     {
     }
     ATNNode(Stream& stream)
+        : m_localid(-1)
     {
         parse(stream);
     }
-- 
2.43.0


From 0ab2455a71015c804289ce9366329f6450cd9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 13/24] fix: reject an unterminated include path instead of
 looping for ever

---
 src/core/Grammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 844c782..fd431dc 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -97,6 +97,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             for (ch = stream.get(); ch != L'"'; ch = stream.get())
             {
+                if (ch == L'\0')
+                    throw stream.unexpected(ch);
+
                 wide_path.push_back(ch);
             }
 
-- 
2.43.0


From ac554f0ae64df40d3a01d1b83c28bf706a9902fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:47 +0000
Subject: [PATCH 14/24] fix: keep rule numbers dense when a rule is defined
 twice

---
 src/core/Grammar.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index fd431dc..830046d 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -114,14 +114,18 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         }
         else
         {
-            ATNMachine<TCHAR> atn(machine_id++, stream);
+            ATNMachine<TCHAR> atn(machine_id, stream);
 
             if (m_root_id.str().empty())
                 m_root_id = id;
 
-            m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn)));
+            // The first definition of a rule prevails; only rules that are kept are numbered
+            if (m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn))).second)
+            {
+                m_identifiers.push_back(id);
 
-            m_identifiers.push_back(id);
+                machine_id++;
+            }
         }
 
         //m_networks.emplace(Identifier(stream), ATN<TCHAR>(stream));
-- 
2.43.0


From 7cd3c121375b5339e3793fe33fa6e7619e4440a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 15/24] fix: moving a grammar keeps its rule names

---
 src/core/Grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index a339855..1ddae50 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -71,7 +71,7 @@ public:
         optimize();
     }
     Grammar(Grammar&& old)
-        : m_networks(std::move(old.m_networks)), m_root_id(old.m_root_id)
+        : m_networks(std::move(old.m_networks)), m_identifiers(std::move(old.m_identifiers)), m_root_id(old.m_root_id), m_grammar_name(old.m_grammar_name), m_options(old.m_options)
     {
     }
     virtual ~Grammar()
-- 
2.43.0


From 460c8ea3ce6c876d47afaa89c10cc19f9ecf3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 16/24] fix: limit the number of rules to what a marker can
 hold

---
 src/core/Grammar.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 830046d..fe4352f 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -56,8 +56,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         if (ch == L'\0')
             break;
 
-        if (machine_id >= 65536)
-            throw stream.toomany(65535);
+        // Rule numbers occupy 15 bits in the markers of a parse
+        if (machine_id >= 32768)
+            throw stream.toomany(32767);
 
         Identifier id(stream);
 
-- 
2.43.0


From e02ca52bef6b56ce4321c68436583b38da37e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 17/24] fix: reject grammars that include themselves

---
 src/core/Grammar.cpp | 14 ++++++++++----
 src/core/Grammar.hpp |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index fe4352f..cf2163d 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -4,6 +4,8 @@
 
 namespace
 {
+const int MAX_INCLUDE_DEPTH = 64;
+
 std::string make_include_path(const std::string& base_path, const std::string& dest_path)
 {
     size_t last_slash_pos = base_path.find_last_of('/');
@@ -41,8 +43,12 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
     ldfa.print(os, path.leaf_id().str());
 }
 template<typename TCHAR>
-int Grammar<TCHAR>::parse(const char *filename, int machine_id)
+int Grammar<TCHAR>::parse(const char *filename, int machine_id, int depth)
 {
+    // A file that includes itself, directly or not, would be read for ever
+    if (depth > MAX_INCLUDE_DEPTH)
+        throw SimpleException("Includes are nested too deeply");
+
     std::wifstream grammar_file(filename, std::ios::in);
 
     std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
@@ -111,7 +117,7 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             Encoder enc{};
 
-            machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id);
+            machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id, depth + 1);
         }
         else
         {
@@ -134,9 +140,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
     return machine_id;
 }
 template<typename TCHAR>
-int Grammar<TCHAR>::parse(const std::string& filename, int machine_id)
+int Grammar<TCHAR>::parse(const std::string& filename, int machine_id, int depth)
 {
-    return parse(filename.c_str(), machine_id);
+    return parse(filename.c_str(), machine_id, depth);
 }
 template<typename TCHAR>
 bool Grammar<TCHAR>::verify() const
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index 1ddae50..6611e64 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -54,8 +54,8 @@ template<typename TCHAR> class Grammar : public IGrammar
 	Identifier m_grammar_name;
     GrammarOptions m_options;
 public:
-    int parse(const char *filename, int machine_id = 1);
-    int parse(const std::string& filename, int machine_id = 1);
+    int parse(const char *filename, int machine_id = 1, int depth = 0);
+    int parse(const std::string& filename, int machine_id = 1, int depth = 0);
     const ATNNode<TCHAR>& resolve(const ATNPath& path) const
     {
         return m_networks.at(path.leaf_id()).get_node(path.leaf_index());
-- 
2.43.0


From 783296b1dc2e225e339423875308b191b26bd8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 18/24] fix: vectorized matchers skip every self-loop of a
 state

---
 src/core/CodeGenEM64T.cpp | 43 +++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 677585d..334219c 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -585,28 +585,37 @@ void DFARoutineEM64T<TCHAR>::emit_state(asmjit::X86Assembler& as, asmjit::Label&
 {
     std::vector<NFATransition<TCHAR> > transitions(state.get_transitions());
 
-    for (auto i = transitions.begin(); i != transitions.end();)
+    //All the transitions to the state itself have to be skipped by the same loop
+    CharClass<TCHAR> loop_filter;
+    for (const auto& tr : transitions)
     {
-        if (i->dest() == index && state.is_long())
-        {
-            pool.load_charclass_filter(PATTERN2_REG, i->label());
+        if (tr.dest() == index)
+            loop_filter |= tr.label();
+    }
 
-            asmjit::Label looplabel = as.newLabel();
+    //The loop can only be vectorized if the filter fits into a register
+    if (state.is_long() && loop_filter && loop_filter.size() <= 8 / sizeof(TCHAR))
+    {
+        pool.load_charclass_filter(PATTERN2_REG, loop_filter);
 
-            as.bind(looplabel);
+        asmjit::Label looplabel = as.newLabel();
 
-            as.movdqu(LOAD_REG, asmjit::X86Mem(INPUT_REG, 0));
-            as.pcmpistri(PATTERN2_REG, LOAD_REG, asmjit::Imm(sizeof(TCHAR) == 1 ? 0x14 : 0x15));
-            if (sizeof(TCHAR) == 2)
-                as.sal(INDEX_REG, 1);
-            as.add(INPUT_REG, INDEX_REG);
-            as.cmp(INDEX_REG, 15);
-            as.jg(looplabel);
-            i = transitions.erase(i);
-        }
-        else
+        as.bind(looplabel);
+
+        as.movdqu(LOAD_REG, asmjit::X86Mem(INPUT_REG, 0));
+        as.pcmpistri(PATTERN2_REG, LOAD_REG, asmjit::Imm(sizeof(TCHAR) == 1 ? 0x14 : 0x15));
+        if (sizeof(TCHAR) == 2)
+            as.sal(INDEX_REG, 1);
+        as.add(INPUT_REG, INDEX_REG);
+        as.cmp(INDEX_REG, 15);
+        as.jg(looplabel);
+
+        for (auto i = transitions.begin(); i != transitions.end();)
         {
-            i++;
+            if (i->dest() == index)
+                i = transitions.erase(i);
+            else
+                i++;
         }
     }
 
-- 
2.43.0


From 63cebf89884671c807dce3d2468d4f87e4a951a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 19/24] fix: align the stack for calls out of generated code

---
 src/core/CodeGenEM64T.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 334219c..0e8ceab 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -265,7 +265,9 @@ void ChaserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const Grammar<TC
 		case ATNNodeType::Nonterminal:
             as.push(CONTEXT_REG);
 			as.push(STACK_BACKUP_REG);
+            as.sub(asmjit::x86::rsp, 8); //Keep the stack aligned
             call_abs(as, request_nonterminal, CONTEXT_REG, grammar.get_machine_id(node.get_invoke()), INPUT_REG);
+            as.add(asmjit::x86::rsp, 8);
 			as.pop(STACK_BACKUP_REG);
 			as.pop(CONTEXT_REG);
             as.mov(INPUT_REG, asmjit::x86::rax);
@@ -414,6 +416,9 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
+        //The stack depth varies with the nesting of the rules
+        as.mov(ID_REG, asmjit::x86::rsp);
+        as.and_(asmjit::x86::rsp, -16);
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.sub(asmjit::x86::rsp, 32);
 #endif
@@ -422,6 +427,7 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.add(asmjit::x86::rsp, 32);
 #endif
+        as.mov(asmjit::x86::rsp, ID_REG);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
@@ -441,6 +447,9 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
+        //The stack depth varies with the nesting of the rules
+        as.mov(ID_REG, asmjit::x86::rsp);
+        as.and_(asmjit::x86::rsp, -16);
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.sub(asmjit::x86::rsp, 32);
 #endif
@@ -449,6 +458,7 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.add(asmjit::x86::rsp, 32);
 #endif
+        as.mov(asmjit::x86::rsp, ID_REG);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
-- 
2.43.0


From 7033998680c30191f48d9f3b484580988eb05657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:40 +0000
Subject: [PATCH 20/24] fix: decisions after a terminal that ends in a loop

---
 src/core/CompositeATN.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index dbf6194..038fa61 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -129,6 +129,9 @@ private:
             m_nodes.emplace_back();
             m_nodes.back().import_transitions(nfa.get_state(i), offset);
         }
+        //Transitions to the alternatives must not get mixed up with those of the final state
+        if (!m_nodes.back().is_stop_node())
+            return add_node(CharClass<TCHAR>(), m_nodes.size() - 1, 0);
         return m_nodes.size() - 1;
     }
     int import_nonterminal(const Identifier& id, int origin, int tag)
-- 
2.43.0


From c5ff117d566bd0a9c12d826c34af1b3e6fb01941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 21/24] fix: closures of decisions on epsilon cycles end

---
 src/core/CompositeATN.cpp |  5 +++++
 src/core/Util.hpp         | 25 ++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 0f0564a..fa859bd 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -36,6 +36,9 @@ void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const AT
 
     //std::wcout << L"Exclusive " << path << L":" << color << std::endl;
 
+    if (!stack.enter(path))
+        return;
+
     if (node.is_stop_node())
     {
         //std::wcout << L"Stop node " << path << std::endl;
@@ -83,6 +86,8 @@ void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const AT
             }
         }
     }
+
+    stack.leave();
 }
 template<typename TCHAR>
 void CompositeATN<TCHAR>::build_closure_inclusive(CATNClosure& closure, const ATNPath& path, int color, ATNStateStack& stack, const PriorityChain& priority) const
diff --git a/src/core/Util.hpp b/src/core/Util.hpp
index d35c5df..77e3351 100644
--- a/src/core/Util.hpp
+++ b/src/core/Util.hpp
@@ -294,7 +294,30 @@ std::wostream& operator<<(std::wostream& os, const IndexVector& v);
 std::wostream& operator<<(std::wostream& os, const PriorityChainElement& e);
 std::wostream& operator<<(std::wostream& os, const PriorityChain& chain);
 
-using ATNStateStack = ATNPath;
+/*!
+ * @brief Call sites followed upward during the construction of a closure
+ */
+class ATNStateStack : public ATNPath
+{
+    std::vector<std::pair<ATNPath, int> > m_visiting;
+public:
+    /*!
+     * @brief Begin following the epsilon transitions from a node
+     * @return False if they are being followed already, i.e. on an epsilon cycle
+     */
+    bool enter(const ATNPath& path)
+    {
+        std::pair<ATNPath, int> key(path, depth());
+        if (std::find(m_visiting.cbegin(), m_visiting.cend(), key) != m_visiting.cend())
+            return false;
+        m_visiting.push_back(key);
+        return true;
+    }
+    void leave()
+    {
+        m_visiting.pop_back();
+    }
+};
 
 std::string readmbsfromfile(const char *filename);
 std::wstring readwcsfromfile(const char *filename);
-- 
2.43.0


From ff72e4687d34a00acacd85e41d5a7c2f70be5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:21 +0000
Subject: [PATCH 22/24] fix: give actions the text of long symbols and of
 wide-character inputs

---
 src/core/Context.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/Context.hpp b/src/core/Context.hpp
index 2f4e527..5358db8 100644
--- a/src/core/Context.hpp
+++ b/src/core/Context.hpp
@@ -32,20 +32,19 @@ public:
   }
   std::basic_string<TCHAR> read() const
   {
-    const TCHAR *p = reinterpret_cast<const TCHAR *>(context.m_window) + symbol.start;
-    return std::basic_string<TCHAR>(p, len());
+    return std::basic_string<TCHAR>(start(), len());
   }
   const TCHAR *start() const
   {
-    return reinterpret_cast<const TCHAR *>(context.m_window) + symbol.start;
+    return reinterpret_cast<const TCHAR *>(static_cast<const char *>(context.m_window) + symbol.start);
   }
   const TCHAR *end() const
   {
-    return reinterpret_cast<const TCHAR *>(context.m_window) + symbol.end;
+    return reinterpret_cast<const TCHAR *>(static_cast<const char *>(context.m_window) + symbol.end);
   }
-  int len() const
+  long len() const
   {
-    return symbol.end - symbol.start;
+    return (symbol.end - symbol.start) / (long)sizeof(TCHAR);
   }
   int count() const
   {
-- 
2.43.0


From 0f08a87cc7e216ef6e0a4130d74cb7f7f4f4e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:35 +0000
Subject: [PATCH 23/24] fix: accept right-recursive rules

---
 src/core/CompositeATN.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index fa859bd..72be709 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -18,9 +18,8 @@ void CompositeATN<TCHAR>::build_wildcard_closure(CATNClosure& closure, const Ide
             {
                 if (stack.count(p.first, i) >= 2)
                 {
-                    //std::cout << "Upward sentinel reached." << std::endl;
-                    throw SimpleException("Upward sentinel reached.");
-                    //continue;
+                    // Right recursion: what follows here is already being collected
+                    continue;
                 }
                 stack.push(p.first, i);
                 build_closure_exclusive(closure, ATNPath(p.first, i), color, stack, priority);
@@ -120,9 +119,8 @@ void CompositeATN<TCHAR>::build_wildcard_departure_set(CATNDepartureSetFactory<T
             {
                 if (stack.count(p.first, i) >= 2)
                 {
-                    //std::cout << "Upward sentinel reached." << std::endl;
-                    throw SimpleException("Upward sentinel reached.");
-                    //continue;
+                    // Right recursion: what follows here is already being collected
+                    continue;
                 }
                 stack.push(p.first, i);
                 build_departure_set_r(deptset_factory, ATNPath(p.first, i), color, priority, stack);
-- 
2.43.0


From 3750300a6a5150d41081c34d8ca7f521224c5968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:26 +0000
Subject: [PATCH 24/24] fix: parses of the Python binding may follow one
 another and workers may be restarted

---
 src/python/centaurus/context.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index f4b1d04..5a6ef99 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -21,6 +21,8 @@ class Stage1Worker(object):
         if sys.platform.startswith('linux') and self.core_affinity >= 0:
             os.system("taskset -p -c %d %d" % (self.core_affinity, os.getpid()))
     def stop(self):
+        self.wait()
+    def wait(self):
         if self.runner:
             self.runner.wait()
             self.runner = None
@@ -34,17 +36,19 @@ class SubprocessWorker:
     def __init__(self, context, core_affinity=-1):
         self.context = context
         self.master_pid = os.getpid()
-        self.proc = mp.Process(target=self.workloop)
-        self.cmd_queue = mp.Queue()
+        self.cmd_queue = mp.JoinableQueue()
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
+        self.proc = mp.Process(target=self.workloop)
         self.proc.start()
     def stop(self):
         self.cmd_queue.put(('stop', None))
         self.proc.join()
     def parse(self, path):
         self.cmd_queue.put(('parse', path))
+    def wait(self):
+        self.cmd_queue.join()
     def attach(self, listener):
         self.listener = listener
     def set_core_affinity(self, core_affinity):
@@ -58,10 +62,13 @@ class SubprocessWorker:
         self.logger.setLevel(logging.DEBUG)
         while True:
             cmd, arg =  self.cmd_queue.get()
-            if cmd == 'stop':
-                break
-            elif cmd == 'parse':
-                self.parse_impl(arg)
+            try:
+                if cmd == 'stop':
+                    break
+                elif cmd == 'parse':
+                    self.parse_impl(arg)
+            finally:
+                self.cmd_queue.task_done()
 
 class Stage2Worker(SubprocessWorker):
     def parse_impl(self, path):
@@ -97,7 +104,11 @@ class Context(object):
     def parse(self, path):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.parse(path)
-        return self.drain.get()
+        result = self.drain.get()
+        # The next parse sets up the shared memory anew: nobody may still be working on this one
+        for w in itertools.chain(self.parallel_workers, reversed(self.serial_workers)):
+            w.wait()
+        return result
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.stop()
-- 
2.43.0

