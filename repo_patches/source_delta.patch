From 822456e5d7eb22c02230cf37ef85cf4c40203dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:17 +0000
Subject: [PATCH 01/11] fix: FdTable::is_valid_string reports blocked flag
 diacritics, find_diacritic finds them

---
 libhfst/src/HfstFlagDiacritics.cc | 14 +++++++-------
 libhfst/src/HfstFlagDiacritics.h  |  9 +++++----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/libhfst/src/HfstFlagDiacritics.cc b/libhfst/src/HfstFlagDiacritics.cc
index 6a5efcd..789657a 100644
--- a/libhfst/src/HfstFlagDiacritics.cc
+++ b/libhfst/src/HfstFlagDiacritics.cc
@@ -130,17 +130,17 @@ std::string::size_type FdOperation::find_diacritic
  std::string::size_type& length)
 {
   std::string::size_type start = diacritic_str.find('@');
-  if(start != std::string::npos)
+  while(start != std::string::npos)
   {
     std::string::size_type end = diacritic_str.find('@', start+1);
-    if(end != std::string::npos)
+    if(end == std::string::npos)
+      break;
+    if(is_diacritic(diacritic_str.substr(start, end-start+1)))
     {
-      if(is_diacritic(diacritic_str.substr(start, end-start)))
-      {
-        length = end-start;
-        return start;
-      }
+      length = end-start+1;
+      return start;
     }
+    start = end;
   }
   return std::string::npos;
 
diff --git a/libhfst/src/HfstFlagDiacritics.h b/libhfst/src/HfstFlagDiacritics.h
index fe31400..5ae637f 100644
--- a/libhfst/src/HfstFlagDiacritics.h
+++ b/libhfst/src/HfstFlagDiacritics.h
@@ -169,7 +169,7 @@ public:
             for(size_t i=0; i<symbols.size(); i++)
             {
                 if(!state.apply_operation(symbols[i]))
-                    break;
+                    return false;
             }
             return !state.fails();
         }
@@ -187,10 +187,11 @@ public:
                 if(next_diacritic_pos == std::string::npos)
                     break;
         
-                std::string diacritic = remaining.substr(0, length);
+                std::string diacritic
+                  = remaining.substr(next_diacritic_pos, length);
                 if(!state.apply_operation(diacritic))
-                    break;
-                remaining = remaining.substr(length);
+                    return false;
+                remaining = remaining.substr(next_diacritic_pos + length);
             }
             return !state.fails();
         }
-- 
2.43.0


From a6a3e5e9bfff706aa28f89e2da4b77531f9ac1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:17 +0000
Subject: [PATCH 02/11] fix: xfst obeys flag diacritics: nonempty require,
 positive set after negative set, clear

---
 libhfst/src/parsers/XfstCompiler.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 52b364a..f22cfe2 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -517,6 +517,7 @@ is_valid_string(const StringVector &sv)
             {
             case 'P': // positive set
                 values[feat] = val;
+                negative_values.erase(feat);
                 break;
             case 'N': // negative set
                 values[feat] = val;
@@ -529,12 +530,12 @@ is_valid_string(const StringVector &sv)
                     {
                         return false;
                     }
-                    else
-                    { // nonempty require
-                        if (is_negatively_set || (values[feat] != val))
-                        {
-                            return false;
-                        }
+                }
+                else
+                { // nonempty require
+                    if (is_negatively_set || (values[feat] != val))
+                    {
+                        return false;
                     }
                 }
                 break;
@@ -556,6 +557,7 @@ is_valid_string(const StringVector &sv)
                 break;
             case 'C': // clear
                 values[feat] = "";
+                negative_values.erase(feat);
                 break;
             case 'U':                       // unification
                 if (values[feat].empty() || /* if the feature is unset or */
@@ -571,6 +573,7 @@ is_valid_string(const StringVector &sv)
                 )
                 {
                     values[feat] = val;
+                    negative_values.erase(feat);
                 }
                 else
                 {
-- 
2.43.0


From 1f4af680bd1006b5717623d794790ae4bd895b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:28 +0000
Subject: [PATCH 03/11] fix: SpaceSavingSet::insert does not dereference the
 end iterator

---
 .../compose_intersect/ComposeIntersectUtilities.h              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h b/libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h
index fbf2d79..8c66b4e 100644
--- a/libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h
+++ b/libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h
@@ -54,8 +54,7 @@ namespace hfst
       void insert(const X &x)
       {
         iterator least_upper_bound = get_least_upper_bound(x);
-        const X &new_x = *least_upper_bound;
-        if (least_upper_bound == end() || !(x == new_x))
+        if (least_upper_bound == end() || !(x == *least_upper_bound))
           { add_value(x,least_upper_bound); }
       }
 
-- 
2.43.0


From 1a755b61bfae28ba3e63c5bfc5fd56a0690a3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:57 +0000
Subject: [PATCH 04/11] fix: MultiCharSymbolTrie has room for all 256 byte
 values

---
 libhfst/src/HfstTokenizer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstTokenizer.cc b/libhfst/src/HfstTokenizer.cc
index c80e07b..43d6eea 100644
--- a/libhfst/src/HfstTokenizer.cc
+++ b/libhfst/src/HfstTokenizer.cc
@@ -62,8 +62,8 @@ MultiCharSymbolTrie::get_symbol_rest_trie(const char *p) const
 }
 
 MultiCharSymbolTrie::MultiCharSymbolTrie(void)
-    : symbol_rests(UCHAR_MAX, (MultiCharSymbolTrie *)NULL),
-      is_leaf(UCHAR_MAX, false)
+    : symbol_rests(UCHAR_MAX + 1, (MultiCharSymbolTrie *)NULL),
+      is_leaf(UCHAR_MAX + 1, false)
 {
 }
 
-- 
2.43.0


From ab6d94cfb76e9ac4c2a541b20a3cf6230492ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 05/11] fix: swap_state_numbers keeps both states final when
 both are final

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 428312b..5435d6a 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -693,13 +693,13 @@ HfstBasicTransducer::swap_state_numbers(HfstState s1, HfstState s2)
         final_weight_map[s1] = s2_it->second;
         final_weight_map[s2] = s1_weight;
     }
-    if (s1_it != end_it)
+    else if (s1_it != end_it)
     {
         HfstTropicalTransducerTransitionData::WeightType w = s1_it->second;
         final_weight_map.erase(s1);
         final_weight_map[s2] = w;
     }
-    if (s2_it != end_it)
+    else if (s2_it != end_it)
     {
         HfstTropicalTransducerTransitionData::WeightType w = s2_it->second;
         final_weight_map.erase(s2);
-- 
2.43.0


From 21f6043409a5e1179314e56a3cf2a91dd75d10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 06/11] fix: TransducerHeader::set_flag stored true whatever
 value it was given

---
 .../optimized-lookup/transducer.h             | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.h b/libhfst/src/implementations/optimized-lookup/transducer.h
index 0df910f..f585497 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.h
+++ b/libhfst/src/implementations/optimized-lookup/transducer.h
@@ -282,34 +282,33 @@ public:
   
     void set_flag(HeaderFlag flag, bool value)
         {
-          (void)value;
             switch (flag) {
             case Weighted:
-                weighted = true;
+                weighted = value;
                 break;
             case Deterministic:
-                deterministic = true;
+                deterministic = value;
                 break;
             case Input_deterministic:
-                input_deterministic = true;
+                input_deterministic = value;
                 break;
             case Minimized:
-                minimized = true;
+                minimized = value;
                 break;
             case Cyclic:
-                cyclic = true;
+                cyclic = value;
                 break;
             case Has_epsilon_epsilon_transitions:
-                has_epsilon_epsilon_transitions = true;
+                has_epsilon_epsilon_transitions = value;
                 break;
             case Has_input_epsilon_transitions:
-                has_input_epsilon_transitions = true;
+                has_input_epsilon_transitions = value;
                 break;
             case Has_input_epsilon_cycles:
-                has_input_epsilon_cycles = true;
+                has_input_epsilon_cycles = value;
                 break;
             case Has_unweighted_input_epsilon_cycles:
-                has_unweighted_input_epsilon_cycles = true;
+                has_unweighted_input_epsilon_cycles = value;
             default:
                 return;
             }
-- 
2.43.0


From 3af1c8f37361d82af108cafaeae2b72e80363b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 07/11] fix: find_index read past the index table for symbols
 that are not input symbols

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 7919015..bb4c60e 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -563,6 +563,11 @@ void Transducer::find_index(SymbolNumber input,
                             unsigned int output_pos,
                             TransitionTableIndex i)
 {
+    if (input >= header->input_symbol_count())
+    {
+        // not an input symbol, the index table has no entry for it
+        return;
+    }
     if (tables->get_index_input(i+input) == input)
     {
         find_transitions(input,
-- 
2.43.0


From 6c974e6d71f3c1cd7ce5bb304354d0733fbaa787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:04 +0000
Subject: [PATCH 08/11] fix: get_transitions_from_state read past the index
 table for symbols that are not input symbols

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index bb4c60e..b8e90a2 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -924,7 +924,9 @@ TransitionTableIndexSet Transducer::get_transitions_from_state(
                     }
                     ++transition_i;
                 }
-            } else { // not a flag
+            } else if (symbol < header->input_symbol_count()) {
+                // not a flag (the index table has no entries for symbols
+                // that are not input symbols)
                 const TransitionIndex& test_transition_index =
                     get_index(state_index+1+symbol);
                 if(test_transition_index.matches(symbol)) {
-- 
2.43.0


From ba104fcbef063e67b941659a648f14992b649e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 09/11] fix: HfstBasicTransducer::remove_transitions skipped
 the transition after each removed one

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 5435d6a..b523948 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2077,11 +2077,12 @@ HfstBasicTransducer::remove_transitions(const HfstSymbolPair &sp)
     for (auto &it : *this)
     {
         // Go through all transitions of the current state
-        for (unsigned int i = 0; i < it.size(); i++)
+        for (unsigned int i = 0; i < it.size();)
         {
             HfstBasicTransition &tr_it = it.operator[](i);
 
-            // If a match was found, remove the transition:
+            // If a match was found, remove the transition
+            // (the next one then takes its place):
             unsigned int in_tr = tr_it.get_input_number();
             unsigned int out_tr = tr_it.get_output_number();
             if (in_tr == in_match && out_tr == out_match)
@@ -2090,6 +2091,7 @@ HfstBasicTransducer::remove_transitions(const HfstSymbolPair &sp)
             }
             else
             {
+                i++;
                 if (in_tr == in_match || out_tr == in_match)
                 {
                     in_match_used = true;
-- 
2.43.0


From 305a6047398c166f5b4e62373fcdf2a912c9145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 10/11] fix: substituting a symbol pair by a set duplicated the
 transition of the first pair

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index b523948..6b84616 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2166,6 +2166,7 @@ HfstBasicTransducer::substitute_(const HfstSymbolPair &old_sp,
 
                 // and schedule the rest of the substituting transitions
                 // in new_sps to be added to the current state.
+                IT++;
                 while (IT != new_sps.end())
                 {
                     HfstBasicTransition TR(
@@ -2270,6 +2271,7 @@ HfstBasicTransducer::substitute_(bool (*func)(const HfstSymbolPair &sp,
 
                 // and schedule the rest of the elements in new_sps
                 // to be added to this state.
+                IT++;
                 while (IT != substituting_transitions.end())
                 {
 
-- 
2.43.0


From 20f58bee74045400fc97ac30f60c8571e54fe26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 11/11] fix: substituting a symbol pair by a graph erased
 through invalidated iterators

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 6b84616..9b76ede 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2532,7 +2532,7 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
     {
 
         // The transitions that are substituted, i.e. removed
-        std::vector<HfstBasicTransitions::iterator> old_transitions;
+        std::stack<HfstBasicTransitions::iterator> old_transitions;
 
         // Go through all transitions
         for (HfstBasicTransitions::iterator tr_it = it.begin();
@@ -2550,16 +2550,17 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
                     source_state, tr_it->get_target_state(), data.get_weight(),
                     const_cast<HfstBasicTransducer *>(&graph)));
                 // schedule the old transition to be deleted
-                old_transitions.push_back(tr_it);
+                old_transitions.push(tr_it);
             }
             // (one transition gone through)
         }
         // (all transitions in a state gone through)
 
         // Remove the substituted transitions
-        for (auto &old_transition : old_transitions)
+        while (!old_transitions.empty())
         {
-            it.erase(old_transition);
+            it.erase(old_transitions.top());
+            old_transitions.pop();
         }
 
         source_state++;
-- 
2.43.0

